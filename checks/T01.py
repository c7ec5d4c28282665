#!/usr/bin/env python3
"""Fingerprints: the same audio with every combination of tags around it, in
everything that reports its size or digest."""
import csv
import hashlib
import os
import random
import re
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
from common import _env
import id3

BUF = 4 * 1024 * 1024
MIX = bytes((i * i * 7 + i // 3) % 251 for i in range(4099))
PIECE = {"x": b"x", "frames": (b"\xff\xfb\x90\x64" + bytes(413)) * 3, "text": b"some text " * 23, "tags": b"TAG+TAG" * 40,
         "id3": b"..ID3\3\0\0\0\0\0\x10TIT2\0\0\0\2\0\0\0a" + bytes(9), "3di": b"3DI\4\0\x10\0\0\0\x0a" + bytes(3), "zeros": bytes(600),
         "ff": b"\xff" * 300, "nearly": b"TAG" + b"t" * 126,
         "buf": (MIX * 1024)[:BUF], "buf-1": (MIX * 1024)[:BUF - 1], "buf+1": (MIX * 1024)[:BUF + 1]}


def lead_bytes(k, rng):
    f = id3.frame("TT2" if k == "22" else "TIT2", b"\0title \xff\xfb\x90 of " + bytes([rng.randrange(65, 90)]))
    if k == "22":
        return id3.encode(id3.tag(2, [f], rng.choice([0, 7])))
    if k == "23":
        return id3.encode(id3.tag(3, [f]))
    if k == "23pad":
        return id3.encode(id3.tag(3, [f], rng.choice([1, 10, 1024])))
    if k == "24tag":         # which ends like an ID3v1 tag
        return id3.encode(id3.tag(4, [f, id3.frame("PRIV", b"me\0TAG+" + b"e" * 223 + b"TAG" + b"t" * 125)]))
    if k == "23unsync":
        return id3.encode(id3.tag(3, [f]), True)
    if k == "24":
        return id3.encode(id3.tag(4, [f], rng.choice([0, 300])))
    return id3.encode(id3.tag(4, [f], foot=True))


def trail_bytes(k, rng):
    if k == "none":
        return b""
    v1 = b"TAG" + b"title".ljust(30, b"\0") + b"artist".ljust(60, b" ") + b"1999" + \
        (b"comment".ljust(28, b"\0") + bytes([0, 3]) if k == "v11" else b"c" * 30) + bytes([rng.randrange(100)])
    return (b"TAG+" + b"e" * 180 + b"\1" + b"g".ljust(30, b"\0") + b"000:00000:00" if k == "ext" else b"") + v1


def run():
    c = Check("T01")
    tools = B.build(("driver", "cli"))
    drv, exe = tools["driver"], tools["cli"]
    root = scratch_dir()
    ts = c.model("Fingerprint", spec="SmallSpec", invariants=["IsAudio", "Told", "OutSmall"], properties=["OnlyAudio"]).traces
    ts += c.model("Fingerprint", spec="RandSpec", invariants=["IsAudio", "OutRand"], simulate=4000 if c.thorough else 250, depth=12).traces
    states = {}
    for t in ts:
        for s in t:
            states.setdefault(repr(s), s)
    jobs = []
    for i, s in enumerate(states.values()):
        rng = random.Random("%d/%d" % (c.seed, i))
        audio = b"".join(PIECE[p] for p in s["audio"])
        lead = b"".join(lead_bytes(k, rng) for k in s["lead"])
        trail = trail_bytes(s["trail"], rng)
        # audio that nothing tells from a tag
        if not trail and audio[-128:-125] == b"TAG" or s["trail"] in ("v1", "v11") and audio[-227:-223] == b"TAG+":
            continue
        jobs.append((i, s, lead, audio, trail))

    def sh(d, *a):
        p = subprocess.run([exe] + list(a), cwd=d, env=_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        return p.returncode, p.stdout.decode(errors="replace")

    def some(part):
        cmds = []
        for i, s, lead, audio, trail in part:
            d = os.path.join(root, "t%d" % i)
            os.makedirs(d)
            f = os.path.join(d, "f.mp3")
            with open(f, "wb") as o:
                o.write(lead + audio + trail)
            cmds.append(["trkf %s %d" % (f, len(lead)), "tpl %s %s" % (hx(f.encode()), hx(b"%(md5:base=hex)"))])
            if len(audio) < 100000:
                cmds[-1].append("trk %s %d %d" % (hx(lead + audio + trail), len(lead), i % 2))
        res = []
        for job, cs, o in zip(part, cmds, replay(drv, cmds, jobs=1)):
            d = os.path.join(root, "t%d" % job[0])
            rep = {"commands": cs, "observed": o, "lead": job[2].hex(), "audio": job[3].hex() if len(job[3]) < 100000 else job[1]["audio"],
                   "trail": job[4].hex(), "model": job[1]}
            res.append(([("crash: %s" % (o[-1:],), None)] if len(o) < len(cs) else one(job, o, d), rep))
            shutil.rmtree(d, ignore_errors=True)
        return res

    def one(job, o, d):
        i, s, lead, audio, trail = job
        size, md5 = len(audio), hashlib.md5(audio).hexdigest()
        bad = []

        def see(what, n, m, key=None):
            if n not in (None, size) or m not in (None, md5):
                bad.append(("%s: %s bytes with digest %s, not %d with %s" % (what, n, m, size, md5), key))
        for x in [o[0]] + o[2:]:
            see("library", x.get("size", "no"), x.get("md5"))
        see("template", None, bytes.fromhex(o[1]).decode(errors="replace").lower() if isinstance(o[1], str) else o[1])
        rc, out = sh(d, "dump", "f.mp3")
        see("dump", None, (re.findall(r"\b[0-9a-f]{32}\b", out) or [out])[0])
        rc, out = sh(d, "dump", "-f", "csv", "f.mp3")
        if "%d,%s" % (size, md5) not in out:
            see("dump as csv", "no", out)
        rc, out = sh(d, "dump", "-f", "json", "f.mp3")
        see("dump as json", None, (re.findall(r'"md5":\s*"([0-9a-f]{32})"', out) or [out])[0])
        rc, out = sh(d, "report", "-o", "out.csv", "f.mp3")
        with open(os.path.join(d, "out.csv"), newline="", errors="replace") as x:
            cells = [y for row in csv.reader(x) for y in row]
        k = [j for j, y in enumerate(cells) if re.fullmatch(r"[0-9a-f]{32}", y)]
        if not k:
            see("report", "no", cells)
        else:
            # anything but the tags after the first being counted as audio is news
            rest = (lead[len(first_tag(lead)):] if lead else b"") + audio
            n, m = cells[k[0] - 1], cells[k[0]]
            known = len(s["lead"]) > 1 and n == str(len(rest)) and m == hashlib.md5(rest).hexdigest()
            see("report", int(n) if n.isdigit() else n, m, "later-tags-as-audio" if known else None)
        return bad

    parts = [jobs[i::max(8, len(jobs) // 40)] for i in range(max(8, len(jobs) // 40))]
    for part, res in zip(parts, pmap(some, parts)):
        for job, (bad, rep) in zip(part, res):
            c.ran({"state": job[1], "size": len(job[3])}, 7)
            for what, key in bad:
                c.violation(what, rep, key)
    return c.finish()


def first_tag(lead):
    """the first of the leading tags"""
    n = id3.from_ss(lead[6:10]) + 10 + (10 if lead[3] == 4 and lead[5] & 0x10 else 0)
    return lead[:n]


main(run)
