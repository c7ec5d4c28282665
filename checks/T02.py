#!/usr/bin/env python3
"""Durations: every frame header, every variable bit rate header, random streams."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
from common import _env

INV = ["WalkFinds", "HeadersParse", "SizesPositive", "Out"]
FILL = bytes((i * 7 + 3) % 251 for i in range(2000)) + b"\xff\xfb\x90\x00" * 3 + b"\xff" * 5 + b"Xing VBRI Info"
BAD = [b"\xff" * 40, b"\xff\xfb\x00\x00" + bytes(60), b"\xff\xfb\xf0\x00" + bytes(60), b"\xff\xfb\x9c\x00" + bytes(60),
       b"\xff\xfd\x90\x00" + bytes(60), b"\xff\xeb\x90\x00" + bytes(60), b"\xff\xf9\x90\x00" + bytes(60)]


def vbr_bytes(x, rng, total):
    be = lambda n, k: n.to_bytes(k, "big")
    if x["kind"] == "VBRI":
        return b"VBRI" + be(rng.choice([1, 1, 0, 2, 256]), 2) + be(0x6f1, 2) + be(rng.choice([0, 50, 100]), 2) + be(total, 4) + be(x["n"], 4) + \
            be(x["toc"], 2) + be(1, 2) + be(x["tocsize"], 2) + be(1, 2) + rng.randbytes(x["toc"] * x["tocsize"])
    fl = x["flags"]
    out = (b"Info" if x["kind"] == "Info" else b"Xing") + be(fl, 4)
    if fl & 1:
        out += be(x["n"], 4)
    if fl & 2:
        out += be(total, 4)
    if fl & 4:
        out += bytes(i * 255 // 99 for i in range(100))
    if fl & 8:
        out += be(57, 4)
    return out + (rng.choice([b"LAME3.100", b"L3.99r1\0\0"]) + rng.randbytes(27) if x["lame"] else b"\0\0\0\0")


def build(t, rng):
    s = t["stream"]
    out = b""
    total = sum(f["size"] for f in s["frames"])
    for i, f in enumerate(s["frames"]):
        n = f["size"] - 4
        k = rng.randrange(len(FILL))
        body = (FILL[k:] + FILL * 2)[:n]
        # neither checksum, nor side information, nor what follows
        m = min(n, 52)
        body = bytes(m) + body[m:]
        if i == 0 and t["at"]:
            v = vbr_bytes(s["vbr"], rng, total)
            body = bytes(t["at"] - 4) + v + bytes(n)
            body = body[:n]
        out += bytes(f["hdr"]) + body
    lead = bytes(b for b in FILL * 2 if b != 255)[rng.randrange(50):][:s["lead"]]
    tail = {"none": b"", "id3v1": b"TAG" + bytes(125), "zeros": bytes(rng.choice([1, 2, 3, 4, 500])),
            "text": b"APETAGEX and more of it",
            "part": (b"\xff\xfb\x90\x00" + bytes(413))[:rng.choice([4, 5, 36, 37, 40, 200, 416])],
            "bad": rng.choice(BAD)}[s["tail"]]
    return lead + out + tail


def run():
    c = Check("T02")
    tools = B.build(("driver", "cli"))
    drv, exe = tools["driver"], tools["cli"]
    root = scratch_dir()
    ts = []
    for spec, n in (("HeaderSpec", None), ("VbrSpec", None), ("RandSpec", 20000 if c.thorough else 4000)):
        ts += c.model("Mpeg", spec=spec, invariants=INV, simulate=n, depth=50).traces
    seen = {}
    for t in ts:
        seen.setdefault(repr(t), t)
    ts = list(seen.values())
    jobs = []
    for i, t in enumerate(ts):
        rng = random.Random("%d/%d" % (c.seed, i))
        b = build(t, rng)
        front = rng.choice([b"", b"", b"anything\xff\xfb\x90\x00 at all"])
        jobs.append((t, b, front, ["dur %s %d" % (hx(front + b), len(front)), "trk %s %d %d" % (hx(front + b), len(front), i % 2)]))
    obs = replay(drv, [j[3] for j in jobs])

    def secs(a):
        return sum(x["n"] * x["k"] / x["d"] for x in a)

    def fits(t, x):
        """x: reported number of seconds, or None"""
        if x is None or isinstance(x, str) or x <= 0:
            return t["unknown"] or (x == 0 and any(secs(a) == 0 for a in t["allowed"]))
        return any(abs(secs(a) - x) <= 1e-9 * max(1, x) for a in t["allowed"])

    for (t, b, front, cmds), o in zip(jobs, obs):
        c.ran({"audio": len(b), "stream": {k: v for k, v in t["stream"].items() if k != "frames"},
               "headers": [bytes(f["hdr"]).hex() for f in t["stream"]["frames"]][:8], "allowed": t["allowed"]}, 2)
        rep = {"commands": cmds, "observed": o, "model": t}
        if len(o) < 2:
            c.violation("crash: %s" % (o[-1:],), rep)
            continue
        bad = [x for x in (o[0].get("secs"), o[1].get("secs")) if not fits(t, x)]
        if bad:
            c.violation("reported %r seconds, allowed %r%s" % (bad, [secs(a) for a in t["allowed"]],
                                                              " or unknown" if t["unknown"] else ""), rep)

    # and what playlists say, rounded
    pick = [j for i, j in enumerate(jobs) if i % (4 if c.thorough else 16) == c.seed % 4]

    def one(a):
        i, (t, b, _, _) = a
        f = os.path.join(root, "f%d.mp3" % i)
        with open(f, "wb") as o:
            o.write((b"ID3\3\0\0\0\0\0\x15TPE1\0\0\0\6\0\0\0abcde" + bytes(5) if i % 2 else b"") + b)
        p = subprocess.run([exe, "m3u", f], env=_env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        os.unlink(f)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    for (t, b, _, cmds), (rc, out, err) in zip(pick, pmap(one, list(enumerate(pick)))):
        c.ran({"playlist of": len(b)}, 1)
        rep = {"audio": b.hex(), "model": t, "status": rc, "stdout": out, "stderr": err}
        line = out.split("\n")[0]
        if rc != 0 or not line.startswith("#EXTINF:"):
            if not (t["unknown"] and rc == 1):
                c.violation("no playlist entry", rep)
            continue
        try:
            n = int(line[8:].split(",")[0])
        except ValueError:
            c.violation("duration %r" % line, rep)
            continue
        if not (any(abs(n - secs(a)) <= 0.5 + 1e-6 for a in t["allowed"]) or (t["unknown"] and n <= 0)):
            c.violation("playlist says %d seconds, allowed %r" % (n, [secs(a) for a in t["allowed"]]), rep)
    return c.finish()


main(run)
