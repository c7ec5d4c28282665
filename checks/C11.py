#!/usr/bin/env python3
"""Playlists: every way a title is made up, every short history of a playlist
file, and random ones."""
import itertools
import os
import random
import re
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
from common import _env
import batch
import cli
import id3

INV = ["OneHeading", "KeptByAppend", "EachGiven", "Out"]
FRAME = b"\xff\xfb\x90\x64" + bytes(413)                    # 1152/44100 s
VBRI = b"\xff\xf3\xb9\xc0" + bytes(32) + b"VBRI\0\1\6\xf1\0\x32\0\0\x0f\x54\0\0\x27\x10\0\0\0\1\0\2\0\1" + bytes(442)
# bytes, allowed durations
AUDIO = {1: (b"", {0, -1}), 2: (FRAME * 58, {2}), 3: (FRAME * 20, {1}), 4: (FRAME * 19, {0}),
         5: (VBRI, {360}), 6: (b"no audio at all" * 9, {0, -1}), 7: (b"\xff\xfd\x90\0" + bytes(600), {0, -1}),
         8: (b"\xff\xe2\x90\0" + bytes(96) + b"\xff\xe2\0\0" + bytes(50), {0, -1}), 9: (FRAME * 230, {6})}
ENCS = [(None, "utf-8", "é"), (None, "utf-8", "Ω"), ("CP1252", "cp1252", "é"), ("ISO-8859-1", "latin-1", "é"), ("CP1251", "cp1251", "Я"),
        ("UTF-8", "utf-8", "Ж")]
OTHER = {"1": b"/some/other.mp3", "2": b"#EXTINF:12,Other \xe9 - one"}


def file_bytes(f, enc, rng, real):
    out = b""
    for t in f["v2"]:
        ver = rng.choice([2, 3, 4])
        fs = []
        for k, i in (("artist", "TPE1"), ("title", "TIT2")):
            if t[k] != "-":
                s = real(t[k])
                # with an encoding given, it's the encoding of all texts
                d = b"\0" + s.encode(enc[1]) if enc[0] else cli.text_data(ver, s, rng)
                fs.append(id3.frame(cli.ID2.get(i, i[:3]) if ver == 2 else i, d))
        fs.append(id3.frame("TP2" if ver == 2 else "TPE2", b"\0x"))
        rng.shuffle(fs)
        out += id3.encode(id3.tag(ver, fs, rng.choice([0, 20])))
    out += AUDIO[f["audio"]][0]
    for t in f["v1"]:
        part = lambda s, n: real(s).encode(enc[1]).ljust(n, b"\0")
        out += b"TAG" + part(t["title"], 30) + part(t["artist"], 30) + part("album", 30) + b"1999" + part("c", 30) + b"\x11"
    return out


def same_path(a, b):
    return os.path.isabs(a) == os.path.isabs(b) and os.path.normpath(a) == os.path.normpath(b)


def matches(titles, got, real):
    for s in titles:
        if re.fullmatch(r"[^\r\n]{0,2}".join(re.escape(x) for x in re.split(r"[\r\n]", real(s))), got):
            return True
    return False


def run():
    c = Check("C11")
    exe = B.build(("cli",))["cli"]
    root = scratch_dir()
    ts = []
    for spec, n in (("TitleSpec", None), ("SmallSpec", None), ("RandSpec", 9000 if c.thorough else 1400)):
        ts += c.model("Playlist", spec=spec, invariants=INV, properties=["Appends"] if n is None else [], simulate=n, depth=60).traces
    seen = {}
    for t in ts:
        # the order in which a directory's files are found is not for us to say
        for s in t["steps"][1:]:
            s.pop("list")
        seen.setdefault(repr(t), t)
    ts = list(seen.values())
    serial = itertools.count()

    def one(a):
        i, t = a
        rng = random.Random("%d/%d" % (c.seed, i))
        d = os.path.join(root, "t%d" % next(serial))
        w = os.path.join(d, "w")
        enc = rng.choice(ENCS)
        real = lambda s: s.replace("`", enc[2])
        os.makedirs(os.path.join(w, "d", "s"))
        files, runs = {}, []
        bad = None
        try:
            for f in t["files"]:
                p = real(f["path"])
                files[p] = f
                with open(os.path.join(w, p), "wb") as o:
                    o.write(rng.choice(batch.MALFORMED) if f["f"]["bad"] else file_bytes(f["f"], enc, rng, real))
            before = batch.snapshot(w)
            out = os.path.join(d, "list.m3u")
            content = None
            start = [b"#EXTM3U" if x["k"] == "head" else OTHER[x["p"]] for x in t["steps"][0]["list"]]
            if start or rng.random() < .3:
                nl = rng.choice([b"\n", b"\n", b"\n", b"\r\n"])
                content = b"".join(x + nl for x in start)
                if rng.random() < .3 and nl == b"\n":
                    content = content.rstrip(b"\n")
                with open(out, "wb") as o:
                    o.write(content)
            for s in t["steps"][1:]:
                opts = []
                if s["out"] != "stdout":
                    opts.append(["-o", out])
                    if rng.random() < .3:
                        opts.append(["-8"])
                if s["out"] == "append":
                    opts.append(["-a"])
                if enc[0]:
                    opts.append(["-s", enc[0]])
                if rng.random() < .2:
                    opts.append(["-e", rng.choice(["fail", "ignore", "transliterate"])])
                rng.shuffle(opts)
                pre = w + "/" if rng.random() < .2 else ""
                args = [pre + real(x) + ("/" if x in ("d", "d/s") and rng.random() < .2 else "") for x in s["args"]]
                full = s["out"] != "stdout" and rng.random() < .03
                if full:
                    opts = [["-o", rng.choice(["/dev/full", os.path.join(d, "no/out")])] if x[0] == "-o" else x for x in opts]
                argv = ["m3u"] + [y for x in opts for y in x] + args
                p = subprocess.run([exe] + argv, cwd=w, env=_env(), timeout=60, stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                now = None
                if os.path.exists(out):
                    with open(out, "rb") as o:
                        now = o.read()
                runs.append({"argv": argv, "status": p.returncode, "stdout": p.stdout.decode(errors="backslashreplace"),
                             "stderr": p.stderr.decode(errors="replace"), "was": repr(content), "is": repr(now)})
                if p.returncode < 0 or p.returncode > 2:
                    bad = "died with status %d" % p.returncode
                elif full:
                    # a directory that's empty leaves nothing but the heading to write
                    if p.returncode == 0:
                        bad = "a playlist that couldn't be written went unnoticed"
                    elif now != content:
                        bad = "something else was written"
                else:
                    bad = judge(s, p, content, now, files, real, pre)
                if bad:
                    break
                content = now
            if not bad and batch.snapshot(w) != before:
                bad = "the tracks were modified"
            data = {p: x[0].hex() for p, x in before.items() if x}
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return bad, {"files": data, "runs": runs, "model": t}

    def judge(s, p, was, now, files, real, pre):
        if s["out"] == "stdout":
            if now != was:
                return "a playlist was written that wasn't asked for"
            new = p.stdout
        else:
            if now is None:
                return "no playlist was written"
            new = now
            if s["out"] == "append" and was:
                if not now.startswith(was):
                    return "the playlist appended to isn't what it was"
                new = now[len(was):]
                if not was.endswith(b"\n") and new:
                    if new[:1] != b"\n":
                        return "a line of the playlist appended to was continued"
                    new = new[1:]
            elif s["out"] == "append" and not new.startswith(b"#EXTM3U\n"):
                pass            # nothing to append to: the heading is optional
            elif not new.startswith(b"#EXTM3U\n"):
                return "the heading is missing"
            else:
                new = new[8:]
            if p.stdout:
                return "output goes to standard output as well"
        if bool(p.returncode) != s["failed"]:
            return "status %d" % p.returncode
        if new and not new.endswith(b"\n"):
            return "the last line is incomplete"
        lines = new.decode(errors="backslashreplace").split("\n")[:-1]
        if len(lines) % 2:
            return "not a list of entries"
        entries = [(lines[k], lines[k + 1]) for k in range(0, len(lines), 2)]
        k = 0
        for g in s["groups"]:
            todo = {real(x) for x in g}
            while todo:
                hit = [x for x in todo if k < len(entries) and same_path(entries[k][1], pre + x)]
                if not hit:
                    if all(files[x]["f"]["bad"] for x in todo):
                        break               # these needn't be listed
                    return "entry %d is not one of %r" % (k + 1, sorted(todo))
                x = hit[0]
                todo.remove(x)
                m = re.fullmatch(r"#EXTINF:(-?\d+),(.*)", entries[k][0])
                k += 1
                if not m:
                    return "entry %d reads %r" % (k, entries[k - 1][0])
                if files[x]["f"]["bad"]:
                    continue
                if int(m[1]) not in AUDIO[files[x]["f"]["audio"]][1]:
                    return "%s: %s seconds" % (x, m[1])
                if not matches(files[x]["titles"], m[2], real):
                    return "%s: listed as %r, not %r" % (x, m[2], files[x]["titles"])
        if k < len(entries):
            return "unexpected entry %r" % (entries[k],)
        for x in s["args"]:
            if x == "gone" and "gone" not in p.stderr.decode(errors="replace"):
                return "a missing file goes unmentioned"

    for t, (bad, rep) in zip(ts, pmap(one, list(enumerate(ts)))):
        c.ran({"files": [f["path"] for f in t["files"]], "steps": [(s["args"], s["out"]) for s in t["steps"][1:]]}, len(rep["runs"]))
        if bad:
            c.violation(bad, rep)
    return c.finish()


main(run)
