#!/usr/bin/env python3
"""Reports: every short text over the characters that matter in every kind of
cell, every shape of row, and random trees."""
import hashlib
import itertools
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
from common import _env
import batch
import cli
import id3
from rows import parse

INV = ["Same", "Faithful", "EachOnce", "Out"]
IDS = [("artist", "TPE1"), ("title", "TIT2"), ("album", "TALB"), ("genre", "TCON"), ("encoded", "TENC"), ("year", "TYER"),
       ("lang", "TLAN")]
AUDIO = [b"", b"\xff\xfb\x90\x64" + bytes(i * 7 % 251 for i in range(413)), b"abc" * 700]


def real(s):
    return s.replace("`", "é").replace("^", "Ω").replace("\f", "\x1f")


def file_bytes(f, enc, rng):
    audio = rng.choice(AUDIO)
    out = b""
    if f["v2"]:
        t = f["v2"][0]
        ver = t["ver"]
        fs = []
        for k, i in IDS:
            if t[k] or rng.random() < .1:
                fs.append(id3.frame(cli.ID2.get(i, i[:3]) if ver == 2 else i, cli.text_data(ver, real(t[k]), rng)))
        rng.shuffle(fs)
        for n in t["counts"]:
            fs.append(id3.frame("CNT" if ver == 2 else "PCNT", n.to_bytes(4, "big")))
        for s in t["comments"]:
            d = cli.text_data(ver, real(s), rng)
            desc = {0: b"d,\"\0", 1: b"\xff\xfed\0\0\0", 3: b"d\0"}[d[0]]
            fs.append(id3.frame("COM" if ver == 2 else "COMM", d[:1] + b"eng" + desc + d[1:]))
        out = id3.encode(id3.tag(ver, fs or [id3.frame("TP2" if ver == 2 else "TPE2", b"\0x")], rng.choice([0, 20])))
    size2 = len(out)
    out += audio
    if f["v1"]:
        t = f["v1"][0]

        def part(s, n):
            b = real(s).encode(enc)
            assert len(b) <= n
            return b.ljust(n, b"\0")
        com = part(t["comment"], 28) + bytes([0, 5]) if t["track"] else part(t["comment"], 30)
        if t["ext"]:
            out += b"TAG+" + bytes(180) + b"\1" + b"g".ljust(30, b"\0") + b"000:00000:00"
        out += b"TAG" + part(t["title"], 30) + part(t["artist"], 30) + part(t["album"], 30) + part(t["year"], 4) + com + bytes([t["genre"]])
    return out, audio, size2


def run():
    c = Check("C09")
    exe = B.build(("cli",))["cli"]
    root = scratch_dir()
    ts = []
    for spec, n in (("SmallSpec", None), ("ShapeSpec", None), ("RandSpec", 9000 if c.thorough else 1300)):
        ts += c.model("Report", spec=spec, invariants=INV, simulate=n, depth=12).traces
    seen = {}
    for t in ts:
        seen.setdefault(repr([t["files"], t["args"], t["ncomm"], t["fmt"], t["nodir"]]), t)
    ts = list(seen.values())
    serial = itertools.count()

    def one(a):
        i, t = a
        rng = random.Random("%d/%d" % (c.seed, i))
        d = os.path.join(root, "t%d" % next(serial))
        enc = rng.choice(["cp1252", "cp1252", "latin-1", "utf-8"])
        data, info = {}, {}
        try:
            for x in ("d/e", "x, \"y\" "):
                os.makedirs(os.path.join(d, "w", x))
            for f in t["files"]:
                p = real(f["path"])
                if f["f"]["bad"]:
                    data[p] = rng.choice(batch.MALFORMED)
                else:
                    data[p], audio, n = file_bytes(f["f"], enc, rng)
                    info[p] = {"#mb": "%.3f" % (len(data[p]) / 1048576), "#size": str(len(audio)), "#md5": hashlib.md5(audio).hexdigest()}
                with open(os.path.join(d, "w", p), "wb") as o:
                    o.write(data[p])
            opts = [["-o", os.path.join(d, "out")]]
            if t["ncomm"] != 6 or rng.random() < .5:
                opts.append(["-c", str(t["ncomm"])])
            opts += [["-t"]] * (t["fmt"] != "csv") + [["-a"]] * (t["fmt"] == "ascii") + [["-d"]] * t["nodir"] + [["-S"]] * (rng.random() < .3)
            if enc != "cp1252" or rng.random() < .3:
                opts.append(["-1", {"latin-1": "ISO-8859-1", "utf-8": "UTF-8", "cp1252": "CP1252"}[enc]])
            rng.shuffle(opts)
            args = [real(x) for x in t["args"]]
            if rng.random() < .2:
                args = [os.path.join(d, "w", x) for x in args]
            full = rng.random() < .03
            if full:
                opts = [["-o", rng.choice(["/dev/full", os.path.join(d, "no/out")])] if x[0] == "-o" else x for x in opts]
            argv = ["report"] + [y for x in opts for y in x] + args
            p = subprocess.run([exe] + argv, cwd=os.path.join(d, "w"), env=_env(), timeout=60, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            err = p.stderr.decode(errors="replace")
            out = ""
            if os.path.exists(os.path.join(d, "out")):
                with open(os.path.join(d, "out"), "rb") as o:
                    out = o.read().decode(errors="surrogateescape")
        finally:
            shutil.rmtree(d, ignore_errors=True)
        rep = dict(trace=t, argv=argv, files={n: b.hex() for n, b in data.items()}, out=out, err=err, code=p.returncode)
        if p.returncode < 0:
            return "%s: killed by signal %d" % (argv, -p.returncode), rep
        if full:
            return None if p.returncode else ("%s: success though the report cannot be written" % argv, rep)
        rows = parse(t["fmt"], out)
        if rows is None:
            return "%s: cannot be parsed: %r" % (argv, out), rep
        if any(len(r) != t["columns"] for r in rows):
            return "%s: rows of %s columns, not %d: %r" % (argv, [len(r) for r in rows], t["columns"], out), rep
        missing = [x for x in t["args"] if not os.path.splitext(x)[1] == "" and x not in [f["path"] for f in t["files"]]
                   and x not in ("d", "d/e", "x, \"y\" ")]
        for x in [real(x) for x in t["failed"]] + missing:
            if os.path.basename(x).replace("\\", "").replace('"', "") not in err.replace("\\", "").replace('"', ""):
                return "%s: %s not reported: %s" % (argv, x, err), rep
        if (p.returncode != 0) != bool(t["failed"] or missing):
            return "%s: exit status %d: %s" % (argv, p.returncode, err), rep
        rows = rows[1:]
        for g in t["groups"]:
            mine, rows = rows[:len(g)], rows[len(g):]
            left = list(g)
            for r in mine:
                why = None
                for w in left:
                    v2 = [f["f"]["v2"] for f in t["files"] if f["path"] == w["path"]][0]
                    why = differ(t, w, r, info[real(w["path"])], os.path.join(d, "w"), v2 and v2[0]["ver"] == 2)
                    if why is None:
                        left.remove(w)
                        break
                else:
                    return "%s: row %r: %s" % (argv, r, why or "nothing left to report on"), rep
            if left:
                return "%s: no row for %s" % (argv, left[0]["path"]), rep
        if rows:
            return "%s: too many rows: %r" % (argv, rows), rep
        return None

    def differ(t, w, r, info, base, v22):
        for j, (x, y) in enumerate(zip(w["row"], r)):
            name = j == (0 if t["nodir"] else 1)
            if name and t["fmt"] != "csv" and len(y) > 1 and y[0] == y[-1] == '"':
                y = y[1:-1]
            if x.startswith("#dir "):
                if t["fmt"] != "csv" and len(y) > 1 and y[0] == y[-1] == '"':
                    y = y[1:-1]
                ok = os.path.normpath(y) == os.path.normpath(os.path.join(base, real(x[5:])))
            elif x in ("#id3size", "#flags", "#unsync"):
                ok = y != ""
            elif x in info and j != (0 if t["nodir"] else 1) and not (x == "#size" and j < t["columns"] - 10 or x == "#size" and j > t["columns"] - 9):
                ok = info[x] == y
            else:
                ok = real(x) == y
            if not ok and v22 and j == 12 + (not t["nodir"]) and y == "":
                c.violation("no year", w, "v22-year")
                ok = ("v22-year" in [k for k, _ in c.known])
            if not ok:
                return "column %d is %r, not %r" % (j, y, info.get(x, real(x)))
        return None
    for t, v in zip(ts, pmap(one, list(enumerate(ts)))):
        c.ran({"args": t["args"], "format": t["fmt"], "files": len(t["files"])}, 1)
        if v:
            c.violation(*v)
    shutil.rmtree(root, ignore_errors=True)
    return c.finish()


main(run)
