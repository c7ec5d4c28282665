#!/usr/bin/env python3
"""Dumps: every kind of frame, every short text over the characters that matter
wherever text goes, every choice of parts, and random files, in each format."""
import hashlib
import itertools
import json
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
from common import _env
import batch
import cli
import id3
import rows
from genres import GENRES

INV = ["All", "Faithful", "Distinct", "Out"]
AUDIO = [b"", b"\xff\xfb\x90\x64" + bytes(i * 7 % 251 for i in range(413)), b"abc" * 700]


def real(s):
    return s.replace("`", "é").replace("^", "Ω").replace("~", "\x01")


def number(n):
    n = int(n)
    return n.to_bytes(max(4, (n.bit_length() + 7) // 8), "big")


def value(ver, v, rng, n):
    k = v["k"]
    if k == "text":
        return cli.text_data(ver, real(v["t"]), rng)
    if k in ("comm", "udt"):
        d, t = real(v["dsc"]), real(v["t"])
        e = cli.text_data(ver, d + t, rng)[0]
        return bytes([e]) + (b"eng" if k == "comm" else b"") + cli.put_text(e, d)[1:] + \
            (b"\0\0" if e in (1, 2) else b"\0") + cli.put_text(e, t)[1:]
    if k == "pcnt":
        return number(v["n"])
    if k == "popm":
        return v["o"].encode() + b"\0" + bytes([v["r"]]) + number(v["n"])
    if k == "xtag":
        return b"\1" + v["o"].encode() + b"\0" + b"".join(
            real(x).encode() + b"\0" + len(y).to_bytes(4, "big") + y for x, y in
            ((x, b"".join(real(z).encode() + b"\0" for z in vs)) for x, vs in v["m"]))
    if k == "ufid":
        return v["o"].encode() + b"\0" + bytes(range(rng.randrange(1, 40)))
    if k == "encr":
        return v["o"].encode() + b"\0" + bytes([0x80 + n]) + bytes(range(rng.randrange(0, 5)))
    if k == "priv":
        return v["o"].encode() + b"\0" + bytes(range(rng.choice([0, 1, 15, 16, 17, 200])))
    return b"\0image/png\0\3x\0" + bytes(i * 7 % 256 for i in range(100))


def one_tag(t, rng):
    ver = t["ver"]
    fs = []
    for n, f in enumerate(t["frames"]):
        r = id3.frame(f["id"], value(ver, f["v"], rng, n))
        if ver > 2 and rng.random() < .1:
            r["cmp"] = True
        fs.append(r)
    r = id3.tag(ver, fs, t["pad"], exp=ver > 2 and rng.random() < .1)
    u = rng.random() < .2
    b = id3.encode(r, u)
    return b, dict(flags=b[5], unsync=u, sizes=None if u or any(f.get("cmp") for f in fs) else [len(f["data"]) for f in fs])


def one_v1(t, enc, x):
    def part(s, n):
        return real(s).encode(enc)[:n].ljust(n, b"\0")
    com = part(t["comment"], 30)
    if t["track"] >= 0:
        com = com[:28] + bytes([0, t["track"]])
    tail = b"TAG" + part(t["title"], 30) + part(t["artist"], 30) + part(t["album"], 30) + part(t["year"], 4) + com + bytes([t["genre"]])
    return (b"TAG+" + bytes(180) + b"\2" + part(t["xgenre"], 30) + b"001:30004:05" if t["ext"] else b"") + tail


def same(w, g, where):
    """is the value g, read from JSON, what w says?"""
    if "s" in w:
        return None if g == real(w["s"]) else "%s is %r, not %r" % (where, g, real(w["s"]))
    if "n" in w:
        return None if isinstance(g, int) and g == int(w["n"]) else "%s is %r, not %s" % (where, g, w["n"])
    if "a" in w:
        if not isinstance(g, list) or len(g) != len(w["a"]):
            return "%s is %r, should have %d members" % (where, g, len(w["a"]))
        if "cloud" in where:        # sets
            left = list(g)
            for x in w["a"]:
                y = [y for y in left if same(x, y, where) is None]
                if not y:
                    return "%s is %r, should have %r" % (where, g, x)
                left.remove(y[0])
            return None
        for i, (x, y) in enumerate(zip(w["a"], g)):
            e = same(x, y, "%s[%d]" % (where, i))
            if e:
                return e
        return None
    if not isinstance(g, dict):
        return "%s is %r" % (where, g)
    for k, v in w["o"]:
        if real(k) not in g:
            return "%s has no %s: %r" % (where, k, g)
        e = same(v, g[real(k)], "%s.%s" % (where, k))
        if e:
            return e
    return None


def run():
    c = Check("C14")
    exe = B.build(("cli",))["cli"]
    root = scratch_dir()
    ts = []
    for spec, n in (("KindSpec", None), ("TextSpec", None), ("ShapeSpec", None), ("RandSpec", 12000 if c.thorough else 2500)):
        ts += c.model("Dump", spec=spec, invariants=INV, simulate=n, depth=8).traces
    serial = itertools.count()

    def judge_json(t, outs, info, text):
        try:
            s = text.decode()
        except UnicodeDecodeError as e:
            return "not UTF-8: %s" % e
        vals, at, dec = [], 0, json.JSONDecoder()
        while True:
            while at < len(s) and s[at] in " \n":
                at += 1
            if at == len(s):
                break
            try:
                v, at = dec.raw_decode(s, at)
            except ValueError as e:
                return "not JSON: %s" % e
            vals.append(v)
        if len(vals) != sum(len(o["want"]) for o in outs):
            return "%d values, should be %d" % (len(vals), sum(len(o["want"]) for o in outs))
        it, late = iter(vals), None
        for o in outs:
            inf = info[o["at"]]
            tags = iter(inf["tags"])
            for k, w in zip(o["parts"], o["want"]):
                g = next(it)
                if k == "track":
                    if g.get("md5") != inf["md5"]:
                        return "digest is %r, not %s" % (g.get("md5"), inf["md5"])
                    continue
                e = same(w, g, k)
                if e:
                    return e
                if k == "tag":
                    x = next(tags)
                    if x["sizes"] and [f.get("size") for f in g["frames"]] != x["sizes"]:
                        return "frames' sizes are %r, not %r" % ([f.get("size") for f in g["frames"]], x["sizes"])
                    if g.get("flags") != x["flags"]:
                        return "flags are %r, not %d" % (g.get("flags"), x["flags"])
                    if g.get("unsynchronised") is not x["unsync"]:
                        late = "!json-unsync the tag is said to be unsynchronised: %r" % g.get("unsynchronised")
        return late

    def blocks(t, outs, names, s):
        at, r = 0, []
        for o in outs:
            m = '"%s":\n' % names[o["at"]]
            i = s.find(m, at)
            if i < 0:
                return None
            if r:
                r[-1] = s[r[-1]:i]
            at = i + len(m)
            r.append(at)
        if r:
            r[-1] = s[r[-1]:]
        return r

    def judge_standard(t, outs, info, names, text):
        s = text.decode(errors="surrogateescape")
        bs = blocks(t, outs, names, s)
        if bs is None:
            return "files missing, or out of order"
        for o, b in zip(outs, bs):
            at, inf = 0, info[o["at"]]
            for k, ws in zip(o["parts"], o["want"]):
                for w in ws:
                    if w.startswith("#hex "):
                        opts = ["%x" % int(w[5:]), w[5:]]
                    elif w.startswith("#genre name "):
                        n = int(w[12:])
                        opts = [GENRES[n]] if n < len(GENRES) else ["genre"]
                    elif w.startswith("#genre code "):
                        opts = [w[12:]]
                    elif w == "#some":
                        continue
                    elif w == "#size":
                        opts = [str(inf["size"])]
                    elif w == "#md5":
                        opts = [inf["md5"]]
                    else:
                        opts = [real(w)]
                    n = min([b.find(x, at) + len(x) for x in opts if b.find(x, at) >= 0] or [-1])
                    if n < 0:
                        return "%s not shown where it should be (%s): %r" % (opts, k, b)
                    at = n
            for k, p in (("ID3v2.", "tag"), ("MD5", "track"), ("ID3v1", "v1")):
                if b.count(k) > o["parts"].count(p):
                    return "shows parts not asked for: %r" % b
        return None

    def judge_csv(t, outs, info, names, text):
        s = text.decode(errors="surrogateescape")
        bs = blocks(t, outs, names, s)
        if bs is None:
            return "files missing, or out of order"
        late = None
        for o, b in zip(outs, bs):
            b = b.partition("\n")[2]
            if o is not outs[-1] and b.endswith("\n\n"):
                b = b[:-1]
            rs = rows.parse("csv", b)
            if rs is None:
                return "cannot be parsed: %r" % b
            rs = [r for r in rs if r != [""]]
            if len(rs) != (1 if o["want"] else 0):
                return "%d lines for a file: %r" % (len(rs), b)
            for r in rs:
                if len(r) != len(o["want"]):
                    return "%d cells, should be %d: %r" % (len(r), len(o["want"]), b)
                j = 0
                for k in o["parts"]:
                    n = dict(tag=15 + t["cfg"]["ncomm"], track=2, v1=8)[k]
                    for i in range(j, j + n):
                        w, g = o["want"][i], r[i]
                        w = dict([("#size", str(info[o["at"]]["size"])), ("#md5", info[o["at"]]["md5"])]).get(w, real(w)) if k == "track" else real(w)
                        if w == "#any":
                            if g == "":
                                return "cell %d is empty" % i
                        elif w != "#some" and w != g:
                            if k == "tag" and i == j + 10 and r[j] == "2" and g == "":
                                late = "!v22-year no year: %r" % r
                                continue
                            return "cell %d is %r, should be %r" % (i, g, w)
                    j += n
        return late

    def one(a):
        i, t = a
        rng = random.Random("%d/%d" % (c.seed, i))
        cfg = t["cfg"]
        d = os.path.join(root, "t%d" % next(serial))
        enc = rng.choice(["cp1252", "cp1252", "latin-1", "utf-8"])
        if cfg["files"] and any(len(real(x[f]).encode("utf-8")) > (28 if f == "comment" else 30) for y in cfg["files"] for x in y["v1"]
                                for f in ("title", "artist", "album", "comment")):
            enc = "cp1252"
        whole = rng.random() < .15
        pat = rng.random() < .15
        os.makedirs(d + "/w/z")
        names, info, data = {}, {}, {}
        try:
            for n, f in enumerate(cfg["files"], 1):
                names[n] = ("w/z/%d.mp3" if whole else "w/%d.mp3") % n
                if f["bad"]:
                    data[n] = rng.choice(batch.MALFORMED)
                else:
                    aud = rng.choice(AUDIO)
                    tags = [one_tag(x, rng) for x in f["tags"]]
                    data[n] = b"".join(x[0] for x in tags) + aud + b"".join(one_v1(x, enc, rng) for x in f["v1"])
                    info[n] = dict(tags=[x[1] for x in tags], size=len(aud), md5=hashlib.md5(aud).hexdigest())
                with open(os.path.join(d, names[n]), "wb") as o:
                    o.write(data[n])
            opts = [["-f", rng.choice({"json": ["json", "3"], "csv": ["csv", "1"], "standard": ["standard", "std", "2"]}[cfg["fmt"]])]]
            if cfg["fmt"] == "standard" and rng.random() < .7:
                opts = []
            opts += [[["-2", "--id3v2-tags"], ["-D", "--track-data"], ["-1", "--id3v1-tags"]][k - 1][rng.random() < .3:][:1] for k in cfg["only"]]
            opts += [["-g"]] * (not cfg["genre"]) + [["-i", str(rng.choice([0, 2, 5]))]] * (rng.random() < .3)
            if enc != "cp1252" or rng.random() < .2:
                opts.append(["-c", {"latin-1": "ISO-8859-1", "utf-8": "UTF-8", "cp1252": "CP1252"}[enc]])
            if cfg["ncomm"] != 6 or rng.random() < .1:
                opts.append(["-m", str(cfg["ncomm"])])
            args = ["w/z"] if whole else [names[n] for n in sorted(names)]
            if pat:
                opts.append(["-e", ".*mp3"])
                with open(d + "/w/z/other.ogg", "wb") as o:
                    o.write(b"other")
                args = args + ([] if whole else ["w/z/other.ogg"])
            rng.shuffle(opts)
            argv = ["dump"] + [y for x in opts for y in x] + args
            p = subprocess.run([exe] + argv, cwd=d, env=_env(), timeout=60, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        err = p.stderr.decode(errors="replace")
        rep = dict(trace=t, argv=argv, files={names[n]: b.hex() for n, b in data.items()}, out=p.stdout.decode(errors="replace"), err=err, code=p.returncode)
        if p.returncode < 0:
            return "%s: killed by signal %d" % (argv, -p.returncode), rep, None
        if p.returncode and not t["told"]:
            return "%s: exit status %d: %s" % (argv, p.returncode, err), rep, None
        for n in t["told"]:
            if names[n] not in err:
                return "%s: %s not reported: %r" % (argv, names[n], err), rep, None
        if not t["told"] and err:
            return "%s: complains: %s" % (argv, err), rep, None
        e = None
        for outs in itertools.permutations(t["out"]) if whole else [t["out"]]:
            e = judge_json(t, outs, info, p.stdout) if cfg["fmt"] == "json" else \
                (judge_csv if cfg["fmt"] == "csv" else judge_standard)(t, outs, info, names, p.stdout)
            if e is None or e.startswith("!"):
                break
        if e is None:
            return None
        key = None
        if e.startswith("!"):
            key, _, e = e[1:].partition(" ")
        return "%s: %s" % (argv, e), rep, key

    try:
        for t, v in zip(ts, pmap(one, list(enumerate(ts)))):
            c.ran(t, len(t["cfg"]["files"]))
            if v:
                c.violation(v[0], v[1], key=v[2])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return c.finish()


if __name__ == "__main__":
    main(run)
