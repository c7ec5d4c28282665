#!/usr/bin/env python3
"""Whatever the bytes, reading ends in a result or an error, and does no harm."""
import os
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import id3  # noqa

ASAN = "detect_leaks=0:max_allocation_size_mb=300:allocator_may_return_null=0:detect_stack_use_after_return=0"
F = id3.frame


def files():
    """small well-formed files that have between them every kind of frame and header"""
    a, w = b"\xff\xfb\x90\0audio", b"\1\xff\xfe"
    f23 = [F("TIT2", b"\0A"), F("COMM", b"\0engd\0t"), F("PCNT", b"\0\0\0\7"), F("POPM", b"o\0\xc4\0\0\0\1")]
    g23 = [F("TXXX", w + b"d\0\0\0\xff\xfet\0"), F("UFID", b"o\0id"), F("XTAG", b"\1o\0k\0\0\0\0\2v\0"),
           F("PRIV", b"o\0x"), F("ENCR", b"o\0\x80k")]
    h23 = [F("TIT2", w + b"A\0", gid=3), F("TALB", b"\0" + b"ab" * 30, cmp=True), F("QQQQ", b"zz", tap=True)]
    f22 = [F("TT2", b"\0A"), F("COM", b"\1eng\xff\xfed\0\0\0\xff\xfet\0"), F("CNT", b"\0\0\0\7"),
           F("POP", b"o\0\xc4\0\0\0\1"), F("TXX", b"\0d\0t"), F("UFI", b"o\0id"), F("XTG", b"\1o\0k\0\0\0\0\2v\0")]
    t = [id3.tag(2, f22, pad=3), id3.tag(3, f23, pad=2), id3.tag(3, g23, ext=True, crc=True), id3.tag(3, h23, ext=True),
         id3.tag(4, f23, foot=True), id3.tag(4, g23, ext=True, crc=True, upd=True, rst=5),
         id3.tag(4, [dict(f, uns=True) for f in h23] + [F("TCON", b"\3xy", dli=True, uns=True)], pad=1)]
    v1 = b"TAG" + b"Title".ljust(30, b"\0") + b"Artist".ljust(30) + b"Album".ljust(30, b"\0") + b"1999" + \
        b"c".ljust(28, b"\0") + b"\0\7\x11"
    ext = b"TAG+" + b"T" * 60 + b"A" * 60 + b"L" * 60 + b"\2" + b"g".ljust(30, b"\0") + b"00:0000:59"
    res = [id3.encode(x, u) + a for x, u in zip(t, (False, True, True, False, True, False, True))]
    # frames said to be encrypted
    lock = [b"ENCR" + b"\0\0\0\5" + b"\0\0" + b"o\0\x90k" + b"!" + b"TALB" + b"\0\0\0\6" + f + b"\x90\x12\xff\xe0\x55z" +
            b"TIT2" + b"\0\0\0\2" + b"\0\0" + b"\0x" for f in (b"\0\x40", b"\0\x04")]
    lock = [b"ID3" + bytes([v, 0, 0, 0, 0, 0, len(x) + 9]) + x + bytes(9) + a for v, x in zip((3, 4), lock)]
    return res, a + v1, a + ext + v1, lock


def clips():
    """tags of one frame or one extended header"""
    w = b"\1\xff\xfe"
    f3 = [F("TIT2", b"\0AB"), F("TIT2", w + b"A\0B\0"), F("COMM", b"\0engd\0t"), F("COMM", b"\1eng\xff\xfed\0\0\0\xff\xfet\0"),
          F("TXXX", b"\0d\0t"), F("TXXX", w + b"d\0\0\0\xff\xfet\0"), F("PCNT", b"\0\0\0\7\1"), F("POPM", b"o\0\xc4\0\0\0\1"),
          F("UFID", b"o\0id"), F("XTAG", b"\1o\0k\0\0\0\0\4v\0w\0j\0\0\0\0\0"), F("PRIV", b"o\0x"), F("ENCR", b"o\0\x80k"),
          F("QQQQ", b"zz"), F("TALB", b"\0" + b"ab" * 9, cmp=True), F("TPE1", b"\0xy", gid=3)]
    f4 = f3[:12] + [F("TIT2", b"\3\xc3\xa9\xe2\x82\xac"), F("TIT2", b"\2\0A\0B"), F("COMM", b"\3engd\0t"),
                    F("TALB", b"\0" + b"ab" * 9, cmp=True, gid=2), F("TPE1", b"\0x\xff\xe0", uns=True, dli=True),
                    F("TPE1", b"\0x", dli=True)]
    f2 = [F("TT2", b"\0AB"), F("TT2", w + b"A\0"), F("COM", b"\0engd\0t"), F("COM", b"\1eng\xff\xfed\0\0\0\xff\xfet\0"),
          F("CNT", b"\0\0\0\7"), F("POP", b"o\0\xc4\0\0\0\1"), F("TXX", b"\0d\0t"), F("UFI", b"o\0id"),
          F("XTG", b"\1o\0k\0\0\0\0\2v\0"), F("QQQ", b"z")]
    t = [id3.tag(v, [f]) for v, fs in ((2, f2), (3, f3), (4, f4)) for f in fs]
    t += [id3.tag(3, [], ext=True), id3.tag(3, [], ext=True, crc=True)]
    t += [id3.tag(4, [], ext=True, upd=u, crc=k, rst=r) for u in (False, True) for k in (False, True) for r in (-1, 5)]
    return [id3.encode(x, False) for x in t]


def seq(b):
    return tuple(b)


def run():
    c = Check("R02")
    drv = B.build(("driver",), "asan")["driver"]
    cli = B.build(("cli",), "asan")["cli"]
    v2, p1, e1, lock = files()
    zips = T.Raw("(<<65>> :> <<65>>)")
    every = T.Raw("0..(Len(x) - 1)")
    r1 = c.model("Malformed", invariants=["Within", "Out"], constants=dict(**{"At(x)": every},
        Files={seq(b) for b in v2}, Values={0, 1, 127, 128, 255}, Inserted={(255,)}, MaxDamage=1, EmitAt=1,
        Zip=zips))
    edge = T.Raw("{ i \\in 0..(Len(x) - 1) : (Len(x) - i) \\in { 1, 2, 4, 99, 127, 128, 129, 131, 227, 350, 354, 355, 356 } }")
    r2 = c.model("Malformed", invariants=["Within", "Out"], constants=dict(**{"At(x)": edge},
        Files={seq(p1), seq(e1)}, Values={0, 84, 128, 255}, Inserted={(255,), tuple(b"TAG")}, MaxDamage=2, EmitAt=-1,
        Zip=zips))
    r2b = c.model("Malformed", invariants=["Within"], properties=["Ends"], 
                  constants=dict(**{"At(x)": T.Raw("{ 0, 6, 9, 12 }")}, Files={seq(id3.encode(id3.tag(3, [F("TIT2", b"\0A")])))}, Values={0, 127}, Inserted={(255,)},
                                 MaxDamage=2, EmitAt=-1, Zip=zips))
    r3 = c.model("Malformed", invariants=["Out"], constants=dict(**{"At(x)": every},
        Files={seq(b) for b in v2 + lock} | {seq(v2[1][:-9] + v2[4]), seq(v2[3] + p1)}, Values={0, 1, 2, 64, 127, 128, 192, 255},
        Inserted={(255,), (0, 0, 0, 1), (127, 127, 127, 127)}, MaxDamage=4, EmitAt=4, Zip=zips),
        simulate=40000 if c.thorough else 2800, depth=30)
    r4 = c.model("Malformed", spec="ClipSpec", invariants=["Within", "Out"], constants=dict(**{"At(x)": every},
        Files={seq(b) for b in clips()}, Values={0}, Inserted={(255,)}, MaxDamage=1, EmitAt=1, Zip=zips))
    bs, may = [], {}
    for b in r1.traces + r2.traces + r4.traces:
        may.setdefault(bytes(b["bytes"]), set()).add((b["outcome"], b["pos"]))
    seen = set()
    for b in r1.traces + r2.traces + r4.traces + r3.traces:
        k = bytes(b["bytes"])
        if k not in seen:
            seen.add(k)
            bs.append(b)
    bs.sort(key=lambda b: (len(b["damage"]), b["bytes"]))
    traces = []
    for j, b in enumerate(bs):
        h = hx(b["bytes"])
        t = ["r.all t %s %d" % (h, j % 8), "t.obs t0", "t.look t0 TIT2,TALB,COMM,PCNT,POPM,TXXX,UFID,XTAG,QQQQ",
             "t.size t0", "t.write t0 0", "t.write t0 1", "t.obs t1", "t.read x %s ctor" % h,
             "t.read y %s index" % h, "v1.read a " + h, "v1.obs a", "v1.process b " + h]
        traces.append(t)
    obs = replay(drv, traces, limit=30, env=dict(os.environ, ASAN_OPTIONS=ASAN), strict=False)
    for b, t, o in zip(bs, traces, obs):
        c.ran({"damage": b["damage"], "bytes": hx(b["bytes"])}, len(t))
        rep = {"commands": t, "observed": o, "damage": b["damage"]}
        if len(o) < len(t):
            c.violation("crash: %s in %s" % (o[-1], t), rep)
            continue
        # reading may refuse a damaged tag, but never sees one where no header is, and
        # takes just what a header announces
        g, all_ = o[0], may.get(bytes(b["bytes"]))
        if g["error"]:
            ok = all_ is None or any(x == "error" for x, _ in all_)
        else:
            ok = (g["pos"] <= len(b["bytes"])) if all_ is None else ("read", g["pos"]) in all_
        if not ok:
            c.violation("%s gave %s, not one of %s" % (t[0], g, sorted(all_ or ())), dict(rep, allowed=sorted(all_ or ())))
    # commands
    step = 1 if c.thorough else 9
    pick = [(b, o) for i, (b, o) in enumerate(zip(bs, obs)) if i % step == 0 and o]
    base = scratch_dir()
    try:
        bad = pmap(lambda a: commands(cli, base, *a), list(enumerate(pick)))
        for (b, o), r in zip(pick, bad):
            c.ran({"damage": b["damage"], "commands": True}, len(CMDS))
            for what, rep in r:
                c.violation(what, rep)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return c.finish()


CMDS = [["dump", "f.mp3"], ["dump", "-f", "csv", "f.mp3"], ["report", "-o", "out.csv", "f.mp3"], ["m3u", "f.mp3"],
        ["text", "-T", "New", "-A", "Me", "-d", "TALB", "f.mp3"], ["text", "-C", "-u", "-T", "New", "f.mp3"],
        ["popm", "-u", "f.mp3"], ["popm", "-a", "--create-frame", "-o", "me", "-r", "5", "f.mp3"],
        ["genre", "-g", "rock", "f.mp3"], ["genre", "-a", "-A", "-w", "7", "f.mp3"],
        ["xtag", "-f", "-o", "me", "-T", "a=b", "f.mp3"], ["xtag", "-g", "f.mp3"], ["xtag", "-m", "-T", "c", "f.mp3"],
        ["rename", "-t", "%T%E", "f.mp3"], ["rename", "-n", "-t", "%A - %L - %Y%E", "f.mp3"], ["split", "f.mp3"]]


def commands(cli, base, i, pick):
    b, o = pick
    data, res = bytes(b["bytes"]), []
    d = os.path.join(base, str(i))
    os.mkdir(d)
    env = dict(PATH=os.environ["PATH"], HOME=d, TMPDIR=d, LC_ALL="C.UTF-8", ASAN_OPTIONS=ASAN, GUILE_AUTO_COMPILE="0")
    refused = isinstance(o[0], dict) and o[0].get("error")
    for k, cmd in enumerate(CMDS):
        if (i + k) % 2:
            continue
        p = os.path.join(d, "f.mp3")
        with open(p, "wb") as f:
            f.write(data)
        with open(os.path.join(d, "log"), "wb") as log:
            try:
                rc = subprocess.run([cli] + cmd, cwd=d, env=env, stdout=log, stderr=log, stdin=subprocess.DEVNULL,
                                    timeout=60).returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        with open(os.path.join(d, "log"), "rb") as log:
            out = log.read()
        rep = {"command": cmd, "file": data.hex(), "damage": b["damage"], "output": out[-4000:].decode(errors="replace")}
        if rc == "timeout" or rc < 0 or rc > 2 or b"AddressSanitizer" in out:
            res.append(("%s ends with %s on %s: %s" % (cmd, rc, data.hex(), digest(out)), rep))
        elif refused and cmd[0] in ("text", "popm", "genre", "xtag", "dump", "report", "m3u"):
            got = open(p, "rb").read() if os.path.exists(p) else None
            if got != data:
                res.append(("%s altered a file it could not make sense of: %s" % (cmd, data.hex()), rep))
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
    os.rmdir(d)
    return res


def digest(out):
    for l in out.split(b"\n"):
        if b"ERROR" in l or b"what()" in l:
            return l[:200].decode(errors="replace")
    return out[-200:].decode(errors="replace")


main(run)
