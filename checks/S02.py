#!/usr/bin/env python3
"""The bytes of written ID3v2 tags, and the sizes announced for them."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import codec as K  # noqa

INV = ["PayloadOk", "RoundTrip", "AnnouncedSize", "NoFalseSync", "Out"]


def expand(parts, pad):
    return b"".join(bytes(p["b"]) + b"A" * p["n"] for p in parts) + bytes(pad)


def check_sizes(c, t, what, got, plain, unsync, pad, ver, replay):
    for k, w in (("plain", plain), ("unsync", unsync)):
        if got[k] != w - 10:
            key = None
            if ver == 4 and pad and got[k] == w - 10 + pad:
                key = "v24-size-padding"
            c.violation("%s: reported size %s is %d, bytes after the header %d" % (
                what, k, got[k], w - 10), replay, key)
            return


def run():
    c = Check("S02")
    drv = B.build(("driver",))["driver"]
    Z = [(65, 0, 255), (65,), (0, 65), (0,) * 40 + (255,)]
    fl = K.flags({}, dict(tap=True, gid=255), dict(fap=True, uns=True), dict(ro=True, dli=True),
                 dict(cmp=True), dict(cmp=True, gid=7, uns=True))
    r1 = c.model("Id3v2Codec", invariants=INV, constants=dict(
        Vers={2, 3, 4}, Pads={0, 3}, Strs={(), (65,), (255,)}, MaxFrames=1, EmitAt=-1,
        Ids=K.ids(), Flags=fl, Zip=K.zips(Z)))
    strs = {(), (65,), (255,), (0, 255), (255, 224), (255, 0), (65,) * 100, (0,) * 40 + (255,),
            (65,) * 255}
    r3 = c.model("Id3v2Codec", invariants=["Out"], constants=dict(
        Vers={2, 3, 4}, Pads=set(range(0, 60)) | set(range(100, 140)) | set(range(254, 259)) | {300, 511, 512, 513, 600}, Strs=strs, MaxFrames=4,
        EmitAt=4, Ids=K.ids("all"), Flags=K.all_flags(), Zip=K.zips(Z)),
        simulate=30000 if c.thorough else 1400, depth=16)
    bs = r1.traces + r3.traces
    traces = []
    for i, b in enumerate(bs):
        t = K.build("a", b["tag"], b["plain"], i % 2)
        n = len(t)
        t += ["t.size a", "t.write a 0", "t.write a 1", "t.size a", "t.write a 0",
              "t.read b %s ctor" % hx(b["unsync"]), "t.write b 1", "t.write b 0",
              "t.payloads a"]
        traces.append((n, t))
    obs = replay(drv, [t for _, t in traces])
    for b, (n, t), o in zip(bs, traces, obs):
        tag = b["tag"]
        c.ran({"tag": tag}, len(t))
        rep = {"commands": t, "observed": o, "plain": hx(b["plain"]), "unsync": hx(b["unsync"])}
        if len(o) < len(t):
            c.violation("crash: %s in %s" % (o[-1], t[:n]), rep)
            continue
        g = o[n:]
        bad = None
        for k, want, uns in ((1, b["plain"], False), (2, b["unsync"], True), (4, b["plain"], False),
                             (6, b["unsync"], True), (7, b["again"], False)):
            if not isinstance(g[k], dict) or "bytes" not in g[k]:
                bad = "%s: %s" % (t[n + k], g[k])
                break
            if 2 * g[k]["n"] != len(g[k]["bytes"]):
                bad = "%s returned %d for %d bytes" % (t[n + k], g[k]["n"], len(g[k]["bytes"]) // 2)
                break
            if k == 7 and tag["ver"] == 4 and K.compressed(b):
                continue
            d = K.check_bytes(b, want, g[k]["bytes"], uns)
            if d:
                bad = "%s: %s" % (t[n + k], d)
                break
        bad = bad or K.check_payloads(b, g[8])
        if bad:
            c.violation("after %s: %s" % (t[:n], bad), rep)
            continue
        for k in (0, 3):
            check_sizes(c, t, "after %s" % t[:n], g[k], g[1]["n"], g[2]["n"], tag["pad"], tag["ver"], rep)

    # large payloads: all the widths of the size fields
    lens = [0, 1, 117, 118, 127, 128, 129, 255, 256, 16373, 16374, 16383, 16384, 65279, 65280,
            65504, 65535, 65536, 2097141, 2097142, 2097151, 2097152]
    if c.thorough:
        lens += list(range(100, 140)) + [16777215 - 20, 16777210]
    r4 = c.model("Id3v2Big", invariants=["AnnouncedSize", "NoFalseSync", "Out"], constants=dict(
        Vers={2, 3, 4}, Lens=set(lens), Pads={0, 1, 127, 65504, 65280}, Zip=K.zips(Z)))
    traces = []
    for b in r4.traces:
        t = ["t.new a %d %d 0 %d" % (b["ver"], b["pad"], b["ext"])]
        for n in b["lens"]:
            t.append("t.big a %s %s %d" % ("QQQ" if b["ver"] == 2 else "QQQQ", hx(b["head"]), n))
        k = len(t)
        t += ["t.size a", "t.digest a 0", "t.digest a 1", "t.reread a b 0", "t.digest b 0",
              "t.reread a b 1", "t.digest b 1"]
        traces.append((k, t))
    obs = replay(drv, [t for _, t in traces], limit=60)
    import hashlib
    for b, (k, t), o in zip(r4.traces, traces, obs):
        c.ran({"big": b["lens"], "ver": b["ver"], "pad": b["pad"], "ext": b["ext"]}, len(t))
        rep = {"commands": t, "observed": o}
        if len(o) < len(t):
            c.violation("crash: %s in %s" % (o[-1], t[:k]), rep)
            continue
        g = o[k:]
        P, U = expand(b["plain"], b["pad"]), expand(b["unsync"], b["pad"])

        def dg(x):
            return {"n": len(x), "len": len(x), "head": x[:64].hex(), "md5": hashlib.md5(x).hexdigest()}
        want = [None, dg(P), dg(U), None, dg(P), None, dg(U)]
        for i, w in enumerate(want):
            if w and g[i] != w:
                c.violation("%s after %s: %s instead of %s" % (t[k + i], t[:k], g[i], w), rep)
                break
        else:
            check_sizes(c, t, "after %s" % t[:k], g[0], len(P), len(U), b["pad"], b["ver"], rep)
    return c.finish()


main(run)
