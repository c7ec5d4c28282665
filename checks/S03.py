#!/usr/bin/env python3
"""Unsynchronisation: no false sync in what it puts out, and exactly reversible."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import codec as K  # noqa
import id3  # noqa

INV = ["PayloadOk", "RoundTrip", "NoFalseSync", "Reverses", "NeedsIt", "Out"]


def undo(tag, b):
    """what is left of unsynchronised bytes once the scheme is undone, headers'
    flags and sizes aside"""
    if tag["ver"] < 4:
        return id3.resync(b[10:])
    t, _ = id3.decode(b)
    t = id3.same(t)
    return id3.encode(t)[10:]


def run():
    c = Check("S03")
    drv = B.build(("driver",))["driver"]
    Z = [(65,), (255, 224), (0, 255)]
    un = {2: {"QQQ"}, 3: {"QQQQ"}, 4: {"QQQQ"}}
    k = 5 if c.thorough else 4
    r1 = c.model("Id3v2Codec", invariants=INV, constants=dict(
        Vers={2, 3, 4}, Pads={0, 1}, MaxFrames=1, EmitAt=1, Ids=K.ids(un),
        Strs=T.Raw("UpTo({0, 65, 224, 255}, %d)" % k), Flags=K.flags({}), Zip=K.zips(Z)))
    some = {2: {"QQQ", "POP", "TT2", "COM"}, 3: {"QQQQ", "POPM", "TPE1", "COMM", "PRIV"},
            4: {"QQQQ", "POPM", "TPE1", "COMM", "PRIV"}}
    r2 = c.model("Id3v2Codec", invariants=INV, constants=dict(
        Vers={2, 3, 4}, Pads={0, 2}, Strs={(255,), (0, 255), (224,)}, MaxFrames=1, EmitAt=1,
        Ids=K.ids(some), Flags=K.flags({}, dict(gid=255), dict(uns=True), dict(gid=255, dli=True),
                                       dict(cmp=True, gid=255)), Zip=K.zips(Z)))
    r3 = c.model("Id3v2Codec", invariants=["Out"], constants=dict(
        Vers={2, 3, 4}, Pads={0, 1, 2, 255, 65504} if c.thorough else {0, 1, 2, 255},
        Strs={(255,), (0, 255), (224,), (255, 255), (255, 251, 144, 100), (255, 0, 0, 255),
              (255,) * 33, (254, 255), (), (251,), tuple(range(255, 0, -1)), (255, 224) * 70,
              (255, 223, 255, 1)},
        MaxFrames=4, EmitAt=4, Ids=K.ids(), Zip=K.zips(Z),
        Flags=K.flags({}, dict(gid=255), dict(uns=True), dict(gid=255, dli=True), dict(cmp=True, gid=255))),
        simulate=30000 if c.thorough else 1400, depth=16)
    bs = r1.traces + r2.traces + r3.traces
    traces = []
    for i, b in enumerate(bs):
        t = K.build("a", b["tag"], b["plain"], i % 2)
        n = len(t)
        t += ["t.size a", "t.write a 0", "t.write a 1", "t.reread a b 1", "t.obs b",
              "t.reread a b 0", "t.obs b", "t.size b", "t.read d %s ctor" % hx(b["unsync"]), "t.obs d",
              "t.payloads a", "t.payloads b", "t.payloads d"]
        traces.append((n, t))
    obs = replay(drv, [t for _, t in traces])
    for b, (n, t), o in zip(bs, traces, obs):
        tag = b["tag"]
        c.ran({"tag": tag}, len(t))
        rep = {"commands": t, "observed": o, "plain": hx(b["plain"]), "unsync": hx(b["unsync"])}
        if len(o) < len(t):
            c.violation("crash: %s in %s" % (o[-1], t[:n]), rep)
            continue
        g = o[n:]

        def judge():
            for k in (0, 7):
                if not isinstance(g[k], dict) or g[k].get("needs") != b["needs"]:
                    return "%s: needs unsynchronisation: %s instead of %s" % (t[n + k], g[k], b["needs"])
            P, U = bytes.fromhex(g[1]["bytes"]), bytes.fromhex(g[2]["bytes"])
            d = K.check_bytes(b, b["plain"], g[1]["bytes"], False)
            if d:
                return "plain: " + d
            if id3.false_sync(U[10:]):
                return "false sync in unsynchronised output " + U.hex()
            if not U[5] & 128 or P[5] & 128:
                return "unsynchronisation flag is wrong: %02x, %02x" % (P[5], U[5])
            try:
                x = undo(tag, U)
                y = undo(tag, P) if tag["ver"] == 4 else P[10:]
            except id3.Malformed as e:
                return "malformed output (%s): %s" % (e, U.hex())
            if x != y:
                return "undoing unsynchronisation gives %s, not %s" % (x.hex(), y.hex())
            for k in (4, 6, 9):
                d = K.check_obs(b, g[k])
                if d:
                    return "%s: %s" % (t[n + k], d)
            for k in (10, 11, 12):
                d = K.check_payloads(b, g[k])
                if d:
                    return "%s: %s" % (t[n + k], d)
        try:
            d = judge()
        except (KeyError, TypeError) as e:
            d = "observed %s" % g
        if d:
            c.violation("after %s: %s" % (t[:n], d), rep)
    return c.finish()


main(run)
