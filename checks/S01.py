#!/usr/bin/env python3
"""ID3v2 round trip: what is written reads back as the same tag, and what another
writer wrote (the specification's encoder) is seen for what it is."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import codec as K  # noqa

INV = ["RoundTrip", "AnnouncedSize", "NoFalseSync", "Reverses", "NeedsIt", "Out"]
HOW = ("maybe", "index", "ctor")


def run():
    c = Check("S01")
    drv = B.build(("driver",))["driver"]
    Z = [(65, 0, 255), (65,), (0, 65), (0,) * 40 + (255,), (65, 0, 255, 224)]
    fl = K.flags({}, dict(tap=True, gid=255), dict(fap=True, uns=True), dict(ro=True, dli=True),
                 dict(cmp=True), dict(cmp=True, gid=7, uns=True), dict(gid=0, uns=True, dli=True))
    r1 = c.model("Id3v2Codec", invariants=INV, constants=dict(
        Vers={2, 3, 4}, Pads={0, 1}, Strs={(), (65,), (0, 255)}, MaxFrames=1, EmitAt=-1,
        Ids=K.ids(), Flags=fl, Zip=K.zips(Z)))
    small = {2: {"TT2", "COM", "QQQ"}, 3: {"TIT2", "COMM", "QQQQ"}, 4: {"TIT2", "COMM", "QQQQ"}}
    r2 = c.model("Id3v2Codec", invariants=INV, constants=dict(
        Vers={2, 3, 4}, Pads={0, 11}, Strs={(65, 255)}, MaxFrames=2, EmitAt=2,
        Ids=K.ids(small), Flags=K.flags({}, dict(tap=True, uns=True), dict(gid=1)), Zip=K.zips(Z)))
    strs = {(), (65,), (255,), (0, 255), (255, 224), (255, 0), (255, 254, 65, 0),
            tuple(range(1, 256)), (0,) * 40 + (255,), (65,) * 130}
    r3 = c.model("Id3v2Codec", invariants=["Out"], constants=dict(
        Vers={2, 3, 4}, Pads={0, 1, 2, 3, 9, 10, 11, 127, 128, 300}, Strs=strs, MaxFrames=6,
        EmitAt=6, Ids=K.ids("all"), Flags=K.all_flags(), Zip=K.zips(Z)),
        simulate=30000 if c.thorough else 1400, depth=20)
    bs = r1.traces + r2.traces + r3.traces
    traces = []
    for i, b in enumerate(bs):
        t = K.build("a", b["tag"], b["plain"], i % 2)
        n = len(t)
        t += ["t.obs a",
              "t.reread a b 0", "t.obs b", "t.reread b b 1", "t.obs b",
              "t.read d %s %s" % (hx(b["plain"]), HOW[i % 3]), "t.obs d",
              "t.read e %s %s" % (hx(b["unsync"]), HOW[(i + 1) % 3]), "t.obs e",
              "t.reread e e 0", "t.obs e"]
        traces.append((n, t))
    obs = replay(drv, [t for _, t in traces])
    for b, (n, t), o in zip(bs, traces, obs):
        c.ran({"tag": b["tag"]}, len(t))
        if len(o) < len(t):
            c.violation("crash: %s in %s" % (o[-1], t[:n]), {"commands": t, "observed": o})
            continue
        for k in range(n, len(t)):
            if t[k].startswith("t.obs"):
                d = K.check_obs(b, o[k])
            elif t[k].startswith("t.reread"):
                d = None if o[k] == {"found": True, "pos": o[k].get("len"), "len": o[k].get("len")} \
                    else "reading back gave %s" % o[k]
            else:
                d = None if isinstance(o[k], dict) and o[k].get("found") else "not read: %s" % o[k]
            if d:
                c.violation("%s after %s: %s" % (t[k], t[:n], d), {
                    "commands": t, "observed": o, "tag": b["tag"], "seen": K.expected_frames(b)})
                break
    # frames marked as encrypted: refused, and nothing changed by that
    locked = []
    for i, b in enumerate(bs):
        if b["locks"] and K.buildable(b["tag"]) and (i % 5 == 0 or c.thorough):
            k = sorted(b["locks"])[i % len(b["locks"])]
            t = K.build("a", b["tag"], b["plain"], i % 2, k)
            locked.append((b, k, len(t), t + ["t.obs a", "t.reread a b 0", "t.reread a b 1", "t.obs a"]))
    for (b, k, n, t), o in zip(locked, replay(drv, [x[3] for x in locked])):
        c.ran({"tag": b["tag"], "locked": k}, len(t))
        if len(o) < len(t):
            d = "crash: %s" % o[-1]
        elif not all(isinstance(x, dict) and "err" in x for x in o[n + 1:n + 3]):
            d = "written with an encrypted frame: %s" % o[n + 1:n + 3]
        elif o[n] != o[n + 3] or [f.get("enc") for f in o[n]["frames"]] != [j == k for j in range(1, len(b["tag"]["frames"]) + 1)]:
            d = "changed by a write that failed, or its mark lost: %s, %s" % (o[n], o[n + 3])
        else:
            continue
        c.violation("%s: %s" % (t[:n], d), {"commands": t, "observed": o, "tag": b["tag"], "locked": k})
    return c.finish()


main(run)
