#!/usr/bin/env python3
"""Reading finds exactly the leading tags and stops at the audio."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import codec as K  # noqa


def tag(ver, u=False, frames=(), **kw):
    fs = ["Frame(%s, %s)" % (T.tla(i), T.tla(list(d))) for i, d in frames]
    ex = ", ".join("!.%s = %s" % (k, T.tla(v)) for k, v in kw.items())
    ex = ", ".join([x for x in (ex, "!.frames = << %s >>" % ", ".join(fs)) if x])
    return "<< [ NewTag(%d) EXCEPT %s ], %s >>" % (ver, ex, "TRUE" if u else "FALSE")


def run():
    c = Check("R01")
    drv = B.build(("driver",))["driver"]
    title, fake = b"\0A\xff\xe0", b"\0ID3\3\0\0\0\0\0\4AAAA"
    tags = [tag(2), tag(2, frames=[("TT2", title)], pad=1), tag(2, True, [("TT2", title)]),
            tag(3), tag(3, frames=[("TIT2", fake)], pad=3), tag(3, True, [("TIT2", title), ("QQQQ", b"\xff")], ext=True, crc=True),
            tag(3, frames=[("TIT2", b"\0B")], pad=10, exp=True),
            tag(4, pad=2), tag(4, frames=[("TIT2", title)], foot=True), tag(4, True, [("TIT2", title)], foot=True, ext=True),
            tag(4, frames=[("QQQQ", bytes(130))], pad=12)]
    zips = K.zips([(65,)])
    inv = ["Exact", "Out"]
    oth = {(0,), (255, 251, 144, 0),
           (73, 68, 51, 255, 0, 0, 0, 0, 0, 0), (73, 68, 51, 3, 255, 0, 0, 0, 0, 1, 0), (73, 68, 51, 3, 0, 0, 0, 0, 128, 0),
           (73, 68, 51, 3, 0, 0, 128, 0, 0, 0, 65), (73, 68, 51, 4, 0, 0, 0, 0, 0, 255), (73, 68, 51, 2, 0, 0, 0, 200, 0, 0),
           (73, 68, 50, 3, 0, 0, 0, 0, 0, 0), (51, 68, 73, 4, 0, 16, 0, 0, 0, 0), (105, 100, 51, 3, 0, 0, 0, 0, 0, 0),
           (0, 73, 68, 51, 3, 0, 0, 0, 0, 0, 0)}
    tails = {(73,), (73, 68, 51), (73, 68, 51, 3, 0, 0, 0, 0, 0)}
    r1 = c.model("Reader", invariants=inv, constants=dict(
        Tags=T.Raw("{ %s }" % ", ".join(tags)), Others=oth, Tails=tails, Versions={0, 1, 5, 254}, MaxParts=2, EmitAt=-1, Zip=zips))
    r2 = c.model("Reader", invariants=inv, constants=dict(
        Tags=T.Raw("{ %s }" % ", ".join(tags[4:5] + tags[8:9] + tags[1:2])), Others={(255, 251, 144)}, Tails={(73, 68, 51, 3)},
        Versions={5}, MaxParts=4, EmitAt=4, Zip=zips))
    r3 = c.model("Reader", invariants=["Out"], constants=dict(
        Tags=T.Raw("{ %s }" % ", ".join(tags)), Others={(255, 251, 144, 0), (73, 68, 51, 255, 0, 0, 0, 0, 0, 0, 0)}, Tails=set(), Versions={5},
        MaxParts=7, EmitAt=7, Zip=zips), simulate=6000 if c.thorough else 420, depth=20)
    bs = r1.traces + r2.traces + r3.traces
    traces = []
    for j, b in enumerate(bs):
        h, n = hx(b["bytes"]), len(b["found"])
        t = ["r.all t %s %d" % (h, j % 8)]
        at = [("all", None)]
        for i, f in enumerate(b["found"]):
            t.append("t.obs t%d" % i)
            at.append(("obs", f))
        for i in range(n + 1):
            t.append("r.index x %s %d %d" % (h, i, (i + j) % 8))
            at.append(("index", i))
            if i < n:
                t.append("t.obs x")
                at.append(("obs", b["found"][i]))
        for p, l in b["looks"]:
            for res in (0, 1):
                t.append("r.look %s %d %d %d" % (h, p, res, (p + j) % 8))
                at.append(("look", (p, l, res)))
        traces.append((t, at))
    obs = replay(drv, [t for t, _ in traces])
    for b, (t, at), o in zip(bs, traces, obs):
        c.ran({"bytes": hx(b["bytes"]), "tags": len(b["found"])}, len(t))
        rep = {"commands": t, "observed": o, "expected": b}
        if len(o) < len(t):
            c.violation("crash: %s in %s" % (o[-1], t), rep)
            continue
        n = len(b["found"])
        for cmd, (what, x), g in zip(t, at, o):
            d = None
            if what == "all":
                # once there is an error it is free what the reader had taken before
                if b["state"] == "error":
                    want = {"error": True, "n": n}
                else:
                    want = {"error": False, "n": n, "kept": True, "good": True, "pos": b["end"]}
                d = None if g == want else want
            elif what == "obs":
                d = K.check_obs({"tag": x["tag"], "seen": x["seen"]}, g)
            elif what == "index":
                if x == n:
                    d = None if isinstance(g, dict) and "err" in g else "an error"
                else:
                    f = b["found"][x]
                    want = {"kept": True, "good": True, "pos": f["at"] + f["len"]}
                    d = None if g == want else want
            else:
                p, l, res = x
                want = {"present": l["present"], "kept": True, "good": True,
                        "pos": p + 10 if l["present"] and not res else p}
                if l["present"]:
                    want.update({k: l[k] for k in ("ver", "rev", "flags", "size")})
                d = None if g == want else want
            if d:
                c.violation("%s gave %s: %s" % (cmd, g, d), rep)
                break
    return c.finish()


main(run)
