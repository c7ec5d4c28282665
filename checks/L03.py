#!/usr/bin/env python3
"""Formatting set on streams, copied between them, in every order."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa


def run():
    c = Check("L03")
    drv = B.build(("driver",), "asan")["driver"]
    k = dict(spec="Spec", invariants=["OwnersApart", "NothingDangles", "ClosedHoldNothing", "Out"], properties=["OneAtATime"])
    small = dict(Names={"a", "b"}, Formats={"csv", "json"}, Encodings={"latin1"}, Policies={"fail"}, Wide={"ucs2"}, MaxOps=4 if c.thorough else 3)
    large = dict(Names={"a", "b", "c"}, Formats={"csv", "csv2", "json", "tdf"}, Encodings={"utf8", "latin1", "cp1252", "ascii"},
                 Policies={"fail", "ignore", "trans"}, Wide={"ucs2", "utf16", "ucs4"}, MaxOps=9)
    ts = c.model("Streams", constants=small, **k).traces
    k.pop("properties")
    ts += c.model("Streams", constants=large, simulate=20000 if c.thorough else 3000, depth=11, **k).traces

    # what each pair of settings is to look like
    ref = {}
    for f in ["none"] + sorted(large["Formats"]):
        for e in ["none"] + [(e, p) for e in sorted(large["Encodings"]) for p in sorted(large["Policies"])]:
            ref[f, e] = (["o.open x"] + (["o.fmt x %s 0" % f] if f != "none" else []) +
                         (["o.enc x %s %s 0" % e] if e != "none" else []) + ["o.show x"])
    keys = sorted(ref, key=str)
    want = dict(zip(keys, [o[-1] for o in replay(drv, [ref[x] for x in keys])]))
    for (f, e), o in want.items():
        if "v1" not in o:
            c.violation("cannot print in format %s, encoding %s: %s" % (f, e, o), ref[f, e])
        elif (o["enc"], o["pol"]) != (("utf8", "fail") if e == "none" else e):
            c.violation("the encoding set is %s, the one in effect %s" % (e, (o["enc"], o["pol"])), ref[f, e])
    for a, b in ((("csv", "none"), ("csv2", "none")), (("csv", "none"), ("json", "none")), (("csv", "none"), ("none", "none")),
                 (("csv", ("utf8", "fail")), ("csv", ("latin1", "fail")))):
        if (want[a].get("v1"), want[a].get("v2")) == (want[b].get("v1"), want[b].get("v2")):
            c.violation("%s and %s are printed alike" % (a, b), dict(one=want[a], other=want[b]))

    def commands(t):
        r = ["o.open " + s for s in sorted(large["Names"])]
        for h in t["hist"]:
            if h["op"] == "fmt":
                r.append("o.fmt %s %s %d" % (h["s"], h["v"], h["again"]))
            elif h["op"] == "enc":
                r.append("o.enc %s %s %s %d" % (h["s"], h["v"], h["p"], h["again"]))
            elif h["op"] == "copy":
                r.append("o.copy %s %s" % (h["s"], h["v"]))
            else:
                r.append("o.%s %s" % (h["op"], h["s"]))
        return r + ["o.show " + s for s in sorted(t["open"])] + ["o.close " + s for s in sorted(t["open"])]

    cs = [commands(t) for t in ts]
    for t, r, o in zip(ts, cs, replay(drv, cs)):
        c.ran(t["hist"], len(r))
        rep = dict(trace=t, commands=r, observed=o)
        if len(o) < len(r) or "crash" in str(o[-1])[:20]:
            c.violation("%s: crash: %s" % (r, str(o[-1])[:300]), rep)
            continue
        n = len(large["Names"])
        bad = None
        for i, h in enumerate(t["hist"]):
            x = o[n + i]
            if (x != 0) != h["refused"]:
                bad = "%s: %s" % (r[n + i], "accepted" if h["refused"] else x)
        for i, s in enumerate(sorted(t["open"])):
            x = o[n + len(t["hist"]) + i]
            e = t["enc"][s]
            w = want[t["fmt"][s][0], "none" if e == ["none"] else tuple(e)]
            if x != w:
                bad = bad or "stream %s does not print as %s, %s: %s" % (s, t["fmt"][s], e, str(x)[:200])
        if bad:
            c.violation("%s: %s" % (r, bad), rep)
    return c.finish()


if __name__ == "__main__":
    main(run)
