#!/usr/bin/env python3
"""Copies of tags: equal to what they were copied from, and independent from then on."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import codec as K  # noqa
import edits as E  # noqa


def run():
    c = Check("E03")
    drv = B.build(("driver",))["driver"]
    com = dict(Generics=E.GENERICS, Vers={2, 3, 4}, Looks=True, Writes=True, Zip=K.zips([(65,)]), NonDet=False)
    props = ["Independent", "Equal"]
    # copies only
    r1 = c.model("Id3v2Edit", invariants=["Countable", "Out"], properties=props, constants=dict(
        com, MaxOps=3, EmitAt=0, Starts={"empty", "few", "ext", "foot"}, OpKinds={"copy"}))
    # a copy and an edit of either side, in either order
    r2 = c.model("Id3v2Edit", invariants=["Out"], constants=dict(
        com, MaxOps=2, EmitAt=2, Starts={"few", "ext", "foot"} if c.thorough else {"ext"}, OpKinds={"copy", "mut", "erase", "pad", "field"}))
    r3 = c.model("Id3v2Edit", invariants=["Out"], constants=dict(
        com, MaxOps=7, EmitAt=7, Starts={"empty", "few", "ext", "foot", "flags"},
        OpKinds={"copy", "mut", "erase", "set", "pad", "field", "removeif", "comment", "del", "push"}),
        simulate=8000 if c.thorough else 280, depth=9)
    traces = []
    bs = [b for b in r1.traces + r2.traces + r3.traces
          if any(o["op"] in ("copy", "clone", "assign") for o in b["ops"])]
    for j, b in enumerate(bs):
        ids = E.look_ids(b["hist"][0]["a"])
        t, at = E.start(b), []
        n = len(b["ops"])
        for k, o in enumerate(b["ops"]):
            t += E.command(o, b["start"], b["hist"][k + 1])
            last = k + 1 == n
            for s in "ab":
                if b["hist"][k + 1][s]["ver"] == 0:
                    continue
                if last or (j + k) % 3 == 0:
                    t += ["t.look %s %s" % (s, ids), "t.obs " + s]
                    at += [("look", k, len(t) - 2, s), ("obs", k, len(t) - 1, s)]
                if last or (j + k) % 4 == 1:
                    t += ["t.write %s 0" % s, "t.write %s 1" % s]
                    at += [("plain", k, len(t) - 2, s), ("unsync", k, len(t) - 1, s)]
        traces.append((t, at))
    obs = replay(drv, [t for t, _ in traces])
    for b, (t, at), o in zip(bs, traces, obs):
        c.ran({"start": b["start"], "ops": b["ops"]}, len(t))
        rep = {"commands": t, "observed": o}
        if len(o) < len(t):
            c.violation("crash: %s in %s" % (o[-1], t), rep)
            continue
        for what, k, i, s in at:
            snap = b["hist"][k + 1][s]
            if what == "look":
                d = E.check_look(snap, o[i])
            elif what == "obs":
                d = K.check_obs(snap, o[i])
            else:
                d = E.check_write(snap, o[i], what == "unsync")
            if d:
                c.violation("%s: %s" % (t[:i + 1], d), rep)
                break
    return c.finish()


main(run)
