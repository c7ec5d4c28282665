#!/usr/bin/env python3
"""Lookups against edits: after every edit of a history the tag reports what a plain
list of frames with the same edits would."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import codec as K  # noqa
import edits as E  # noqa

OPS = {"push", "ins", "erase", "eraser", "set", "removeif", "field", "text", "del", "comment",
       "udt", "mut"}


def run():
    c = Check("E01")
    drv = B.build(("driver",))["driver"]
    com = dict(Generics=E.GENERICS, Vers={2, 3, 4}, OpKinds=OPS, Looks=True, Writes=False, Zip=K.zips([(65,)]))
    r0 = c.model("Id3v2Edit", invariants=["WellFormed", "Out"], constants=dict(
        com, MaxOps=1, EmitAt=1, Starts={"empty", "texts"}, NonDet=True, OpKinds={"text", "del"},
        Generics=T.Raw("TextIds(3)")))
    r1 = c.model("Id3v2Edit", invariants=["Countable", "WellFormed", "Out"],
                 properties=["Independent"], constants=dict(
        com, MaxOps=1, EmitAt=1, Starts={"empty", "few"}, NonDet=True))
    two = {"push", "ins", "erase", "field", "del", "set", "mut"} if not c.thorough else OPS
    r2 = c.model("Id3v2Edit", invariants=["Out"], constants=dict(
        com, Vers={2, 3, 4}, MaxOps=2, EmitAt=2, Starts={"few"}, OpKinds=two - {"set", "ins", "mut"},
        NonDet=True))
    r3 = c.model("Id3v2Edit", invariants=["Out"], constants=dict(
        com, MaxOps=10, EmitAt=10, Starts={"empty", "few", "flags"}, NonDet=False),
        simulate=20000 if c.thorough else 420, depth=12)
    groups = {}
    for b in r0.traces + r1.traces + r2.traces + r3.traces:
        groups.setdefault(E.key(b), []).append(b)
    groups = list(groups.values())
    traces = []
    for i, g in enumerate(groups):
        b = g[0]
        ids = E.look_ids(b["hist"][0]["a"])
        t = E.start(b)
        at = []
        n = len(b["ops"])
        for k, o in enumerate(b["ops"]):
            t += E.command(o, b["start"], b["hist"][k + 1])
            if o["op"] != "fresh":
                at.append(("op", k, len(t) - 1))
            if o["op"] == "text":
                t.append("t.gettext a " + o["name"].lower())
                at.append(("get", k, len(t) - 1))
            if (i + k) % 3 == 0 or k + 1 == n:
                t += ["t.look a " + ids, "t.obs a"]
                at += [("look", k, len(t) - 2), ("obs", k, len(t) - 1)]
        traces.append((t, at))
    obs = replay(drv, [t for t, _ in traces])
    for g, (t, at), o in zip(groups, traces, obs):
        c.ran({"start": g[0]["start"], "ops": g[0]["ops"]}, len(t))
        if len(o) < len(t):
            c.violation("crash: %s in %s" % (o[-1], t), {"commands": t, "observed": o})
            continue
        why = []
        for b in g:
            d = None
            for what, k, i in at:
                snap = b["hist"][k + 1]["a"]
                if what == "op":
                    d = None if o[i] == E.result(b["ops"][k]) else "answered %s" % (o[i],)
                elif what == "get":
                    x = hx(b["ops"][k]["x"]).replace("-", "")
                    d = None if o[i] == x else "reads %s, not %s" % (o[i], x)
                elif what == "look":
                    d = E.check_look(snap, o[i])
                else:
                    d = K.check_obs(snap, o[i])
                if d:
                    why.append("%s: %s" % (t[i], d))
                    break
            if not d:
                break
        else:
            c.violation("after %s: %s" % (t, why[0]), {
                "commands": t, "observed": o, "why": why, "history": g[0]["ops"]})
    return c.finish()


main(run)
