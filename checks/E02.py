#!/usr/bin/env python3
"""Sizes and writes interleaved with edits: each reflects the tag of that moment and
leaves it alone."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import codec as K  # noqa
import edits as E  # noqa

OPS = {"push", "erase", "set", "field", "del", "comment", "udt", "pad", "mut"}
QUERIES = (("size", "t.size a"), ("plain", "t.write a 0"), ("unsync", "t.write a 1"))


def run():
    c = Check("E02")
    drv = B.build(("driver",))["driver"]
    com = dict(Generics=E.GENERICS, Vers={2, 3, 4}, OpKinds=OPS, Looks=False, Writes=True, Zip=K.zips([(65,)]), NonDet=False)
    r1 = c.model("Id3v2Edit", invariants=["WellFormed", "Out"], constants=dict(
        com, MaxOps=1, EmitAt=1, Starts={"empty", "few", "ext", "foot", "flags"}))
    r2 = c.model("Id3v2Edit", invariants=["Out"], constants=dict(
        com, MaxOps=2, EmitAt=2, Starts={"few", "flags"} if not c.thorough else {"few", "flags", "ext"},
        OpKinds={"mut", "pad"}))
    r3 = c.model("Id3v2Edit", invariants=["Out"], constants=dict(
        com, MaxOps=6, EmitAt=6, Starts={"empty", "few", "ext", "foot", "flags"}),
        simulate=12000 if c.thorough else 560, depth=8)
    rnd = random.Random(c.seed)
    bs, traces = [], []
    for b in r1.traces + r2.traces + r3.traces:
        n = len(b["ops"])
        # which queries come before each edit: all orders for single edits, chosen ones otherwise
        plans = [[[q] for q in QUERIES] + [list(QUERIES), [QUERIES[2], QUERIES[1]]]] if n == 1 else [
            [[q for q in QUERIES if rnd.random() < 0.5] for _ in range(n)]]
        for plan in ([[p] for p in plans[0]] if n == 1 else plans):
            t, at = E.start(b), []
            for k, o in enumerate(b["ops"]):
                for what, q in plan[k]:
                    t.append(q)
                    at.append((what, k, len(t) - 1))
                t += E.command(o, b["start"], b["hist"][k + 1])
            last = list(QUERIES) + [("obs", "t.obs a")]
            rnd.shuffle(last)
            for what, q in last:
                t.append(q)
                at.append((what, n, len(t) - 1))
            bs.append(b)
            traces.append((t, at))
    obs = replay(drv, [t for t, _ in traces])
    for b, (t, at), o in zip(bs, traces, obs):
        c.ran({"start": b["start"], "ops": b["ops"]}, len(t))
        rep = {"commands": t, "observed": o}
        if len(o) < len(t):
            c.violation("crash: %s in %s" % (o[-1], t), rep)
            continue
        for what, k, i in at:
            snap = b["hist"][k]["a"]
            if what == "size":
                d = E.check_size(snap, o[i], c, "after %s" % t[:i], rep)
            elif what == "obs":
                d = K.check_obs(snap, o[i])
            else:
                d = E.check_write(snap, o[i], what == "unsync")
            if d:
                c.violation("%s: %s" % (t[:i + 1], d), rep)
                break
    return c.finish()


main(run)
