#!/usr/bin/env python3
"""Play counts and popularimeters: exact counters of any width."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa

ID = {"PCNT": {2: "CNT", 3: "PCNT", 4: "PCNT"}, "POPM": {2: "POP", 3: "POPM", 4: "POPM"}}


def val(b):
    return int.from_bytes(bytes(b), "big")


def run():
    c = Check("S05")
    drv = B.build(("driver",))["driver"]
    edge = [0, 1, 5, 127, 128, 254, 255, 256, 65279, 65535, 65536, 0xFFFFFE, 0xFFFFFF, 0x1000000, 0x7FFFFFFF,
            0x80000000, 0xFFFFFFFE, 0xFFFFFFFF, 0x100000000, 0xFFFFFFFFFF, 0xFFFFFFFFFFFFFF,
            0x7FFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFE, 0xFFFFFFFFFFFFFFFF]

    def minimal(n):
        return tuple(n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big"))
    starts = set()
    for n in edge:
        m = minimal(n)
        starts.add(m)
        for w in (4, 8, 9, 11):
            if len(m) < w:
                starts.add((0,) * (w - len(m)) + m)
    starts |= {(1,) + (0,) * 8, (255,) * 9, ()}
    vals = {minimal(n) for n in edge}
    com = dict(Owners={(), (65, 64)}, Ratings={0, 255})
    inv, props = ["Small", "Out"], ["Grows", "Others"]
    r1 = c.model("Counter", invariants=inv, properties=props,
                 constants=dict(com, Starts=starts, Values=vals, MaxOps=1, EmitAt=1))
    r2 = c.model("Counter", invariants=inv, properties=props, constants=dict(
        com, Starts={minimal(n) for n in (0, 254, 65535, 0xFFFFFFFE, 0xFFFFFFFFFFFFFFFE)},
        Values={minimal(n) for n in (255, 0xFFFFFFFF, 0xFFFFFFFFFFFFFFFF)},
        MaxOps=4 if c.thorough else 3, EmitAt=4 if c.thorough else 3))
    bs = r1.traces + r2.traces
    traces = []
    for j, b in enumerate(bs):
        # the counter as found, leading zeroes included
        pad = [[], [0, 0], [0, 0, 0, 0]][j % 3] if len(b["start"]["value"]) else [0] * (j % 5)
        data = pad + b["start"]["value"]
        if b["kind"] == "POPM":
            data = b["own"] + [0, b["start"]["rating"]] + data
        b["ver"] = ver = 2 + j % 3
        t = ["t.new a %d 0 0 0" % ver, "t.push a %s:%s:%s 0" % (b["kind"], ID[b["kind"]][ver], hx(data)),
             "t.mut a 0 getcount 0", "t.obs a"]
        for o in b["ops"]:
            if o["op"] == "reread":
                t.append("t.reread a a %d" % o["n"])
            elif o["op"] == "count":
                t.append("t.mut a 0 count %d" % val(o["b"]))
            else:
                t.append("t.mut a 0 %s %d" % (o["op"], o["n"]))
            t += ["t.mut a 0 getcount 0", "t.obs a"]
        traces.append(t)
    obs = replay(drv, traces)
    for b, t, o in zip(bs, traces, obs):
        c.ran({"kind": b["kind"], "start": b["start"], "ops": b["ops"]}, len(t))
        rep = {"commands": t, "observed": o}
        if len(o) < len(t):
            c.violation("crash: %s in %s" % (o[-1], t), rep)
            continue

        def bad(what):
            c.violation("%s: %s" % (t, what), rep)
        for k, h in enumerate(b["hist"]):
            i = 2 + 3 * k
            if k:
                op, got = b["ops"][k - 1], o[i - 1]
                fail = isinstance(got, dict) and "err" in got
                if fail == op["ok"]:
                    bad("%s answered %s" % (t[i - 1], got))
                    break
            want = val(h["value"])
            if h["fits"] and o[i] != want or not h["fits"] and not (isinstance(o[i], dict) and "err" in o[i]):
                bad("count is %s instead of %s" % (o[i], want if h["fits"] else "an error"))
                break
            try:
                f = o[i + 1]["frames"][0]
                ctr = f["counter"]
            except (KeyError, TypeError, IndexError):
                bad("no frame: %s" % (o[i + 1],))
                break
            if val(bytes.fromhex(ctr)) != want:
                bad("counter bytes %s instead of %d" % (ctr, want))
                break
            if b["kind"] == "POPM" and (f["rating"] != h["rating"] or f["owner"] != bytes(h["own"]).hex()):
                bad("rating %s, owner %s" % (f["rating"], f["owner"]))
                break
    return c.finish()


main(run)
