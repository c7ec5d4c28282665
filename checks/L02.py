#!/usr/bin/env python3
"""ID3v1 tags at the end of files: detection, replacement, removal."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa


def plain(ch, comment=b""):
    return b"TAG" + bytes([ch]) * 30 + b"artist".ljust(30, b"\0") + b"album".ljust(30, b"\0") + \
        b"1999" + comment.ljust(30, b"\0") + b"\x11"


def ext(ch):
    return b"TAG+" + bytes([ch]) * 180 + b"\x02" + b"genre".ljust(30, b"\0") + b"001:00" + b"002:00" + plain(ch)


def run():
    c = Check("L02")
    drv = B.build(("driver",))["driver"]
    tags = [plain(ord("a")), plain(ord("+")), ext(ord("b")), plain(ord("c"), b"x" * 28 + b"\0\x07")]
    fill = bytes((i * 7 + 3) % 251 for i in range(1000))
    bodies = [b"", b"\xff", fill[:127], fill[:128], fill[:226], fill[:227], fill[:228], fill[:354],
              fill[:355], fill[:356], fill[:1000],
              b"TAG" + fill[:125], b"TAG+" + fill[:223], b"TAG+" + fill[:351],
              fill[:50] + b"TAG+" + fill[:351], fill[:10] + b"TAG" + fill[:125],
              fill[:10] + b"TAG+" + fill[:223], b"TAG+" + fill[:223] + b"TAX" + fill[:125],
              fill[:400] + b"TAG", fill[:400] + b"TA"]
    tails = [b"", tags[0], tags[1], tags[2], b"TAG", b"TAG" + fill[:124], b"TAG" + fill[:126],
             tags[0] + tags[2], tags[2] + tags[0], tags[0] + b"\0", tags[2] + b"\0"]
    r = c.model("Id3v1File", invariants=["FoundAgain", "Out"], properties=["BodyKept"],
                constants=dict(Bodies=set(map(tuple, bodies)), Tails=set(map(tuple, tails)),
                               Tags=list(map(list, tags)), MaxOps=3 if c.thorough else 2))
    traces = []
    for i, b in enumerate(r.traces):
        f = "@CWD@/t%d.mp3" % i
        t = ["v1.read t%d %s" % (k + 1, hx(x)) for k, x in enumerate(tags)]
        n0 = len(t)
        t.append("f.put %s %s" % (f, hx(b["ops"][0]["file"])))
        for o in b["ops"][1:]:
            t.append("v1.replace %s t%d" % (f, o["k"]) if o["op"] == "replace" else "v1.remove " + f)
            t.append("f.get " + f)
        n = len(b["ops"][-1]["file"])
        n1 = len(t)
        for pos in sorted({0, n // 2, n}):
            t.append("v1.detect %s %d" % (f, pos))
            t.append("v1.process %s %d" % (f, pos))
        t.append("f.get " + f)
        traces.append((t, n0, n1))
    obs = replay(drv, [t for t, _, _ in traces])
    for b, (t, n0, n1), o in zip(r.traces, traces, obs):
        ops = b["ops"]
        c.ran({"start": bytes(ops[0]["file"]).hex(), "ops": [(x["op"], x["k"]) for x in ops[1:]],
               "trailing": b["trailing"]}, len(t) - n0)
        rep = {"commands": t, "observed": o, "model": b}
        if len(o) < len(t):
            c.violation("crash: %s" % (o[-1],), rep)
            continue
        bad = None
        for k, x in enumerate(ops[1:]):
            if o[n0 + 2 + 2 * k] != bytes(x["file"]).hex():
                bad = "after %s the file is %s, should be %s" % (
                    [y["op"] for y in ops[: k + 2]], o[n0 + 2 + 2 * k], bytes(x["file"]).hex())
                break
        last = bytes(ops[-1]["file"])
        tr = b["trailing"]
        for k in range(n1, len(t) - 1):
            if bad:
                break
            pos = int(t[k].split()[2])
            if t[k].startswith("v1.detect"):
                e = {"kind": tr["kind"], "pos": pos, "mask": 0}
                if tr["kind"] != "none":
                    e.update(start=tr["start"], end=len(last))
            else:
                e = {"found": tr["kind"] != "none", "pos": pos, "mask": 0}
                if tr["kind"] != "none":
                    e["bytes"] = last[tr["start"]:].hex()
            if o[k] != e:
                bad = "%s: observed %s, expected %s (file %s)" % (t[k], o[k], e, last.hex())
        if not bad and o[-1] != last.hex():
            bad = "reading the tag changed the file"
        if bad:
            c.violation(bad, rep)
    return c.finish()


main(run)
