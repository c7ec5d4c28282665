#!/usr/bin/env python3
"""ID3v1 fields: histories of building/reading a tag and setting its fields."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa

INV = ["SizeOK", "RoundTrip", "ByteExact", "ReadExact", "Out"]


def sources(seed, n):
    """byte strings read as tags: structured, with single bytes disturbed, and random"""
    rnd = random.Random(seed)

    def base(ext, fill):
        b = bytearray([fill]) * (355 if ext else 128)
        if ext:
            b[0:4] = b"TAG+"
        b[-128:-125] = b"TAG"
        return b
    out = set()
    for ext in (False, True):
        for fill in (0, 65):
            b = base(ext, fill)
            for i in range(len(b)):
                for v in (0, 1, 84, 255):
                    c = bytearray(b)
                    c[i] = v
                    out.add(bytes(c))
        for _ in range(n):
            c = base(ext, 0)
            for i in range(len(c)):
                c[i] = rnd.choice((0, 0, 65, 84, 255, rnd.randrange(256)))
            c[-128:-125] = b"TAG"
            if ext:
                c[0:4] = b"TAG+"
            out.add(bytes(c))
            # audio-looking plain titles
            c[-128:-124] = b"TAG+"
            out.add(bytes(c))
    return sorted(out)


def valid(b):
    return (len(b) == 128 and b[:3] == b"TAG") or (
        len(b) == 355 and b[:4] == b"TAG+" and b[227:230] == b"TAG")


def expect_obs(t):
    e = {"title": hx2(t["title"]), "artist": hx2(t["artist"]), "album": hx2(t["album"]),
         "year": hx2(t["year"]), "comment": hx2(t["comment"]), "genre": t["genre"],
         "v11": t["v11"], "ext": t["ext"], "size": 355 if t["ext"] else 128,
         "has_track": t["v11"], "track": t["track"] if t["v11"] else 0,
         "has_speed": t["ext"]}
    if t["ext"]:
        e.update(enh_genre=hx2(t["egenre"]), start_time=hx2(t["start"]),
                 end_time=hx2(t["end"]), speed=t["speed"])
    return e


def hx2(b):
    return bytes(b).hex()


def run():
    c = Check("L01")
    drv = B.build(("driver",))["driver"]
    lens = [0, 1, 4, 6, 27, 28, 29, 30, 31, 60, 61, 89, 90, 91, 95]
    srcs = sources(c.seed, 20)
    some = [b for b in srcs if valid(b)][:: 700]
    r1 = c.model("Id3v1Edit", invariants=INV, properties=["Frame"], constants=dict(
        MaxOps=2, EmitAt=0, Lens={0, 5, 29, 31, 91}, Nums={0, 7, 255},
        Sources=set(map(tuple, some))))
    r2 = c.model("Id3v1Edit", invariants=INV, constants=dict(
        MaxOps=0, EmitAt=0, Lens={0}, Nums={0}, Sources=set(map(tuple, srcs))))
    r3 = c.model("Id3v1Edit", invariants=["Out"], constants=dict(
        MaxOps=12, EmitAt=12, Lens=set(lens), Nums={0, 1, 13, 128, 255},
        Sources=set(map(tuple, some))),
        simulate=20000 if c.thorough else 600, depth=14)
    behaviours = r1.traces + r2.traces + r3.traces
    traces = []
    for b in behaviours:
        s = b["src"]
        if s["how"] == "new":
            t = ["v1.new a %d %d" % (s["v11"], s["ext"])]
        else:
            t = ["v1.read a " + hx(s["bytes"])]
        for o in b["ops"]:
            if o["op"] == "set":
                t.append("v1.set a %s %s" % (o["f"], hx(o["x"])))
            else:
                t.append("v1.setn a %s %d" % (o["f"], o["n"]))
        t += ["v1.obs a", "v1.write a", "v1.copy a b", "v1.read a " + hx(b["bytes"]),
              "v1.obs a", "v1.write b",
              "v1.read2 a %s %d" % (hx(b["bytes"]), b["tag"]["ext"]), "v1.obs a"]
        traces.append(t)
    obs = replay(drv, traces)
    for b, t, o in zip(behaviours, traces, obs):
        want = expect_obs(b["tag"])
        back = expect_obs(b["back"])
        bts = hx2(b["bytes"])
        n = len(b["ops"]) + 1
        exp = [want, bts, 0, None, back, bts, None, back]
        c.ran({"src": b["src"]["how"], "ops": b["ops"], "tag": b["tag"]}, len(t))
        got = o[n:]
        if len(o) < len(t):
            c.violation("crash: %s in %s" % (o[-1], t[:n]), {"commands": t, "observed": o})
            continue
        for k, e in enumerate(exp):
            if e is not None and got[k] != e:
                c.violation("%s after %s: expected %s, observed %s" % (
                    t[n + k], t[:n], e, got[k]),
                    {"commands": t, "expected": exp, "observed": o})
                break
    return c.finish()


main(run)
