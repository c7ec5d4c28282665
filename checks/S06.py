#!/usr/bin/env python3
"""Tag clouds: set semantics, text and bytes."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa

XTAG = {2: "XTG", 3: "XTAG", 4: "XTAG"}


def run():
    c = Check("S06")
    drv = B.build(("driver",))["driver"]
    inv, props = ["TextKeeps", "BytesKeep", "Out"], ["Grows"]
    own = (115, 64, 112)
    k1 = {(97,), (37, 38), (61, 43), (98, 32, 44), (195, 169)}
    v1 = {(), (37,), (44,), (255, 1)}
    r1 = c.model("CloudEdit", invariants=inv, properties=props, constants=dict(
        Keys=k1, Vals=v1, Owner=own, MaxOps=0, EmitAt=0, Styles=set(), MaxKeys=2))
    r2 = c.model("CloudEdit", invariants=inv, properties=props, constants=dict(
        Keys={(97,), (37, 50, 53)}, Vals={(38,)}, Owner=own, MaxOps=2, EmitAt=2,
        Styles={"own"}, MaxKeys=1))
    r3 = c.model("CloudEdit", invariants=["Out"], constants=dict(
        Keys=k1, Vals=v1 - {(255, 1)}, Owner=own, MaxOps=8, EmitAt=8, Styles={"own", "bare", "full"}, MaxKeys=1),
        simulate=10000 if c.thorough else 700, depth=10)
    bs = r1.traces + r2.traces + r3.traces
    traces = []
    for j, b in enumerate(bs):
        o = hx(b["owner"])
        t = ["k.raw a " + hx(b["hist"][0]["bytes"])] if j % 2 else ["k.new a %s %s" % (o, hx(b["hist"][0]["text"]))]
        at = []

        def look(k, t=t, at=at):
            t.append("k.map a")
            at.append(("map", k, len(t) - 1))
            t.append("k.text a")
            at.append(("text", k, len(t) - 1))
            t.append("k.bytes a")
            at.append(("bytes", k, len(t) - 1))
        look(0)
        for k, op in enumerate(b["ops"], 1):
            before = b["hist"][k - 1]
            n = op["op"]
            if n in ("merge", "update"):
                t.append("k.%s a %s" % (n, hx(op["text"])))
                at.append(("ok", k, len(t) - 1))
            elif n == "new":
                t.append("k.new a %s %s" % (o, hx(op["text"])))
                at.append(("ok", k, len(t) - 1))
            elif n == "addkey":
                t.append("k.addkey a " + hx(op["k"]))
                at.append(("bool", k, len(t) - 1))
            elif n == "addval":
                t.append("k.addval a %s %s" % (hx(op["k"]), hx(op["v"])))
                at.append(("bool", k, len(t) - 1))
            elif n == "viatext":
                t.append("k.new a %s %s" % (o, hx(before["text"])))
            else:
                t.append("k.raw a " + hx(before["bytes"]))
            if len(b["ops"]) < 4 or k % 2 == 0:
                look(k)
        # and as a frame of a tag
        ver = 2 + j % 3
        last = len(b["hist"]) - 1
        t += ["t.new t %d 3 0 0" % ver, "t.push t XTAG:%s:%s 0" % (XTAG[ver], hx(b["hist"][last]["bytes"])),
              "t.reread t t %d" % (j // 3 % 2), "t.obs t"]
        at.append(("frame", last, len(t) - 1))
        traces.append((t, at))
    obs = replay(drv, [t for t, _ in traces])
    for b, (t, at), o in zip(bs, traces, obs):
        c.ran({"start": b["hist"][0]["map"], "ops": b["ops"]}, len(t))
        rep = {"commands": t, "observed": o}
        if len(o) < len(t):
            c.violation("crash: %s in %s" % (o[-1], t), rep)
            continue
        for what, k, i in at:
            h, g = b["hist"][k], o[i]
            m = {bytes(kv[0]).hex(): [bytes(v).hex() for v in kv[1]] for kv in h["map"]}
            if what == "map":
                ok = isinstance(g, dict) and g.get("owner") == bytes(b["owner"]).hex() and \
                    {x: sorted(y) for x, y in g["map"].items()} == m
            elif what == "text":
                ok = isinstance(g, str) and parse(bytes.fromhex(g)) == m
            elif what == "bytes":
                n = len(h["bytes"])
                ok = g["n"] == g["size"] == n and wire(bytes.fromhex(g["bytes"])) == (bytes(b["owner"]).hex(), m)
            elif what == "bool":
                ok = g is b["ops"][k - 1]["ok"]
            elif what == "ok":
                ok = (g == 0) == b["ops"][k - 1]["ok"]
            else:
                try:
                    f = g["frames"][0]
                    ok = f["owner"] == bytes(b["owner"]).hex() and dict((x, sorted(y)) for x, y in f["cloud"]) == m
                except (KeyError, IndexError, TypeError):
                    ok = False
            if not ok:
                c.violation("%s gave %s instead of %s" % (t[:i + 1], g, h), rep)
                break
    return c.finish()


def parse(text):
    """an independent reading of a rendered cloud: any correct escaping will do"""
    from urllib.parse import unquote_to_bytes as u
    if not text:
        return {}
    m = {}
    for e in text.split(b"&"):
        k, s, v = e.partition(b"=")
        m[u(k).hex()] = sorted(u(x).hex() for x in v.split(b",")) if s else []
    return m


def wire(b):
    """an independent reading of a written cloud, in whatever order"""
    if b[:1] != b"\1":
        return None
    own, _, b = b[1:].partition(b"\0")
    m = {}
    while b:
        k, _, b = b.partition(b"\0")
        n = int.from_bytes(b[:4], "big")
        v, b = b[4:4 + n], b[4 + n:]
        if len(v) != n or (v and v[-1]):
            return None
        m[k.hex()] = sorted(x.hex() for x in v.split(b"\0")[:-1])
    return own.hex(), m


main(run)
