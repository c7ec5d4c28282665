#!/usr/bin/env python3
"""Text through every route and encoding."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import codec as K  # noqa

# encodings the library can be given or asked for as plain strings
SRC = ["ASCII", "ISO-8859-1", "ISO-8859-15", "CP1251", "UTF-8", "ISO-2022-JP"]
DST = ["UTF-8", "ISO-8859-1", "ASCII", "CP1251", "ISO-2022-JP"]
LIB = {"UTF-16": "UTF-16LE", "UCS-2": "UCS-2LE", "UTF-32": "UTF-32LE"}
TIT2 = {2: "TT2", 3: "TIT2", 4: "TIT2"}
COMM = {2: "COM", 3: "COMM", 4: "COMM"}
TXXX = {2: "TXX", 3: "TXXX", 4: "TXXX"}


def same(got, e):
    """got: hex or null; e: what the specification says (blanks at the end may go)"""
    if got is None:
        return not e["ok"]
    if not e["ok"] or not isinstance(got, str):
        return False
    return bytes.fromhex(got).rstrip(b"\0 ") == bytes(e["b"]).rstrip(b"\0 ")


class Plan:
    """commands of one behaviour with what is expected of each"""

    def __init__(self, b):
        self.b, self.t, self.want = b, [], {}

    def do(self, cmd, want=None):
        self.t.append(cmd)
        if want:
            self.want[len(self.t) - 1] = want

    def ask(self, i, part, b=None):
        for d in DST:
            self.do("t.texts a %d %s fail" % (i, d), lambda o, d=d: same(o.get(part), (b or self.b)["trim"][d]))


def frames_in(b, ver):
    """every way a text may be stored in a frame of that version: (encoding byte, text bytes)"""
    res = []
    if b["enc"]["ISO-8859-1"]["ok"]:
        res.append((0, b["enc"]["ISO-8859-1"]["b"], 1))
    for e in ("UCS-2LE", "UCS-2BE") if ver < 4 else ("UTF-16LE", "UTF-16BE"):
        if b["enc"][e]["ok"]:
            res.append((1, b["mark"][e] + b["enc"][e]["b"], 2))
    if ver == 4:
        res.append((2, b["enc"]["UTF-16BE"]["b"], 2))
        res.append((3, b["enc"]["UTF-8"]["b"], 1))
        res.append((3, b["mark"]["UTF-8"] + b["enc"]["UTF-8"]["b"], 1))
    return res


def plans(b, other, rnd):
    # plain conversions
    p = Plan(b)
    for s in sorted(b["enc"]):
        if not b["enc"][s]["ok"]:
            continue
        for mark in ((0, 1) if b["mark"][s] else (0,)):
            for d in DST:
                if mark and s == "UTF-8" and d != "UTF-8":
                    continue   # plain conversions keep a UTF-8 mark (existing tests say so)
                p.do("x.str %s %s %s fail" % (hx((b["mark"][s] if mark else []) + b["enc"][s]["b"]), s, d),
                     lambda o, d=d: same(o, b["trim"][d]))
    if 0 not in b["text"]:
        for s in SRC:
            if not b["enc"][s]["ok"]:
                continue
            for d in sorted(b["enc"]) + sorted(LIB):
                for bom in (0, 1):
                    e = b["enc"].get(d) or b["enc"][LIB[d]]
                    m = bytes(b["mark"].get(d) or b["mark"].get(LIB.get(d), []))
                    ok = [None] if not e["ok"] else []
                    if e["ok"]:
                        raw = bytes(e["b"])
                        if d in ("UTF-16", "UTF-32"):
                            ok = [m + raw, raw]   # the mark is this encoding's own business
                        elif bom and raw:
                            ok = [m + raw]
                        else:
                            ok = [raw, m] if not raw else [raw]
                    p.do("x.vec %s %s %s %d fail" % (hx(b["enc"][s]["b"]), s, d, bom),
                         lambda o, ok=ok: (None if o is None else bytes.fromhex(o)) in ok)
    # characters the target has no bytes for, when asked to ignore them
    for s in ("UTF-8", "UTF-16LE", "UTF-32BE"):
        for d in DST:
            keep = bytes(b["skip"][d])
            p.do("x.str %s %s %s ignore" % (hx(b["enc"][s]["b"]), s, d),
                 lambda o, keep=keep: same(o, {"ok": True, "b": keep}))
    yield p
    # frames read from their bytes
    p = Plan(b)
    for ver in (2, 3, 4):
        for u, x, cb in frames_in(b, ver):
            p.do("t.new a %d 0 0 0" % ver)
            p.do("t.push a text:%s:%s 0" % (TIT2[ver], hx([u] + x)))
            p.ask(0, "text")
            if 0 in b["text"]:
                continue
            y = [f[1] for f in frames_in(other, ver) if f[0] == u]
            if not y:
                continue
            y = y[0]
            p.do("t.push a COMM:%s:%s 0" % (COMM[ver], hx([u, 101, 110, 103] + y + [0] * cb + x)))
            p.do("t.push a TXXX:%s:%s 0" % (TXXX[ver], hx([u] + x + [0] * cb + y)))
            for i, part, q in ((1, "text", b), (1, "desc", other), (2, "desc", b), (2, "text", other)):
                d = rnd.choice(DST)
                p.do("t.texts a %d %s fail" % (i, d), lambda o, d=d, q=q, part=part: same(o.get(part), q["trim"][d]))
    yield p
    if 0 in b["text"]:
        return
    # text set through the library, in any source encoding, then written and read back
    p = Plan(b)
    for ver in (2, 3, 4):
        for s in SRC:
            e = b["enc"][s]
            if not e["ok"]:
                continue
            for how in (("no",) if ver < 4 else ("latin1", "utf16bom", "utf16be", "utf8")):
                bom = rnd.randrange(2) if how != "latin1" else 0
                fits = b["store"][str(ver)][how]
                p.do("t.new a %d 0 0 0" % ver)
                p.do("t.push a text:%s:0058 0" % TIT2[ver])
                p.do("t.setx a 0 %s %s %s %d" % (hx(e["b"]), s, how, bom),
                     lambda o, fits=fits: (o == 0) == fits)
                p.do("t.reread a a 0")
                if fits:
                    p.ask(0, "text")
                else:
                    p.do("t.texts a 0 UTF-8 fail", lambda o: o.get("text") == "58")
            f = rnd.choice(["album", "artist", "title", "tit1"])
            fits = b["store"][str(ver)]["no"]
            p.do("t.new a %d 0 0 0" % ver)
            p.do("t.fieldx a %s %s %s %d" % (f, hx(e["b"]), s, rnd.randrange(2)),
                 lambda o, fits=fits: (o == 0) == fits)
            if fits:
                p.do("t.reread a a 1")
                for d in DST:
                    p.do("t.getx a %s %s" % (f, d),
                         lambda o, d=d: same(o if isinstance(o, str) else None, b["trim"][d]))
    yield p
    if 0 in other["text"]:
        return
    p = Plan(b)
    for ver in (2, 3, 4):
        for s in SRC:
            e, g = b["enc"][s], other["enc"][s]
            if not (e["ok"] and g["ok"]):
                continue
            for u in (0, 1, 2):
                kind = rnd.choice(["commx", "udtx"])
                into = "ISO-8859-1" if u == 0 else "UTF-8" if ver == 4 else "UCS-2BE"
                fits = b["enc"][into]["ok"] and other["enc"][into]["ok"]
                p.do("t.new a %d 0 0 0" % ver)
                p.do("t.%s a %s %s %s %d" % (kind, hx(e["b"]), hx(g["b"]), s, u),
                     lambda o, fits=fits: (o == 0) == fits)
                if not fits:
                    continue
                p.do("t.reread a a 0")
                for part, q in (("text", b), ("desc", other)):
                    d = rnd.choice(DST)
                    p.do("t.texts a 0 %s fail" % d,
                         lambda o, d=d, q=q, part=part: same(o.get(part), q["trim"][d]))
                if kind == "commx":
                    p.do("t.mutx a 0 desc %s %s" % (hx(e["b"]), s), lambda o: o == 0)
                    p.do("t.mutx a 0 text %s %s" % (hx(g["b"]), s), lambda o: o == 0)
                    p.do("t.reread a a 1")
                    for part, q in (("desc", b), ("text", other)):
                        p.do("t.texts a 0 UTF-8 fail",
                             lambda o, q=q, part=part: same(o.get(part), q["trim"]["UTF-8"]))
    yield p


def run():
    c = Check("S04")
    drv = B.build(("driver",))["driver"]
    chars = [65, 32, 0xE9, 0xFE, 0xFF, 0x416, 0x44E, 0x44F, 0x20AC, 0x8A9E, 0x1D11E, 0x100]
    longs = {(65, n, x) for n in (60, 300, 5000) for x in (65, 0xE9, 0x20AC)} | {
        (0x416, 700, 65), (0x20AC, 2000, 0x416), (0x1D11E, 900, 0xFF), (0xE9, 4000, 0xFE),
        (0x8A9E, 40, 65), (65, 40, 0x8A9E)}
    r = c.model("Text", invariants=["Lossless", "Marks", "Wider", "Out"], constants=dict(
        Chars=set(chars), MaxLen=3 if c.thorough else 2, Longs=longs))
    r2 = c.model("Text", invariants=["Lossless", "Marks", "Wider", "Out"], constants=dict(
        Chars={0, 65, 0xFF, 0x20AC}, MaxLen=3, Longs={(65, 3, 66)}))
    rnd = random.Random(c.seed)
    bs = r.traces + r2.traces
    bs.sort(key=lambda b: (len(b["text"]), b["text"]))
    ps = []
    short = [b for b in bs if len(b["text"]) < 10]
    for b in bs:
        # descriptions have no terminators in them; nor, here, blanks at their end
        other = rnd.choice([x for x in short if 0 not in x["text"]])
        ps += list(plans(b, other, rnd))
    obs = replay(drv, [p.t for p in ps])
    for p, o in zip(ps, obs):
        c.ran({"text": p.b["text"], "commands": p.t[:3]}, len(p.t))
        rep = {"commands": p.t, "observed": o}
        if len(o) < len(p.t):
            c.violation("crash: %s in %s" % (o[-1], p.t[len(o) - 1]), rep)
            continue
        for i, want in sorted(p.want.items()):
            try:
                ok = want(o[i])
            except AttributeError:
                ok = False
            if not ok:
                j = max([k for k in range(i + 1) if p.t[k].startswith(("t.new", "x."))] + [0])
                c.violation("text %s: %s gave %s" % (p.b["text"][:20], p.t[j:i + 1], str(o[i])[:400]), rep)
                break
    return c.finish()


main(run)
