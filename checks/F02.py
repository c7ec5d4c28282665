#!/usr/bin/env python3
"""Updates of tagsets: requests from the specification are carried out by the
library, and what is then found in the file is checked against it."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import codec as K
import id3


def txt(ver, s):
    return id3.frame("TT2" if ver == 2 else "TIT2", b"\0" + s)


def prv(ver, s):
    return id3.frame("UFI" if ver == 2 else "UFID", b"me\0" + s)


CANDS = [
    id3.tag(2, [txt(2, b"two")]),
    id3.tag(2, [prv(2, b"\xff\xe0\xff")]),
    id3.tag(3, [txt(3, b"three")]),
    id3.tag(3, [txt(3, b"a longer one, of the same version"), prv(3, b"\xff\xfb\xff\x00")]),
    id3.tag(3, [prv(3, b"x\xff")], ext=True),
    id3.tag(4, [txt(4, b"four")]),
    id3.tag(4, [txt(4, b"a"), prv(4, b"z\xff")]),
    id3.tag(4, [prv(4, b"\xff\xff\xe1")], foot=True),
    id3.tag(4, [txt(4, b"extended")], ext=True, crc=True, upd=True),
    id3.tag(3, []),
]
KIND = {"TT2": "text", "TIT2": "text", "UFI": "UFID", "UFID": "UFID"}
ALL = list(range(1, len(CANDS) + 1))


def spec_tag(t):
    t = dict(t)
    t["frames"] = [dict(f, kind=KIND[f["id"]], data=list(f["data"])) for f in t["frames"]]
    return t


def seqs(ks, pads, n):
    x = [dict(k=k, pad=p) for k in ks for p in pads]
    res = [[]] + [[a] for a in x]
    if n > 1:
        res += [[a, b] for a in x for b in x]
    return res


def as_set(l):
    return T.Raw("{" + ", ".join(T.tla(x) for x in l) + "}")


def on_disk(data, rest):
    """the file as the specification sees it"""
    res, at = [], 0
    try:
        while data[at:at + 3] == b"ID3" and len(data) - at > len(rest):
            t, n = id3.decode(data[at:])
            raw = data[at:at + n]
            u = bool(raw[5] & 128)
            for k, c in enumerate(CANDS):
                if id3.encode(dict(c, pad=t["pad"]), u) == raw:
                    res.append(dict(k=k + 1, pad=t["pad"], u=u))
                    break
            else:
                return None
            at += n
    except id3.Malformed:
        return None
    return res if data[at:] == rest else None


RESTS = [b"", b"\xff\xfb\x90\0audio" * 20, b"ID", b"ID3", b"ID3\xff\0\0\0\0\0\x05audio", b"\0" * 30,
         b"audio" + b"TAG" + b"t" * 125]


def run():
    c = Check("F02")
    drv = B.build(("driver",))["driver"]
    base = dict(Cands=[spec_tag(t) for t in CANDS], Zip=K.zips([b""]))
    jobs = []
    # all of a small scope
    olds = [[]] + [[dict(k=k, pad=p, u=False)] for k in (1, 3, 6) for p in (0, 3)] + \
        [[dict(k=3, pad=p, u=False), dict(k=7, pad=q, u=q == 0)] for p in (0, 2, 60) for q in (0, 1, 61)]
    r = c.model("Tagset", invariants=["Out"], constants=dict(
        base, Olds=as_set(olds), News=as_set(seqs([3, 7], [0, 1, 4], 2)),
        Apis={"full", "reduce"}, Unsyncs={"needed", "always"}, MaxUpd=1))
    jobs += r.traces
    # histories over everything
    olds = [[]] + [[dict(k=k, pad=p, u=u)] for k in ALL for p in (0, 1, 20) for u in (False, True)] + \
        [[dict(k=k, pad=p, u=False), dict(k=(k * 3) % len(CANDS) + 1, pad=q, u=u)]
         for k in ALL for p in (0, 40) for q in (0, 7) for u in (False, True)] + \
        [[dict(k=k, pad=p, u=False), dict(k=(k * 3) % len(CANDS) + 1, pad=q, u=False), dict(k=3, pad=2, u=True)]
         for k in (1, 3, 6) for p in (250, 5000) for q in (0, 9000)]
    r = c.model("Tagset", invariants=["Out"], constants=dict(
        base, Olds=as_set(olds), News=as_set(seqs(ALL, [0, 1, 17], 1) + [
            [dict(k=k, pad=p), dict(k=(k + d) % len(CANDS) + 1, pad=q)]
            for k in ALL for d in (0, 1, 4) for p in (0, 30) for q in (0, 2)] + [
            [dict(k=k, pad=0), dict(k=3, pad=9), dict(k=7, pad=1)] for k in ALL]),
        Apis={"copy", "emplace", "full", "reduce"}, Unsyncs={"never", "always", "needed"}, MaxUpd=3),
        simulate=8000 if c.thorough else 2100, depth=6)
    jobs += r.traces

    traces = []
    for i, b in enumerate(jobs):
        f = "@CWD@/t%d.mp3" % i
        rest = RESTS[(i + c.seed) % len(RESTS)]
        t = ["f.put %s %s" % (f, hx(b"".join(
            id3.encode(dict(CANDS[x["k"] - 1], pad=x["pad"]), x["u"]) for x in b["start"]) + rest))]
        marks = []
        for n, s in enumerate(b["hist"]):
            slots = []
            for m, x in enumerate(s["req"]):
                tag = dict(CANDS[x["k"] - 1], pad=x["pad"])
                slot = "s%d_%d" % (n, m)
                t += K.build(slot, spec_tag(tag), id3.encode(tag), False)
                slots.append(slot)
            w = " ".join(slots)
            t.append("s.copy %s %s 0 %s" % (f, s["how"], w) if s["api"] == "copy" else
                     "s.emplace %s %s %s" % (f, s["how"], w) if s["api"] == "emplace" else
                     "s.maybe %s %s %s 0 %s" % (f, s["how"], s["api"], w))
            t.append("f.get " + f)
            marks.append(len(t) - 2)
        traces.append((t, marks, rest))
    obs = replay(drv, [t for t, _, _ in traces])
    recs, reps = [], {}
    for i, (b, (t, marks, rest), o) in enumerate(zip(jobs, traces, obs)):
        c.ran({"start": b["start"], "hist": b["hist"]}, len(marks))
        rep = {"commands": t, "observed": o, "model": b}
        if len(o) < len(t) or isinstance(o[-1], Crash):
            c.violation("crash: %s" % (o[-1],), rep)
            continue
        steps, bad = [], None
        for s, m in zip(b["hist"], marks):
            ok = not (isinstance(o[m], dict) and "err" in o[m])
            disk = on_disk(bytes.fromhex(o[m + 1]), rest)
            if disk is None:
                bad = "the file no longer holds tags out of those requested followed by the rest, after %s" % s
                break
            steps.append(dict(s, ok=ok, disk=disk))
        if bad:
            c.violation(bad, rep)
            continue
        recs.append(dict(id=i, start=b["start"], steps=steps))
        reps[i] = rep
    d = scratch_dir()
    try:
        fn = os.path.join(d, "recs.json")
        with open(fn, "w") as f:
            json.dump(recs, f)
        r = c.model("TagsetTrace", spec="TSpec", invariants=["TOut"], constants=dict(
            base, Olds=T.Raw("{}"), News=T.Raw("{}"), Apis=T.Raw("{}"), Unsyncs=T.Raw("{}"), MaxUpd=0, File=fn))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    good = {x["id"] for x in r.traces}
    for x in recs:
        if x["id"] not in good:
            c.violation("not a behaviour of the specification: %s" % json.dumps(x), reps[x["id"]])
    c.extra["recorded_histories_accepted"] = len(good)
    c.extra["updates_in_place"] = sum(
        1 for x in recs for s in x["steps"] if s["ok"] and [y["pad"] for y in s["disk"]] != [y["pad"] for y in s["req"]])
    return c.finish()


main(run)
