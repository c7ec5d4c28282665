"""What the checks of the ID3v2 codec share: how to run the codec specification
and how to tell the driver about a specified tag."""
import itertools
import zlib

import id3
import tlc as T

FLAG = dict(tap=False, fap=False, ro=False, gid=-1, cmp=False, uns=False, dli=False)


def flags(*kw):
    return T.Raw("{" + ", ".join(T.tla(dict(FLAG, **k)) for k in kw) + "}")


def all_flags():
    """every combination"""
    f = [dict(zip(FLAG, x)) for x in itertools.product(*([-1, 0, 7, 255] if k == "gid" else [False, True] for k in FLAG))]
    return flags(*f)


def zips(payloads):
    """the zlib compression of each payload, as a TLA+ function"""
    e = ["%s :> %s" % (T.tla(list(p)), T.tla(list(zlib.compress(bytes(p))))) for p in payloads]
    return T.Raw("(" + " @@ ".join(e) + ")")


def ids(by_version=None):
    if by_version is None:
        return T.Raw("[ v \\in 2..4 |-> FewIds(v) ]")
    if by_version == "all":
        return T.Raw("[ v \\in 2..4 |-> AllIds(v) ]")
    return T.Raw("[ v \\in 2..4 |-> CASE %s ]" % " [] ".join(
        "v = %d -> %s" % (v, T.tla(set(s))) for v, s in by_version.items()))


def token(f):
    return "%s:%s:%s:%d:%d:%d:%d:%d:%d:%d" % (
        f["kind"], f["id"], bytes(f["data"]).hex() or "-", f["tap"], f["fap"], f["ro"],
        f["gid"], f["cmp"], f["uns"], f["dli"])


def buildable(t):
    return not (t["ver"] == 4 and (t["ext"] or t["foot"]))


def build(slot, t, plain, as_base, lock=None):
    """commands that give the slot the tag: built in memory, or read when the
    library has no other way to make it; frame number lock marked as encrypted"""
    if not buildable(t):
        return ["t.read %s %s ctor" % (slot, bytes(plain).hex())]
    ext = 2 if t["crc"] else 1 if t["ext"] else 0
    c = ["t.new %s %d %d %d %d" % (slot, t["ver"], t["pad"], t["exp"], ext)]
    for i, f in enumerate(t["frames"], 1):
        c.append("t.push %s %s%s %d" % (slot, token(f), ":128" if i == lock else "", as_base))
    return c


def _hexed(x):
    if isinstance(x, list):
        return bytes(x).hex()
    return x


def expected_frames(b):
    res = []
    for s in b["seen"]:
        e = {k: v for k, v in s.items() if k != "fields"}
        if b["tag"]["ver"] == 2:
            for k in ("tap", "fap", "ro", "grouped", "comp"):
                e.pop(k)
        for k, v in s["fields"].items():
            if k == "cloud":
                e[k] = [[bytes(x[0]).hex(), [bytes(y).hex() for y in x[1]]] for x in v]
            else:
                e[k] = _hexed(v)
        res.append(e)
    return res


def check_obs(b, o, pad=None):
    """compare an observation of a tag with what the specification says is seen;
    returns a description of the first difference"""
    if not isinstance(o, dict) or "frames" not in o:
        return "no tag: %s" % (o,)
    t = b["tag"]
    if o["version"] != t["ver"]:
        return "version %s" % o["version"]
    if o["pad"] != (t["pad"] if pad is None else pad):
        return "padding %s instead of %s" % (o["pad"], t["pad"])
    want = (t["ext"] * 64 + t["exp"] * 32 + t["foot"] * 16)
    if o["flags"] & 0x7f != want:
        return "flags %#x instead of %#x" % (o["flags"] & 0x7f, want)
    ext = None
    if t["ext"]:
        ext = {"crc": t["crc"] * 1}
        if t["ver"] == 4:
            ext.update(upd=t["upd"] * 1, rst=t["rst"])
    if o["ext"] != ext:
        return "extended header %s instead of %s" % (o["ext"], ext)
    exp = expected_frames(b)
    if len(exp) != len(o["frames"]):
        return "%d frames instead of %d" % (len(o["frames"]), len(exp))
    for i, (x, y) in enumerate(zip(exp, o["frames"])):
        y = {k: v for k, v in y.items() if k in x}
        if x != y:
            return "frame %d is %s instead of %s" % (i, y, x)
    return None


def abstract(b):
    """the specified tag as lib/id3.py has it"""
    t = dict(b["tag"])
    t["frames"] = [id3.frame(**{k: (bytes(v) if k == "data" else v) for k, v in f.items()
                                if k != "kind"}) for f in t["frames"]]
    return t


def compressed(b):
    return any(f["cmp"] for f in b["tag"]["frames"])


def check_bytes(b, want, got, uns):
    """written bytes against the specification's: byte for byte, unless there are
    compressed frames (the compressor is free to choose), in which case the bytes
    must decode, strictly, to the same tag"""
    want = bytes(want)
    got = bytes.fromhex(got)
    if not compressed(b):
        if got != want:
            return "wrote %s instead of %s" % (got.hex(), want.hex())
        return None
    try:
        t, n = id3.decode(got)
    except id3.Malformed as e:
        return "malformed output (%s): %s" % (e, got.hex())
    if n != len(got):
        return "%d bytes for a tag of %d" % (len(got), n)
    if t.pop("unsync") != uns:
        return "unsynchronisation flag is %d" % (not uns)
    a = abstract(b)
    if a["ver"] == 4:
        for f in a["frames"]:
            f["uns"] = f["uns"] or uns
    if t != a:
        return "wrote %s instead of %s" % (t, a)
    return None


def check_payloads(b, o):
    """what the payloads of frames say of their sizes"""
    if not isinstance(o, list) or len(o) != len(b["payloads"]):
        return "payloads %s" % (o,)
    for i, (w, g) in enumerate(zip(b["payloads"], o)):
        if g is None and b["tag"]["frames"][i]["kind"] in ("text", "unknown"):
            continue
        if g != w:
            return "payload %d reports %s, not %s" % (i, g, w)
    return None
