"""Edit histories of spec/Id3v2Edit.tla as driver commands, and their outcomes."""
import codec as K
from common import hx

PLAIN = {"pad": "t.pad %(s)s %(n)d", "erase": "t.erase %(s)s %(i)d",
         "eraser": "t.eraser %(s)s %(i)d %(j)d", "removeif": "t.removeif %(s)s %(name)s",
         "field": "t.field %(s)s %(name)s %(X)s", "text": "t.text %(s)s %(L)s %(X)s",
         "del": "t.del %(s)s %(L)s", "comment": "t.comment %(s)s %(X)s %(Y)s",
         "udt": "t.udt %(s)s %(X)s %(Y)s", "copy": "t.copy %(s)s %(t)s",
         "clone": "t.clone %(s)s %(t)s", "assign": "t.assign %(s)s %(t)s", "drop": "t.drop %(s)s",
         "push": "t.push %(s)s %(F)s %(base)d", "ins": "t.ins %(s)s %(i)d %(F)s %(base)d",
         "set": "t.set %(s)s %(i)d %(F)s %(base)d"}


# the text frames edited through the interface for arbitrary ones
GENERICS = {"TIT2", "TALB", "TPE1", "TYER"}


def command(o, start, after):
    """the driver commands of one edit"""
    if o["op"] == "mut":
        n = o["name"]
        arg = "%d" % o["n"] if n in ("count", "rating") else "0" if n == "inc" else hx(o["x"])
        return ["t.mut %s %d %s %s" % (o["s"], o["i"], n, arg)]
    if o["op"] == "fresh":
        return K.build("b", after["b"]["tag"], after["b"]["plain"], 0)
    d = dict(o, X=hx(o["x"]), Y=hx(o["y"]), F=K.token(o["f"]), L=o["name"].lower())
    return [PLAIN[o["op"]] % d]


def result(o):
    """what the command itself is to answer"""
    if o["op"] in ("ins", "erase", "eraser"):
        return o["i"]
    return 0


def start(b):
    """commands that set up slot a (through bytes when the tag cannot be built)"""
    snap = b["hist"][0]["a"]
    return K.build("a", snap["tag"], snap["plain"], 0)


def key(b):
    """the history with the choices of the specification left out"""
    return repr((b["start"], b["ops"]))


def look_ids(snap):
    return " ".join(sorted(snap["look"]["has"]))


def check_look(snap, o):
    if not isinstance(o, dict) or "num" not in o:
        return "no lookups: %s" % (o,)
    w = snap["look"]
    if o["num"] != w["num"]:
        return "%d frames instead of %d" % (o["num"], w["num"])
    if o["has"] != w["has"]:
        return "frame counts %s instead of %s" % (o["has"], w["has"])
    for i, n in w["has"].items():
        if n and o["get"].get(i) != i:
            return "looking up %s gives %s" % (i, o["get"].get(i))
    for f, texts in w["fields"].items():
        if o["has_" + f] != w["nfields"][f]:
            return "%d %s frames instead of %d" % (o["has_" + f], f, w["nfields"][f])
        ok = [bytes(t).decode("latin-1").encode().hex() for t in texts]
        if ok and o[f] not in ok:
            return "%s is %s, not in %s" % (f, o[f], ok)
        if not ok and o[f] is not None:
            return "%s is %s though there is none" % (f, o[f])
    if o["has_play_count"] != w["npc"]:
        return "%d play counts instead of %d" % (o["has_play_count"], w["npc"])
    pc = int.from_bytes(bytes(w["pc"]), "big") if w["npc"] == 1 else None
    if o["play_count"] != pc:
        return "play count %s instead of %s" % (o["play_count"], pc)
    for k in ("comments", "play_counts", "popms"):
        e = K.expected_frames({"tag": {"ver": snap["ver"]}, "seen": w[k]})
        g = [{x: y for x, y in f.items() if not e or x in e[0]} for f in o[k]]
        if sorted(map(repr_, e)) != sorted(map(repr_, g)):
            return "%s are %s instead of %s" % (k, g, e)
    return None


def repr_(d):
    return repr(sorted(d.items()))


def check_size(snap, got, c=None, what="", rep=None):
    """compare {plain, unsync, needs}; the 2.4 padding is a known finding"""
    for k in ("plain", "unsync"):
        w = len(snap[k]) - 10
        if got[k] != w:
            if snap["ver"] == 4 and snap["tag"]["pad"] and got[k] == w + snap["tag"]["pad"]:
                if c is not None:
                    c.violation("%s size counts the padding twice" % what, rep, "v24-size-padding")
                continue
            return "size (%s) %d instead of %d" % (k, got[k], w)
    if got["needs"] != snap["needs"]:
        return "needs unsynchronisation: %s" % got["needs"]
    return None


def check_write(snap, got, unsync):
    want = snap["unsync" if unsync else "plain"]
    if not isinstance(got, dict) or "bytes" not in got:
        return "not written: %s" % (got,)
    if got["bytes"] != bytes(want).hex():
        return "wrote %s instead of %s" % (got["bytes"], bytes(want).hex())
    if got["n"] != len(want):
        return "wrote %d bytes, reported %d" % (len(want), got["n"])
    return None
