"""Files and scripts of spec/Script.tla: files as bytes, scripts as forms for
harness/script/replay.scm, and the judgement of what they did."""
import os
import random
import re
import subprocess

import cli
import id3
from cli import as_map, put_text
from common import VERIF

TEXTS = dict(cli.TEXTS, **{"u:multi": "one\0two\0trois café", "u:n": "\0\0\0", "u:h": "\xe9\xff\x80"})
DATA = {"b:1": b"z1\xff\xe0\0\xff\0\xff\xfb" + bytes(range(200, 256)), "b:2": b"owner@example\0" + bytes(300),
        "b:3": b"ZZZZ\0\0\0\2\0\0ab", "b:4": b"\0image/png\0\3x\0" + bytes(i * 7 % 256 for i in range(400)),
        "b:5": b"\0Sort me", "b:6": b"\1\xff\xfe2\0004\0-\000"}


def text(t):
    return TEXTS.get(t, t)


def data(b, id):
    d = DATA[b]
    if id in ("PIC",):
        return b"\0PNG\3x\0" + d[14:]
    if id in ("UFI", "UFID"):
        return b"http://www.id3.org/\0" + d[:60]
    if id == "BUF":
        return b"\0\1\0\1\0\0\0\x20" + d[:0]
    return d


def number(n):
    n = int(n)
    return n.to_bytes(max(4, (n.bit_length() + 7) // 8), "big")


def cloud(m):
    return {text(k): {text(x) for x in v} for k, v in as_map(m).items()}


# ------------------------------------------------------------------- realising
def encodings(ver, ts, rng):
    e = [3, 3, 1, 2] if ver == 4 else [1]
    try:
        "".join(ts).encode("latin-1")
        e += [0, 0, 0]
    except UnicodeEncodeError:
        pass
    return rng.choice(e)


def real_value(ver, id, v, rng):
    k = v["k"]
    if k == "text":
        s = text(v["t"])
        return put_text(encodings(ver, [s], rng), s)
    if k in ("comm", "udt"):
        d, t = text(v["dsc"]), text(v["t"])
        e = encodings(ver, [d, t], rng)
        return bytes([e]) + (text(v["lang"]).encode("latin-1") if k == "comm" else b"") + \
            put_text(e, d)[1:] + (b"\0\0" if e in (1, 2) else b"\0") + put_text(e, t)[1:]
    if k == "pcnt":
        return number(v["n"])
    if k == "popm":
        return v["o"].encode() + b"\0" + bytes([v["r"]]) + number(v["n"])
    if k == "xtag":
        c = cloud(v["m"])
        b = v["o"].encode()
        return b"\1" + b + b"\0" + b"".join(
            x.encode() + b"\0" + len(y).to_bytes(4, "big") + y for x, y in
            ((x, b"".join(z.encode() + b"\0" for z in sorted(c[x]))) for x in sorted(c)))
    return data(v["b"], id)


def real_tag(t, rng):
    ver = t["ver"]
    fs = []
    for f in t["frames"]:
        r = id3.frame(f["id"], real_value(ver, f["id"], f["v"], rng))
        if ver > 2:
            k = f["keep"]
            r.update(tap=not k[0], fap=not k[1], ro=k[2], cmp=rng.random() < .15)
            if rng.random() < .08:
                r["gid"] = rng.randrange(256)
        fs.append(r)
    r = id3.tag(ver, fs, rng.choice([0, 0, 7, 60, 2000]), exp=t["exp"])
    return id3.encode(r, rng.random() < .3)


def real_v1(t):
    def part(s, at, n):
        return text(s).encode("latin-1")[at:at + n].ljust(n, b"\0")
    com = part(t["comment"], 0, 30)
    if t["track"] >= 0:
        com = com[:28] + bytes([0, t["track"]])
    tail = b"TAG" + part(t["title"], 0, 30) + part(t["artist"], 0, 30) + part(t["album"], 0, 30) + \
        part(t["year"], 0, 4) + com + bytes([t["genre"]])
    if not t["ext"]:
        return tail
    x = t["x"]
    return b"TAG+" + part(t["title"], 30, 60) + part(t["artist"], 30, 60) + part(t["album"], 30, 60) + \
        bytes([x["speed"]]) + part(x["xgenre"], 0, 30) + part(x["start"], 0, 6) + part(x["end"], 0, 6) + tail


# -------------------------------------------------------------------- reading
def said(ver, s):
    """what a text says: before ID3v2.4, nothing after a null counts"""
    return s.rstrip("\0") if ver == 4 else s.split("\0")[0]


def whole_text(e, b):
    if e == 0:
        return b.decode("latin-1")
    if e == 1:
        return "\0".join(re.sub("^[﻿]", "", p) for p in (
            b.decode("utf-16") if b[:2] in (b"\xff\xfe", b"\xfe\xff") else b.decode("utf-16-le")).split("\0"))
    if e == 2:
        return b.decode("utf-16-be")
    id3.need(e == 3, "unknown text encoding")
    return b.decode("utf-8")


def split_text(e, b):
    if e in (0, 3):
        d, _, t = b.partition(b"\0")
        return d, t
    j = 0
    while b[j:j + 2] not in (b"\0\0", b""):
        j += 2
    return b[:j], b[j + 2:]


def frame_value(ver, k, id, d):
    try:
        if k == "text":
            return (k, said(ver, whole_text(d[0], d[1:])))
        if k in ("comm", "udt"):
            at = 4 if k == "comm" else 1
            a, b = split_text(d[0], d[at:])
            return (k, d[1:at], said(ver, whole_text(d[0], a)), said(ver, whole_text(d[0], b)))
    except (UnicodeDecodeError, IndexError) as e:
        raise id3.Malformed("frame %s: %s" % (id, e))
    if k == "pcnt":
        return (k, int.from_bytes(d, "big"))
    if k == "popm":
        o, _, r = d.partition(b"\0")
        id3.need(r, "popularimeter cut short")
        return (k, o, r[0], int.from_bytes(r[1:], "big"))
    if k == "xtag":
        o, _, r = d[1:].partition(b"\0")
        return (k, o, tuple(sorted((a, tuple(sorted(b))) for a, b in cli.get_cloud(r).items())))
    return (k, d)


def want_value(ver, id, v):
    k = v["k"]
    if k == "text":
        return (k, said(ver, text(v["t"])))
    if k == "comm":
        return (k, text(v["lang"]).encode("latin-1"), said(ver, text(v["dsc"])), said(ver, text(v["t"])))
    if k == "udt":
        return (k, b"", said(ver, text(v["dsc"])), said(ver, text(v["t"])))
    if k == "pcnt":
        return (k, int(v["n"]))
    if k == "popm":
        return (k, v["o"].encode(), v["r"], int(v["n"]))
    if k == "xtag":
        return (k, v["o"].encode(), tuple(sorted((a, tuple(sorted(b))) for a, b in cloud(v["m"]).items())))
    return (k, data(v["b"], id))


def judge_file(s, f, audio, gids=None):
    """is s a file as f says?  Returns a complaint"""
    try:
        tags, aud, v1 = id3.split_file(s)
        if aud != audio:
            return "the audio changed"
        if len(tags) != len(f["v2"]):
            return "%d ID3v2 tags, should be %d" % (len(tags), len(f["v2"]))
        for i, ((t, _), w) in enumerate(zip(tags, f["v2"])):
            if t["ver"] != w["ver"] or t["exp"] != w["exp"]:
                return "tag %d is a version 2.%d tag%s" % (i, t["ver"], ", experimental" if t["exp"] else "")
            if [x["id"] for x in t["frames"]] != [x["id"] for x in w["frames"]]:
                return "tag %d has frames %s, should have %s" % (i, [x["id"] for x in t["frames"]], [x["id"] for x in w["frames"]])
            for x, y in zip(t["frames"], w["frames"]):
                a = frame_value(t["ver"], y["v"]["k"], x["id"], x["data"])
                b = want_value(t["ver"], x["id"], y["v"])
                if a != b:
                    return "tag %d: frame %s is %r, should be %r" % (i, x["id"], a, b)
                k = [not x["tap"], not x["fap"], x["ro"]]
                if t["ver"] > 2 and k != list(y["keep"]):
                    return "tag %d: frame %s has flags %s, should be %s" % (i, x["id"], k, y["keep"])
        if bool(v1) != bool(f["v1"]):
            return "ID3v1 tag there: %s, should be: %s" % (bool(v1), bool(f["v1"]))
        if v1:
            w = real_v1(f["v1"][0])
            if len(v1) != len(w):
                return "ID3v1 tag of %d bytes, should be %d" % (len(v1), len(w))
            if blank(v1) != blank(w):
                return "ID3v1 tag is %r, should be %r" % (v1, w)
    except id3.Malformed as e:
        return "the file is malformed: %s" % e
    return None


FIELDS = {128: [(0, 3), (3, 33), (33, 63), (63, 93), (93, 97), (97, 127), (127, 128)],
          355: [(0, 4), (4, 64), (64, 124), (124, 184), (184, 185), (185, 215), (215, 221), (221, 227)]}


def blank(v1):
    """the fields of an ID3v1 tag, without trailing blanks and nulls"""
    out = []
    for a, b in FIELDS[355] if len(v1) == 355 else []:
        x = v1[a:b]
        out.append(x.rstrip(b" \0") if b - a > 1 else x)
    v1 = v1[-128:]
    for a, b in FIELDS[128]:
        x = v1[a:b]
        if b - a == 30 and a == 97 and x[28] == 0 and x[29]:
            out.append((x[:28].rstrip(b" \0"), x[29]))
        else:
            out.append(x.rstrip(b" \0") if b - a > 1 else x)
    return out


# ---------------------------------------------------------------- what is seen
def st(cs):
    return "".join(map(chr, cs))


def frame_header(ver, id, d, fl):
    if ver == 2:
        return id.encode() + len(d).to_bytes(3, "big")
    return id.encode() + (id3.ss(len(d)) if ver == 4 else len(d).to_bytes(4, "big")) + bytes(2)


def judge_see(got, want):
    if len(got) != len(want):
        return "the script sees %d tags, should be %d" % (len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        ver = w["ver"]
        if g[0] != ver:
            return "the script sees a version 2.%s tag, should be 2.%d" % (g[0], ver)
        if ver > 2 and (g[1] == "t") != w["exp"]:
            return "the script sees experimental %s" % g[1]
        if len(g[2]) != len(w["frames"]):
            return "the script sees %d frames, should be %d" % (len(g[2]), len(w["frames"]))
        for a, b in zip(g[2], w["frames"]):
            e = see_frame(ver, a, b)
            if e:
                return "the script sees tag %d: %s" % (i, e)
    return None


def see_frame(ver, g, w):
    v = w["v"]
    k = v["k"]
    if g[0] != w["sym"] or g[2] != k:
        return "%s (%s), should be %s (%s)" % (g[0], g[2], w["sym"], k)
    if ver > 2 and list(g[1]) != list(w["fl"]):
        return "%s with flags %s, should be %s" % (g[0], g[1], w["fl"])
    want = want_value(ver, w["id"], v)
    if k == "text":
        got = (k, said(ver, st(g[3])))
    elif k == "comm":
        got = (k, st(g[3]).encode("latin-1", "replace"), said(ver, st(g[4])), said(ver, st(g[5])))
    elif k == "udt":
        got = (k, b"", said(ver, st(g[3])), said(ver, st(g[4])))
    elif k == "pcnt":
        got = (k, g[3])
    elif k == "popm":
        got = (k, st(g[3]).encode(), g[4], g[5])
    elif k == "xtag":
        got = (k, st(g[3]).encode(), tuple(sorted((st(x[0]), tuple(sorted(st(y) for y in x[1:]))) for x in g[4])))
    else:
        d = bytes(g[4])
        if st(g[3]) != w["id"]:
            return "a frame %s, should be %s" % (st(g[3]), w["id"])
        # with the frame's header or without
        got = (k, d if d == want[1] else d[6 if ver == 2 else 10:])
    return None if got == want else "%s is %r, should be %r" % (g[0], got, want)


V1 = ["title", "artist", "album", "year", "comment"]


def judge_see1(got, want):
    if not want:
        return "the script sees an ID3v1 tag where there is none" if got else None
    if not got:
        return "the script sees no ID3v1 tag"
    w = want[0]
    ts = [text(w[k]) for k in V1] + [text(w["x"][k]) for k in ("xgenre", "start", "end")]
    gs = [st(x) if isinstance(x, list) else x for x in got[0]]
    if [x.rstrip(" \0") for x in gs] != ts:
        return "the script sees ID3v1 texts %r, should be %r" % (gs, ts)
    ns = [w["genre"], w["track"], w["x"]["speed"]]
    if got[1] != ns:
        return "the script sees ID3v1 numbers %r, should be %r" % (got[1], ns)
    return None


# ---------------------------------------------------------------------- forms
def codes(s):
    return "(" + " ".join(str(ord(c)) for c in s) + ")"


def fill(ver, id, v, rng):
    k = v["k"]
    s = []

    def put(slot, kind, x):
        s.append("(%s %s %s)" % (slot, kind, x))
    if k in ("comm", "udt"):
        put("dsc", "s", codes(text(v["dsc"])))
    if k == "comm":
        put("lang", "s", codes(text(v["lang"])))
    if k in ("text", "comm", "udt"):
        put("text", "s", codes(text(v["t"])))
    if k in ("pcnt", "popm"):
        put("count", "i", v["n"])
    if k == "popm":
        put("e-mail", "s", codes(v["o"]))
        put("rating", "i", v["r"])
    if k == "xtag":
        put("owner", "s", codes(v["o"]))
        c = cloud(v["m"])
        one = c and all(len(x) == 1 for x in c.values()) and rng.random() < .5
        put("tags", "m1" if one else "m",
            "(" + " ".join("(%s %s)" % (codes(a), " ".join(map(codes, b))) for a, b in c.items()) + ")")
    if k == "data":
        d = data(v["b"], id)
        if rng.random() < .5 or v["b"] == "b:3":
            d = frame_header(ver, id, d, None) + d
        put("id-text", "s", codes(id))
        put("data", "b", "(" + " ".join(map(str, d)) + ")")
    return "(" + " ".join(s) + ")"


def make(ver, o, rng):
    return "(%s %s (%s) %s)" % (o["v"]["k"], o["sym"], " ".join(o["fl"]), fill(ver, o["id"], o["v"], rng))


class Session:
    """A behaviour turned into a form, and what is to be made of the answers"""

    def __init__(self, n, root, hist, seed, audio):
        self.n, self.hist, self.audio = n, hist, audio
        rng = random.Random("%s/%s" % (seed, n))
        self.path = os.path.join(root, "%d.mp3" % n)
        f = hist[0]["file"]
        self.bytes = b"".join(real_tag(t, rng) for t in f["v2"]) + audio + b"".join(map(real_v1, f["v1"]))
        self.gids = any(x["gid"] >= 0 for t, _ in id3.split_file(self.bytes)[0] for x in t["frames"])
        with open(self.path, "wb") as o:
            o.write(self.bytes)
        forms, self.steps, mem, ids = [], [], None, None
        for s in hist[1:]:
            op = s["op"]
            if op == "read":
                mem = [(t["ver"], [w["id"] for w in t["frames"]]) for t in s["see"]]
                form = "(read)"
            elif op in ("read1", "write1"):
                form = "(%s)" % op
            elif op == "write":
                form = "(write %s %s)" % (s["u"], "t" if s["copy"] else "f")
            elif op == "set1":
                o = s["o"]
                form = "(set1 (%s))" % " ".join(
                    ["(%s s %s)" % (a, codes(text(o[a]))) for a in V1] +
                    ["(%s s %s)" % (a, codes(text(o["x"][b]))) for a, b in
                     (("enh-genre", "xgenre"), ("start-time", "start"), ("end-time", "end"))] +
                    ["(genre i %d)" % o["genre"]] +
                    ["(%s i %d)" % (a, b) for a, b in (("track-no", o["track"]), ("speed", o["x"]["speed"])) if b >= 0])
            else:
                i = s["i"] - 1
                if op in ("set", "add"):
                    j, ver = s["j"] - 1, mem[i][0]
                if op == "set":
                    form = "(set %d %d %s)" % (i, j, fill(ver, mem[i][1][j], s["v"], rng))
                elif op == "flag":
                    form = "(flag %d %d (%s))" % (i, s["j"] - 1, " ".join(s["fl"]))
                elif op == "add":
                    form = "(add %d %d %s)" % (i, j, make(ver, s["o"], rng))
                    mem[i][1].insert(j, s["o"]["id"])
                elif op == "del":
                    form = "(del %d %d)" % (i, s["j"] - 1)
                    del mem[i][1][s["j"] - 1]
                elif op == "ver":
                    form = "(ver %d %d)" % (i, s["ver"])
                    mem[i] = (s["ver"], mem[i][1])
                elif op == "exp":
                    form = "(exp %d %s)" % (i, "t" if s["exp"] else "f")
                elif op == "tag":
                    t = s["t"]
                    form = "(tag %d %d %s)" % (i, t["ver"], make(t["ver"], t["frames"][0], rng))
                    mem.insert(i, (t["ver"], [t["frames"][0]["id"]]))
                elif op == "drop":
                    form = "(drop %d)" % i
                    del mem[i]
            self.steps.append(s)
            forms.append(form)
            if op in ("write", "write1"):
                self.steps.append(dict(op="keep"))
                forms.append('(keep "%s")' % self.snap(len(self.steps)))
        self.form = '(run %d "%s" %s)\n' % (n, self.path, " ".join(forms))

    def snap(self, i):
        return self.path[:-4] + "-%d.snap" % i

    def judge(self, answers):
        """answers: {step: result}; returns a complaint"""
        for i, s in enumerate(self.steps):
            a = answers.get(i)
            op = s["op"]
            if a is None:
                return "the script died in step %d (%s)" % (i, op)
            if op == "keep":
                continue
            if op in ("write", "write1"):
                if (a[0] == "ok") != s["ok"]:
                    return "step %d (%s): %s" % (i, op, "should have been refused" if a[0] == "ok" else "refused: " + st(a[2]))
                with open(self.snap(i + 2), "rb") as f:
                    now = f.read()
                if not s["ok"] and now != self.bytes:
                    return "step %d (%s): refused, but the file was changed" % (i, op)
                e = judge_file(now, s["file"], self.audio)
                if e:
                    return "step %d (%s): %s" % (i, op, e)
                self.bytes = now
                continue
            if a[0] != "ok":
                return "step %d (%s) failed: %s %s" % (i, op, a[1], st(a[2]))
            e = judge_see(a[1], s["see"]) if op == "read" else judge_see1(a[1], s["see"]) if op == "read1" else None
            if e:
                return "step %d (%s): %s" % (i, op, e)
        return None

    def lost_groups(self):
        """were the frames' groups lost in a script that changed nothing?"""
        ops = [s["op"] for s in self.hist[1:4]]
        return self.gids and ops[:2] == ["read", "write"]


def parse(line):
    """an s-expression of lists, numbers and symbols"""
    stack = [[]]
    for tok in re.findall(r"[()]|[^\s()]+", line):
        if tok == "(":
            stack.append([])
        elif tok == ")":
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(int(tok) if re.fullmatch(r"-?\d+", tok) else tok)
    return stack[0][0]


def run(built, repo, env, forms, work):
    """run a file of forms; returns ({session: {step: result}}, stderr)"""
    path = os.path.join(work, "forms")
    with open(path, "w") as f:
        f.write(forms)
    e = dict(env, GUILE_AUTO_COMPILE="0", LD_LIBRARY_PATH=os.path.dirname(built["ext"]), XDG_CACHE_HOME=work,
             LANG="C.UTF-8", LC_ALL="C.UTF-8")
    p = subprocess.run([built["cli"], "-L", os.path.join(repo, "scheme"), "-s",
                        os.path.join(VERIF, "harness/script/replay.scm"), path],
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=work,
                       timeout=600)
    out = {}
    for line in p.stdout.decode("latin-1").splitlines():
        if line.startswith("("):
            try:
                n, i, r = parse(line)
            except (IndexError, ValueError):
                continue
            out.setdefault(n, {})[i] = r
    return out, p.stderr.decode(errors="replace"), p.returncode
