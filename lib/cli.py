"""Files of spec/Commands.tla as bytes, its commands as command lines, and the
judgement whether what the program made of a file is what the specification says."""
import os
import random
import shutil
import subprocess
import urllib.parse

import id3
from genres import GENRES

OLD = 1000000000 * 10 ** 9      # the modification time files are given
TEXTS = {"u:latin": "café üß", "u:greek": "Ωμέγα",
         "u:kanji": "東京 ロック"}
ID2 = {"TALB": "TAL", "TBPM": "TBP", "TCOM": "TCM", "TCON": "TCO", "TCOP": "TCR", "TDAT": "TDA", "TDLY": "TDY",
       "TENC": "TEN", "TEXT": "TXT", "TFLT": "TFT", "TIME": "TIM", "TIT1": "TT1", "TIT2": "TT2", "TIT3": "TT3", "TKEY":
       "TKE", "TLAN": "TLA", "TLEN": "TLE", "TMED": "TMT", "TOAL": "TOT", "TOFN": "TOF", "TOLY": "TOL", "TOPE": "TOA",
       "TORY": "TOR", "TPE1": "TP1", "TPE2": "TP2", "TPE3": "TP3", "TPE4": "TP4", "TPOS": "TPA", "TPUB": "TPB", "TRCK":
       "TRK", "TRDA": "TRD", "TSIZ": "TSI", "TSRC": "TRC", "TSSE": "TSS", "TYER": "TYE", "COMM": "COM", "PCNT": "CNT",
       "POPM": "POP", "XTAG": "XTG", "PRIV": "UFI", "ZZZZ": "ZZZ"}
ID4 = {v: k for k, v in ID2.items()}


def text(tok):
    """the characters a text's name stands for"""
    if tok.startswith("genre:"):
        return GENRES[int(tok[6:])]
    return TEXTS.get(tok, tok)


def count(n):
    return sum(x << (16 * i) for i, x in enumerate(n))


def limbs(n):
    return [n >> (16 * i) & 65535 for i in range(4)]


def as_map(m):
    return {} if m == [] else m


# ------------------------------------------------------------------- realising
def text_data(ver, s, rng):
    encs = [3, 3, 1] if ver == 4 else [1]
    try:
        s.encode("latin-1")
        encs += [0, 0, 0]
    except UnicodeEncodeError:
        pass
    return put_text(rng.choice(encs), s)


def put_text(e, s):
    return bytes([e]) + (s.encode("latin-1") if e == 0 else b"\xff\xfe" + s.encode("utf-16-le") if e == 1
                         else s.encode("utf-16-be") if e == 2 else s.encode("utf-8"))


def cloud_bytes(m):
    return b"".join(k.encode() + b"\0" + len(v).to_bytes(4, "big") + v for k, v in
                    ((k, b"".join(x.encode() + b"\0" for x in sorted(vs))) for k, vs in sorted(as_map(m).items())))


def real_frame(ver, f, rng):
    k = f["k"]
    if k == "text":
        i, d = f["id"], text_data(ver, text(f["t"]), rng)
    elif k == "comm":
        i, d = "COMM", b"\0und\0" + text(f["t"]).encode("latin-1")
    elif k == "pcnt":
        n = count(f["n"])
        i, d = "PCNT", n.to_bytes(max(4, (n.bit_length() + 7) // 8), "big")
    elif k == "popm":
        n = count(f["n"])
        i, d = "POPM", f["o"].encode() + b"\0" + bytes([f["r"]]) + n.to_bytes(max(4, (n.bit_length() + 7) // 8), "big")
    elif k == "xtag":
        i, d = "XTAG", b"\1" + f["o"].encode() + b"\0" + cloud_bytes(f["m"])
    elif f["b"] == "priv":
        i, d = "PRIV", b"owner@example\0\x01\xff\xe0\x02\0\xff"
    else:
        i, d = "ZZZZ", f["b"].encode() * 3 + bytes(range(0, 256, 5))
    r = id3.frame(ID2[i] if ver == 2 else i, d)
    if ver > 2:
        r["tap"], r["fap"], r["ro"] = [rng.random() < .25 for _ in range(3)]
        if rng.random() < .15:
            r["gid"] = rng.randrange(256)
    return r


def real_tag(t, rng):
    ver = t["ver"]
    r = id3.tag(ver, [real_frame(ver, f, rng) for f in t["frames"]], rng.choice([0, 0, 7, 60, 300]))
    if ver > 2:
        r["exp"] = rng.random() < .1
    if ver == 3 and rng.random() < .2:
        r["ext"], r["crc"] = True, rng.random() < .5
    if not r["frames"]:
        r["pad"] = r["pad"] or 20
    return r


def v1_extra(rng):
    return dict(track=rng.choice([None, None, 1, 7, 200, 255]), speed=rng.randrange(5), start="001:30", end="004:05",
                xgenre=rng.choice(["", "Doom-ish"]))


def v1_bytes(r, x):
    """an ID3v1 tag; x: the parts the specification does not name"""
    def part(s, at, n):
        b = text(s).encode("latin-1")
        return b[at:at + n].ljust(n, b"\0")
    com = part(r["comment"], 0, 30)
    if x["track"] is not None:
        com = com[:28] + bytes([0, x["track"]])
    tail = b"TAG" + part(r["title"], 0, 30) + part(r["artist"], 0, 30) + part(r["album"], 0, 30) + \
        r["year"].encode().ljust(4, b"\0") + com + bytes([r["genre"]])
    if not r["ext"]:
        return tail
    g = text(r["xgenre"]) if r["xgenre"] else x["xgenre"]
    return b"TAG+" + part(r["title"], 30, 60) + part(r["artist"], 30, 60) + part(r["album"], 30, 60) + \
        bytes([x["speed"]]) + g.encode().ljust(30, b"\0")[:30] + x["start"].encode() + x["end"].encode() + tail


# -------------------------------------------------------------------- reading
def get_text(d):
    if not d:
        return ""
    e, b = d[0], d[1:]
    if e == 0:
        s = b.decode("latin-1")
    elif e == 1:
        s = b[2:].decode("utf-16-be") if b[:2] == b"\xfe\xff" else b[2:].decode("utf-16-le") if b[:2] == b"\xff\xfe" \
            else b.decode("utf-16-le")
    elif e == 2:
        s = b.decode("utf-16-be")
    elif e == 3:
        s = b.decode("utf-8")
    else:
        raise id3.Malformed("unknown text encoding")
    return s.split("\0")[0]


def get_cloud(b):
    m = {}
    while b:
        k, _, r = b.partition(b"\0")
        n = int.from_bytes(r[:4], "big")
        id3.need(len(r) >= 4 + n, "tag cloud cut short")
        v = r[4:4 + n]
        m.setdefault(k.decode(), set()).update(x.decode() for x in v.split(b"\0") if x)
        b = r[4 + n:]
    return m


def value(ver, f):
    """what a frame says, comparable"""
    i, d = f["id"], f["data"]
    if ver == 2:
        i = ID4.get(i, i)
    if i[0] == "T" and i != "TXXX":
        return ("text", i, get_text(d))
    if i == "COMM":
        id3.need(len(d) >= 5, "short comment")
        e = d[0]
        if e in (0, 3):
            desc, _, t = d[4:].partition(b"\0")
        else:
            j = 4
            while d[j:j + 2] not in (b"\0\0", b""):
                j += 2
            desc, t = d[4:j], d[j + 2:]
        return ("comm", get_text(bytes([e]) + desc), get_text(bytes([e]) + t))
    if i == "PCNT":
        return ("pcnt", int.from_bytes(d, "big"))
    if i == "POPM":
        o, _, r = d.partition(b"\0")
        return ("popm", o, r[0], int.from_bytes(r[1:], "big"))
    if i == "XTAG":
        o, _, r = d[1:].partition(b"\0")
        return ("xtag", o, tuple(sorted((k, tuple(sorted(v))) for k, v in get_cloud(r).items())))
    return ("other", i, d)


def want(f, others):
    """the value of a frame of the specification"""
    k = f["k"]
    if k == "text":
        return ("text", f["id"], text(f["t"]))
    if k == "comm":
        return ("comm", "", text(f["t"]))
    if k == "pcnt":
        return ("pcnt", count(f["n"]))
    if k == "popm":
        return ("popm", f["o"].encode(), f["r"], count(f["n"]))
    if k == "xtag":
        return ("xtag", f["o"].encode(), tuple(sorted((a, tuple(sorted(v))) for a, v in as_map(f["m"]).items())))
    return others[f["b"]]


# ------------------------------------------------------------------- commands
TEXT_OPT = {"TALB": ("-a", "album"), "TPE1": ("-A", "artist"), "TENC": ("-e", "encoded-by"), "TCON": ("-g", "genre"),
            "TIT2": ("-T", "title"), "TRCK": ("-k", "track"), "TYER": ("-y", "year")}
LONG = {"TALB": "album", "TPE1": "artist", "TENC": "encoded-by", "TCON": "genre", "TIT2": "title", "TRCK": "track",
        "TYER": "year", "TCOM": "composer", "TLAN": "languages", "TLEN": "length", "TDAT": "date"}


def field_name(k, alias):
    """a name of a text field on the command line"""
    if alias == 4:
        return LONG.get(k, k)
    n = ID2.get(k, k) if alias >= 2 else k
    return n if alias % 2 == 0 else n.lower()


def cloud_arg(m, rng):
    def q(s):
        return urllib.parse.quote(s, safe="")
    parts = []
    for k, vs in as_map(m).items():
        vs = list(vs)
        rng.shuffle(vs)
        parts.append(q(k) + ("=" + ",".join(q(v) for v in vs) if vs else ""))
    rng.shuffle(parts)
    return "&".join(parts)


def encodings(texts):
    """how the texts may be given on a command line: (option, codec); that of the locale most often"""
    res = [("", "utf-8")] * 4
    for n, c in (("UTF-8", "utf-8"), ("ISO-8859-1", "latin-1"), ("CP1253", "cp1253"), ("EUC-JP", "euc_jp"),
                 ("GB18030", "gb18030")):
        try:
            [t.encode(c) for t in texts]
            res.append((n, c))
        except UnicodeEncodeError:
            pass
    return res


def argv(c, rng):
    a = [c["cmd"]]
    cmd = c["cmd"]
    o = []
    v2 = {"genre": ("-c", "-a"), "text": ("-c", "-C"), "popm": ("-c", "-a"), "xtag": ("-c", "-A")}[cmd]
    o += [[x] for x, y in zip(v2, ("v1", "always")) if c["makev2"] in (y, "both")]
    if cmd == "genre":
        o += [[x] for x, y in zip(("-C", "-A"), ("v2", "always")) if c["makev1"] in (y, "both")]
        o += [["-" + x] for x in c["only"]]
        if c["how"] == "w":
            o.append(["-w", str(c["num"])])
        else:
            o.append(["-" + c["how"], text(c["arg"])])
            if c["given"]:
                o.append(["--v1", str(c["num"])])
    elif cmd == "text":
        name, codec = rng.choice(encodings([text(v) for v in as_map(c["adds"]).values()]))
        o += [[TEXT_OPT[k][0], os.fsdecode(text(v).encode(codec))] for k, v in as_map(c["adds"]).items()]
        if name:
            o.append([rng.choice(["-E", "--encoding"]), name])
        o += [["-d", field_name(k, c["alias"] or rng.randrange(5))] for k in c["dels"]]
    elif cmd == "popm":
        o += [["-p"]] if c["which"] in ("pcnt", "none") else []
        o += [["-m"]] if c["which"] in ("popm", "none") else []
        n = str(count(c["n"]))
        if c["mode"] == "both":
            o += [["-C", n], ["-i", n]]
        elif c["mode"] == "set":
            o.append(["-C", n])
        elif n != "1" or rng.random() < .5:
            o.append(["-i", n])
        o += [["-o", x] for x in c["owner"]]
        stars = {1: "*", 64: "xx", 128: "+++", 196: "aaZ%", 255: "@@@@@"}
        o += [["-r", stars[x] if x in stars and x > 1 and rng.random() < .5 else str(x)] for x in c["rating"]]
    else:
        if c["owner"]:
            o.append(["-o", c["owner"]])
        if c["get"]:
            o.append(["-g"])
        else:
            o.append(["-T", cloud_arg(c["cloud"], rng)])
            if c["merge"]:
                o.append(["-m"])
    if c["create"]:
        o.append(["-f"])
    for t in c["tags"]:
        o.append(["-t", str(t)])
    if c["dry"]:
        o.append(["-n"])
    if c["b"]:
        o.append(["-b"])
    if c["u"]:
        o.append(["-u"])
    rng.shuffle(o)
    return a + [x for y in o for x in y]


class Run:
    """one history on one file in a directory of its own"""

    def __init__(self, exe, env, root, serial, audio, seed, name="f.mp3"):
        self.exe, self.env = exe, env
        self.rng = random.Random(seed)
        self.dir = os.path.join(root, "r%d" % serial)
        os.makedirs(self.dir)
        self.path = os.path.join(self.dir, name)
        self.name = name
        self.audio = audio
        self.log = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def start(self, f):
        rng = self.rng
        tags = [real_tag(t, rng) for t in f["v2"]]
        self.others = {}
        for t, r in zip(f["v2"], tags):
            self.note(t, r)
        self.extra = v1_extra(rng)
        data = b"".join(id3.encode(t, rng.random() < .2) for t in tags) + self.audio
        if f["v1"]:
            data += v1_bytes(f["v1"][0], self.extra)
        self.had_v1 = bool(f["v1"])
        with open(self.path, "wb") as o:
            o.write(data)
        self.data = data
        self.before = f
        self.files = {self.name: data}

    def note(self, t, r):
        """remember what the frames without a meaning hold"""
        for a, b in zip(t["frames"], r["frames"]):
            if a["k"] == "other":
                self.others[a["b"]] = value(t["ver"], b)

    def step(self, c, after, valid, changed):
        """run a command; what is wrong with the outcome, or None"""
        os.utime(self.path, ns=(OLD, OLD))
        ino = os.stat(self.path).st_ino
        args = argv(c, self.rng)
        self.log.append(" ".join(args))
        p = subprocess.run([self.exe] + args + [self.path], cwd=self.dir, env=self.env, timeout=60,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        self.out = p.stdout
        files = {n: open(os.path.join(self.dir, n), "rb").read() for n in os.listdir(self.dir)}
        err = p.stderr.decode(errors="replace")[-300:]
        if p.returncode < 0:
            return "killed by signal %d: %s" % (-p.returncode, err)
        if valid and p.returncode:
            return "failed with %d: %s" % (p.returncode, err)
        if not valid and not p.returncode:
            return "accepted options that exclude each other"
        before, self.before = self.before, after
        was, self.data = self.data, files.get(self.name)
        old, self.files = self.files, files
        if self.data is None:
            return "the file is gone"
        # taking a frame away and putting it back may or may not count as a change
        again = not changed and set(as_map(c.get("adds", {}))) & set(c.get("dels", ()))
        if again and os.stat(self.path).st_mtime_ns != OLD:
            changed = True
        if not changed:
            if files != old:
                return "nothing was to change, but files differ: %s" % self.differ(old, files)
            st = os.stat(self.path)
            if st.st_mtime_ns != OLD or st.st_ino != ino:
                return "nothing was to change, but the file was rewritten"
            return None
        new = {n: b for n, b in files.items() if old.get(n) != b and n != self.name}
        if set(old) - set(files):
            return "files are gone: %s" % (set(old) - set(files))
        if any(n in old for n in new):
            return "another file changed"
        if c["b"] and list(new.values()) != [was]:
            return "the backup does not hold the former file (new files: %s)" % sorted(new)
        if not c["b"] and new:
            return "left files behind: %s" % sorted(new)
        return self.judge(c, before, after, was)

    @staticmethod
    def differ(a, b):
        return sorted(n for n in set(a) | set(b) if a.get(n) != b.get(n))

    def judge(self, c, before, after, was):
        try:
            tags, audio, v1 = id3.split_file(self.data)
            otags, _, ov1 = id3.split_file(was)
            if audio != self.audio:
                return "the audio changed"
            if len(tags) != len(after["v2"]):
                return "%d ID3v2 tags, not %d" % (len(tags), len(after["v2"]))
            for i, ((t, raw), w) in enumerate(zip(tags, after["v2"])):
                if t["ver"] != w["ver"]:
                    return "tag %d is ID3v2.%d, not ID3v2.%d" % (i, t["ver"], w["ver"])
                have = [value(t["ver"], f) for f in t["frames"]]
                need = [want(f, self.others) for f in w["frames"]]
                if sorted(map(repr, have)) != sorted(map(repr, need)):
                    return "tag %d: %r, not %r" % (i, have, need)
                if c and before["v2"]:
                    e = self.kept(c, otags[i][0], t)
                    if e:
                        return "tag %d: %s" % (i, e)
        except (id3.Malformed, UnicodeError, IndexError, ValueError) as e:
            return "does not parse: %r" % e
        if not after["v1"]:
            return "an ID3v1 tag appeared" if v1 else None
        x = self.extra if self.had_v1 else dict(track=None, speed=0, start="", end="", xgenre="")
        w = v1_bytes(after["v1"][0], x)
        if not self.had_v1 and v1:
            self.had_v1, self.extra = True, x
        if v1 != w:
            return "ID3v1 tag %s, not %s" % (v1.hex(), w.hex())
        return None

    @staticmethod
    def kept(c, old, new):
        """frames that say the same as before are the same, and in the same order"""
        for k in ("exp", "upd", "rst", "ext", "crc"):
            if old[k] != new[k]:
                return "header changed: " + k
        ver = new["ver"]
        own = {"genre": {"TCON"}, "text": set(as_map(c.get("adds", {}))) | set(c.get("dels", ()))}.get(c["cmd"], set())
        dels = set(c.get("dels", ()))

        def form(v, f):
            # what the command sets may come out in another encoding
            if v[0] == "text" and v[1] in own or v[0] in ("pcnt", "popm", "xtag"):
                return v, {k: f[k] for k in ("id", "tap", "fap", "ro", "gid")}
            return v, dict(f, uns=False)

        def frames(t):
            return [form(value(ver, f), f) for f in t["frames"]]
        a, b = frames(old), frames(new)
        a = [x for x in a if x[0][0] != "text" or x[0][1] not in dels]
        stay = [x for x in a if x[0] in [v for v, _ in b]]
        at = 0
        for x in stay:
            while at < len(b) and b[at] != x:
                at += 1
            if at == len(b):
                return "frame %r moved or changed: %r" % (x[0], [v for v, _ in b])
            at += 1
        # a frame that got another value keeps its flags
        for k, i in {v[:2] if v[0] in ("text", "popm", "xtag") else (v[0], None) for v, _ in a}:
            def those(s):
                return [f for v, f in s if v[0] == k and (i is None or v[1] == i)]
            if k != "other" and any(o[y] != n[y] for o, n in zip(those(a), those(b)) for y in ("tap", "fap", "ro", "gid")):
                return "flags of a %s %s changed" % (k, i or "")
        return None
