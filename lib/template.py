"""Files and expansions of spec/Template.tla."""
import hashlib

import cli
import id3
from common import T
from genres import GENRES

LAWS = ["Out", "NeverV1", "Preference", "Clauses", "Laws"]
FRAME = {"L": "TALB", "A": "TPE1", "G": "TCON", "T": "TIT2", "e": "TENC", "Y": "TYER"}


def real(s):
    return s.replace("`", "é").replace("^", "Ω")


def explore(c, envs, templates, steps, simulate=None):
    return c.model("Template", invariants=LAWS, simulate=simulate, depth=steps + 3,
                   constants={"Envs(h)": T.Raw(envs), "Templates(h)": T.Raw(templates), "MaxSteps": steps}).traces


def file_bytes(env, rng, audio):
    out = b""
    if env["v2"]:
        ver = rng.choice([2, 3, 4])
        fs = []
        for m, v in env["v2"][0].items():
            if v:
                i = FRAME[m]
                fs.append(id3.frame(cli.ID2[i] if ver == 2 else i, cli.text_data(ver, real(v[0]), rng)))
        rng.shuffle(fs)
        t = id3.tag(ver, fs or [id3.frame("TPE2" if ver > 2 else "TP2", b"\0other")], rng.choice([0, 20]))
        out += id3.encode(t)
        if rng.random() < .3:
            out += id3.encode(id3.tag(3, [id3.frame("TPE2", b"\0second")], 5))
    out += audio
    if env["v1"]:
        v = {m: (real(x[0]) if x else "").encode({"utf-8": "utf-8", "cp1252": "cp1252"}.get(env["stored"], "latin-1"))
             for m, x in env["v1"][0].items()}

        def part(m, at, n):
            return v[m][at:at + n].ljust(n, b"\0")
        g = GENRES.index(v["G"].decode()) if v["G"] else 255
        if rng.random() < .3 or any(len(v[m]) > 30 for m in "TAL"):
            x = b""             # the genre may be in either part
            if v["G"] and rng.random() < .5:
                x, g = v["G"], rng.choice([255, 3])
            out += b"TAG+" + part("T", 30, 60) + part("A", 30, 60) + part("L", 30, 60) + b"\0" + x.ljust(30, b"\0") + \
                b"000:00000:00"
        out += b"TAG" + part("T", 0, 30) + part("A", 0, 30) + part("L", 0, 30) + part("Y", 0, 4) + bytes(30) + bytes([g])
    return out


def expected(ps, size, audio):
    """the byte strings an expansion may come out as"""
    res = [b""]
    for p in ps:
        if p["k"] == "text":
            enc = {"output=iso-8859-1": "latin-1", "output=cp1252": "cp1252"}.get(p.get("out"), "utf-8")
            alts = [real(p["s"]).encode(enc)]
        else:
            up = p["case"] == "hex-case=U"
            if p["k"] == "S":
                alts = ["%X" % size if up else "%x" % size] if p["base"] == "base=hex" else ["%d" % size]
            else:
                d = hashlib.md5(audio).digest()
                if p["base"] == "base=hex":
                    alts = [d.hex().upper() if up else d.hex()]
                else:       # which decimal digits is not specified
                    alts = ["".join("%03d" % x for x in d), "".join("%d" % x for x in d), str(int.from_bytes(d, "big"))]
                    if not p["base"]:
                        alts += [d.hex().upper() if up else d.hex()]
            alts = [a.encode() for a in alts]
        res = [r + a for r in res for a in alts]
    return res
