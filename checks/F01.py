#!/usr/bin/env python3
"""Audio is never changed: histories of commands and library calls on files with
audio that looks like this or that."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import cli
import commands as M
import id3

PIECES = {
    "frames": b"".join(b"\xff\xfb\x90\x64" + bytes(i * k % 256 for i in range(413)) for k in (3, 5)),
    "id3": id3.encode(id3.tag(3, [id3.frame("TIT2", b"\0not a tag")], 9)),
    "tag": b"TAG" + b"x" * 30, "tag+": b"TAG+" + b"y" * 20, "3di": b"3DI\4\0\x10\0\0\0\5",
    "zeros": bytes(70), "ff": b"\xff", "nearly-v1": b"TAG" + b"v" * 124, "nearly-ext": b"TAG+" + b"e" * 222,
    "big": bytes((i * i + i // 251) % 256 for i in range(300001)), "huge": None, "pad": b"\0\0ID3\0\0",
}
PIECES["huge"] = b"".join(bytes([k]) + PIECES["big"] for k in range(17)) + b"!"   # more than five megabytes
SOME_V1 = cli.v1_bytes(dict(title="t", artist="", album="", year="", comment="", genre=1, ext=False, xgenre=""), dict(track=1))


def audio(ps, i):
    a = b"".join(PIECES["huge" if p == "big" and i % 5 == 0 else p] for p in ps)
    if a[:3] == b"ID3":
        a = b"\xff" + a
    # what looks like a tag at the end is one
    while id3.v1_kind(a) or id3.v1_kind(a + SOME_V1) != 128:
        a += b"."
    return a


def run():
    c = Check("F01")
    bins = B.build(("driver", "cli"))
    traces = c.model("Track", spec="TSpec", invariants=["TOut"], properties=["AudioStays"], depth=9,
                     constants=M.rand(["genre", "text", "popm", "xtag"], 5), simulate=7000 if c.thorough else 900).traces
    root = scratch_dir()
    serial = itertools.count()

    def library(r, s):
        k, rng = s["c"], r.rng
        if k["cmd"] == "settags":
            tags = [cli.real_tag(t, rng) for t in k["tags"]]
            cmds = ["t.read s%d %s ctor" % (i, id3.encode(t).hex()) for i, t in enumerate(tags)]
            names = " ".join("s%d" % i for i in range(len(tags)))
            cmds.append("s.copy %s %s %d %s" % (r.path, k["how"], k["keep"], names) if k["api"] == "copy" else
                        "s.maybe %s %s %s %d %s" % (r.path, k["how"], k["api"], k["keep"], names))
            for t, x in zip(k["tags"], tags):
                r.note(t, x)
        elif k["cmd"] == "setv1":
            r.extra, r.had_v1 = cli.v1_extra(rng), True
            cmds = ["v1.read v %s" % cli.v1_bytes(k["v1"], r.extra).hex(), "v1.replace %s v" % r.path]
        else:
            r.had_v1 = False
            cmds = ["v1.remove %s" % r.path]
        r.log.append(cmds)
        p = subprocess.run([bins["driver"], "30"], input=("\n".join(cmds) + "\n").encode(), cwd=r.dir, env=M._env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        out = p.stdout.decode(errors="replace")
        if "driver_error" in out:
            raise RuntimeError(out)
        if p.returncode or '"err"' in out:
            return "failed: " + out[-300:]
        was, before = r.data, r.before
        r.files = {n: open(os.path.join(r.dir, n), "rb").read() for n in os.listdir(r.dir)}
        r.data, r.before = r.files[r.name], s["file"]
        return r.judge(None, before, s["file"], was)

    def one(a):
        i, t = a
        r = cli.Run(bins["cli"], M._env(), root, next(serial), audio(t["audio"], i), "%d/%d" % (c.seed, i))
        try:
            r.start(t["start"])
            first = r.data
            for s in t["hist"]:
                if s["c"]["cmd"] in ("settags", "setv1", "cutv1"):
                    e = library(r, s)
                else:
                    e = r.step(s["c"], s["file"], s["valid"], s["changed"])
                if e:
                    return "after %s: %s" % (r.log, e), dict(trace=t, commands=r.log, file=first.hex()[:20000])
            return None
        finally:
            r.close()
    for t, v in zip(traces, pmap(one, list(enumerate(traces)))):
        c.ran(t, len(t["hist"]))
        if v:
            c.violation(*v)
    shutil.rmtree(root, ignore_errors=True)
    return c.finish()


main(run)
