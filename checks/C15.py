#!/usr/bin/env python3
"""Settings in the environment against the options they stand for."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
from common import _env
import itertools
import random
import cli
import id3

# what each command is asked to do, and options that go with it
ASK = {"genre": [["-w", "17"], ["-G", "Doom"]],
       "popm": [["-C", "7"], ["-i", "2"], ["-r", "***"], ["-p", "-i", "1"]],
       "rename": [["-r", "-t", "%A - %T.mp3"], ["-t", "%T.mp3"]],
       "text": [["-A", "café"], ["-T", "title", "-y", "1999"], ["-d", "TPE1"]],
       "xtag": [["-T", "a=b&c"], ["-m", "-T", "k=w"], ["-g"]],
       "dump": [["-f", "csv"], ["-f", "json"], []]}


def some_file(rng):
    tags = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        ver = rng.randrange(2, 5)
        fs = [id3.frame("TP1" if ver == 2 else "TPE1", b"\0Artist"), id3.frame("TT2" if ver == 2 else "TIT2", b"\0T" + b"xyz"[:rng.randrange(3)])]
        if rng.random() < .5:
            fs.append(id3.frame("CNT" if ver == 2 else "PCNT", bytes([0, 0, 0, 5])))
        for o in (b"me", b"you"):
            if rng.random() < .5:
                fs.append(id3.frame("POP" if ver == 2 else "POPM", o + b"\0\x10\0\0\0\5"))
            if rng.random() < .5:
                fs.append(id3.frame("XTG" if ver == 2 else "XTAG", b"\1" + o + b"\0" + cli.cloud_bytes({"k": ["v"]})))
        for i in range(rng.choice([0, 2, 5])):
            fs.append(id3.frame("COM" if ver == 2 else "COMM", b"\0eng\0comment %d" % i))
        if rng.random() < .3:
            fs.append(id3.frame("ZZZ" if ver == 2 else "ZZZZ", b"\xff\xe0\xff\xfb"))
        tags.append(id3.encode(id3.tag(ver, fs, rng.choice([0, 20, 200])), rng.random() < .3))
    v1 = b"TAG" + "Кино".encode(rng.choice(["cp1251", "utf-8"])).ljust(30, b"\0") + b"Artist".ljust(90, b"\0") + b"\0" * 4 + b"\x11"
    return b"".join(tags) + b"\xff\xfb\x90\x64" + bytes(range(200)) + rng.choice([b"", v1])


def run():
    c = Check("C15")
    exe = B.build(("cli",))["cli"]
    inv = ["LastWord", "Silent", "Apart", "Out"]
    ts = c.model("Settings", spec="Spec", invariants=inv, constants={"Limit": 2}, constraint="Few").traces
    ts += c.model("Settings", spec="RandSpec", invariants=inv, constants={"Limit": 99}, simulate=6000 if c.thorough else 1200, depth=4).traces
    root = scratch_dir()
    serial = itertools.count()

    def tree(d):
        r = {}
        for p, _, fs in os.walk(d):
            for f in fs:
                with open(os.path.join(p, f), "rb") as o:
                    r[os.path.relpath(os.path.join(p, f), d)] = o.read().hex()
        return r

    def go(argv, env, data):
        d = os.path.join(root, "r%d" % next(serial))
        for x in ("o1", "o2"):
            os.makedirs(os.path.join(d, x))
        try:
            with open(os.path.join(d, "x.mp3"), "wb") as f:
                f.write(data)
            os.utime(os.path.join(d, "x.mp3"), (10 ** 9, 10 ** 9))
            p = subprocess.run([exe] + argv + ["x.mp3"], cwd=d, env=_env(env), timeout=60, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"), tree(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def options(ps, rng):
        r = [["--" + o] if v == "" else ["--%s=%s" % (o, v)] for o, v in ps]
        rng.shuffle(r)
        return [y for x in r for y in x]

    def one(a):
        i, t = a
        rng = random.Random("%d/%d" % (c.seed, i))
        data = some_file(rng)
        ask = rng.choice(ASK[t["cmd"]])
        env = {"SCRIBBU_" + k: v for k, v in t["env"]}
        x = [t["cmd"]] + ask + options(t["cli"], rng)
        y = [t["cmd"]] + ask + options(t["eff"], rng)
        g = go(x, env, data)
        rep = dict(trace=t, argv=x, env=env, like=y, file=data.hex(), got=g)
        if g[0] < 0:
            return "%s with %s: killed by signal %d" % (x, env, -g[0]), rep
        if t["bad"]:
            if g[0] == 0 or g[3] != {"x.mp3": data.hex()}:
                return "%s with %s: not refused" % (x, env), rep
            return None
        w = go(y, {}, data)
        rep["want"] = w
        for k, n in enumerate(("exit status", "output", "errors", "files")):
            if g[k] != w[k]:
                return "%s with %s: %s not as for %s: %r, %r" % (x, env, n, y, str(g[k])[:300], str(w[k])[:300]), rep
        return None

    try:
        for t, v in zip(ts, pmap(one, list(enumerate(ts)))):
            c.ran(t, 1)
            if v:
                c.violation(*v)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return c.finish()


if __name__ == "__main__":
    main(run)
