"""Replaying spec/Batch.tla with the command-line program."""
import os
import random
import shutil
import subprocess

import cli
import id3
from common import T, _env

DUMMY = {"Files(h)": T.Raw("RandFiles(h)"), "Cmds(s, h)": T.Raw("{}"), "MaxSteps": 1}
AUDIO = [b"", b"\xff\xfb\x90\x64" + bytes(i * 7 % 251 for i in range(413)), b"no frames at all " * 5]
# files that no program can make sense of
MALFORMED = [b"ID3\x20\0\0\0\0\0\x0aabcdefghijklmnop", b"ID3\3\0\0\0\0\1\0TIT2\0\0\0\5\0\0\0abc",
             b"ID3\4\0\0\0\0\2\0TIT2\0\0\0\2\0\0\3ab"]
DIRS = ("d", "d/e", "w", "empty")


def explore(c, spec, simulate=None):
    r = c.model("Batch", spec=spec, invariants=["EachAlone", "Once", "AllFound", "BadStay", "Quiet", "BOut"],
                constants=DUMMY, simulate=simulate, depth=14).traces
    uniq = {}
    for t in r:
        uniq.setdefault(repr(t), t)
    return list(uniq.values())


def snapshot(root):
    """what is where, with modification times"""
    s = {}
    for d, ds, fs in os.walk(root):
        for n in ds:
            s[os.path.relpath(os.path.join(d, n), root)] = None
        for n in fs:
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                s[os.path.relpath(p, root)] = (f.read(), os.lstat(p).st_mtime_ns)
    return s


def contents(s):
    return {p: x and x[0] for p, x in s.items()}


class Tree:
    def __init__(self, exe, root, t, seed):
        self.exe, self.root, self.t = exe, root, t
        self.rng = random.Random(seed)
        self.runs, self.data = {}, {}
        for p, x in sorted(cli.as_map(t["start"]).items()):
            os.makedirs(os.path.join(root, "mint"), exist_ok=True)
            if x["bad"]:
                self.data[p] = self.rng.choice(MALFORMED)
                continue
            r = cli.Run(exe, _env(), os.path.join(root, "mint"), len(self.runs), self.rng.choice(AUDIO),
                        self.rng.random())
            r.start(x["f"])
            self.runs[p], self.data[p] = r, r.data
        self.opts = self.options(t["cmd"])
        self.args = [a + ("/" if a in DIRS and self.rng.random() < .2 else "") for a in t["args"]]
        self.prefix = self.rng.random() < .3

    def options(self, c):
        if "opts" not in c:
            return cli.argv(c, self.rng)
        rng = self.rng
        o = []
        for x in c["opts"]:
            k, _, v = x.partition(" ")
            o.append(["-" + k] + ([v] if v else []))
        if c["cmd"] == "report":
            o.append(["-o", os.path.join(self.root, "report.out")])
        if c["cmd"] == "rename":
            o = [x + ["out"] if x == ["-o"] else x for x in o] + [["-n"]]
        rng.shuffle(o)
        if c["cmd"] == "help":
            return [rng.choice(["dump", "report", "m3u", "genre", "popm", "xtag", "text", "rename", "split", "encodings"]),
                    rng.choice(["-h", "-h", "-h"])]
        return [c["cmd"]] + [y for x in o for y in x]

    def make(self, name, only=None):
        d = os.path.join(self.root, name)
        for x in DIRS + ("out",):
            os.makedirs(os.path.join(d, x), exist_ok=True)
        for p, b in self.data.items():
            with open(os.path.join(d, p), "wb") as f:
                f.write(b)
            os.utime(os.path.join(d, p), ns=(cli.OLD, cli.OLD))
        return d

    def run(self, d, args):
        if self.prefix:
            args = [os.path.join(d, a) for a in args]
        return subprocess.run([self.exe] + self.opts + args, cwd=d, env=_env(), timeout=60, stdin=subprocess.DEVNULL,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE)

    def replay(self):
        return dict(trace=self.t, options=self.opts, args=self.args, files={p: b.hex() for p, b in self.data.items()})

    def judge(self, p, data, c):
        """whether a file came out as the specification says"""
        r = self.runs[p]
        before, after = self.t["start"][p]["f"], self.t["file"][p]["f"]
        if before == after:
            return None if data == r.data else "is not to change, but does"
        was, r.data = r.data, data
        return r.judge(c, before, after, was)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)
