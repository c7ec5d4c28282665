"""Replaying histories of spec/CommandRun.tla with the command-line program."""
import itertools
import shutil

import cli
from common import T, _env, pmap, scratch_dir

AUDIO = [b"", b"\xff\xfb\x90\x64" + bytes(i * 7 % 251 for i in range(600)), b"no ID3\3\0\0\0\0\0\5 here" * 9, b"TAG" + b"\1" * 200]


def small(kind):
    """all files and commands of a kind within its small scope"""
    return {"Files(h)": T.Raw(kind + "Files"), "MaxSteps": 1,
            "Cmds(s, h)": T.Raw(kind + ("Cmds(s)" if kind == "Del" else "Cmds"))}


def rand(kinds, steps, wide=False):
    return {"Files(h)": T.Raw("RandWideFiles(h)" if wide else "RandFiles(h)"), "MaxSteps": steps,
            "Cmds(s, h)": T.Raw("RandCmds(s, h, %s, %s)" % (T.tla(set(kinds)), T.tla(wide)))}


def explore(c, constants, simulate=None):
    return c.model("CommandGen", invariants=["Held", "Out"], constants=constants, simulate=simulate,
                   depth=constants["MaxSteps"] + 4).traces


def replay(c, exe, traces, judge=None):
    """judge(run, step, complaint) may add its own"""
    root = scratch_dir()
    serial = itertools.count()

    def one(a):
        i, t = a
        r = cli.Run(exe, _env(), root, next(serial), AUDIO[i % len(AUDIO)], "%d/%d" % (c.seed, i))
        try:
            r.start(t["start"])
            first = r.data
            for s in t["hist"]:
                e = r.step(s["c"], s["file"], s["valid"], s["changed"])
                if not e and judge:
                    e = judge(r, s)
                if e:
                    return "after %s: %s" % (r.log, e), dict(trace=t, file=first.hex(), commands=r.log)
            return None
        finally:
            r.close()
    try:
        for t, v in zip(traces, pmap(one, list(enumerate(traces)))):
            c.ran(t, len(t["hist"]))
            if v:
                c.violation(*v)
    finally:
        shutil.rmtree(root, ignore_errors=True)
