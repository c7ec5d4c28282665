#!/usr/bin/env python3
"""Commands that only report, and dry runs, on trees of good and malformed files."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import batch as M


def quiet(tr, t):
    d = tr.make("tree")
    old = M.snapshot(d)
    p = tr.run(d, [] if t["cmd"]["cmd"] in ("encodings", "help") else tr.args)
    new = M.snapshot(d)
    if p.returncode < 0:
        return "killed by signal %d" % -p.returncode
    if new != old:
        return "changed %s" % sorted(n for n in set(old) | set(new) if old.get(n, 0) != new.get(n, 0))
    if not p.returncode and t["cmd"]["cmd"] not in ("rename", "genre", "popm", "xtag", "m3u", "dump", "report") and not p.stdout:
        return "printed nothing"
    return None


def run():
    c = Check("C06")
    exe = B.build(("cli",))["cli"]
    root = scratch_dir()
    todo = M.explore(c, "RandQuietSpec", 30000 if c.thorough else 4000)
    serial = itertools.count()

    def one(a):
        i, t = a
        tr = M.Tree(exe, os.path.join(root, "t%d" % next(serial)), t, "%d/%d" % (c.seed, i))
        try:
            e = quiet(tr, t)
            return e and ("%s on %s: %s" % (tr.opts, tr.args, e), tr.replay())
        finally:
            tr.close()
    for t, v in zip(todo, pmap(one, list(enumerate(todo)))):
        c.ran(t, 1)
        if v:
            c.violation(*v)
    shutil.rmtree(root, ignore_errors=True)
    return c.finish()


main(run)
