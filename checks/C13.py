#!/usr/bin/env python3
"""Batches: editing commands and dump on trees of good and malformed files."""
import itertools
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import batch as M
import cli


def named(err, path):
    return os.path.basename(path) in err


def edit(tr, t):
    d = tr.make("tree")
    old = M.snapshot(d)
    p = tr.run(d, tr.args)
    new = M.snapshot(d)
    err = p.stderr.decode(errors="replace")
    if p.returncode < 0:
        return "killed by signal %d" % -p.returncode
    if not t["valid"]:
        return None if p.returncode and new == old else "options that exclude each other: ended with %d" % p.returncode
    if bool(p.returncode) != bool(t["failed"]):
        return "ended with %d, but these cannot be processed: %s; %s" % (p.returncode, t["failed"], err[-300:])
    for f in t["failed"]:
        if not named(err, f):
            return "%s cannot be processed, but is not reported: %s" % (f, err[-300:])
    # each on its own
    want = dict(M.contents(old))
    for f in t["seen"]:
        a = tr.make("alone")
        was = M.contents(M.snapshot(a))
        q = tr.run(a, [f])
        now = M.contents(M.snapshot(a))
        if bool(q.returncode) != (f in t["failed"]):
            return "%s alone: ended with %d: %s" % (f, q.returncode, q.stderr.decode(errors="replace")[-300:])
        want.update({n: b for n, b in now.items() if was.get(n, 0) != b})
        shutil.rmtree(a)
    have = M.contents(new)
    if have != want:
        return "differs from running on each alone: %s" % sorted(n for n in set(have) | set(want) if have.get(n, 0) != want.get(n, 0))
    for f, x in cli.as_map(t["start"]).items():
        if not x["bad"]:
            e = tr.judge(f, have[f], t["cmd"])
            if e:
                return "%s: %s" % (f, e)
        elif have[f] != tr.data[f]:
            return "%s is malformed, but was changed" % f
    return None


def dump(tr, t):
    tr.prefix = False
    d = tr.make("tree")
    p = tr.run(d, tr.args)
    if p.returncode < 0:
        return "killed by signal %d" % -p.returncode
    rest = p.stdout
    err = p.stderr.decode(errors="replace")
    for f in t["failed"]:
        if not named(err, f):
            return "%s cannot be read, but is not reported: %s" % (f, err[-300:])
    seen = set(t["seen"])
    for a in t["args"]:
        todo = {f: None for f in sorted(seen) if f == a or f.startswith(a + "/")}
        for f in list(todo):
            q = tr.run(d, [f])
            todo[f] = q.stdout
        todo = {f: b for f, b in todo.items() if b}
        while todo:
            hit = [f for f, b in todo.items() if rest.startswith(b)]
            if not hit:
                return "argument %s: none of %s follows: %r" % (a, sorted(todo), rest[:200])
            rest = rest[len(todo.pop(hit[0])):]
    if rest:
        return "also printed: %r" % rest[:300]
    return None


def run():
    c = Check("C13")
    exe = B.build(("cli",))["cli"]
    root = scratch_dir()
    n = 4000 if c.thorough else 500
    small = M.explore(c, "SmallSpec")
    todo = [(edit, t) for t in (small if c.thorough else small[c.seed % 4::4])]
    todo += [(edit, t) for t in M.explore(c, "RandEditSpec", n)]
    todo += [(dump, t) for t in M.explore(c, "RandDumpSpec", n // 2)]
    serial = itertools.count()

    def one(a):
        i, (how, t) = a
        tr = M.Tree(exe, os.path.join(root, "t%d" % next(serial)), t, "%d/%d" % (c.seed, i))
        try:
            e = how(tr, t)
            return e and ("%s on %s: %s" % (tr.opts, tr.args, e), tr.replay())
        finally:
            tr.close()
    for (h, t), v in zip(todo, pmap(one, list(enumerate(todo)))):
        c.ran(t, 1 + len(t["seen"]))
        if v:
            c.violation(*v)
    shutil.rmtree(root, ignore_errors=True)
    return c.finish()


main(run)
