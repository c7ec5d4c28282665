#!/usr/bin/env python3
"""Genres: every number, every standard name and misspellings of them, given to
the genre command and read back; and random histories of genre invocations."""
import os
import random
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import cli
import commands as M
import id3
from genres import GENRES


def run():
    c = Check("C03")
    exe = B.build(("cli",))["cli"]
    root = scratch_dir()
    rng = random.Random(c.seed)
    V1 = dict(title="T", artist="A", album="B", year="1999", comment="c", genre=12, ext=False, xgenre="")

    def file(name, genre=12, ext=False):
        p = os.path.join(root, name)
        tags = [id3.tag(v, [id3.frame("TT2" if v == 2 else "TIT2", b"\0T"), id3.frame("TCO" if v == 2 else "TCON", b"\0x")], 50)
                for v in (2, 3, 4)]
        with open(p, "wb") as o:
            o.write(b"".join(id3.encode(t) for t in tags) + b"audio" +
                    cli.v1_bytes(dict(V1, genre=genre, ext=ext), dict(track=None, speed=0, start="", end="", xgenre="")))
        return p

    def call(*args):
        return subprocess.run([exe] + list(args), cwd=root, env=M._env(), timeout=60, stdin=subprocess.DEVNULL,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

    def genres(p):
        """(the texts of the ID3v2 tags, the number in the ID3v1 tag)"""
        tags, _, v1 = id3.split_file(open(p, "rb").read())
        return [cli.get_text(f["data"]) for t, _ in tags for f in t["frames"] if f["id"] in ("TCO", "TCON")], v1[-1]

    def anycase(s):
        return "".join(rng.choice([x.lower, x.upper])() for x in s)

    words = c.model("Genres", invariants=["Sound", "Out"], constants=dict(MaxEdits=0)).traces
    words += c.model("Genres", invariants=["Sound", "Out"], constants=dict(MaxEdits=3), simulate=3000 if c.thorough else 500,
                     depth=7).traces
    jobs = []
    for w in words:
        if w["word"] != w["word"].strip():
            continue  # blanks at the ends are not significant
        how = "-g" if w["of"] % 4 or w["word"] == GENRES[w["of"]].lower() else "-G"
        jobs.append((how, anycase(w["word"]), w["closest"], w))

    def match(a):
        i, (how, word, closest, w) = a
        p = file("m%d.mp3" % i, ext=i % 3 == 0)
        r = call("genre", how, word, p)
        if r.returncode:
            return "genre %s %r failed: %s" % (how, word, r.stdout[-200:])
        texts, n = genres(p)
        os.remove(p)
        if n not in closest:
            return "genre %s %r gives %d, not one of %s" % (how, word, n, closest)
        if texts != [word if how == "-G" else GENRES[n]] * 3:
            return "genre %s %r gives %d and texts %s" % (how, word, n, texts)
        return None

    for j, e in zip(jobs, pmap(match, list(enumerate(jobs)))):
        c.ran(j[3])
        if e:
            c.violation(e, j)

    def number(n):
        p = file("n%d.mp3" % n)
        before = open(p, "rb").read()
        r = call("genre", "-w", str(n), p)
        if 0 <= n < 192:
            if r.returncode or genres(p) != ([GENRES[n]] * 3, n):
                return "genre -w %d gives %s" % (n, genres(p))
        elif r.returncode == 0 or open(p, "rb").read() != before:
            return "genre -w %d is not rejected" % n
        for opts in ([], ["-1"]) if 0 <= n < 256 else ():
            p = file("s%d.mp3" % n, genre=n)
            out = call("dump", "-f", "standard", *opts, p).stdout.decode(errors="replace")
            want = GENRES[n] if n < 192 else None
            lines = [x.strip() for x in out.split("\n")]
            if n < 192 and want not in lines:
                return "dump does not show %s for %d" % (want, n)
            if n >= 192 and (any(g in lines for g in GENRES) or not re.search(r"\b%d\b" % n, out)):
                return "dump shows a genre for %d" % n
        return None

    ns = list(range(-1, 258)) + [448, 512, 65536 + 9, 2 ** 32 + 3]
    for n, e in zip(ns, pmap(number, ns)):
        c.ran(dict(number=n))
        if e:
            c.violation(e, n)
    out = call("genre", "-W", "-P").stdout.decode()
    shown = re.findall(r"^\s*(\d+): (.*)$", out, re.M)
    c.ran("list of genres")
    if [(int(a), b) for a, b in shown] != list(enumerate(GENRES)):
        c.violation("genre -W does not list the genres", out)
    shutil.rmtree(root, ignore_errors=True)
    M.replay(c, exe, M.explore(c, M.rand(["genre"], 4), 3000 if c.thorough else 300))
    return c.finish()


main(run)
