#!/usr/bin/env python3
"""Command lines: what the program, the sub-command or the script makes of each."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
from common import _env
import itertools
import resource
import cli
import id3

SCRIPT = '(write (list (quote called) (quote %s) (command-line) (and (member "mods" %%load-path) #t)))(newline)\n'
LOADED = '(write (quote (loaded "%s")))(newline)\n'


def a_file():
    fs = [id3.frame("TPE1", b"\0Artist"), id3.frame("TIT2", b"\0Title"), id3.frame("TALB", b"\0Album"),
          id3.frame("PCNT", bytes([0, 0, 0, 5])), id3.frame("XTAG", b"\1me\0" + cli.cloud_bytes({"k": ["w"]}))]
    v1 = b"TAG" + b"Title".ljust(30, b"\0") + b"Artist".ljust(90, b"\0") + b"\0" * 4 + b"\x11"
    return id3.encode(id3.tag(3, fs, 40), False) + b"\xff\xfb\x90\x64" + bytes(range(200)) + v1


def scheme(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def run():
    c = Check("C16")
    built = B.build(("cli", "ext"))
    exe = built["cli"]
    k = dict(invariants=["Agrees", "Out"])
    ts = c.model("Invocation", spec="SmallSpec", constants={"MaxOpts": 1, "MaxExtra": 2}, **k).traces
    ts += c.model("Invocation", spec="LongSpec", constants={"MaxOpts": 3 if c.thorough else 2, "MaxExtra": 2}, **k).traces
    root = scratch_dir()
    serial = itertools.count()
    data = a_file()
    fixed = {"f.mp3": data, "s.scm": (SCRIPT % "file").encode(), "-odd.scm": (SCRIPT % "odd").encode(),
             "one.scm": (LOADED % "one.scm").encode(), "two.scm": (LOADED % "two.scm").encode()}
    fixed = {n: b.hex() for n, b in fixed.items()}
    put = {"FILE": "f.mp3", "OUT": "out", "EXPR": (SCRIPT % "expr").strip()}

    def tree(d):
        r = {}
        for p, _, fs in os.walk(d):
            for f in fs:
                with open(os.path.join(p, f), "rb") as o:
                    r[os.path.relpath(os.path.join(p, f), d)] = o.read().hex()
        return r

    def go(argv):
        d = os.path.join(root, "r%d" % next(serial))
        os.makedirs(os.path.join(d, "mods"))
        try:
            for n, b in fixed.items():
                with open(os.path.join(d, n), "wb") as f:
                    f.write(bytes.fromhex(b))
            p = subprocess.run([exe] + argv, cwd=d, timeout=60, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 24, 1 << 24)), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=_env({"GUILE_AUTO_COMPILE": "0", "XDG_CACHE_HOME": os.path.join(root, "cache"),
                                         "LD_LIBRARY_PATH": os.path.dirname(built["ext"])}))
            return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"), tree(d)
        except subprocess.TimeoutExpired:
            return None, "", "", {}
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def text(files, n):
        return bytes.fromhex(files.get(n, "")).decode(errors="replace")

    def judge(t, argv, rc, out, err, files):
        if rc is None:
            return "does not come to an end"
        if rc < 0:
            return "killed by signal %d" % -rc
        marks = [x for x in out.splitlines() if x.startswith(("(called", "(loaded"))]
        what = t["what"]
        if what == "done":
            if rc:
                return "failed, with status %d" % rc
            if t["name"] in ("dump", "split", "encodings"):
                if t["name"] == "dump" and "Artist" not in out or t["name"] == "encodings" and "UTF-8" not in out:
                    return "does not tell what it is asked for"
                if any(files.get(n) != b for n, b in fixed.items()):
                    return "changes the file it is to show"
            # what was asked for is there to be seen
            now = bytes.fromhex(files.get("f.mp3", ""))
            try:
                fs = {f["id"]: f["data"] for u, _ in id3.split_file(now)[0] for f in u["frames"]}
            except id3.Malformed as e:
                return "leaves a malformed file: %s" % e
            seen = {"genre": "Rock" in str(fs.get("TCON")) or "17" in str(fs.get("TCON")), "m3u": "f.mp3" in text(files, "out"),
                    "popm": int.from_bytes(fs.get("PCNT", b""), "big") == 7, "rename": files.get("new") == fixed["f.mp3"],
                    "report": "Artist" in text(files, "out"), "split": len(files) > len(fixed),
                    "text": b"words" in fs.get("TIT2", b""), "xtag": {118, 119} <= set(fs.get("XTAG", b""))}
            if not seen.get(t["name"], True):
                return "does not do what it is asked to"
            return None
        if files != fixed:
            return "changes files, though it is %s" % {"run": "another's script", "info": "asked for information"}.get(what, what)
        if what == "run":
            want = ['(loaded "%s")' % n for n in t["loads"]]
            first = {"file": "s.scm", "-s": t["name"], "-c": None}[t["kind"]]
            who = {"s.scm": "file", "-odd.scm": "odd", "EXPR": "expr"}[t["name"]]
            pre = "(called %s (" % who
            post = "%s) %s)" % ("".join(" " + scheme(a) for a in t["rest"]), "#t" if t["paths"] else "#f")
            if rc:
                return "the script fails, with status %d" % rc
            if sorted(marks[:-1]) != sorted(want) or not marks or not marks[-1].startswith(pre):
                return "other scripts are run, or in another order: %s" % marks
            if not marks[-1].endswith(post) or marks[-1].count('"') - post.count('"') != 2:
                return "the script is not given its arguments: %s" % marks[-1]
            if first and '"%s"' % first not in marks[-1][len(pre):len(marks[-1]) - len(post)]:
                return "the script is not told its name: %s" % marks[-1]
            return None
        if any(m.startswith("(called") for m in marks):
            return "runs a script, though %s" % what
        if what == "refused":
            if not rc:
                return "not refused"
            if not err.strip():
                return "refused without a word"
        elif what == "usage":
            if rc or t["name"] not in out:
                return "does not explain its use"
        elif what == "info" and t["kind"] != "bad":
            if rc or not out.strip():
                return "does not give the information asked for"
        return None

    def one(t):
        argv = [put.get(a, a) for a in t["args"]]
        g = go(argv)
        e = judge(t, argv, *g)
        return e and ("%s: %s" % (argv, e), dict(trace=t, argv=argv, status=g[0], out=g[1], err=g[2]))

    try:
        for t, v in zip(ts, pmap(one, ts)):
            c.ran(t, 1)
            if v:
                c.violation(*v)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return c.finish()


if __name__ == "__main__":
    main(run)
