#!/usr/bin/env python3
"""Backups, through the library and the command line: histories of updates from
the specification are carried out, and the directories recorded after each step
checked against it."""
import json
import os
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import codec as K
import id3

OPTIONAL = ["a.mp3.1", "a.mp3.2", "a.mp3.9", "a.mp3.10", "a.mp3.007", "a.mp3.0", "a.mp3.x", "a.mp3.",
            "a.mp3.11x", "a.mp3.12.13", "a.mp3.99999999999", "a.mp3.2147483647", "a.mp3.4294967295",
            "a.mp3.18446744073709551615", "a.mp3.99999999999999999999999", "ba.mp3.5", "a.mp3-6",
            "a.mp3x.8", "A.mp3.3", "a.1", "a.2", "a.mp3.1.4", ".a.mp3.77", "a.mp3. 5", "a.mp3.+5"]
ALWAYS = ["a.mp3", "a"]
TARGETS = ["a.mp3", "a", "a.mp3.1", "ba.mp3.5"]
FORMS = ["abs", "rel", "dot", "sub", "other"]


def code(s):
    return list(s.encode())


def name(n):
    return bytes(n).decode()


def content(n, title):
    # without room for more: an update has to move the audio
    return id3.encode(id3.tag(3, [id3.frame("TIT2", b"\0" + title.encode())])) + b"\xff\xfb audio of " + n.encode()


def title_of(data, n):
    """the title of the file, which must be n's otherwise"""
    try:
        t, k = id3.decode(data)
    except id3.Malformed:
        return None
    if data[k:] != b"\xff\xfb audio of " + n.encode() or len(t["frames"]) != 1:
        return None
    return t["frames"][0]["data"][1:].decode(errors="replace")


def tree(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d))}


def place(form, d, f):
    """-> (working directory, path)"""
    up, here = os.path.split(d)
    return {"abs": (up, os.path.join(d, f)), "rel": (d, f), "dot": (d, "./" + f),
            "sub": (up, here + "/" + f), "other": (d, "../%s/%s" % (here, f))}[form]


def run():
    c = Check("F03")
    bins = B.build(("driver", "cli"))
    r = c.model("Backup", invariants=["Out"], constants=dict(
        Names=set(tuple(code(x)) for x in OPTIONAL), Always=set(tuple(code(x)) for x in ALWAYS),
        Targets=set(tuple(code(x)) for x in TARGETS), Forms=set(FORMS), MaxExtra=1, MaxUpd=1))
    jobs = r.traces
    r = c.model("Backup", invariants=["Out"], constants=dict(
        Names=set(tuple(code(x)) for x in OPTIONAL), Always=set(tuple(code(x)) for x in ALWAYS),
        Targets=set(tuple(code(x)) for x in TARGETS), Forms=set(FORMS), MaxExtra=3, MaxUpd=4),
        simulate=4000 if c.thorough else 1000, depth=8)
    jobs += r.traces
    root = scratch_dir()
    recs, reps = [], {}

    def one(arg):
        i, b, cli = arg
        up = os.path.join(root, "u%d" % i)
        d = os.path.join(up, "d")
        os.makedirs(d)
        for n in b["start"]:
            with open(os.path.join(d, name(n)), "wb") as f:
                f.write(content(name(n), "old"))
        ids = {}

        def snap(t):
            return [dict(n=code(n), c=ids.setdefault(x, len(ids))) for n, x in t.items()]
        start = snap(tree(d))
        steps, log = [], []
        for k, s in enumerate(b["hist"]):
            f = name(s["f"])
            cwd, path = place(s["form"], d, f)
            want = "%d" % k * (10 * (k + 1))  # ever longer
            if cli:
                cmd = [bins["cli"], "text", "-T", want] + (["-b"] if s["keep"] else []) + [path]
                p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   env=B_ENV, timeout=60)
                ok, why = p.returncode == 0, p.stdout.decode(errors="replace")[-300:]
                log.append([cwd, cmd, why])
            else:
                t = id3.tag(3, [id3.frame("TIT2", b"\0" + want.encode(), kind="text")])
                cmds = ["f.cd " + cwd] + K.build("s", t, None, False) + \
                    [("s.copy %s never %d s" if k % 2 else "s.maybe %s never reduce %d s") % (path, s["keep"])]
                o = replay(bins["driver"], [cmds], jobs=1)[0]
                ok, why = o[-1] == 0, str(o[-1])
                log.append([cwd, cmds, why])
            now = tree(d)
            if not ok or title_of(now.get(f, b""), f) != want:
                return i, None, "update of %s failed: %s" % (f, why), log
            new = ids.setdefault(now[f], len(ids))
            steps.append(dict(f=s["f"], keep=s["keep"], new=new, dir=snap(now)))
        if os.listdir(up) != ["d"]:
            return i, None, "files appeared outside the directory: %s" % os.listdir(up), log
        shutil.rmtree(up)
        return i, dict(id=i, start=start, steps=steps), None, log

    B_ENV = dict(os.environ, LANG="C.UTF-8", LC_ALL="C.UTF-8", HOME="/nonexistent")
    try:
        for i, rec, bad, log in pmap(one, [(i, b, i % 2 == 0) for i, b in enumerate(jobs)]):
            b = jobs[i]
            c.ran({"start": [name(x) for x in b["start"]], "cli": i % 2 == 0,
                   "hist": [[name(s["f"]), s["form"], s["keep"]] for s in b["hist"]]}, len(b["hist"]))
            if bad:
                c.violation(bad, {"log": log, "start": [name(x) for x in b["start"]]})
            else:
                recs.append(rec)
                reps[i] = log
        fn = os.path.join(root, "recs.json")
        with open(fn, "w") as f:
            json.dump(recs, f)
        r = c.model("BackupTrace", spec="TSpec", invariants=["TOut"], constants=dict(
            Names=T.Raw("{}"), Always=T.Raw("{}"), Targets=T.Raw("{}"), Forms=T.Raw("{}"), MaxExtra=0,
            MaxUpd=0, File=fn))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    good = {x["id"] for x in r.traces}
    for x in recs:
        if x["id"] not in good:
            c.violation("not a behaviour of the specification: start %s; after the steps %s" % (
                [name(y["n"]) for y in x["start"]],
                [[name(s["f"]), s["keep"], [(name(y["n"]), y["c"]) for y in s["dir"]]] for s in x["steps"]]),
                {"log": reps[x["id"]], "record": x})
    c.extra["recorded_histories_accepted"] = len(good)
    return c.finish()


main(run)
