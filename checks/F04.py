#!/usr/bin/env python3
"""Failing and interrupted updates. The update protocol is model-checked against
what may be seen of an update; real updates, with every single file operation
made to fail in turn, are recorded after each file operation and checked against
the same specification."""
import errno
import json
import os
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import codec as K
import id3

AUDIO = bytes((i * 37 + 11) % 253 for i in range(700)) + b"TAX" + b"\xff\xfb\xe0" * 30


def v1(title, genre=17, track=3):
    return b"TAG" + title.ljust(30, b"\0") + b"artist".ljust(30, b"\0") + b"album".ljust(30, b"\0") + \
        b"1999" + b"comment".ljust(28, b"\0") + bytes([0, track, genre])


def v1x(title):
    return b"TAG+" + title.ljust(60, b"\0") + b"artist".ljust(60, b"\0") + b"album".ljust(60, b"\0") + b"\x02" + \
        b"genre".ljust(30, b"\0") + b"001:00" + b"002:00" + v1(title)


def t3(title, pad=0, more=()):
    return id3.tag(3, [id3.frame("TIT2", b"\0" + title, kind="text")] + list(more), pad)


def t4(title, pad=0):
    return id3.tag(4, [id3.frame("TIT2", b"\0" + title, kind="text")], pad)


def scenarios():
    """(name, content before, [driver commands] or command line, ID3v2 stage may be in place, keep,
    stages "2"/"1")"""
    old = id3.encode(t3(b"old title", 40)) + id3.encode(t4(b"another", 5))
    tight = id3.encode(t3(b"old title"))
    big = id3.encode(t3(b"x" * 30000))
    S = []

    def lib(name, before, tags, cmd, place, keep):
        c = []
        for i, t in enumerate(tags):
            c += K.build("s%d" % i, t, None, False)
        S.append((name, before, c + [cmd + " " + " ".join("s%d" % i for i in range(len(tags)))], place, keep, "2"))
    for tail in (v1(b"v1"), b""):
        for keep in (0, 1):
            lib("copy", old + AUDIO + tail, [t3(b"new title, and longer", 9), t4(b"b")], "s.copy @F@ needed %d" % keep, False, keep)
            lib("maybe-grow", tight + AUDIO + tail, [t3(b"new title, longer")], "s.maybe @F@ never reduce %d" % keep, False, keep)
            lib("maybe-remove", old + AUDIO + tail, [], "s.maybe @F@ never reduce %d" % keep, False, keep)
    lib("copy-big", big + AUDIO * 40, [t3(b"y" * 40000)], "s.copy @F@ never 1", False, 1)
    lib("maybe-fit", old + AUDIO + v1(b"v1"), [t3(b"new title"), t4(b"b")], "s.maybe @F@ never reduce 0", True, 0)
    lib("maybe-fit-shrink", old + AUDIO, [t3(b"new title, that takes", 30), t4(b"b", 30)], "s.maybe @F@ never reduce 0", True, 0)
    lib("emplace", old + AUDIO, [t3(b"new title", 40), t4(b"anothes", 5)], "s.emplace @F@ never", True, 0)
    # no file there yet
    lib("new", None, [t3(b"new title", 40), t4(b"another", 5)], "s.maybe @F@ never reduce 0", True, 0)
    lib("new-big", None, [t3(b"y" * 40000), t4(b"z")], "s.maybe @F@ needed full 0", True, 0)
    for (n, a), (m, b) in (((0, b""), (1, v1(b"new"))), ((1, v1(b"old")), (2, v1(b"new"))), ((1, v1(b"old")), (3, v1x(b"new"))),
                           ((3, v1x(b"old")), (1, v1(b"new"))), ((3, v1x(b"old")), (3, v1x(b"new")))):
        S.append(("v1-%d-%d" % (n, m), old + AUDIO + a, ["v1.read t %s" % hx(b), "v1.replace @F@ t"], True, 0, "1"))
    S.append(("v1-remove", old + AUDIO + v1(b"old"), ["v1.remove @F@"], True, 0, "1"))
    S.append(("v1x-remove", old + AUDIO + v1x(b"old"), ["v1.remove @F@"], True, 0, "1"))
    for tail in (b"", v1(b"v1"), v1x(b"v1x")):
        st = "21" if tail else "2"
        S.append(("cli-text-fit", old + AUDIO + tail, "text -T new @F@", True, 0, st))
        S.append(("cli-text-grow", tight + AUDIO + tail, "text -T a-longer-title-than-before @F@", False, 0, st))
        S.append(("cli-text-backup", old + AUDIO + tail, "text -b -T new @F@", False, 1, st))
        S.append(("cli-genre-fit", old + AUDIO + tail, "genre -g Metal @F@", True, 0, st))
        S.append(("cli-genre-backup", tight + AUDIO + tail, "genre -b -g Metal @F@", False, 1, st))
    S.append(("cli-popm", tight + AUDIO, "popm -f -o me -r 4 -C 3 @F@", False, 0, "2"))
    S.append(("cli-xtag-backup", tight + AUDIO, "xtag -b -f -o me -T sub-genres=doom @F@", False, 1, "2"))
    S.append(("cli-create", AUDIO + v1(b"v1"), "text -c -T new @F@", False, 0, "21"))
    return S


OTHERS = {"f.mp3.3": b"an earlier backup", "f.mp3.x": b"not one", "g.mp3": b"something else", ".hidden": b"hidden"}


def heads(data):
    """length of the leading tags"""
    at = 0
    while data[at:at + 3] == b"ID3":
        at += id3.decode(data[at:])[1]
    return at


def tail_at(data):
    k = {"none": 0, "plain": 128, "extended": 355}
    for n, m in ((355, b"TAG+"), (128, b"TAG")):
        if len(data) >= n and data[-n:].startswith(m) and data[-128:].startswith(b"TAG"):
            return len(data) - n
    return len(data)


def run():
    c = Check("F04")
    bins = B.build(("driver", "cli", "shim"))
    c.model("Protocol", invariants=["Inv"], properties=["Refines"])
    c.model("Update", invariants=["TypeOK", "NeverTornByCopy", "KeptBefore", "Faithful"], constants=dict(MaxScratch=2))
    root = scratch_dir()
    env0 = {"PATH": os.environ.get("PATH", ""), "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "HOME": "/nonexistent"}
    serial = iter(range(10 ** 9))

    def execute(sc, k=None, err=0, split=False):
        name, before, cmd, place, keep, stages = sc
        top = os.path.join(root, "r%d" % next(serial))
        d = os.path.join(top, "d")
        os.makedirs(d)
        f = os.path.join(d, "f.mp3")
        for n, x in list(OTHERS.items()) + ([("f.mp3", before)] if before is not None else []):
            with open(os.path.join(d, n), "wb") as o:
                o.write(x)
        if before is not None:
            os.chmod(f, 0o640)
        log = os.path.join(top, "log")
        env = dict(env0, LD_PRELOAD=bins["shim"], FI_DIR=d, FI_LOG=log, FI_ERR=str(err))
        if k is not None:
            env["FI_K"] = str(k)
        if split:
            env["FI_SPLIT"] = "1"
        if isinstance(cmd, str):
            p = subprocess.run([bins["cli"]] + cmd.replace("@F@", f).split(), cwd=top, env=env, timeout=60,
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            res = "died" if p.returncode < 0 else "ok" if p.returncode == 0 else "failed"
        else:
            p = subprocess.run([bins["driver"], "30"], cwd=top, env=env, timeout=60, stdout=subprocess.PIPE,
                               input=("\n".join(x.replace("@F@", f) for x in cmd) + "\n").encode(),
                               stderr=subprocess.STDOUT)
            lines = p.stdout.decode().strip().split("\n")
            if "driver_error" in p.stdout.decode():
                raise RuntimeError(p.stdout.decode())
            res = "died" if p.returncode < 0 else "failed" if '"err"' in lines[-1] else "ok"
        with open(log) as o:
            snaps = [json.loads(x) for x in o]
        end = {n: open(os.path.join(d, n), "rb").read().hex() for n in os.listdir(d)}
        mode = os.stat(f).st_mode & 0o777 if os.path.exists(f) else None
        stray = sorted(x for x in os.listdir(top) if x not in ("d", "log"))
        shutil.rmtree(top)
        return dict(snaps=snaps, end=end, res=res, mode=mode, out=p.stdout.decode(errors="replace")[-400:],
                    stray=stray, fault=any(s["fault"] for s in snaps), ops=max([s["n"] for s in snaps], default=0))

    def contents(sc, new):
        """the contents after each stage"""
        before, stages = sc[1], sc[5]
        if stages == "21" and before is not None:
            mid = new[:heads(new)] + before[heads(before):]
            return [before, mid, new]
        return [before, new]

    def record(i, sc, got, cs):
        name, before, cmd, place, keep, stages = sc
        plan = [place if s == "2" else True for s in stages]

        def views(x):
            v = [dict(at=n, torn=False) for n, y in enumerate(cs) if x == y]
            for n, s in enumerate(stages):
                a, b = cs[n], cs[n + 1]
                if not plan[n]:
                    continue
                if a is None:
                    if x is not None and len(x) <= len(b):
                        v.append(dict(at=n, torn=True))
                elif x is None:
                    pass
                elif s == "2":
                    h = heads(a)
                    if h == heads(b) and len(x) == len(a) and x[h:] == a[h:]:
                        v.append(dict(at=n, torn=True))
                else:
                    h = tail_at(a)
                    if x[:h] == a[:h] and len(x) <= max(len(a), len(b)):
                        v.append(dict(at=n, torn=True))
            return v

        def snap(files, result):
            new = {n: bytes.fromhex(x) for n, x in files.items() if n not in OTHERS and n != "f.mp3"}
            baks = [n for n, x in new.items() if x == before and n.startswith("f.mp3.") and n[6:].isdigit()]
            b = bool(keep and baks)
            return dict(views=views(bytes.fromhex(files["f.mp3"]) if "f.mp3" in files else None), backup=b,
                        scratch=len(new) - b, others=all(files.get(n) == x.hex() for n, x in OTHERS.items()), result=result)
        snaps = [snap(s["files"], "running") for s in got["snaps"]] + [snap(got["end"], "running")]
        if got["res"] != "died":
            snaps.append(snap(got["end"], got["res"]))
        short = [snaps[0]] + [b for a, b in zip(snaps, snaps[1:]) if a != b]
        if short[-1]["result"] != "running":
            # stages that change nothing show in no file operation
            short[-1:] = [dict(short[-1], result="running")] * len(stages) + short[-1:]
        return dict(id=i, plan=plan, keep=bool(keep), snaps=short)

    S = scenarios()
    recs, info = [], []
    jobs = []
    try:
        for sc, got in zip(S, pmap(execute, S)):
            if got["res"] != "ok":
                c.violation("%s: update failed without any fault: %s" % (sc[0], got["out"]), {"scenario": sc[0], "run": got})
                continue
            new = bytes.fromhex(got["end"]["f.mp3"])
            a = sc[1]
            if a is not None and new[heads(new):tail_at(new)] != a[heads(a):tail_at(a)] or new == a:
                c.violation("%s: the update did not do what it should" % sc[0], {"scenario": sc[0], "run": got})
                continue
            if a is not None and got["mode"] != 0o640:
                c.violation("%s: the file's permissions changed to %o" % (sc[0], got["mode"]), {"scenario": sc[0], "run": got})
                continue
            cs = contents(sc, new)
            jobs.append((sc, cs, None, 0, False))
            errs = [errno.EIO, errno.ENOSPC, errno.EXDEV, errno.EACCES] if c.thorough else [errno.ENOSPC]
            for split in (False, True):
                n = got["ops"]
                if split:
                    s = execute(sc, split=True)
                    n = s["ops"]
                    jobs.append((sc, cs, None, 0, True))
                for k in range(1, n + 1):
                    for e in errs:
                        jobs.append((sc, cs, k, e, split))
        outcomes = {}
        for (sc, cs, k, e, split), got in zip(jobs, pmap(lambda j: execute(j[0], j[2], j[3], j[4]), jobs)):
            i = len(recs)
            recs.append(record(i, sc, got, cs))
            info.append(dict(scenario=sc[0], command=sc[2], fault_at=k, errno=e, split=split, run=got))
            outcomes[got["res"]] = outcomes.get(got["res"], 0) + 1
            c.ran({"scenario": sc[0], "k": k, "e": e, "split": split, "res": got["res"]}, len(got["snaps"]))
            if got["stray"]:
                c.violation("%s: files left outside the directory: %s" % (sc[0], got["stray"]), info[-1])
        fn = os.path.join(root, "recs.json")
        with open(fn, "w") as f:
            json.dump(recs, f)
        r = c.model("UpdateTrace", spec="TSpec", invariants=["TInv", "TOut"], constants=dict(MaxScratch=9, File=fn))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    good = {x["id"] for x in r.traces}
    for x, y in zip(recs, info):
        if x["id"] not in good:
            f = [s["op"] for s in y["run"]["snaps"] if s["fault"]]
            c.violation("%s, operation %s (%s) failing: not a behaviour of the specification: ended %s, %s" % (
                y["scenario"], y["fault_at"], f, y["run"]["res"], json.dumps(x["snaps"][-4:])), dict(y, record=x))
    c.extra["outcomes"] = outcomes
    c.extra["faults_injected"] = sum(1 for y in info if y["run"]["fault"])
    return c.finish()


main(run)
