#!/usr/bin/env python3
"""Scripts: every kind of frame read, written back, set and read again; random
scripts over random files; and walks over directories."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
from common import _env
import id3
import script as S

AUDIO = [b"", b"\xff\xfb\x90\x64" + bytes(i * 7 % 251 for i in range(600)), b"no ID3 here \xff\xe0" * 40]
CHUNK = 60


def groups(s, answers):
    """did frames lose their groups while nothing was to change?"""
    if not s.lost_groups():
        return False
    i = next(k for k, x in enumerate(s.steps) if x["op"] == "write")
    try:
        with open(s.snap(i + 2), "rb") as f:
            now = f.read()
        gid = lambda b: [x["gid"] for t, _ in id3.split_file(b)[0] for x in t["frames"]]    # noqa
        return gid(now) != gid(s.first)
    except (OSError, id3.Malformed):
        return False


def run():
    c = Check("C12")
    built = B.build(("cli", "ext"))
    gen = dict(spec="Spec", invariants=["Unchanged", "ReadBack", "Distinct", "Out"], properties=["Apart"])
    traces = c.model("ScriptGen", constants={"Files(h)": T.Raw("KindFiles"), "Steps(s, h)": T.Raw("KindSteps(s, h)"),
                                             "MaxSteps": 5}, **gen).traces
    n = 20000 if c.tier == "thorough" else 4000
    gen.pop("properties")
    traces += c.model("ScriptGen", constants={"Files(h)": T.Raw("RandFiles(h)"), "Steps(s, h)": T.Raw("RandSteps(s, h)"),
                                              "MaxSteps": 10}, simulate=n, depth=14, **gen).traces
    root = scratch_dir()

    def chunk(a):
        k, ts = a
        work = os.path.join(root, str(k))
        os.mkdir(work)
        tree = os.path.join(work, "t")
        os.makedirs(os.path.join(tree, "a", "b"))
        ss = [S.Session(k * CHUNK + i, os.path.join(tree, ["", "a", "a/b"][i % 3]), t, c.seed, AUDIO[i % 3])
              for i, t in enumerate(ts)]
        for s in ss:
            s.first = s.bytes
        # the walk sees the files as they are at the start
        walk = '(run -1 "%s" (walk))\n' % tree
        out, err, rc = S.run(built, B.REPO, _env(), walk + "".join(s.form for s in ss), work)
        res = []
        bad = walked(ss, out.get(-1, {}).get(0))
        if bad:
            res.append((bad, dict(tree=[s.first.hex() for s in ss]), None))
        for s in ss:
            if s.n not in out:
                # the one before it died, and took this with it
                o, err, rc = S.run(built, B.REPO, _env(), s.form, work)
                out.update(o)
            e = s.judge(out.get(s.n, {}))
            if e:
                if "died" in e:
                    e += " (exit %d: %s)" % (rc, err[-300:])
                res.append((e, dict(behaviour=s.hist, file=s.first.hex(), form=s.form), None))
            elif groups(s, out):
                res.append(("the frames' groups are lost", dict(behaviour=s.hist, file=s.first.hex(), form=s.form), "group-lost"))
        shutil.rmtree(work, ignore_errors=True)
        return res

    def walked(ss, a):
        if a is None:
            return "with-track-in died"
        if a[0] != "ok":
            return "with-track-in failed: %s" % S.st(a[2])
        seen = {}
        for p, tags, v1 in a[1]:
            p = os.path.normpath(S.st(p))
            if p in seen:
                return "with-track-in gave %s twice" % p
            seen[p] = tags, v1
        if set(seen) != {os.path.normpath(s.path) for s in ss}:
            return "with-track-in gave other files than there are"
        for s in ss:
            tags, v1 = seen[os.path.normpath(s.path)]
            f = s.hist[0]["file"]
            e = S.judge_see(tags, [see_tag(t) for t in f["v2"]]) or \
                S.judge_see1(v1, [dict(t, x=t["x"]) for t in f["v1"]])
            if e:
                return "in with-track-in: " + e
        return None

    def see_tag(t):
        return dict(t, frames=[dict(sym=sym.get((t["ver"], f["id"]), "unknown-frame"), id=f["id"], v=f["v"],
                                    fl=["t" if x else "f" for x in f["keep"]]) for f in t["frames"]])
    # names as the specification's behaviours have them
    sym = {}
    for h in traces:
        for s in h[1:]:
            if s["op"] == "read" and s is h[1]:
                for t, w in zip(h[0]["file"]["v2"], s["see"]):
                    for f, o in zip(t["frames"], w["frames"]):
                        sym[(t["ver"], f["id"])] = o["sym"]
    try:
        chunks = [(k, traces[i:i + CHUNK]) for k, i in enumerate(range(0, len(traces), CHUNK))]
        for (k, ts), res in zip(chunks, pmap(chunk, chunks)):
            for t in ts:
                c.ran(t, len(t) - 1)
            for e, r, key in res:
                c.violation(e, r, key=key)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return c.finish()


if __name__ == "__main__":
    main(run)
