#!/usr/bin/env python3
"""Splitting: every kind of tag, audio and ID3v1 tag, output names that collide
with the input's, and calls that fail."""
import itertools
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
from common import _env
import batch

INV = ["Partition", "Right", "Ends", "Out"]


def run():
    c = Check("C08")
    bins = B.build(("cli", "shim"))
    root = scratch_dir()
    ts = []
    for spec, n in (("SmallSpec", None), ("CallSpec", None), ("RandSpec", 12000 if c.thorough else 1500)):
        ts += [(spec, t) for t in c.model("Split", spec=spec, invariants=INV, simulate=n, depth=10).traces]
    serial = itertools.count()

    def one(a):
        i, (spec, t) = a
        rng = random.Random("%d/%d" % (c.seed, i))
        e = t["env"]
        data, pieces = bytes(t["file"]), [(p["name"] + e["suffix"], bytes(p["bytes"])) for p in t["out"]]
        if spec == "RandSpec" and t["ok"] and rng.random() < .3:
            # more audio, where it does not matter for what the end of the file is
            k = next(k for k, p in enumerate(t["out"]) if p["name"] == "track")
            if len(pieces[k][1]) > 400:
                b = pieces[k][1]
                b = b[:13] + rng.randbytes(rng.choice([1, 4095, 70000])) + b[13:]
                pieces[k] = (pieces[k][0], b)
                data = b"".join(p for _, p in pieces)
        clash = e["name"] in dict(pieces)
        d = os.path.join(root, "t%d" % next(serial))
        base = os.path.join(d, "w")
        log = os.path.join(d, "log")
        fail = None
        if spec == "RandSpec" and rng.random() < .5 and not clash and t["ok"]:
            fail = rng.randrange(25)
        env = _env() if fail is None else dict(_env(), LD_PRELOAD=bins["shim"], FI_DIR=base, FI_LOG=log, FI_K=str(fail),
                                               FI_ERR=str(rng.choice([5, 28])))
        try:
            os.makedirs(os.path.join(base, "sub"))
            old = {n: b"left from before " * 50 for n in e["old"] if n != e["name"]}
            for n, b in list(old.items()) + [(e["name"], data)]:
                with open(os.path.join(base, n), "wb") as f:
                    f.write(b)
            argv = [e["name"]]
            if e["suffix"] or rng.random() < .3:
                o = ["--suffix", e["suffix"]] if e["suffix"] and rng.random() < .5 else ["--suffix=" + e["suffix"]] if e["suffix"] else []
                argv = o + argv if rng.random() < .5 else argv + o
            p = subprocess.run([bins["cli"], "split"] + argv, cwd=base, env=env, timeout=60, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            have = {n: b for n, b in batch.contents(batch.snapshot(base)).items() if b is not None}
        finally:
            shutil.rmtree(d, ignore_errors=True)
        rep = dict(argv=argv, env=e, file=data.hex(), fail=fail, pieces=[(n, b.hex()) for n, b in pieces],
                   have={n: b.hex() for n, b in have.items()}, err=p.stderr.decode(errors="replace"), code=p.returncode)
        if p.returncode < 0 and not (fail is not None):
            return "split %s killed by signal %d" % (argv, -p.returncode), rep
        if have.get(e["name"]) != data:
            return "split %s changed its input" % argv, rep
        if not t["ok"] or clash:
            if p.returncode == 0:
                return "split %s: %s, but success is reported" % (argv, "clash" if clash else "cut short"), rep
            return None
        if p.returncode:
            return None if fail is not None else ("split %s failed: %s" % (argv, rep["err"]), rep)
        want = dict(old, **dict(pieces))
        want[e["name"]] = data
        empty = "track" + e["suffix"]
        if want.get(empty) == b"" and empty not in have:
            del want[empty]
        if have != want:
            return "split %s: pieces %s, not %s" % (argv, {n: len(b) for n, b in have.items()},
                                                    {n: len(b) for n, b in want.items()}), rep
        return None
    for (spec, t), v in zip(ts, pmap(one, list(enumerate(ts)))):
        c.ran({"tags": t["tags"], "v1": t["v1"], "cut": t["cut"], "bytes": len(t["file"]), "call": t["env"]}, 1)
        if v:
            c.violation(*v)
    shutil.rmtree(root, ignore_errors=True)
    return c.finish()


main(run)
