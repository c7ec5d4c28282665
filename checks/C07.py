#!/usr/bin/env python3
"""Renaming: every order of few files, and random trees, arguments and templates."""
import itertools
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
from common import _env
import batch
import template as M

INV = ["NothingLost", "NoOverwrite", "FailuresStay", "Copies", "DryRun", "Agree", "ROut"]
CONST = {"Envs(h)": T.Raw("{}"), "Templates(h)": T.Raw("{}"), "MaxSteps": 1}


def run():
    c = Check("C07")
    exe = B.build(("cli",))["cli"]
    root = scratch_dir()
    ts = c.model("Rename", spec="SmallSpec", invariants=INV, constants=CONST).traces
    ts += c.model("Rename", spec="RandSpec", invariants=INV, constants=CONST, depth=12,
                  simulate=20000 if c.thorough else 2500).traces
    seen = {}
    for t in ts:
        seen.setdefault(repr(t["cfg"]), t)
    ts = [t for t in seen.values() if t["cfg"]["args"]]
    serial = itertools.count()

    def one(a):
        i, t = a
        k = t["cfg"]
        rng = random.Random("%d/%d" % (c.seed, i))
        d = os.path.join(root, "t%d" % next(serial))
        data = {}
        try:
            for x in ("d/e", "o"):
                os.makedirs(os.path.join(d, x))
            for f in k["files"]:
                b = rng.choice(batch.MALFORMED) if f["bad"] else M.file_bytes(f["env"], rng, b"audio of " + f["id"].encode())
                if f["bad"]:
                    b += f["id"].encode()
                data[f["id"]] = b
                with open(os.path.join(d, f["path"]), "wb") as o:
                    o.write(b)
            opts = [["-t", k["text"]]] + [["-r"]] * k["remove"] + [["-o", "o"]] * k["out"] + [["-n"]] * k["dry"]
            if k["text"] == "%A - %T.mp3" and rng.random() < .5:
                opts.pop(0)
            opts += [["-v"]] * (rng.random() < .3)
            rng.shuffle(opts)
            argv = ["rename"] + [y for x in opts for y in x] + k["args"]
            p = subprocess.run([exe] + argv, cwd=d, env=_env(), timeout=60, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            err = p.stderr.decode(errors="replace")
            have = {n: b for n, b in batch.contents(batch.snapshot(d)).items() if b is not None}
        finally:
            shutil.rmtree(d, ignore_errors=True)
        rep = dict(cfg=k, argv=argv, files={n: b.hex() for n, b in data.items()}, after={n: b.hex() for n, b in have.items()},
                   outcomes=t["outcomes"], err=err)
        if p.returncode < 0:
            return "%s: killed by signal %d" % (argv, -p.returncode), rep
        fits = [o for o in t["outcomes"] if {n: data[x] for n, x in batch.cli.as_map(o["tree"]).items()} == have]
        if not fits:
            return "%s: left %s, not one of %s; %s" % (argv, sorted(have), [sorted(o["tree"]) for o in t["outcomes"]], err), rep
        if not any(all(os.path.basename(f) in err for f in o["failed"]) for o in fits):
            return "%s: %s not reported: %s" % (argv, fits[0]["failed"], err), rep
        return None
    for t, v in zip(ts, pmap(one, list(enumerate(ts)))):
        c.ran(t["cfg"], 1)
        if v:
            c.violation(*v)
    shutil.rmtree(root, ignore_errors=True)
    return c.finish()


main(run)
