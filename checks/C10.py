#!/usr/bin/env python3
"""Template expansion: every marker, option and presence of values in small
scope, and random templates with nested clauses."""
import itertools
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import template as M

AUDIO = [b"", b"\xff\xfb\x90\x64" + bytes(i * 7 % 251 for i in range(413)), b"abc" * 700]


def run():
    c = Check("C10")
    drv = B.build(("driver",))["driver"]
    ts = M.explore(c, "FieldEnvs", "FieldTemplates", 1)
    ts += M.explore(c, "XEnvs", "XTemplates", 1)
    ts += M.explore(c, "{ RandEnv(h) }", "BadTemplates(h)", 1)
    ts += M.explore(c, "RandEnvs(h)", "RandTemplates(h)", 5, 20000 if c.thorough else 2000)
    rng = random.Random(c.seed)
    root = scratch_dir()
    files, traces = {}, []
    for i, t in enumerate(ts):
        cmds = []
        for s in t["hist"]:
            a = rng.choice(AUDIO)
            b = M.file_bytes(s["env"], rng, a)
            k = (s["env"]["name"], b)
            if k not in files:
                d = os.path.join(root, "f%d" % len(files))
                os.mkdir(d)
                files[k] = os.path.join(d, M.real(s["env"]["name"]))
                with open(files[k], "wb") as f:
                    f.write(b)
            s["audio"], s["size"] = a, len(b)
            cmds.append(("tpl %s %s" % (files[k].encode().hex(), M.real(s["text"]).encode().hex())).strip())
        traces.append(cmds)
    for t, cmds, o in zip(ts, traces, replay(drv, traces)):
        c.ran({"templates": [s["text"] for s in t["hist"]]}, len(cmds))
        rep = {"commands": cmds, "observed": o, "trace": [dict(s, audio=s["audio"].hex()) for s in t["hist"]]}
        for s, g in itertools.zip_longest(t["hist"], o):
            if s is None or g is None or isinstance(g, Crash):
                c.violation("crash: %s" % (o[-1:],), rep)
                break
            w = s["want"]
            if w["st"] == "ok":
                ok = isinstance(g, str) and bytes.fromhex(g) in M.expected(w["ps"], s["size"], s["audio"])
            elif w["st"] == "enc":
                # not representable: an error, but a clause may take it for a missing value
                ok = not isinstance(g, str) or ")?" in s["text"]
            elif w["st"] == "any":
                ok = True
            else:
                ok = isinstance(g, dict) and "err" in g
            if not ok:
                c.violation("%r with %s gave %r, not %s" % (s["text"], s["env"], bytes.fromhex(g) if isinstance(g, str) else g, w), rep)
                break
    shutil.rmtree(root, ignore_errors=True)
    return c.finish()


main(run)
