#!/usr/bin/env python3
"""Tag clouds: every small combination and random histories of xtag invocations."""
import os
import sys
import urllib.parse
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import cli
import commands as M


def clouds(out):
    """the clouds printed, one per line"""
    u = urllib.parse.unquote
    res = []
    for line in out.decode().splitlines():
        m = {}
        for kv in line.split("&"):
            k, _, v = kv.partition("=")
            m.setdefault(u(k), set()).update(u(x) for x in v.split(",") if x)
        res.append(m)
    return res


def shown(r, s):
    """what a report must show"""
    c = s["c"]
    if not c["get"] or not s["valid"]:
        return None
    want = [{k: set(v) for k, v in cli.as_map(f["m"]).items()}
            for i, t in enumerate(s["file"]["v2"]) if not c["tags"] or i in c["tags"]
            for f in t["frames"] if f["k"] == "xtag" and c["owner"] in ("", f["o"])]
    want = [m for m in want if m]
    got = clouds(r.out)
    return None if got == want else "shows %r, not %r" % (got, want)


def run():
    c = Check("C05")
    exe = B.build(("cli",))["cli"]
    M.replay(c, exe, M.explore(c, M.small("Xtag")), shown)
    M.replay(c, exe, M.explore(c, M.rand(["xtag"], 6), 8000 if c.thorough else 800), shown)
    return c.finish()


main(run)
