#!/usr/bin/env python3
"""Scope and creation: every combination of selection and creation options on
small files, and random histories of all editing commands."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import commands as M


def run():
    c = Check("C01")
    exe = B.build(("cli",))["cli"]
    M.replay(c, exe, M.explore(c, M.small("Small")))
    n = 6000 if c.thorough else 600
    M.replay(c, exe, M.explore(c, M.rand(["genre", "text", "popm", "xtag"], 4), n))
    return c.finish()


main(run)
