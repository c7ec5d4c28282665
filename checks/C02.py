#!/usr/bin/env python3
"""Play counts and ratings: random histories of popm invocations."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import commands as M


def run():
    c = Check("C02")
    exe = B.build(("cli",))["cli"]
    M.replay(c, exe, M.explore(c, M.small("Popm")))
    M.replay(c, exe, M.explore(c, M.rand(["popm"], 6), 8000 if c.thorough else 800))
    return c.finish()


main(run)
