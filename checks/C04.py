#!/usr/bin/env python3
"""Text: random histories of text invocations."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *  # noqa
import commands as M


def run():
    c = Check("C04")
    exe = B.build(("cli",))["cli"]
    M.replay(c, exe, M.explore(c, M.small("Text")))
    M.replay(c, exe, M.explore(c, M.small("Del")))
    M.replay(c, exe, M.explore(c, M.rand(["text"], 5), 5000 if c.thorough else 500))
    M.replay(c, exe, M.explore(c, M.rand(["text"], 5, True), 5000 if c.thorough else 500))
    return c.finish()


main(run)
