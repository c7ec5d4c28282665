"""Run TLC on a module of /verif/spec and collect its verdict, its state counts
and the behaviours the specification emits.

A specification emits a behaviour by evaluating
    PrintT("@@" \\o ToJson(history))
in an invariant; every such line comes back as a decoded JSON value."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ModelError(Exception):
    """the model itself failed: an error of the check, never a violation"""


class Result:
    def __init__(self):
        self.traces = []
        self.states = 0
        self.distinct = 0
        self.output = ""
        self.wall = 0.0
        self.cmd = ""


def tla(v):
    """a Python value as a TLA+ expression (for constants)"""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


def run(module, invariants=(), constants=None, properties=(), spec="Spec",
        constraint=None, view=None, postcondition=None, action_constraint=None,
        workers=8, simulate=None, depth=None, seed=1, heap="4g", timeout=400,
        deadlock=False, extra_defs="", env=None):
    """simulate: number of random behaviours (None: exhaustive breadth-first)"""
    scratch = tempfile.mkdtemp(prefix="tlc-", dir=_scratch_root())
    try:
        name = "MC_" + module
        defs, cfg = [], []
        for k, v in (constants or {}).items():
            defs.append("const_%s == %s" % (k, v if isinstance(v, Raw) else tla(v)))
            k = k.split("(")[0]  # an operator: "Op(x)"
            cfg.append("CONSTANT %s <- const_%s" % (k, k))
        with open(os.path.join(scratch, name + ".tla"), "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS %s\n%s\n%s\n====\n" % (
                name, module, "\n".join(defs), extra_defs))
        cfg.append("SPECIFICATION " + spec)
        cfg += ["INVARIANT " + i for i in invariants]
        cfg += ["PROPERTY " + i for i in properties]
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        if action_constraint:
            cfg.append("ACTION_CONSTRAINT " + action_constraint)
        if view:
            cfg.append("VIEW " + view)
        if postcondition:
            cfg.append("POSTCONDITION " + postcondition)
        cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        with open(os.path.join(scratch, name + ".cfg"), "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
               "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC",
               "-config", name + ".cfg", "-metadir", os.path.join(scratch, "meta"),
               "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 20),
                    "-seed", str(seed), "-workers", "1"]
        else:
            cmd += ["-workers", str(workers), "-fp", "1"]
        cmd.append(name + ".tla")
        r = Result()
        r.cmd = " ".join(cmd)
        t0 = time.time()
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=scratch, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise ModelError("TLC timed out on " + module)
        r.wall = time.time() - t0
        out = p.stdout.decode(errors="replace")
        rest = []
        for line in out.split("\n"):
            if line.startswith('"@@'):
                r.traces.append(json.loads(json.loads(line)[2:]))
            else:
                rest.append(line)
        r.output = "\n".join(rest)
        m = re.findall(r"([\d,]+) states generated(?:.*?, ([\d,]+) distinct)?", r.output)
        if m:
            r.states = int(m[-1][0].replace(",", ""))
            r.distinct = int((m[-1][1] or m[-1][0]).replace(",", ""))
        m = re.findall(r"The number of states generated: ([\d,]+)", r.output)
        if m:
            r.states = r.distinct = int(m[-1].replace(",", ""))
        ok = p.returncode == 0
        if not ok:
            raise ModelError("TLC failed (%d) on %s\n%s" % (
                p.returncode, module, r.output[-5000:]))
        return r
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


class Raw(str):
    """a constant given as TLA+ text"""


def _scratch_root():
    d = os.path.join(BUILD, "tlc")
    os.makedirs(d, exist_ok=True)
    return d
