"""What every check shares: building, replaying behaviours into the driver or the
command-line program, reporting and evidence."""
import concurrent.futures as cf
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B          # noqa: E402
import tlc as T            # noqa: E402

NCPU = os.cpu_count() or 4


def hx(b):
    b = bytes(b)
    return b.hex() if b else "-"


class Crash(dict):
    pass


def scratch_dir():
    """a scratch directory of this check's own, away from /repo and /verif's files"""
    root = os.path.join(B.BUILD, "run")
    os.makedirs(root, exist_ok=True)
    return tempfile.mkdtemp(prefix="vscratch-", dir=root)


def _env(extra=None):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LANG": "C.UTF-8",
         "LC_ALL": "C.UTF-8", "HOME": "/nonexistent",
         "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=512"}
    e.update(extra or {})
    return e


def _run_batch(driver, batch, limit, env):
    """batch: [(key, [command, ...])]; returns {key: [observation, ...]}"""
    res = {}
    i = 0
    while i < len(batch):
        cwd = scratch_dir()
        lines = []
        for _, cmds in batch[i:]:
            lines.append("reset")
            lines.extend(c.replace("@CWD@", cwd) for c in cmds)
        p = subprocess.Popen([driver, str(limit)], stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             cwd=cwd, env=_env(env))
        out, err = p.communicate(("\n".join(lines) + "\n").encode())
        shutil.rmtree(cwd, ignore_errors=True)
        got = out.decode(errors="replace").split("\n")
        if got and got[-1] == "":
            got.pop()
        k = 0
        done = True
        while i < len(batch):
            key, cmds = batch[i]
            obs = []
            need = 1 + len(cmds)
            if len(got) - k >= need:
                obs = [json.loads(x) for x in got[k + 1:k + need]]
                res[key] = obs
                k += need
                i += 1
                continue
            obs = [json.loads(x) for x in got[k + 1:]]
            rc = p.returncode
            why = "timeout" if rc == -signal.SIGALRM else "exit %d" % rc
            obs.append(Crash(crash=why, stderr=err.decode(errors="replace")[-3000:]))
            res[key] = obs
            i += 1
            done = False
            break
        if done:
            break
    return res


def replay(driver, traces, limit=20, env=None, jobs=NCPU, strict=True):
    """traces: list of lists of driver commands -> list of lists of observations.
    A crash or a timeout shows up as a Crash observation, the last of its trace."""
    n = max(1, min(jobs, len(traces)))
    batches = [[] for _ in range(n)]
    for i, t in enumerate(traces):
        batches[i % n].append((i, t))
    out = {}
    with cf.ThreadPoolExecutor(n) as ex:
        for r in ex.map(lambda b: _run_batch(driver, b, limit, env), batches):
            out.update(r)
    res = [out[i] for i in range(len(traces))]
    for o in res:
        for x in o:
            if strict and isinstance(x, dict) and "driver_error" in x:
                raise RuntimeError("driver: " + str(x))
    return res


def pmap(f, items, jobs=NCPU):
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(f, items))


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.models = []
        self.traces = 0
        self.steps = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.assumptions = []
        self.known_hit = set()
        self.known = load_known(prop)
        self.extra = {}
        for f in self._replay_files():
            os.remove(f)

    def _replay_files(self):
        d = os.path.join(VERIF, "evidence", "replay")
        if not os.path.isdir(d):
            return []
        return [os.path.join(d, f) for f in os.listdir(d)
                if f.startswith(self.prop + "-")]

    # ---- model
    def model(self, module, **kw):
        kw.setdefault("seed", self.seed)
        if kw.get("simulate"):
            k = max(1, min(NCPU - 1, 7, kw["simulate"] // 40))
            parts = [dict(kw, simulate=-(-kw["simulate"] // k), seed=(kw["seed"] * 1000 + i) * 2654435761 % 2 ** 31,
                          heap="2g") for i in range(k)]
            rs = pmap(lambda a: T.run(module, **a), parts, k)
            r = rs[0]
            for x in rs[1:]:
                r.traces += x.traces
                r.states += x.states
                r.distinct += x.distinct
                r.wall = max(r.wall, x.wall)
        else:
            r = T.run(module, **kw)
        self.states += r.distinct
        self.transitions += r.states
        self.models.append({"module": module, "mode": "simulate" if kw.get("simulate") else "exhaustive",
                            "states_generated": r.states, "distinct_states": r.distinct,
                            "behaviours": len(r.traces), "wall_s": round(r.wall, 1)})
        return r

    # ---- bookkeeping of what was replayed
    def ran(self, trace, steps=1):
        self.traces += 1
        self.steps += steps
        key = json.dumps(trace, sort_keys=True, default=str)
        self.distinct.add(hash(key))
        if len(self.samples) < 3 and len(key) < 6000:
            self.samples.append(trace)

    def violation(self, what, replay, key=None):
        """key: identifies the failing input / call / history for the known findings"""
        if key is not None:
            for k, text in self.known:
                if k == key:
                    self.known_hit.add((k, text))
                    return
        self.violations.append((what, replay))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        for k, text in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        if os.environ.get("VERIF_DUMP"):
            with open(os.environ["VERIF_DUMP"], "w") as f:
                f.writelines(what + "\n" for what, _ in self.violations)
        paths = []
        for i, (what, rep) in enumerate(self.violations[:5]):
            p = os.path.join(VERIF, "evidence", "replay", "%s-%d.json" % (self.prop, i))
            with open(p, "w") as f:
                json.dump({"property": self.prop, "what": what, "replay": rep}, f,
                          indent=1, default=str)
            paths.append(p)
            print("  " + what[:1500])
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "steps_replayed": self.steps, "distinct_traces": len(self.distinct),
            "models": self.models, "samples": self.samples or ["none"],
        }
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions,
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.traces == 0 and not self.violations:
            print("error: nothing was replayed")
            return 4
        if self.violations:
            print("%d violation(s)" % len(self.violations))
            for p in paths:
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
            return 1
        print("%s held: %d states, %d behaviours replayed, %d steps, %.1f s" % (
            self.prop, self.states, self.traces, self.steps, time.time() - self.t0))
        return 0


def load_known(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s key=" % prop):
                rest = line.split(" key=", 1)[1]
                k, text = rest.split(" ", 1)
                res.append((k, text))
    return res


def main(f):
    try:
        r = f()
        if r is None:
            print("error: the check gave no verdict")
            r = 7
        sys.exit(r)
    except B.BuildError as e:
        print("error: build failed\n" + str(e))
        sys.exit(3)
    except T.ModelError as e:
        print("error: model\n" + str(e))
        sys.exit(5)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(6)
