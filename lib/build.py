#!/usr/bin/env python3
"""Build scribbu (library + CLI) and the conformance driver from the current
working tree of the repository.

Nothing is written inside the repository: objects go to $VERIF_BUILD (default
/verif/.build).  Compilation goes through ccache, which keys on the contents of
the preprocessed source, so an edited tree is always rebuilt and an unedited one
is cheap.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

LIBS = ["-lguile-3.0", "-lgc", "-lpthread", "-ldl", "-lssl", "-lcrypto",
        "-lboost_iostreams", "-lboost_filesystem", "-lboost_log",
        "-lboost_program_options", "-lboost_regex", "-lboost_system", "-lz",
        "-lunistring"]
LOCALE = dict(LANG="C.UTF-8", LC_ALL="C.UTF-8")

VARIANTS = {
    "plain": ["-O1", "-g1"],
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer",
             "-D_GLIBCXX_ASSERTIONS"],
}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    env = dict(os.environ, **LOCALE)
    env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    env["CCACHE_MAXSIZE"] = "3G"
    env["CCACHE_SLOPPINESS"] = "time_macros"
    env["CCACHE_NOHASHDIR"] = "1"
    env["GUILE_AUTO_COMPILE"] = "0"
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=env, **kw)
    if p.returncode:
        raise BuildError("command failed (%d): %s\n%s" % (
            p.returncode, " ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout


def put_if_changed(src, dst):
    data = open(src, "rb").read()
    if os.path.exists(dst) and open(dst, "rb").read() == data:
        return
    with open(dst, "wb") as f:
        f.write(data)


def generate(gen):
    """bison, flex and guile-snarf outputs"""
    g = os.path.join(gen, "scribbu")
    tmp = os.path.join(gen, "tmp")
    os.makedirs(g, exist_ok=True)
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    # these paths end up in #line directives only
    shutil.copy(os.path.join(REPO, "scribbu/tbt-parser.yy"), tmp)
    shutil.copy(os.path.join(REPO, "scribbu/tbt-lexer.ll"), tmp)
    run(["bison", "-y", "-d", "-o", "tbt-parser.cc", "tbt-parser.yy"], cwd=tmp)
    run(["flex", "tbt-lexer.ll"], cwd=tmp)
    for f in ("tbt-parser.cc", "tbt-parser.hh", "tbt-lexer.cc", "tbt-lexer.hh"):
        put_if_changed(os.path.join(tmp, f), os.path.join(g, f))
    inc = includes(gen)
    env = dict(os.environ, **LOCALE)
    env["CXX"] = "g++"
    # guile-snarf wants the C preprocessor
    env["CPP"] = "g++ -E"
    p = subprocess.run(["guile-snarf", "-o", os.path.join(tmp, "scheme.x"),
                        os.path.join(REPO, "scribbu/scheme.cc")] + inc +
                       ["-std=c++20"], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode or not os.path.exists(os.path.join(tmp, "scheme.x")):
        raise BuildError("guile-snarf: " + p.stdout.decode(errors="replace"))
    put_if_changed(os.path.join(tmp, "scheme.x"), os.path.join(g, "scheme.x"))
    shutil.rmtree(tmp, ignore_errors=True)


def includes(gen):
    return ["-I" + REPO, "-I" + os.path.join(REPO, "scribbu"), "-I" + gen, "-I" + os.path.join(gen, "scribbu"),
            "-I" + os.path.join(VERIF, "harness"), "-I/usr/include/guile/3.0",
            '-DDATADIR=\"/usr/local/share\"']


def build(what=("driver",), variant="plain", defines=()):
    """what: subset of {"driver", "cli", "shim", "ext"}; returns {name: path}"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(what, variant, defines)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def _build(what, variant, defines):
    out = os.path.join(BUILD, variant)
    obj = os.path.join(out, "obj")
    gen = os.path.join(BUILD, "gen")
    os.makedirs(obj, exist_ok=True)
    generate(gen)
    flags = ["-std=c++20", "-w", "-DHAVE_CONFIG_H"] + VARIANTS[variant] + \
        includes(gen) + ["-D" + d for d in defines]

    libsrc = sorted(glob.glob(os.path.join(REPO, "scribbu/**/*.cc"), recursive=True))
    libsrc += [os.path.join(gen, "scribbu/tbt-parser.cc"),
               os.path.join(gen, "scribbu/tbt-lexer.cc")]
    clisrc = sorted(glob.glob(os.path.join(REPO, "src/**/*.cc"), recursive=True))
    drvsrc = sorted(glob.glob(os.path.join(VERIF, "harness/driver/*.cc")))
    todo = [("lib", s) for s in libsrc]
    if "cli" in what:
        todo += [("cli", s) for s in clisrc]
    if "driver" in what:
        todo += [("drv", s) for s in drvsrc]

    def compile_one(item):
        kind, src = item
        name = kind + "-" + hashlib.sha1(src.encode()).hexdigest()[:8] + "-" + \
            os.path.basename(src)[:-3] + ".o"
        o = os.path.join(obj, name)
        extra = ["-I" + os.path.join(REPO, "src")] if kind == "cli" else []
        try:
            run(["ccache", "g++"] + flags + extra + ["-c", src, "-o", o])
        except BuildError:
            # a part of the driver that no longer fits the sources only takes
            # its own commands away
            if kind != "drv" or os.path.basename(src) == "main.cc":
                raise
            sys.stderr.write("warning: driver part %s does not compile\n" % src)
            return "skip", o
        return kind, o

    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        objs = list(ex.map(compile_one, todo))
    by = {k: [o for kk, o in objs if kk == k] for k in ("lib", "cli", "drv")}

    def link(target, os_):
        key = hashlib.sha1()
        for o in os_:
            key.update(open(o, "rb").read())
        key.update(" ".join(["-rdynamic"] + VARIANTS[variant] + LIBS).encode())
        stamp = target + ".stamp"
        if os.path.exists(target) and os.path.exists(stamp) and \
                open(stamp).read() == key.hexdigest():
            return target
        run(["g++", "-rdynamic"] + VARIANTS[variant] + ["-o", target] + os_ + LIBS)
        open(stamp, "w").write(key.hexdigest())
        return target

    res = {}
    if "shim" in what:
        res["shim"] = os.path.join(out, "faults.so")
        run(["gcc", "-O1", "-w", "-fPIC", "-shared", "-o", res["shim"],
             os.path.join(VERIF, "harness/shim/faults.c"), "-ldl"])
    if "ext" in what:
        res["ext"] = os.path.join(out, "libscribbu.so")
        run(["gcc", "-O1", "-w", "-fPIC", "-shared", "-o", res["ext"],
             os.path.join(VERIF, "harness/ext/ext.c"), "-ldl"])
    if "cli" in what:
        res["cli"] = link(os.path.join(out, "scribbu"), by["cli"] + by["lib"])
    if "driver" in what:
        res["driver"] = link(os.path.join(out, "driver"), by["drv"] + by["lib"])
    return res


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--prebuild":
            print(build(("driver", "cli", "shim", "ext")))
            print(build(("driver", "cli"), "asan"))
            sys.exit(0)
        variant = sys.argv[2] if len(sys.argv) > 2 else "plain"
        for k, v in build(tuple(sys.argv[1].split(",")), variant).items():
            print(k, v)
    except BuildError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(3)
