#!/usr/bin/env python3
"""Builds the monitors from /repo's working tree.

build(flavour) compiles the library sources of /repo/src and the harness with the flags of the
flavour and links one program. Objects are cached by the content of everything that goes into
them, so an unchanged source is never compiled twice and a changed one always is.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))

CORE_DIRS = ["CglCommon", "CglAllDifferent", "CglClique", "CglDuplicateRow", "CglKnapsackCover",
             "CglLiftAndProject", "CglMixedIntegerRounding", "CglOddHole", "CglRedSplit",
             "CglSimpleRounding", "CglZeroHalf"]
SHIM_DIRS = ["CglFlowCover", "CglGMI", "CglGomory", "CglMixedIntegerRounding2", "CglRedSplit2",
             "CglResidualCapacity", "CglTwomir", "CglProbing"]
EXTRA = ["CglGMI/CglGMIParam.cpp", "CglRedSplit2/CglRedSplit2Param.cpp"]
WRAP = ["-Wl,--wrap=gettimeofday,--wrap=getrusage"]
LIBS = "-lOsiClp -lClpSolver -lClp -lOsi -lCoinUtils -lbz2 -lz -llapack -lblas -lm -lpthread".split()

UB = ("undefined,float-cast-overflow,float-divide-by-zero").split(",")
FLAVOURS = {
    # the flags of the shipped library
    "plain": dict(cxx="g++", flags=["-O2", "-g1"], link=["-Wl,--wrap=malloc"]),
    "asan": dict(cxx="g++", flags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
                                   "-fno-sanitize=vptr,nonnull-attribute", "-D_GLIBCXX_ASSERTIONS"],
                 link=["-fsanitize=address,undefined"]),
    "tsan": dict(cxx="g++", flags=["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread"], link=["-fsanitize=thread"]),
    "valgrind": dict(cxx="g++", flags=["-O1", "-g", "-DVERIF_VALGRIND"], link=[]),
}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def headers_hash(dirs):
    fs = []
    for d in dirs:
        for pat in ("*.hpp", "*.h"):
            fs += glob.glob(os.path.join(d, pat))
    return sha(*[x for f in sorted(fs) for x in (f, read(f))])


def compile_one(job):
    cxx, flags, src, obj = job
    if os.path.exists(obj):
        return (src, obj, None)
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([cxx] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return (src, obj, r.stdout)
    os.rename(tmp, obj)
    return (src, obj, None)


def build(flavour, jobs=8, verbose=False):
    f = FLAVOURS[flavour]
    out = os.path.join(BUILD, flavour)
    os.makedirs(out, exist_ok=True)
    src = os.path.join(REPO, "src")
    h = os.path.join(ROOT, "harness")
    cfg = os.path.join(h, "config")
    incs = ["-I" + cfg, "-I" + h] + ["-I" + os.path.join(src, d) for d in CORE_DIRS + SHIM_DIRS] + ["-I/usr/include/coin"]
    base = [*f["flags"], "-std=c++17", "-DNDEBUG", "-DHAVE_CONFIG_H", "-DCGLLIB_BUILD", "-DCGL_VERIF_HOOKS", "-w",
            "-ffunction-sections", "-fdata-sections"] + incs
    lib_h = headers_hash([cfg] + [os.path.join(src, d) for d in sorted(os.listdir(src))])
    har_h = headers_hash([h, os.path.join(h, "shim")])
    todo = []  # (kind, group, job)

    def add(kind, group, source, extra):
        flags = base + extra
        key = sha(f["cxx"], " ".join(flags), lib_h, har_h if kind != "lib" else "", read(source))
        obj = os.path.join(out, "%s-%s.o" % (os.path.basename(source)[:-4], key))
        todo.append((kind, group, (f["cxx"], flags, source, obj)))

    for d in CORE_DIRS:
        for s in sorted(glob.glob(os.path.join(src, d, "*.cpp"))):
            if not s.endswith("Test.cpp"):
                add("lib", None, s, [])
    for s in EXTRA:
        add("lib", None, os.path.join(src, s), [])
    shim_inc = ["-include", os.path.join(h, "shim", "shim.hpp")] if os.path.exists(os.path.join(h, "shim", "shim.hpp")) else None
    if shim_inc:
        for s in sorted(glob.glob(os.path.join(h, "shim", "g_*.cpp"))):
            d = os.path.basename(s)[2:-4]
            add("shim", d, s, shim_inc)
            for t in sorted(glob.glob(os.path.join(src, d, "*.cpp"))):
                if not t.endswith("Test.cpp") and os.path.relpath(t, src) not in EXTRA:
                    add("shim", d, t, shim_inc)
    for s in sorted(glob.glob(os.path.join(h, "*.cpp"))):
        add("harness", None, s, ["-Wall"])
    objs, dead, log = [], set(), []
    with cf.ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda t: compile_one(t[2]), todo))
    for (kind, group, job), (s, obj, err) in zip(todo, res):
        if err is None:
            continue
        if kind == "shim":
            dead.add(group)
            log.append("%s: %s" % (s, err))
        else:
            raise BuildError("cannot compile %s:\n%s" % (s, err))
    for (kind, group, job), (s, obj, err) in zip(todo, res):
        if group in dead:
            continue
        objs.append(obj)
    key = sha(*objs)
    exe = os.path.join(out, "monitor-" + key)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([f["cxx"]] + f["link"] + WRAP + ["-Wl,--gc-sections", "-o", tmp] + objs + LIBS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("cannot link:\n" + r.stdout)
        os.rename(tmp, exe)
    # forget objects of earlier trees
    keep = set(objs) | {exe}
    for p in glob.glob(os.path.join(out, "*")):
        if p not in keep and not p.endswith(".tmp"):
            try:
                os.remove(p)
            except OSError:
                pass
    if verbose:
        for l in log:
            print(l, file=sys.stderr)
    return exe, sorted(dead)


if __name__ == "__main__":
    for fl in sys.argv[1:] or ["plain"]:
        try:
            exe, dead = build(fl, verbose=True)
        except BuildError as e:
            print(e, file=sys.stderr)
            sys.exit(2)
        print(fl, exe, "without " + ",".join(dead) if dead else "")
