"""Builds /repo's sources (read from the working tree) and a harness, one build per sanitizer.

Objects are cached by ccache (content addressed), so a rebuild after a change in /repo only
recompiles what the change touches; without ccache everything is compiled afresh.
"""
import os, subprocess, hashlib, shutil, glob, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

DEFS = ["-DHAVE_LAPACK", "-DHAVE_MSGPACK", "-DCOMPILER_USE_CXX11", "-DNDEBUG", "-DTIXML_USE_STL"]
for m in "ATOMIC CHRONO DATE_TIME FILESYSTEM REGEX SERIALIZATION SYSTEM THREAD".split():
    DEFS += ["-DBOOST_%s_DYN_LINK" % m, "-DBOOST_%s_NO_LIB" % m]

def incs():
    return ["-I", VERIF + "/harness/compat", "-I", REPO + "/3rd/boost-bindings",
            "-I", REPO + "/3rd/log4cpp/include", "-I", REPO + "/3rd/tinyxml", "-I", REPO + "/src",
            "-I", VERIF + "/harness"]

BASE = ["-std=gnu++14", "-g1", "-fno-omit-frame-pointer", "-w", "-pthread"]
# address+undefined: also bounds checks of uBLAS and libstdc++, and uninitialised stack/heap filled
# with patterns that read as NaN, so that a use of them shows in the results.
FLAVORS = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr",
             "-fno-sanitize-recover=all", "-fsanitize-ignorelist=" + VERIF + "/tools/ignorelist.txt", "-ftrivial-auto-var-init=pattern",
             "-D_GLIBCXX_ASSERTIONS", "-DBOOST_UBLAS_CHECK_ENABLE=1", "-DBOOST_UBLAS_TYPE_CHECK=0"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O2", "-ftrivial-auto-var-init=pattern"],
}
LIBS = ["-llapack", "-lblas", "-lboost_serialization", "-lboost_regex", "-lboost_filesystem",
        "-lboost_thread", "-lboost_chrono", "-lboost_date_time", "-lboost_system", "-lboost_atomic",
        "-lutil", "-lpthread"]

class BuildError(Exception):
    pass

def cxx():
    c = os.environ.get("VERIF_CXX", "clang++")
    cc = shutil.which("ccache")
    return ([cc] if cc else []) + [c]

def env():
    e = dict(os.environ)
    e.update(CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="4G", LC_ALL="C",
             CCACHE_NOHASHDIR="1", CCACHE_COMPILERCHECK="content", CCACHE_SLOPPINESS="")
    return e

def lib_sources():
    out = []
    for depth in ("*/*.cpp", "*/*/*.cpp", "*/*/*/*.cpp", "*/*/*/*/*.cpp"):
        out += glob.glob(os.path.join(REPO, "src", depth))
    out += glob.glob(os.path.join(REPO, "3rd/log4cpp/src/*.cpp"))
    out += [f for f in glob.glob(os.path.join(REPO, "3rd/tinyxml/*.cpp"))
            if os.path.basename(f) not in ("tinystr.cpp", "xmltest.cpp")]
    return sorted(out)

def compile_one(src, obj, flags):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    extra = []
    if src.endswith("utMeasurement/Timestamp.cpp"):
        extra = ["-include", "ctime"]
    cmd = cxx() + BASE + flags + DEFS + incs() + extra + ["-c", src, "-o", obj]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env())
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))
    return obj

def build(harness, flavor, with_lib=True):
    """harness: list of .cpp under /verif/harness; returns the path of the linked binary."""
    flags = FLAVORS[flavor]
    od = os.path.join(BUILD, flavor)
    srcs = [(os.path.join(VERIF, "harness", h), os.path.join(od, "h", h + ".o")) for h in harness]
    if with_lib:
        for s in lib_sources():
            srcs.append((s, os.path.join(od, "lib", os.path.relpath(s, REPO) + ".o")))
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda a: compile_one(a[0], a[1], flags), srcs))
    binary = os.path.join(od, os.path.splitext(os.path.basename(harness[0]))[0])
    san = [f for f in flags if f.startswith("-fsanitize") or f.startswith("-fno-sanitize")]
    cmd = [os.environ.get("VERIF_CXX", "clang++"), "-pthread"] + san + ["-o", binary] + objs + LIBS
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env())
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd[:6]), p.stdout.decode(errors="replace")[-6000:]))
    return binary

if __name__ == "__main__":
    for a in sys.argv[1:]:
        fl, h = a.split(":")
        print(build(h.split(","), fl))
