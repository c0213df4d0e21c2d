#!/usr/bin/env python3
"""mkseed.py spec.py : makes and verifies a planted bug.  The spec defines ID, PROP, NEEDS, BREAKS,
EDITS=[(file, old, new)...] and DEMO (C++ source, main returns 0 when the behaviour is right).
mkseed.py --check ID...|all : applies an existing planted bug and runs its property's quick check.
mkseed.py --verify ID...|all : re-verifies build, stable tests and demo."""
import sys, os, subprocess, json, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
DEMO_SH = '''#!/bin/bash
# exits 0 when the behaviour is right, nonzero otherwise; run in the repository after its build
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
sos=$(find "$repo/_build" -name 'lib*.so*' -type f; find "$repo/_build" -name 'lib*.a' -type f)
dirs=$(for s in $sos; do dirname "$s"; done | sort -u | tr '\\n' ':')
g++ -std=gnu++14 -O1 -g -w -pthread -DHAVE_LAPACK -DHAVE_MSGPACK -DCOMPILER_USE_CXX11 -DTIXML_USE_STL @FLAGS@ \\
    -I/opt/vp/cmake/compat -I"$repo/3rd/boost-bindings" -I"$repo/3rd/log4cpp/include" -I"$repo/3rd/tinyxml" -I"$repo/src" \\
    "$here/demo.cpp" -o "$tmp/demo" $sos $sos -llapack -lblas -lboost_serialization -lboost_regex -lboost_filesystem \\
    -lboost_thread -lboost_chrono -lboost_date_time -lboost_system -lutil || exit 3
cd "$tmp"
LD_LIBRARY_PATH="$dirs" timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def clean(): sh("git -C %s checkout -q -- ." % R)
def build():
    p = sh("bash /opt/vp/build.sh")
    return p.returncode == 0, p.stdout.decode(errors="replace")[-3000:]
def demo(d):
    p = sh("bash %s/demo.sh" % d, cwd=R, timeout=400); return p.returncode, p.stdout.decode(errors="replace")[-1500:]
def tests():
    sh("bash /opt/vp/test.sh /tmp/seedtest.json"); return sh("python3 %s/tools/stable.py /tmp/seedtest.json" % V).stdout.decode()
def assert_clean():
    assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "repo dirty"
def verify(d, clean_too=True):
    ok = True
    if clean_too:
        b, o = build(); assert b, o
        rc, o = demo(d); print("  demo clean rc", rc, "" if rc == 0 else o); ok &= rc == 0
    p = sh("git -C %s apply %s/patch.diff" % (R, d)); assert p.returncode == 0, p.stdout
    try:
        b, o = build(); print("  builds", b, "" if b else o); ok &= b
        if b:
            rc, o = demo(d); print("  demo patched rc", rc, o.strip()[-300:]); ok &= rc not in (0, 3)
            t = tests(); print("  tests", t.strip()); ok &= "[]" in t
    finally: clean()
    return ok
def check(d, prop):
    p = sh("git -C %s apply %s/patch.diff" % (R, d)); assert p.returncode == 0, p.stdout
    try:
        c = sh("python3 %s/tools/check.py %s" % (V, prop)); o = c.stdout.decode(errors="replace")
        m = re.findall(r"^VIOLATION.*$", o, re.M)
        keys = [l for l in o.split("\n") if l.strip()][:4]
        print("  CHECK", prop, "rc", c.returncode, "CAUGHT" if c.returncode == 1 and m else "MISSED", "\n     ".join(x[:250] for x in keys))
        return c.returncode == 1
    finally: clean()
def ids(a):
    S = os.path.join(V, "seeded")
    return sorted(os.listdir(S)) if a == ["all"] else a
def main():
    a = sys.argv[1:]; assert_clean()
    if a[0] in ("--check", "--verify"):
        bad = []
        for i in ids(a[1:]):
            d = os.path.join(V, "seeded", i); m = json.load(open(d + "/meta.json")); print(i, m["property"], flush=True)
            if a[0] == "--check": r = check(d, m["property"])
            else: r = verify(d)
            if not r: bad.append(i)
        print("FAILED/MISSED:", bad); build(); return
    for spec in a:
        g = {}; exec(open(spec).read(), g)
        d = os.path.join(V, "seeded", g["ID"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for f, old, new in g["EDITS"]:
            p = os.path.join(R, f); s = open(p, encoding="latin-1", newline="").read()
            if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (f, old, s.count(old)); open(p, "w", encoding="latin-1", newline="").write(s.replace(old, new))
        open(d + "/patch.diff", "wb").write(sh("git -C %s diff" % R).stdout); clean()
        open(d + "/demo.cpp", "w").write(g["DEMO"])
        open(d + "/demo.sh", "w").write(DEMO_SH.replace("@FLAGS@", g.get("FLAGS", "")))
        json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
        print(g["ID"], g["PROP"], flush=True)
        ok = verify(d); print("  VERIFIED" if ok else "  *** NOT VALID")
        if ok: check(d, g["PROP"])
    build()
main()
