#!/usr/bin/env python3
"""Development tool (no check uses it): turns a described edit into /verif/seeded/<id>/ and confirms it.
plant.py SPEC.py  - SPEC.py defines id, prop, needs, breaks, edits=[(file, old, new)], demo (C++ source)."""
import json, os, subprocess, sys, runpy
V = "/verif"; R = "/repo"
DEMO = r'''#!/bin/bash
# builds the library from the working tree (cwd) and runs demo.cpp against it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
fl="-O0 -w -I$repo/src -include cstdint -DCOMPILER_NAME=\"g\" -DCOMPILER_VERSION=\"1\" -DJPEG_FOUND -DPNG_FOUND -DTIFF_FOUND @EXTRA@"
export fl repo t
one() { o="$t/$(echo "$1" | tr / _).o"; case "$1" in *.c) gcc -std=gnu90 ${fl/-include cstdint/} -c "$repo/src/$1" -o "$o";; *) g++ -std=c++11 $fl -c "$repo/src/$1" -o "$o";; esac || echo "$1" >> "$t/failed"; }
export -f one
(cd "$repo/src" && find . -name '*.cpp' -o -name '*.cc' -o -name '*.c') | sed 's|^\./||' | grep -v '^main.cpp' | xargs -P 8 -I{} bash -c 'one {}'
g++ -std=c++14 $fl "$here/demo.cpp" "$t"/*.o -o "$t/demo" -ljpeg -lpng -ltiff -lpthread || { echo "demo does not build"; exit 2; }
mkdir "$t/scratch"; cd "$t/scratch" && timeout 120 "$t/demo" > "$t/out" 2> "$t/err"; rc=$?; tail -c 600 "$t/out"; exit $rc
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main(spec):
    s = runpy.run_path(spec); d = "%s/seeded/%s" % (V, s["id"]); os.makedirs(d, exist_ok=True)
    assert not sh("git -C %s status --porcelain -uno" % R).stdout.strip(), "repo dirty"
    try:
        for f, a, b in s["edits"]:
            p = "%s/src/%s" % (R, f); t = open(p).read(); assert t.count(a) == 1, (f, t.count(a), a); open(p, "w").write(t.replace(a, b))
        open(d+"/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
        open(d+"/demo.cpp", "w").write(s["demo"]); open(d+"/demo.sh", "w").write(DEMO.replace("@EXTRA@", s.get("extra", ""))); os.chmod(d+"/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d+"/meta.json", "w"), indent=1)
        # lines removed by the patch must be the original repository's
        fc = sh("bash /tmp/fixcheck.sh"); print("tests with patch:", fc.returncode == 0, fc.stdout.strip()[-200:])
        bl = []
        dm = sh("bash %s/demo.sh" % d, cwd=R); print("demo with patch: rc", dm.returncode, dm.stdout.strip()[-200:].replace("\n", " | "))
        ck = sh("%s/bin/check %s" % (V, s["prop"])); print("check with patch: rc", ck.returncode, ck.stdout[:330].replace("\n", " | "))
    finally:
        sh("git -C %s checkout -- ." % R)
    sh("bash /opt/vp/build.sh")
    dm = sh("bash %s/demo.sh" % d, cwd=R); print("demo clean: rc", dm.returncode, dm.stdout.strip()[-200:])
    fixes = sh("git -C %s log --format=%%h --grep='^fix:'" % R).stdout.split()
    for f, a, b in s["edits"]:
        t = open("%s/src/%s" % (R, f)).read().split(a)[0].count("\n"); n = a.count("\n")+1
        w = sh("git -C %s blame -s -L %d,%d -- src/%s" % (R, t+1, t+n, f)).stdout
        for l in w.splitlines():
            if l[:7] in [x[:7] for x in fixes]: print("NOTE line of a fix:", l[:110])
    sh("rm -rf %s" % "/tmp/plant_none")
main(sys.argv[1])
