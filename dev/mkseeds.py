#!/usr/bin/env python3
"""Writes seeded/<id>/ from dev/seeds.py and confirms each in a scratch copy: the demonstration passes without and fails with the
change, and (--tests) the change builds and passes the stable tests.   mkseeds.py [--tests] [substring]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "dev"))
from seeds import S
tests = "--tests" in sys.argv
sub = [a for a in sys.argv[1:] if not a.startswith("--")]
SH = '''#!/bin/bash
# cwd: the repository.  Builds the demonstration against its headers and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -w %s -include stdexcept -include cstdlib -I"$repo/include" -I"$here" "$here/demo.cpp" -o "$t/demo" -lboost_thread -lboost_system -lpthread %s || exit 2
%scd "$t" && timeout 100 ./demo
'''
TOOL = 'g++ -std=c++14 -w -include stdexcept -I"$repo/include" "$repo/tools/nudb.cpp" -o "$t/nudb" -lboost_program_options -lboost_filesystem -lboost_thread -lboost_system -lpthread || exit 2\n'
t = tempfile.mkdtemp(prefix="seed-")
try:
    subprocess.check_call("git clone -q --shared /repo %s/r" % t, shell=True)
    for s in S:
        if sub and not any(x in s["id"] for x in sub):
            continue
        r = t + "/r"
        subprocess.check_call("git -C %s checkout -q -- ." % r, shell=True)
        d = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/demo.cpp", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(SH % (s.get("flags", ""), s.get("libs", ""), TOOL if s.get("tool") else ""))
        os.chmod(d + "/demo.sh", 0o755)
        shutil.copy(V + "/dev/seed/demo.hpp", d)
        shutil.copy(V + "/harness/sim.hpp", d + "/simfile.hpp")
        c0 = subprocess.run(["bash", d + "/demo.sh"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bad = None
        for f, old, new in s["edits"]:
            p = r + "/include/nudb/" + f
            x = open(p).read()
            if x.count(old) != 1:
                bad = "%s: %d matches" % (f, x.count(old)); break
            open(p, "w").write(x.replace(old, new))
        if bad:
            print(s["id"], "BAD", bad); continue
        diff = subprocess.run("git -C %s diff" % r, shell=True, stdout=subprocess.PIPE, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        c1 = subprocess.run(["bash", d + "/demo.sh"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        res = "demo %d/%d" % (c0.returncode, c1.returncode)
        if c0.returncode or c1.returncode in (0, 2):
            res += " BAD " + (c0.stdout + c1.stdout)[-500:]
        if tests:
            b = subprocess.run("""export CC=gcc CXX=g++; cmake -S {r} -B {r}/_build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_STANDARD=14 \
              -DCMAKE_CXX_FLAGS='-include stdexcept' -DBOOST_ROOT=/usr -Dwith_rocks=OFF -DFETCHCONTENT_FULLY_DISCONNECTED=ON \
              -DFETCHCONTENT_SOURCE_DIR_BEAST_EXTRAS_SRC=/opt/vp/beast_extras -DCMAKE_PROJECT_NuDB_INCLUDE=/opt/vp/extra.cmake && ninja -C {r}/_build test-all \
              && mkdir -p {r}/res && python3 /opt/vp/run_suites.py {r}/_build/test/test-all {r}/res ; python3 /opt/vp/results.py {r}/out.json lines:{r}/res/*.lines""".format(r=r),
                               shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            o = json.load(open(r + "/out.json"))
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            ps = set(o.get("passed", []))
            miss = [x for x in stable if x not in ps]
            res += " tests: " + ("all pass" if not miss else "BAD fail %s" % miss[:4])
            subprocess.call("rm -rf %s/res %s/out.json" % (r, r), shell=True)
        print(s["id"], s["prop"], res, flush=True)
finally:
    shutil.rmtree(t, ignore_errors=True)
