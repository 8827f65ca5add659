#!/usr/bin/env python3
"""Development aid: applies small mutations to a scratch copy of the code and reports which checks notice.
usage: mutate.py [PROP|all] [mutant-substring]"""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "dev"))
from mutants import M

def main():
    prop = sys.argv[1] if len(sys.argv) > 1 else "all"
    sub = sys.argv[2] if len(sys.argv) > 2 else ""
    d = tempfile.mkdtemp(prefix="mut-")
    src = os.path.join(d, "repo")
    try:
        for name, f, old, new, props in M:
            if sub and not (name.startswith(sub[1:]) if sub[0] == "^" else sub in name):
                continue
            ps = [p for p in props if prop in ("all", p)]
            if not ps:
                continue
            shutil.rmtree(src, ignore_errors=True)
            os.makedirs(src)
            shutil.copytree("/repo/include", src + "/include")
            path = src + "/include/nudb/" + f
            s = open(path).read()
            n = s.count(old)
            if n < 1:
                print("%-28s NOT APPLICABLE (%d matches)" % (name, n)); continue
            s = s.replace(old, new, 1)
            open(path, "w").write(s)
            for p in ps:
                r = subprocess.run([sys.executable, os.path.join(V, "tools/check.py"), p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   env=dict(os.environ, NUDB_REPO=src))
                v = [l for l in r.stdout.splitlines() if "rejected at" in l or "CHECK-ERROR" in l or "error:" in l or "FAIL" in l][:1]
                print("%-28s %s %s %s" % (name, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode), (v[0][:170] if v else "")), flush=True)
                if r.returncode not in (0, 1):
                    print(r.stdout[-600:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
main()
