#!/usr/bin/env python3
"""Runs the check of each planted bug's property against a scratch copy with the bug.  runseeds.py [substring...]"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = tempfile.mkdtemp(prefix="seedrun-")
args = [a for a in sys.argv[1:] if not a.startswith("-")]
allp = "--all" in sys.argv
try:
    for s in sorted(os.listdir(V + "/seeded")):
        if args and not any(a in s for a in args):
            continue
        m = json.load(open(V + "/seeded/%s/meta.json" % s))
        shutil.rmtree(t + "/r", ignore_errors=True)
        subprocess.check_call("git clone -q --shared /repo %s/r && git -C %s/r apply %s/seeded/%s/patch.diff" % (t, t, V, s), shell=True)
        ps = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]] if allp else [m["property"]]
        for p in ps:
            t0 = time.time()
            r = subprocess.run([sys.executable, V + "/tools/check.py", p], env=dict(os.environ, NUDB_REPO=t + "/r", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if "rejected at" in l or "CHECK-ERROR" in l][:1]
            print("%-24s %s %s %.0fs %s" % (s, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), time.time() - t0, v[0][:150] if v else ""), flush=True)
finally:
    shutil.rmtree(t, ignore_errors=True)
