#!/usr/bin/env python3
"""Runs each planted bug's property check with the bug applied: runseeds.py [ID..]; writes tools/caught.json."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
if subprocess.run("git -C /repo status --porcelain", shell=True, stdout=subprocess.PIPE).stdout.strip(): sys.exit("dirty /repo")
cf = V + "/tools/caught.json"
for i in want:
    p = json.load(open(V + "/seeded/%s/meta.json" % i))["property"]
    try:
        subprocess.check_call("git -C /repo apply %s/seeded/%s/patch.diff" % (V, i), shell=True)
        t = time.time()
        r = subprocess.run("timeout 890 python3 check.py %s --tier quick" % p, shell=True, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode()
        c = r.returncode == 1 and "VIOLATION property=" + p in o
        print(i, p, "caught" if c else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t), [l.strip()[:160] for l in o.splitlines() if "native:" in l][:1], flush=True)
        if not c: print(o[-1500:])
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True)
    d = json.load(open(cf)) if os.path.exists(cf) else {}
    d[i] = dict(property=p, caught=c); json.dump(d, open(cf, "w"), indent=1, sort_keys=True)
