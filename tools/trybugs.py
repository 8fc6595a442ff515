#!/usr/bin/env python3
"""trybugs.py [id...]  runs the check of each planted bug's property against a scratch clone with the bug applied"""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
WT = "/tmp/trybugs"
subprocess.run(["rm", "-rf", WT]); subprocess.run(["git", "clone", "-q", "/repo", WT], check=True)
for i in ids:
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "."], check=True)
    subprocess.run(["git", "-C", WT, "apply", "%s/seeded/%s/patch.diff" % (V, i)], check=True)
    t = time.time()
    r = subprocess.run([sys.executable, V + "/check.py", meta["property"]], env=dict(os.environ, SIM_REPO=WT), stdout=subprocess.PIPE, text=True)
    m = re.findall(r"^  (\S+/\S+): (.*)", r.stdout, re.M)
    print(i, meta["property"], "caught" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, "%.0f s" % (time.time() - t), m[0][0] + ": " + m[0][1][:150] if m else r.stdout[-300:] if r.returncode != 1 else "", flush=True)
subprocess.run(["rm", "-rf", WT])
