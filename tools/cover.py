#!/usr/bin/env python3
"""cover.py OUT PROPERTY=RUNS...  builds the checks with gcov counters (in OUT, never in /verif/build), runs them and
prints which lines of the library no simulated run executed"""
import collections, glob, gzip, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
out = sys.argv[1]
os.makedirs(out, exist_ok=True)
open(out + "/cov.cpp", "w").write('extern "C" { void __gcov_dump(void); [[noreturn]] void __real__exit(int); [[noreturn]] void __wrap__exit(int c){ __gcov_dump(); __real__exit(c); } }\n')
subprocess.run(["g++", "-O1", "-fno-pie", "-c", out + "/cov.cpp", "-o", out + "/cov.o"], check=True)
check.VERIF = out
check.INST += ["--coverage", "-fprofile-abs-path", "-fprofile-update=atomic"]
check.WRAP += ",--wrap=_exit,--undefined=__gcov_merge_add,--undefined=__gcov_init,--undefined=__gcov_exit," + out + "/cov.o,-lgcov"
for a in sys.argv[2:]:
    p, n = a.split("=")
    exe = check.build(p)
    W = check.JOBS
    ps = [subprocess.Popen([exe, "--prop=" + p, "--base=1", "--from=0", "--count=" + n, "--W=%d" % W, "--time=600", "--w=%d" % w], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for w in range(W)]
    print(p, [q.wait() for q in ps], flush=True)
hit = collections.defaultdict(lambda: collections.defaultdict(int))
for g in glob.glob(out + "/build/obj/*.gcda"):
    r = subprocess.run(["gcov", "-j", "-t", g], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=out)
    for l in r.stdout.splitlines():
        d = json.loads(l)
        for f in d["files"]:
            if f["file"].startswith(check.REPO + "/src"):
                for x in f["lines"]:
                    hit[f["file"]][x["line_number"]] += x["count"]
json.dump({f: h for f, h in hit.items()}, open(out + "/lines.json", "w"))
for f in sorted(hit):
    h = hit[f]
    print("%5d of %5d lines  %s" % (sum(1 for v in h.values() if v), len(h), f))
