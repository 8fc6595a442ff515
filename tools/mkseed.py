#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'what_it_breaks' < demo.cpp   makes /verif/seeded/ID from the uncommitted change in
the scratch copy /tmp/wt (a copy of /repo) and confirms it: builds, demo passes without and fails with the change."""
import json, os, shutil, subprocess, sys
ID, prop, needs, breaks = sys.argv[1:5]
WT, V = "/tmp/wt", "/verif/seeded/" + ID
SIM = "/verif/sim"
DEMO = r'''#!/bin/bash
# Compiles the library of the current directory with the HighFive stand-in beside this file, then runs demo.cpp.
here=$(cd "$(dirname "$0")" && pwd); top=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
F="-std=c++17 -O1 -fopenmp -DTETLIBRARY -w -I$here/kit -I$top/src -I$top/lib/tetgen"
{ ls $top/src/*.cpp | grep -v /logger.cpp; echo $top/lib/tetgen/tetgen.cxx; echo $top/lib/tetgen/predicates.cxx; echo $here/kit/simdisk.cpp; echo $here/demo.cpp; } |
  xargs -P 8 -I{} sh -c "g++ $F -c {} -o $d/\$(basename {}).o || touch $d/failed"
[ -e "$d/failed" ] && { echo "does not compile"; exit 3; }
g++ -fopenmp "$d"/*.o -o "$d/demo" || exit 3
cd "$d" && timeout 120 ./demo
'''
diff = subprocess.run(["git", "-C", WT, "diff"], stdout=subprocess.PIPE, text=True).stdout
if not diff.strip() and os.path.exists(V + "/patch.diff"):   # an earlier attempt
    subprocess.run(["git", "-C", WT, "apply", V + "/patch.diff"], check=True)
    diff = open(V + "/patch.diff").read()
assert diff.strip(), "no change in " + WT
shutil.rmtree(V, ignore_errors=True)
os.makedirs(V + "/kit")
shutil.copytree(SIM + "/highfive", V + "/kit/highfive")
for f in ("simdisk.cpp", "simdisk.hpp"):
    shutil.copy(SIM + "/" + f, V + "/kit/" + f)
open(V + "/demo.cpp", "w").write(sys.stdin.read())
open(V + "/demo.sh", "w").write(DEMO)
os.chmod(V + "/demo.sh", 0o755)
open(V + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(V + "/meta.json", "w"), indent=1)
a = subprocess.run(["bash", V + "/demo.sh"], cwd=WT)
subprocess.run(["git", "-C", WT, "checkout", "-q", "--", "."], check=True)
b = subprocess.run(["bash", V + "/demo.sh"], cwd=WT)
print(ID, "with the change:", a.returncode, " without:", b.returncode, "OK" if a.returncode not in (0, 3) and b.returncode == 0 else "NOT GOOD")
