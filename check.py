#!/usr/bin/env python3
"""Builds the simulator and the instrumented library from /repo's working tree, runs the seeded simulations of one
property and reports.   check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--determinism N]"""
import argparse, glob, hashlib, json, os, re, selectors, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
JOBS = int(os.environ.get("SIM_JOBS", "8"))
LIB = "approx_config bravais bz bz_move bz_wedge comparisons debug hall_symbol hdf_interface neighbours polyhedron_faces pointgroup pointsymmetry process_id spg_database symmetry vertex_map_set".split()
STRM = "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_assignERKS4_ _ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE7compareERKS4_ _ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_appendEPKcm _ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE10_M_replaceEmmPKcm".split()
WRAP = "-Wl," + ",".join("--wrap=" + s for s in ["memcpy", "memmove", "memset"] + STRM)
INST = "-std=c++17 -O1 -g1 -fsanitize=thread -fno-pie -fopenmp -DTETLIBRARY -w".split()
PLAIN = "-std=c++17 -O2 -g1 -fno-pie -fopenmp -w".split()

# property -> (quick runs, quick seconds, thorough runs, thorough seconds)
sys.path.insert(0, VERIF)
from budget import BUDGET


class BuildError(Exception):
    pass


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def digest(paths, extra=""):
    h = hashlib.sha1(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def repo_headers():
    out = []
    for base in ("src", "lib/tetgen"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            if os.sep + "tests" in d:
                continue
            out += [os.path.join(d, f) for f in fs if f.endswith((".h", ".hpp", ".tpp"))]
    return out


def build(prop):
    bdir = os.path.join(VERIF, "build")
    odir = os.path.join(bdir, "obj")
    os.makedirs(odir, exist_ok=True)
    rh = digest(repo_headers())
    rt = digest(glob.glob(SIM + "/*.hpp") + glob.glob(SIM + "/highfive/*.hpp"))
    sc = digest(glob.glob(SIM + "/scen/*.hpp"))
    inc = ["-I" + SIM, "-I" + SIM + "/scen", "-I" + REPO + "/src", "-I" + REPO + "/lib/tetgen"]
    src = os.path.join(SIM, "scen", prop + ".cpp")
    with open(src) as f:
        m = re.search(r"^// parts: (\d+)", f.read(), re.M)
    parts = int(m.group(1)) if m else 1
    jobs = []  # (key, command, post)
    for p in range(parts):
        jobs.append((digest([src], rh + rt + sc + " ".join(INST) + str(p)), ["g++"] + INST + inc + ["-DPART=%d" % p, "-c", src], None))
    for f in [REPO + "/lib/tetgen/tetgen.cxx", REPO + "/lib/tetgen/predicates.cxx"] + ["%s/src/%s.cpp" % (REPO, x) for x in LIB]:
        if os.path.exists(f):
            jobs.append((digest([f], rh + rt + " ".join(INST)), ["g++"] + INST + inc + ["-c", f], None))
    known = set(LIB)
    for f in sorted(glob.glob(REPO + "/src/*.cpp")):   # a source file which appeared later
        b = os.path.basename(f)[:-4]
        if b not in known and b != "logger":
            jobs.append((digest([f], rh + rt + " ".join(INST)), ["g++"] + INST + inc + ["-c", f], None))
    for x in ("simrt", "simomp", "simdisk"):
        jobs.append((digest([SIM + "/%s.cpp" % x], rt + " ".join(PLAIN)), ["g++"] + PLAIN + ["-I" + SIM, "-c", SIM + "/%s.cpp" % x], "raw"))
    jobs.append((digest([SIM + "/scen/main.cpp"], rt), ["g++"] + PLAIN + ["-I" + SIM, "-c", SIM + "/scen/main.cpp"], "raw"))

    def one(j):
        key, cmd, post = j
        o = os.path.join(odir, key + ".o")
        if os.path.exists(o):
            os.utime(o)
            return o
        t = o + ".%d.tmp.o" % os.getpid()
        r = sh(cmd + ["-o", t])
        if r.returncode:
            raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
        if post == "raw":
            r = sh(["objcopy"] + sum((["--redefine-sym", s + "=__real_" + s] for s in ("memcpy", "memmove", "memset")), []) + [t])
            if r.returncode:
                raise BuildError(r.stdout)
        os.replace(t, o)
        return o

    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, jobs))
    key = hashlib.sha1((" ".join(objs) + WRAP).encode()).hexdigest()
    exe = os.path.join(bdir, prop + "-" + key[:16])
    if not os.path.exists(exe):
        r = sh(["g++", "-no-pie", WRAP, "-o", exe + ".tmp%d" % os.getpid()] + objs + ["-lpthread"])
        if r.returncode:
            raise BuildError("link\n" + r.stdout[-4000:])
        os.replace(exe + ".tmp%d" % os.getpid(), exe)
    now = time.time()
    for f in glob.glob(bdir + "/*") + glob.glob(odir + "/*"):   # old build products
        if os.path.isfile(f) and now - os.path.getmtime(f) > 6 * 3600:
            os.unlink(f)
    return exe


def symbolise(exe, text):
    addrs = sorted(set(re.findall(r"\[0x([0-9a-f]+)\]", text)))
    if not addrs:
        return text
    r = sh(["addr2line", "-Cfse", exe] + ["0x" + a for a in addrs])
    l = r.stdout.splitlines()
    m = {}
    for i, a in enumerate(addrs):
        if 2 * i + 1 < len(l):
            m[a] = "%s@%s" % (re.sub(r"<.*", "", l[2 * i])[:60], l[2 * i + 1])
    return re.sub(r"\[0x([0-9a-f]+)\]", lambda k: "[" + m.get(k.group(1), k.group(1)) + "]", text)


def replay_once(exe, rep):
    d = os.path.join(VERIF, "build")
    f = os.path.join(d, "replay-%d.txt" % os.getpid())
    with open(f, "w") as o:
        if rep.get("schedule") is None:
            o.write("SEEDED\n")
        for c in rep["choices"]:
            o.write("C %d\n" % c[1])
        for s in rep.get("schedule") or []:
            o.write("X %d %d\n" % (s[0], s[1]))
    r = sh([exe, "--prop=" + rep["property"], "--scenario=" + rep["scenario"], "--seed=%d" % rep["seed"], "--replay=" + f])
    os.unlink(f)
    for l in r.stdout.splitlines():
        if l.startswith("{"):
            return json.loads(l)
    return None


def findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                f = json.loads(l)
                if f["property"] == prop:
                    out.append(f)
    return out


def match(fs, rep, text):
    for f in fs:
        if f["kind"] == rep["kind"] and f.get("scenario", rep["scenario"]) == rep["scenario"] and re.search(f["match"], text):
            return f
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--determinism", type=int)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--time", type=float)
    ap.add_argument("--from", dest="start", type=int, default=0)
    ap.add_argument("--scenario")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    prop, t0 = a.prop, time.time()
    try:
        exe = build(prop)
    except BuildError as e:
        print("BUILD-ERROR " + str(e))
        return 2
    tb = time.time() - t0
    print("built %s in %.1f s" % (os.path.basename(exe), tb), flush=True)
    if a.build_only:
        return 0
    if a.replay:
        rep = json.load(open(a.replay))
        got = replay_once(exe, rep)
        if got is None:
            print("replay gave no result")
            return 2
        print(json.dumps({k: got[k] for k in ("kind", "hash", "steps", "switches")}), "\n" + symbolise(exe, got["detail"])[:3000])
        for n in got["notes"]:
            print("  " + n)
        ok = got["kind"] == rep["kind"] and got["hash"] == rep["hash"]
        print("replay %s" % ("reproduces the recorded violation exactly" if ok else "DIFFERS from the recording"))
        return 1 if got["kind"] else 0
    if a.determinism:
        ref = None
        for W in (8, 3, 1, 5):
            ps = [subprocess.Popen([exe, "--prop=" + prop, "--base=%d" % a.seed, "--count=%d" % a.determinism, "--W=%d" % W, "--w=%d" % w, "--hashes", "--min=0"], stdout=subprocess.PIPE, text=True) for w in range(W)]
            got = {}
            for p in ps:
                for l in p.communicate()[0].splitlines():
                    if l.startswith("H "):
                        got[int(l.split()[1])] = l
            if ref is None:
                ref = got
            bad = [i for i in ref if ref[i] != got.get(i)]
            print("determinism %s W=%d runs=%d differing=%d %s" % (prop, W, len(got), len(bad), bad[:5]), flush=True)
            if bad:
                return 2
        return 0

    nq, tq, nt, tt = BUDGET.get(prop, (4000, 40, 10**7, 600))
    runs, secs = (nq, tq) if a.tier == "quick" else (nt, tt)
    runs, secs = a.runs or runs, a.time or secs
    fs = findings(prop)
    W = min(JOBS, runs)
    cmd = [exe, "--prop=" + prop, "--base=%d" % a.seed, "--from=%d" % a.start, "--count=%d" % runs, "--W=%d" % W, "--time=%g" % secs]
    if a.scenario:
        cmd.append("--scenario=" + a.scenario)
    t1 = time.time()
    ps = [subprocess.Popen(cmd + ["--w=%d" % w] + (["--samples=2"] if w == 0 else []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL) for w in range(W)]
    sel = selectors.DefaultSelector()
    buf = {}
    for p in ps:
        os.set_blocking(p.stdout.fileno(), False)
        sel.register(p.stdout, selectors.EVENT_READ, p)
        buf[p] = b""
    stats, samples, viols, seen, errors = [], [], [], {}, []
    confirmed = None
    count = {}

    def handle(line):
        nonlocal confirmed
        if line.startswith("STATS "):
            stats.append(json.loads(line[6:]))
        elif line.startswith("SAMPLE "):
            samples.append(json.loads(line[7:]))
        elif line.startswith("ERROR "):
            errors.append("a simulated run ended without a report: " + line[6:])
        elif line.startswith("VIOL "):
            v = json.loads(line[5:])
            rep = v["replay"]
            text = symbolise(exe, rep["detail"])
            f = match(fs, rep, text) or match(fs, rep, symbolise(exe, v["original"]["detail"]))
            if f:
                seen[f["id"]] = seen.get(f["id"], 0) + 1
                return
            ck = (rep["scenario"], rep["kind"])
            count[ck] = count.get(ck, 0) + 1
            if count[ck] > 2:
                return
            got = replay_once(exe, rep)
            got2 = replay_once(exe, rep) if got else None
            if not v["same_twice"] or not got or got["kind"] != rep["kind"] or got["hash"] != rep["hash"] or not got2 or got2["hash"] != rep["hash"]:
                errors.append("a violation did not repeat: " + json.dumps({"same_twice": v["same_twice"], "kind": rep["kind"], "detail": text[:1500], "seed": rep["seed"], "index": rep["index"], "scenario": rep["scenario"], "replayed": got and [got["kind"], got["hash"], rep["hash"]]}))
                return
            os.makedirs(VERIF + "/replays", exist_ok=True)
            path = "%s/replays/%s-%s-%d.json" % (VERIF, prop, rep["scenario"], rep["index"])
            rep["detail_symbolised"] = text
            rep["original"] = v["original"]
            with open(path, "w") as o:
                json.dump(rep, o, indent=1)
            viols.append((path, rep, text))
            confirmed = confirmed or path

    while sel.get_map():
        for k, _ in sel.select(1.0):
            d = k.fileobj.read()
            p = k.data
            if d:
                buf[p] += d
                while b"\n" in buf[p]:
                    l, buf[p] = buf[p].split(b"\n", 1)
                    handle(l.decode("utf-8", "replace"))
            elif d == b"":
                sel.unregister(k.fileobj)
                if p.wait():
                    if not (confirmed and not a.keep_going):
                        errors.append("worker exit %d" % p.returncode)
        if confirmed and not a.keep_going:
            for p in ps:
                if p.poll() is None:
                    p.kill()
    for p in ps:
        p.wait()
    wall = time.time() - t1

    def tot(k):
        return sum(s.get(k, 0) for s in stats)

    def merge(k):
        o = {}
        for s in stats:
            for n, c in s.get(k, {}).items():
                o[n] = o.get(n, 0) + c
        return dict(sorted(o.items()))

    nth, allh, states = set(), set(), set()
    for s in stats:
        nth.update(s["nt_hashes"])
        allh.update(s["hashes"])
        states.update(s["states"])
    n = tot("runs")
    ev = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": n, "distinct_nontrivial": len(nth),
            "rule": "one evaluation is one simulated execution: the seed picks workload, environment, faults and every scheduling decision; it is non-trivial when the scenario marked it so (a team of two or more threads really interleaved on the operation under test, or an injected fault really fired inside it); distinct executions have different event hashes (all choices, all context switches with their step numbers, all faults, results)",
            "samples": samples, "runs_per_hour": int(n / wall * 3600) if wall else 0, "seeds_per_hour": int(n / wall * 3600) if wall else 0,
            "simulated_steps": tot("steps"), "simulated_clock_seconds": tot("sim_ns") / 1e9, "context_switches": tot("switches"), "preemptions": tot("preemptions"), "parallel_regions": tot("regions"),
            "distinct_interleavings": len(allh), "distinct_states": len(states), "largest_team_histogram": merge("teams"),
            "faults_injected": merge("faults"), "probes": merge("probes"), "runs_per_scenario": merge("scenarios"), "stopped_by_time_limit": any(s["timed_out"] for s in stats),
            "real_code": "all of brille's C++ library code that the scenario calls (src/*.hpp, *.tpp, *.cpp and the bundled tetgen), compiled from /repo with compiler instrumentation; libstdc++",
            "stubs": "libgomp (teams, loops, barriers, critical sections: fibers under the simulator), pthread mutexes, HighFive/HDF5 (in-memory file tree), clocks, getpid, ioctl, operator new/delete",
            "build_seconds": round(tb, 1),
        },
        "assumptions": ["the HighFive stand-in behaves like HighFive 2.x over HDF5 for the calls brille makes", "sequentially consistent memory; unsynchronised conflicting accesses are reported as races by happens-before instead of being executed with weak memory", "code inside libstdc++'s own shared object is not a preemption point"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as o:
        json.dump(ev, o, indent=1)
    print("%s %s seed=%d: %d runs (%d distinct non-trivial), %d switches, %.0fM steps, %.1f s; faults %s" % (prop, a.tier, a.seed, n, len(nth), tot("switches"), tot("steps") / 1e6, wall, json.dumps(merge("faults"))))
    for f in fs:
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (prop, f["what"], seen.get(f["id"], 0)))
    for path, rep, text in viols:
        print("  %s/%s: %s" % (rep["scenario"], rep["kind"], text[:1800]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if viols:
        return 1
    if errors:
        for e in errors[:10]:
            print("CHECK-ERROR " + e)
        return 2
    if len(stats) != len(ps):
        print("CHECK-ERROR a worker gave no statistics")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
