#!/usr/bin/env python3
"""Deterministic simulation checks for gapp.

  check.py PROPERTY [--tier quick|thorough] [--seed N] [--time SECONDS]
  check.py --replay FILE          re-executes a replay file against the current tree
  check.py --build [GROUP...]     only builds the simulated programs

Everything is built from the working tree of the repository (GAPP_REPO, default /repo)."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GAPP_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
CXX = os.environ.get("CXX", "g++")
NCPU = min(8, len(os.sched_getaffinity(0)) or 1)

COMMON = ["-std=gnu++20", "-U_FORTIFY_SOURCE", "-w"]
# the repository's sources and the workloads: every memory access and atomic operation calls into the simulator
SIMFLAGS = COMMON + ["-DGAPP_BUILD_STATIC", "-DGAPP_SIM_HOOKS", "-D_GLIBCXX_ASSERTIONS", "-g1", "-O1", "-fno-pie",
                     "-fno-omit-frame-pointer", "-fsanitize=thread"]
RTFLAGS = COMMON + ["-O2", "-g", "-fPIC", "-shared", "-fno-builtin", "-fno-tree-loop-distribute-patterns",
                    "-fvisibility=hidden", "-Wl,-Bsymbolic-functions"]

GA = ["ga_core", "ga_bin", "ga_int", "ga_perm", "ga_real", "ga_cust", "sc_ga"]
GROUPS = {  # program -> (workload sources, links the repository's library)
    "pool": (["sc_pool"], False),
    "sync": (["sc_sync"], False),
    "rng": (["sc_rng"], False),
    "ga": (GA, True),
    "mo": (["ga_core", "ga_bin", "ga_int", "ga_perm", "ga_real", "ga_cust", "sc_mo"], True),
    "tol": (["ga_core", "ga_bin", "ga_int", "ga_perm", "ga_real", "ga_cust", "sc_tol"], True),
    "ops": (["ga_core", "ga_bin", "ga_int", "ga_perm", "ga_real", "ga_cust", "sc_ops"], True),
    "cont": (["sc_cont"], False),
}
PROPS = {  # property -> program, seconds of search in the quick tier
    "C01": ("pool", 40), "C02": ("pool", 40), "C03": ("pool", 40), "C04": ("pool", 40),
    "C17": ("sync", 40), "C18": ("sync", 40), "C24": ("rng", 40), "C08": ("rng", 40), "C22": ("rng", 40),
    "C05": ("ga", 50), "C06": ("ga", 50), "C07": ("ga", 50), "C09": ("ga", 50), "C10": ("ga", 50), "C11": ("ga", 50),
    "C13": ("ga", 50), "C14": ("ga", 50), "C15": ("ga", 50), "C16": ("ga", 50), "C19": ("ga", 50), "C20": ("ga", 50),
    "C12": ("mo", 50), "C25": ("mo", 50),
    "C27": ("ga", 45), "C21": ("cont", 40), "C26": ("ops", 40), "C28": ("ops", 40), "C29": ("tol", 40),
}


def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)


def read(path):
    with open(path, "rb") as f:
        return f.read()


def tree(root, exts):
    out = []
    for d, _, fs in os.walk(root):
        out += [os.path.join(d, f) for f in fs if f.endswith(exts)]
    return sorted(out)


def run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), (p.stdout + p.stderr)[-6000:]))


def build(group):
    """Builds the program of a group; objects are cached by the contents of everything they depend on."""
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    src = os.path.join(REPO, "src")
    h = hashlib.sha256()
    for p in tree(src, (".hpp", ".h", ".inl", ".ipp", ".tpp")):
        h.update(os.path.relpath(p, src).encode() + b"\0" + read(p) + b"\0")
    lib_key = h.hexdigest()
    for p in tree(SIM, (".hpp", ".h")):
        h.update(p.encode() + b"\0" + read(p) + b"\0")
    sim_key = h.hexdigest()
    rt_key = hashlib.sha256(b"".join(read(os.path.join(SIM, f)) for f in ("rt.cpp", "rt.h", "rt.map")) + repr(RTFLAGS).encode()).hexdigest()[:24]
    rtdir = os.path.join(BUILD, "rt-" + rt_key)
    jobs, objs = [], []

    def obj(path, key):
        k = hashlib.sha256(repr((path, key, SIMFLAGS, REPO)).encode() + read(path)).hexdigest()[:24]
        o = os.path.join(BUILD, "obj", "%s-%s.o" % (os.path.basename(path)[:-4], k))
        objs.append(o)
        if not os.path.exists(o):
            tmp = "%s.%d.tmp" % (o, os.getpid())
            jobs.append((os.path.getsize(path) + (10 ** 6 if path.startswith(SIM) else 0),
                         [CXX] + SIMFLAGS + ["-I", src, "-I", SIM, "-c", path, "-o", tmp], tmp, o))
        else:
            os.utime(o)

    srcs, lib = GROUPS[group]
    if not os.path.exists(os.path.join(rtdir, "libsimrt.so")):
        os.makedirs(rtdir, exist_ok=True)
        tmp = os.path.join(rtdir, "%d.tmp" % os.getpid())
        jobs.append((10 ** 7, [CXX] + RTFLAGS + ["-Wl,--version-script=" + os.path.join(SIM, "rt.map"), os.path.join(SIM, "rt.cpp"), "-o", tmp],
                     tmp, os.path.join(rtdir, "libsimrt.so")))
    for s in ["driver"] + srcs:
        obj(os.path.join(SIM, s + ".cpp"), sim_key)
    if lib:
        for p in tree(src, (".cpp", ".cc", ".cxx")):
            obj(p, lib_key)

    def one(j):
        run(j[1])
        os.replace(j[2], j[3])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, sorted(jobs, key=lambda j: -j[0])))
    exe = os.path.join(BUILD, "sim_%s-%s" % (group, hashlib.sha256(repr((objs, rtdir)).encode()).hexdigest()[:24]))
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        run([CXX, "-no-pie", "-o", tmp] + objs + ["-L" + rtdir, "-lsimrt", "-Wl,-rpath," + rtdir, "-lpthread"])
        os.replace(tmp, exe)
    else:
        os.utime(exe)
    prune()
    return exe, time.time() - t0, len(jobs)


def prune(limit=3 << 30):
    fs = []
    for d, _, names in os.walk(BUILD):
        for n in names:
            p = os.path.join(d, n)
            try:
                st = os.stat(p)
            except OSError:
                continue
            if not n.endswith(".so"):
                fs.append((st.st_mtime, st.st_size, p))
    total = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if total < limit or time.time() - m < 3600:
            break
        os.remove(p)
        total -= s


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def signature(f):
    return "%s %s %s" % (f["scenario"], f["cls"], f["msg"])


def driver(exe, args, timeout):
    p = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, errors="replace")
    if p.returncode:
        raise RuntimeError("%s %s: exit %d\n%s" % (os.path.basename(exe), " ".join(map(str, args)), p.returncode, p.stderr[-2000:]))
    return [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]


def symbolise(exe, msg):
    pcs = re.findall(r"@([0-9a-f]{5,7})\b", msg)[:14]
    if not pcs:
        return []
    try:
        o = subprocess.run(["addr2line", "-e", exe, "-f", "-C", "-s"] + [hex(int(x, 16) - 1) for x in pcs],
                           capture_output=True, text=True, timeout=60).stdout.splitlines()
        return ["%s: %s %s" % (pcs[i // 2], o[i][:120], o[i + 1]) for i in range(0, len(o) - 1, 2)]
    except Exception:
        return []


KINDS = ["switch", "preempt", "resume", "stale-read", "spurious-wakeup", "notify-choice", "weak-cas-failure", "alloc-failure",
         "thread-create-failure", "user-exception", "rng-extreme", "timeout"]
FAULTS = {"stale-read", "spurious-wakeup", "weak-cas-failure", "alloc-failure", "thread-create-failure", "user-exception", "rng-extreme", "timeout"}


def write_decisions(path, dec):
    with open(path, "w") as f:
        for d in dec:
            f.write("%d %d %d %d\n" % tuple(d))


def replay(path):
    r = json.load(open(path))
    exe, _, _ = build(PROPS[r["property"]][0])
    args = ["one", "--prop", r["property"], "--seed", r["seed"], "--index", r["index"], "--tier", r["tier"], "--only", r["scenario"]] if False else \
           ["one", "--prop", r["property"], "--seed", r["seed"], "--index", r["index"], "--tier", r["tier"]]
    if r["exact"]:
        tmp = path + ".%d.dec" % os.getpid()
        write_decisions(tmp, [(d["thread"], KINDS.index(d["kind"]), d["at"], d["value"]) for d in r["decisions"]])
        args += ["--replay", tmp]
    try:
        o = driver(exe, args, 250)[0]
    finally:
        if r["exact"]:
            os.remove(tmp)
    same = o["cls"] == r["violation"]
    print("replay of %s: %s: %s" % (path, "reproduced" if same else "NOT reproduced", o["cls"] or "no violation"))
    if o["msg"]:
        print("  " + o["msg"][:1500])
        for s in symbolise(exe, o["msg"]):
            print("    " + s)
    return same


def report(exe, prop, tier, seed, f, t_left):
    """Minimises a violation, stores its replay file and confirms it in fresh processes. Returns the path or None."""
    base = ["--prop", prop, "--seed", seed, "--index", f["index"], "--tier", tier]
    fresh = driver(exe, ["one"] + base, 250)[0]
    if fresh["cls"] != f["cls"] or (fresh["hash"] != f["hash"] and not f["cls"].endswith("hang")):
        print("not reproducible in a fresh process: %s #%s %s / %s" % (f["scenario"], f["index"], f["cls"], fresh["cls"]))
        return None
    dec, exact, tries, original, final = [], False, 0, f["ndecisions"], fresh
    try:
        budget = 5 if f["cls"].endswith("hang") else 45
        m = driver(exe, ["minimize"] + base + ["--time", min(budget, max(5, t_left))], 400)
        if m[1]["exact"] and m[0]["cls"] == f["cls"]:
            dec, exact, tries, original, final = m[1]["minimised"], True, m[1]["tries"], m[1]["original"], m[0]
    except Exception as e:
        print("minimisation failed:", str(e)[:300])
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, seed, f["index"]))
    json.dump({"property": prop, "tier": tier, "seed": seed, "index": f["index"], "scenario": f["scenario"], "violation": f["cls"],
               "message": final["msg"], "symbols": symbolise(exe, final["msg"]), "workload": final["workload"], "exact": exact,
               "original_decisions": original, "minimisation_runs": tries, "steps": final["steps"],
               "decisions": [{"thread": x[0], "kind": KINDS[x[1]], "at": x[2], "value": x[3]} for x in dec]},
              open(path, "w"), indent=1)
    if not replay(path):
        return None
    return path


def check(prop, tier, seed, seconds):
    t0 = time.time()
    group, quick = PROPS[prop]
    seconds = seconds or (quick if tier == "quick" else 600)
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    try:
        exe, tb, built = build(group)
    except RuntimeError as e:
        die(str(e))
    known = known_findings(prop)
    tmpd = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmpd, exist_ok=True)
    stop = os.path.join(tmpd, "stop")
    try:
        ts = time.time()
        procs = []
        for k in range(NCPU):
            out = os.path.join(tmpd, "w%d.json" % k)
            procs.append((subprocess.Popen([exe, "batch", "--prop", prop, "--seed", str(seed), "--from", str(k), "--stride", str(NCPU), "--cpu", str(k),
                                            "--time", str(seconds), "--tier", tier, "--maxviol", "40" if known else "1", "--stop", stop, "--out", out],
                                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace"), out))
        res, left = [], list(procs)
        while left:
            for p, out in list(left):
                if p.poll() is None:
                    continue
                left.remove((p, out))
                if p.returncode:
                    open(stop, "w").close()
                    die("worker failed with %d: %s" % (p.returncode, p.stderr.read()[-2000:]))
                r = json.load(open(out))
                res.append(r)
                if any(not any(k[0].search(signature(f)) for k in known) for f in r["found"]):
                    open(stop, "w").close()
            if time.time() - ts > seconds + 330:
                for p, _ in left:
                    p.kill()
                die("a worker did not stop")
            time.sleep(0.05)
        wall_sim = time.time() - ts
        s = lambda k: sum(r[k] for r in res)

        # determinism across processes and cpus: re-execute a sample alone and compare the event logs
        # (samples inside the workers are re-executed by the workers themselves: det_verified)
        found, quiet = [], []
        for r in res:
            for f in r["found"]:
                (quiet if any(k[0].search(signature(f)) for k in known) else found).append(f)
        found.sort(key=lambda f: (f["steps"], f["index"]))
        paths = []
        for f in found[:4]:
            p = report(exe, prop, tier, seed, f, 800 - (time.time() - t0))
            if p:
                paths.append((p, f))
                break
        mism = 0
        if not found:
            idx = [k for k in range(0, 24) if k < s("runs")]
            with cf.ThreadPoolExecutor(NCPU) as ex:
                a = list(ex.map(lambda i: driver(exe, ["one", "--prop", prop, "--seed", seed, "--index", i, "--tier", tier, "--cpu", i], 120)[0], idx))
                b = list(ex.map(lambda i: driver(exe, ["one", "--prop", prop, "--seed", seed, "--index", i, "--tier", tier, "--cpu", i + 3], 120)[0], idx))
            for x, y in zip(a, b):
                if x["hash"] != y["hash"] or x["outcome"] != y["outcome"]:
                    mism += 1
                    print("not deterministic across processes: %s #%d" % (x["scenario"], x["index"]))
        hashes = set()
        for r in res:
            hashes.update(r["hashes"])
        fired = {}
        for r in res:
            for k, (n, m) in r["fired"].items():
                a = fired.setdefault(k, [0, 0])
                a[0] += n
                a[1] += m
        merged = lambda key: {k: sum(r[key].get(k, 0) for r in res) for k in sorted({k for r in res for k in r[key]})}
        about = dict((l.split(" ", 3)[1], l.split(" ", 3)[3]) for l in subprocess.run([exe, "list"], capture_output=True, text=True).stdout.splitlines() if l.startswith(prop + " "))
        samples = []
        for r in res:
            samples += r["samples"][:1]
        cov = {
            "evaluations": s("runs"),
            "distinct_nontrivial": len(hashes),
            "rule": "One evaluation is one simulated execution of a workload generated from (VERIF_SEED, property, run index) under a schedule and a fault "
                    "sequence generated from the same triple. Two executions count as the same when the scenario and the hash of the sequence of context switches, "
                    "synchronisation operations and injected faults agree; the figure is the number of different hashes.",
            "samples": samples[:6],
            "scenarios": {k: {"runs": v, "about": about.get(k, "")} for k, v in merged("scenarios").items()},
            "runs_without_violation": s("ok"), "runs_skipped": s("skip"), "harness_errors": s("errors"),
            "seeds_per_hour": round(s("runs") / wall_sim * 3600), "seconds_of_search": round(wall_sim, 1), "workers": NCPU,
            "scheduling_points": s("steps"), "context_switches": s("switches"), "memory_accesses_observed": s("accesses"),
            "simulated_time_ns": s("vtime"), "random_numbers_drawn": s("rng_draws"), "allocations": s("allocs"),
            "max_threads_in_a_run": max(r["max_threads"] for r in res),
            "faults_and_scheduling_decisions": {k: {"fired": v[0], "runs": v[1], "fault": k in FAULTS} for k, v in fired.items() if v[0]},
            "probes_runs_reaching": merged("probes"),
            "determinism": {"reexecuted_in_process": s("det_verified"), "time_limits_not_confirmed": s("unconfirmed"), "reexecuted_in_two_fresh_processes": 0 if found else 24, "mismatches": s("nondet") + mism},
            "real_code": "everything under src/ of the repository (compiled from the working tree, instrumented), libstdc++",
            "simulated": "thread scheduling, mutexes, condition variables, futexes/atomic waits, thread creation, weak-memory reads of atomics, "
                         "the allocator and its failures, clocks, std::random_device, raw generator outputs (when extremes are injected)",
            "build": {"seconds": round(tb, 1), "compiled_units": built},
        }
        nviol = len(found)
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                   "assumptions": ["user functions are thread-safe unless the scenario injects a failure into them",
                                   "sampling: a clean run is evidence, not proof",
                                   "the simulated memory model covers stale reads of atomics permitted by C++ coherence and happens-before, not load buffering"],
                   "wall_s": round(time.time() - t0, 1), "violations": nviol}, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
        print("%s %s seed=%d: %d runs, %d distinct interleavings, %d scheduling points, %.0f s search, %.0f s build; faults: %s" % (
            prop, tier, seed, s("runs"), len(hashes), s("steps"), wall_sim, tb, ", ".join("%s %d" % (k, v[0]) for k, v in fired.items() if v[0] and k in FAULTS) or "none"))
        for k, text in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        for r in res:
            for e in r["error_lines"]:
                print("note:", e[:600])
        if paths:
            p, f = paths[0]
            print("%s: %s" % (f["scenario"], f["cls"]))
            print("  workload: " + f["workload"][:1500])
            print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
            return 1
        if found:
            die("a violation was found but could not be confirmed in a fresh process")
        if s("nondet") or mism:
            die("the simulation was not deterministic")
        if s("errors"):
            die("the harness reported errors")
        if s("ok") == 0:
            die("no run completed")
        return 0
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--time", type=float, default=0)
    ap.add_argument("--replay")
    ap.add_argument("--build", nargs="*")
    a = ap.parse_args()
    if a.replay:
        sys.exit(0 if replay(a.replay) else 1)
    if a.build is not None:
        for g in a.build or GROUPS:
            print(build(g))
        return
    if a.prop not in PROPS:
        ap.error("unknown property")
    sys.exit(check(a.prop, a.tier, a.seed, a.time))


main()
