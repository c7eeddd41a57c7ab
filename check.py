#!/usr/bin/env python3
"""check.py <property>: decides one property by seeded simulation of the containers in /repo's working tree.

Exit 0: held on everything explored. Exit 1 with "VIOLATION property=<id> replay=<path>": broken.
VERIF_SEED selects the runs, VERIF_TIER (quick|thorough) the depth. Rewrites evidence/<property>.json."""
import json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import simbuild

# runs of the quick tier (fixed, so that one seed is one exactly repeatable batch), sized for about 30 s on 8 cores
QUICK = {
    "C01": 4500000, "C02": 4500000, "C03": 4500000, "C04": 6000000, "C05": 8000000, "C06": 4500000, "C07": 6000000,
    "C08": 1300000, "C09": 4000000, "C10": 4500000, "C11": 8000000, "C12": 4500000, "C13": 5000000, "C14": 5000000,
    "C15": 4000000, "C16": 5000000, "C17": 4000000, "C18": 4500000, "C19": 2500000,
}
QUICK_CAP = 200          # s: a slow machine explores less instead of running out of time
THOROUGH_TIME = 660      # s

REAL = "boost::lockfree::%s of /repo/include, compiled with access instrumentation (g++ -fsanitize=thread callbacks, no libtsan)"
FAMS = {"queue": "queue", "stack": "stack", "spsc": "spsc_queue"}
WHAT = {
    "C01": "exact linearizability check of the whole history against a sequential FIFO (with capacity), per-run drain and refill",
    "C02": "exact linearizability check of the whole history against a sequential LIFO, per-run drain and refill",
    "C03": "as C02 with range pushes and atomic consumption as single transitions of the model",
    "C04": "prefix matching of the delivered against the accepted sequence with real-time bounds on what each batch must take or accept",
    "C05": "query results bounded by pushes/pops that precede or may precede the query; front() compared with the next element",
    "C06": "vector-clock race detection on data published through the container and on element storage, conservation and happens-before order, on a store-history memory model",
    "C07": "vector-clock race detection on slots and on data published through the container, FIFO matching, on a store-history memory model",
    "C08": "linearizability check after stalls with many recycling operations; counters aged to just before wrap-around",
    "C09": "capacity part of the linearizability model; refill to exactly the capacity after every run",
    "C10": "step bound between completions while threads are crashed or stalled; linearizability with crashed operations optional; capacity loss bounded by what crashed operations held",
    "C11": "steps of every operation bounded by its measured solo length under adversarial scheduling; answers checked as in C04 after crashes",
    "C12": "every allocator call attributed to an operation and counted; shadow memory for use after free; balance, size and allocator identity at destruction",
    "C13": "injected std::bad_alloc; history check with failed operations without effect; allocation balance, capacity afterwards",
    "C14": "per-address life-cycle state machine of every element in container storage; balance after drain, reset, destruction",
    "C15": "linearizability check across alternating sequential and concurrent phases; reserve() accounted in the capacity bound",
    "C16": "three mappings of one memfd; every access checked to go through the accessing process's mapping; crash and restart of processes",
    "C17": "empty() as a transition of the linearizability model (quiet calls exact; stack 'true' always)",
    "C18": "injected exceptions in element copies, conversions, iterators and functors; element balance, history and capacity checks afterwards",
    "C19": "a second container of the same type driven by the same threads, and one constructed in the place of a destroyed one: conservation, order, capacity and allocator balance of each on its own",
}

def findings(prop):
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in QUICK:
        sys.stderr.write("usage: check.py C01..C19\n"); return 2
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") & ((1 << 63) - 1)
    t0 = time.time()
    exe = simbuild.build()
    tb = time.time() - t0
    rdir = os.path.join(HERE, "build", "replays"); os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    out = os.path.join(HERE, "build", "result-%s-%d.json" % (prop, os.getpid()))
    workers = max(1, min(8, os.cpu_count() or 8))
    cmd = [exe, "--prop", prop, "--seed", str(seed), "--workers", str(workers), "--out", out, "--replay-dir", rdir]
    if tier == "thorough":
        cmd += ["--runs", str(10 ** 12), "--time", os.environ.get("VERIF_TIME", str(THOROUGH_TIME)), "--thorough"]
    else:
        cmd += ["--runs", os.environ.get("VERIF_RUNS", str(QUICK[prop])), "--time", str(QUICK_CAP)]
    print("%s: seed %d, tier %s, simulator %s" % (prop, seed, tier, os.path.relpath(exe, HERE))); sys.stdout.flush()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    sys.stdout.write(p.stdout[-8000:])
    if p.returncode not in (0, 1) or not os.path.exists(out):
        print("ERROR: simulator ended with %d" % p.returncode); return 2
    with open(out) as f: r = json.load(f)
    os.unlink(out)
    wall = time.time() - t0
    fams = sorted({a.split("_")[0] for a in r["adapters"]})
    faults = {k: v for k, v in r["faults"].items() if k != "switch"}
    faults = {k: v for k, v in faults.items() if v}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": r["runs"], "distinct_nontrivial": r["distinct_interleavings"],
            "rule": "one evaluation = one simulated execution of a generated program (container configuration, prefill, phases of operations per thread, "
                    "fault plan, scheduling strategy), all derived from (seed, property, index). Non-trivial: at least one thread was preempted inside an operation "
                    "or at least one fault fired. Distinct: different hash of the sequence of (thread, access kind, location, compare-exchange outcome), "
                    "counted in a 2^27-bit table (an under-count).",
            "samples": r["samples"],
            "oracle": WHAT[prop],
            "nontrivial_runs": r["nontrivial"],
            "seeds_per_hour": int(r["runs"] / max(r["wall"], 1e-3) * 3600), "simulation_wall_s": r["wall"], "workers": r["workers"], "build_wall_s": round(tb, 2),
            "simulated_time": {"unit": "shared-memory accesses and other scheduling points (the library has no clock)", "steps": r["steps"], "operations": r["ops"]},
            "scheduling": {"context_switches": r["switches"], "switches_inside_operations": r["switches_inside_ops"], "operations_completed_while_another_was_stalled": r["ops_while_another_stalled"]},
            "faults_injected": faults,
            "probes": dict(r["probes"], compare_exchange_failed=r["cas_fail"], compare_exchange_ok=r["cas_ok"], race_checks=r["race_checks"]),
            "operations_by_kind": r["ops_by_kind"], "configurations": r["adapters"],
            "control_flow_edges_of_library_and_harness_reached": r["code_edges"],
            "determinism_selfchecks": {"runs_executed_three_times": r["selfchecks"], "differing": r["nondet"]},
            "undecided_runs": {"linearizability_search_gave_up": r["inconclusive"], "memory_model_table_full": r["weak_overflow"]},
            "runs_that_broke_another_property_only": r["other_class"],
            "components": {"real": [REAL % FAMS[f] for f in fams], "stub": ["operating system threads (fibers under the seeded scheduler)", "malloc/posix_memalign/operator new and custom allocators (simulated memory with shadow state)", "memory ordering of the processor (sequentially consistent, or store-history model)", "shared memory of several processes (one memfd mapped three times)" if prop == "C16" else "element types and functors (instrumented)"]},
        },
        "wall_s": round(wall, 2), "violations": 1 if r["violation"] else 0,
        "assumptions": ["sampling: absence of a violation is evidence, not proof", "a preemption can happen before every instrumented access; instructions between two accesses are not separated",
                        "compare-exchange of two words is a single step"],
    }
    rc = 0
    if r["violation"]:
        rc = 1
        for cls, pat, text in findings(prop):
            if cls == r["class"] and re.search(pat.replace("_", " "), r["message"]):
                print("KNOWN-FINDING: property=%s %s" % (prop, text)); rc = 0; ev["violations"] = 0
        if rc:
            print("%s broken: [%s] %s" % (prop, r["class"], r["message"]))
            print("VIOLATION property=%s replay=%s" % (prop, r["replay"]))
    tmp = os.path.join(HERE, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    if rc == 0:
        print("%s held on %d simulated runs (%d distinct interleavings) in %.1f s" % (prop, r["runs"], r["distinct_interleavings"], wall))
    return rc

if __name__ == "__main__":
    try:
        sys.exit(main())
    except RuntimeError as e:
        print("ERROR: %s" % e); sys.exit(2)
