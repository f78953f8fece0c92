#!/usr/bin/env python3
"""check.py <property>: seeded search over simulated runs that decides one property.

Exit 0: the property held in every run explored.  Exit 1 and a VIOLATION line:
it is broken and the replay file reproduces it.  Anything else: the check failed."""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

# runs of the quick tier, about 20 to 30 s of search on 8 cores each
QUICK = {"C01": 800000, "C02": 800000, "C03": 900000, "C04": 900000, "C05": 500000, "C06": 900000, "C07": 800000,
         "C08": 700000, "C09": 700000, "C10": 250000, "C11": 450000, "C12": 800000, "C13": 700000, "C17": 700000, "C18": 130000}
QUICK_TIME = 300      # s; only a slow machine gets there
THOROUGH_TIME = 780   # s of search
BATCH = 1000000

RULE = {
    "C01": "lazy queues of three element kinds, by themselves and next to other queues",
    "C02": "doubly-linked, forward and backward lists of several element kinds",
    "C03": "growable vectors of two element kinds",
    "C04": "fixed vectors of several capacities and element kinds",
    "C05": "maps, sets and trees of several key and value kinds",
    "C06": "sorted vector maps and vector maps of several key and value kinds",
    "C07": "all containers, with refusals of storage, element copies and comparisons in most runs",
    "C08": "all containers",
    "C09": "lists, queues, maps, sets, trees and vectors, with iterators held across operations",
    "C10": "all containers, and algorithms and bit sets over private data, with several tasks switched at any instruction",
    "C11": "all containers, with larger contents, sorted and adversarial key orders",
    "C12": "all containers, with refusals everywhere and queue cleanup from the low-memory handler",
    "C13": "all containers, with copies and assignments in every combination",
    "C17": "all containers, with refusals, and the storage held weighed after every operation",
    "C18": "algorithms, arrays and bit sets over arrays and lists of several element kinds, with refused element copies and comparisons",
}
PARTS = {
    "real": ["every header of /repo/ttl, compiled unmodified from the working tree and instrumented by the compiler"],
    "simulated": ["task scheduler (fibers)", "operator new/delete and the heap behind them", "low-memory handler policy",
                  "element types (their copies and comparisons can be refused memory)", "compiler instrumentation callbacks"],
    "oracle": ["reference models of every container", "element ledger", "byte-granular memory ledger",
               "access conflict detector", "work counters"],
}


def known_findings():
    out = []
    with open(os.path.join(common.VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def all_probes():
    names = set()
    for f in sorted(os.listdir(common.SIM)):
        if f.endswith((".h", ".cpp")):
            with open(os.path.join(common.SIM, f)) as fh:
                names.update(re.findall(r'PROBE\("([^"]*)"\)', fh.read()))
    return names


def add(total, st):
    for k, v in st.items():
        if isinstance(v, bool) or isinstance(v, str) or k in ("samples", "violation", "workers", "edges_total"):
            total[k] = v
        elif k in ("max_elems", "max_log_ratio", "edges_hit"):
            total[k] = max(total.get(k, 0), v)
        elif k == "probes":
            d = total.setdefault(k, {})
            for a, b in v.items():
                d[a] = d.get(a, 0) + b
        elif k == "operations":
            d = total.setdefault(k, {})
            for a, b in v.items():
                c = d.get(a, [0, 0, 0, 0])
                d[a] = [c[0] + b[0], c[1] + b[1], max(c[2], b[2]), max(c[3], b[3])]
        else:
            total[k] = total.get(k, 0) + v


def main():
    prop = sys.argv[1]
    if prop not in QUICK:
        print("unknown property " + prop, file=sys.stderr)
        return 2
    number = int(prop[1:])
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv else "quick"
    t0 = time.time()
    try:
        prog = common.build()
    except common.BuildError as e:
        print("the simulator does not build with this tree:\n%s" % e, file=sys.stderr)
        return 2
    build_s = time.time() - t0
    workers = os.cpu_count() or 4
    evid = os.path.join(common.VERIF, "evidence")
    rep_dir = os.path.join(common.VERIF, "replays")
    os.makedirs(evid, exist_ok=True)
    os.makedirs(rep_dir, exist_ok=True)
    stats_file = os.path.join(evid, ".%s.%d.stats" % (prop, os.getpid()))
    findings = known_findings()
    env = dict(os.environ, SIM_KNOWN=",".join(f[1] for f in findings))

    def search(seed, runs, limit, start=0, extra=(), nworkers=workers):
        rep = os.path.join(rep_dir, "%s-%d.replay" % (prop, seed))
        for f in (stats_file, rep):
            if os.path.exists(f):
                os.remove(f)
        cmd = [prog, "search", "--prop", str(number), "--seed", str(seed), "--runs", str(runs), "--start", str(start),
               "--workers", str(nworkers), "--time", str(limit), "--min-time", "40",
               "--stats", stats_file, "--replay", rep] + list(extra)
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        st = {}
        if os.path.exists(stats_file):
            with open(stats_file) as f:
                st = json.load(f)
            os.remove(stats_file)
        return r.returncode, r.stdout, st, rep

    total, seeds, notes = {}, [], []
    rc, out, rep = 0, "", None
    if tier == "quick":
        batches = [(seed, QUICK[prop], QUICK_TIME)]
    else:
        batches = [(seed if i == 0 else seed * 100003 + i, BATCH, None) for i in range(1000)]
    started = time.time()
    for s, runs, limit in batches:
        if limit is None:
            limit = THOROUGH_TIME - (time.time() - started)
            if limit < 5:
                break
        rc, out, st, rep = search(s, runs, limit)
        if st:
            add(total, st)
            seeds.append([s, st["done"]])
        if rc == 0:
            continue
        if rc != 1:
            # Something of the violating run came from the runs before it in the
            # same process (static state of the library, for instance): look for a
            # run that shows it in a process of its own.
            notes.append("search ended with %d: %s" % (rc, out.strip()[-300:]))
            for extra, start, n in ((("--fork-each", "1"), 0, 60000), ((), 100000000, runs), (("--fork-each", "1"), 200000000, 200000),
                                    ((), 300000000, runs), ((), 400000000, runs)):
                rc, out, st, rep = search(s, n, 120, start, extra)
                if st:
                    add(total, st)
                if rc == 1:
                    break
                notes.append("again with %s from run %d: %d %s" % (" ".join(extra), start, rc, out.strip()[-300:]))
        break
    search_s = time.time() - started
    if rc not in (0, 1) or (notes and rc == 0):
        print("the search could not be completed:\n" + "\n".join(notes), file=sys.stderr)
        return 2
    deterministic = None
    if rc == 0:
        n = 2000 if tier == "quick" else 20000
        digests = [search(seed, n, 120, 0, (), w)[2].get("digest") for w in (workers, 3)]
        deterministic = digests[0] is not None and digests[0] == digests[1]
        if not deterministic:
            print("the same seeds gave different runs: %s" % digests, file=sys.stderr)
            return 2
    else:
        # the replay file, in a fresh process, must fail in the same way
        r = [subprocess.run([prog, "replay", rep], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for _ in range(2)]
        if any(x.returncode != 1 for x in r) or r[0].stdout != r[1].stdout:
            print("the replay file does not reproduce the violation:\n" + r[0].stdout, file=sys.stderr)
            return 2

    ops = total.get("operations", {})
    probes = total.get("probes", {})
    hours = max(search_s, 0.001) / 3600
    cov = {
        "evaluations": total.get("done", 0),
        "distinct_nontrivial": total.get("distinct_nontrivial", 0),
        "rule": "One evaluation is one simulated run of a seeded plan (%s): operations of several tasks on several objects, "
                "with context switches, refusals, heap policy and fresh-memory contents drawn from the seed. Non-trivial: the run "
                "went to its end and had at least one context switch or refused request. Distinct: by a hash over all events of the "
                "run (operations, results, requests, refusals, switches), counted within each batch of runs of one seed." % RULE[prop],
        "samples": total.get("samples", []),
        "seeds": seeds,
        "runs_per_hour": int(total.get("done", 0) / hours),
        "simulated_time": {"unit": "instrumented instructions of ttl code (basic blocks, loads, stores); the library has no clock",
                           "steps": total.get("steps", 0)},
        "operations_executed": total.get("ops", 0),
        "operation_kinds": len(ops),
        "operation_kinds_refused_at_least_once": sum(1 for v in ops.values() if v[1]),
        "operations": {k: v[0] for k, v in sorted(ops.items())},
        "faults_injected": {
            "allocation refused": total.get("refusals", 0),
            "element copy refused memory": total.get("copy_refusals", 0),
            "element comparison refused memory": total.get("cmp_refusals", 0),
            "operations ended by a refusal": total.get("refused_ops", 0),
            "operations under a burst of refusals": total.get("burst_ops", 0),
            "low-memory handler released pooled storage": total.get("reclaims", 0),
            "task switched in the middle of an operation": total.get("switches_mid", 0),
            "task switched between operations": total.get("switches_op", 0),
            "address of a released block reused": total.get("reuse", 0),
            "fresh memory filled with garbage": total.get("fills", 0),
        },
        "distinct_interleavings": {"measure": "hash over the position and target of every context switch, and the number of refusals",
                                   "count": total.get("distinct_schedules", 0)},
        "distinct_histories": total.get("distinct_histories", 0),
        "code_reached": {"measure": "instrumented basic-block edges of ttl templates, all containers counted in the total",
                         "hit": total.get("edges_hit", 0), "total": total.get("edges_total", 0)},
        "oracle_work": {"full model comparisons": total.get("verifications", 0), "elements tracked": total.get("elements", 0),
                        "conflicting-access checks between overlapping operations": total.get("overlaps", 0),
                        "operations checked to ask for no storage": total.get("noalloc_ops", 0),
                        "allocations": total.get("allocs", 0), "largest container": total.get("max_elems", 0)},
        "work": {"largest number of steps of a constant-work operation": max([v[2] for v in ops.values()] or [0]),
                 "largest stack of an operation, in bytes": max([v[3] for v in ops.values()] or [0]),
                 "largest comparisons per log2(size), in percent": total.get("max_log_ratio", 0)},
        "probes_hit": dict(sorted(probes.items())),
        "probes_not_in_this_workload": sorted(all_probes() - set(k for k, v in probes.items() if v)),
        "components": PARTS,
        "deterministic_rerun": deterministic,
        "runs_set_aside": {"reports that other properties decide": total.get("foreign", 0),
                           "not attributable to the faults of the property": total.get("rejected", 0)},
        "build_s": round(build_s, 2), "search_s": round(search_s, 2), "workers": workers,
    }
    if notes:
        cov["notes"] = notes
    left_out = os.path.join(os.path.dirname(prog), "notes")
    if os.path.exists(left_out):
        with open(left_out) as f:
            cov["left_out"] = f.read().splitlines()
    if rc == 1:
        cov["violation"] = total.get("violation")
    result = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": ["seeded sampling: a clean search is evidence, not proof",
                              "a switch can happen at basic blocks, loads and stores of ttl code and at calls into elements and the "
                              "allocator, under sequentially consistent memory",
                              "compiled by clang 18 at -O1 without inlining, -std=gnu++17, with exceptions; some classes once more with __cplusplus as in C++98",
                              "calls with undefined behaviour in the standard library's sense, and members that are declared but not defined, are not made"],
              "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0}
    tmp = os.path.join(evid, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(result, f, indent=1)
    os.rename(tmp, os.path.join(evid, prop + ".json"))
    if rc == 1:
        v = total.get("violation") or {}
        print(out.strip())
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rep, common.VERIF)))
        return 1
    for p, ident, text in findings:
        if p == prop:
            print("KNOWN-FINDING: property=%s %s: %s (met %d times)" % (p, ident, text, total.get("known", 0)))
    print("%s held in %d runs (%d distinct and non-trivial), %.0f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
