"""Evidence of one check, measured on that check."""

import json
import os
import resource

from . import props
from .core import digest

RULES = {
    "C01": "a run is one simulated deployment (producers, network, nodes, disk) from one seed; "
           "non-trivial: at least one comparison with the definition on two or more clusters, and "
           "its event log differs from every other run's",
    "C04": "a run is one schedule of caller threads over private objects; non-trivial: at least one "
           "preemption inside the package, and its switch trail differs from every other run's",
    "C13": "a run is one schedule of a writer and readers; non-trivial: at least one read while an "
           "update was in flight, and its switch trail differs from every other run's",
}

REAL = ["src/cvi (all nine index classes and the shared base), unmodified, from the working tree",
        "numpy, pickle, copy, CPython threads"]
STUB = {
    "C01": ["network, disk, producers, crash and restart: simulated (sim/world.py)",
            "expected values: reference model in extended precision (sim/ref.py)"],
    "C04": ["thread scheduling: the simulator's, at instruction granularity (sim/points.py)"],
    "C07": ["the failing callee, allocator or signal: an exception raised at a chosen execution "
            "point (sim/points.py)"],
    "C12": ["clock, sleep, random seeds, environment, working directory: simulated "
            "(sim/ambient.py)"],
}

FAULT_KEYS = ("crash", "checkpoint", "refused", "buffer_reuse", "buffer_refill", "scribbled", "fork",
              "process_restart", "restored", "switches", "reads_in_flight", "clock_reads",
              "refused_switches")


def known_findings(here, pid):
    path = os.path.join(here, "known_findings.txt")
    if not os.path.exists(path):
        return []
    return [ln.strip() for ln in open(path)
            if ln.startswith("KNOWN-FINDING: property=%s " % pid)]


def write(here, pid, tier, seed, results, elapsed, workers, bad, skipped, errors):
    stats, net, shapes = {}, {}, {}
    logs, trails, states = set(), set(), set()
    nontrivial = set()
    sim = 0.0
    for r in results:
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + int(v)
        for k, v in r["net"].items():
            net[k] = net.get(k, 0) + v
        shapes[r["shape"]] = shapes.get(r["shape"], 0) + 1
        logs.add(r["log"])
        if r["trail"]:
            trails.add(r["trail"])
        states.update(r["states"])
        sim += r["simtime"]
        s = r["stats"]
        if pid == "C04":
            ok = s.get("switches", 0) > 0 and s.get("compared", 0) > 0
        elif pid == "C13":
            ok = s.get("reads_in_flight", 0) > 0
        elif pid == "C02":
            ok = s.get("audits", 0) > 0
        elif pid == "C03":
            ok = s.get("converged_pairs", 0) > 0
        else:
            ok = s.get("compared", 0) > 0
        if ok:
            nontrivial.add(r["trail"] or r["log"])
    faults = {k: v for k, v in stats.items()
              if k in FAULT_KEYS or k.startswith(("fault_", "batch_fault_", "refused_", "ambient_"))}
    faults.update({"net_" + k: v for k, v in net.items()})
    samples = []
    for r in results[:200:67] or []:
        tr = props.trace_for(pid, seed, r["index"], tier)
        samples.append({"run": r["index"], "shape": r["shape"], "log": r["log"],
                        "stats": r["stats"], "ops": len(tr.get("ops", [])),
                        "first_ops": tr.get("ops", [])[:4] or tr.get("schedule", [])[:8],
                        "first_sample": (tr.get("data") or [None])[0]})
    cov = {
        "evaluations": len(results),
        "distinct_nontrivial": len(nontrivial),
        "rule": RULES.get(pid, RULES["C01"].replace(
            "comparison with the definition on two or more clusters", "oracle comparison")),
        "samples": samples,
        "runs_per_hour": round(len(results) / elapsed * 3600) if elapsed else 0,
        "seeds_per_hour": round(len(results) / elapsed * 3600) if elapsed else 0,
        "simulated_time_s": round(sim, 1),
        "oracle_comparisons": stats.get("compared", 0) + stats.get("audits", 0)
        + stats.get("converged_pairs", 0),
        "faults_injected": faults,
        "counters": stats,
        "distinct_states": len(states),
        "state_measure": {
            "C04": "distinct package instructions at which a preemption happened",
            "C13": "distinct package instructions at which a reader was let in",
            "C07": "distinct (index, fault kind, point kind, point number) combinations",
        }.get(pid, "distinct abstract states (see states.add in the executor)"),
        "distinct_interleavings": len(trails) if trails else len(logs),
        "distinct_workload_shapes": len(shapes),
        "undecided_runs": len(skipped), "harness_errors": len(errors),
        "workers": workers,
        "real_components": REAL,
        "stub_components": STUB.get(pid, STUB["C01"]),
        "exhaustive": False,
    }
    doc = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
           "assumptions": [
               "a clean batch is evidence, not proof: schedules and faults are sampled",
               "rounding is judged by relative 1e-9, widened only by the measured conditioning of "
               "the history",
           ],
           "wall_s": round(elapsed, 2), "violations": 1 if bad else 0}
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
