import json, os
T = "deterministic simulation with fault injection: "
LV = {
"C01": ("seeded discrete-event deployment, every value against a reference model", "Samples streams, delivery schedules, crashes and restores; every update's value is compared with the definition recomputed in extended precision. Trusts the reference model (sim/ref.py) and its rounding bound; histories whose value is decided by rounding are counted, not judged."),
"C02": ("seeded streams with batch audits at arbitrary instants", "Audits on fresh objects after random prefixes, rows shuffled and labels renamed; compared with the streamed value and the definition."),
"C03": ("replicas over a simulated network, convergence at quiescence", "2-4 replicas, independent order, naming, crashes and retransmission; pairs with equal accepted multisets are compared."),
"C04": ("controlled thread schedules at instruction granularity, solo baseline", "Real threads released one at a time by a seeded scheduler at every call, operator and loop of the package; each object's results are compared with a solo run in a fresh incarnation. Preemption inside numpy (one C call) is not modelled."),
"C05": ("streams with buffer refills and scribbles between calls, twin comparison", "The caller's arrays are overwritten between and after calls; a twin fed private copies must see the same values."),
"C06": ("malformed calls injected into streams, twin comparison", "Fourteen kinds of torn or corrupted call at arbitrary moments; a twin that never saw them must stay equal."),
"C07": ("exceptions injected at arbitrary execution points inside calls", "Interrupt, memory and arithmetic faults at a sampled execution point of each call; afterwards the object must follow one of the two legal histories. Points are the package's own instructions; faults in the middle of a C call are not modelled."),
"C08": ("seeded mode-change and restart sequences against a three-state model", "Random sequences of samples, batches, copies and restarts against the fresh/streaming/batched model."),
"C09": ("checkpoint, crash, restore and fork at arbitrary moments, twin comparison", "Pickle images survive a simulated process restart (the package is imported anew); restored objects, forks and uninterrupted twins are compared on every later call."),
"C10": ("long simulated streams with checkpoint quota, step budget and leak meter", "Bounded lengths (up to a few thousand updates); cost is counted in execution points and bytes, not time."),
"C11": ("seeded degenerate phases with crashes and audits inside", "Ten kinds of degenerate phase, spliced into ordinary streams; no call may raise and defined values must be right."),
"C12": ("replay of histories under simulated clocks, seeds, environments and interpreters", "The same history in several simulated surroundings, another thread and other interpreter processes, compared bit for bit; process-wide state and audit events checked around every call."),
"C13": ("controlled writer/reader schedules, history check", "Readers let in at sampled execution points of the writer; every value read must belong to a completed call, or to the one in flight."),
}
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -B -c \"import numpy, sys; sys.path.insert(0, '/verif'); import sim.props\"",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                 "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                 "evidence_file": "evidence/%s.json" % p,
                 "technique": T + t, "level": "exploration", "level_note": n}
                for p, (t, n) in LV.items()],
     "not_applicable": [
         {"property": "C14", "reason": "pure function of the input data: no schedule, fault, clock or history in it, so simulation would only be input generation under another name"},
         {"property": "C15", "reason": "pure function of the input data; nothing for a schedule or fault to influence"},
         {"property": "C16", "reason": "the legacy classes all raise or return nan on the installed numpy and have no specification or active test; there is no behaviour to simulate (see DESIGN.md)"}],
     "notes": "No hooks in /repo: execution points come from sys.monitoring, restarts from re-importing the package. Eight genuine defects were repaired in fix: commits, see known_findings.txt."}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
