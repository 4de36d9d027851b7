"""Writes properties.jsonl (kept as code so that the file stays valid JSON)."""
import json, os
M = "src/cvi/modules/"
ALL = [M + n + ".py" for n in ("CH", "cSIL", "DB", "GD43", "GD53", "PS", "rCIP", "WB", "XB")]
BASE = M + "_base.py"
TESTS = ("the tests stream one fixed data file in one order with labels 0..k-1 and check final values "
         "between modes")

def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                        **({"state": state} if state else {}),
                        "observe_at": observe or ["return value of get_cvi", "criterion_value"],
                        "hook_needed": None}}

OUT = [
p("C01", "Every streamed value is the index of exactly the samples accepted so far",
  "After every accepted single-sample update, the value get_cvi returns, and criterion_value until the next update, is the index's published definition (as the class documents it) evaluated on exactly the multiset of (sample, label) pairs that object has accepted (wherever that definition is finite), up to floating-point rounding, and 0 while only one cluster has been seen. "
  "This holds for all nine indices, for any order, duplication or gap in which samples arrive, any number of clusters and features, any distinct integer label names and any integer or floating dtype, and whatever refused calls and checkpoint restarts happened in between.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "every prefix of every stream a lossy, duplicating, reordering network can deliver to a node that crashes and restores, for all nine indices",
  TESTS + "; they look at the last value only, never at the intermediate ones, and two indices agreed with a wrong batch-independent value on streams the file does not contain (see DESIGN.md, cSIL).",
  ALL + [BASE],
  [("recursive parameter updates", "_param_inc of each module"), ("value from parameters", "_evaluate of each module"), ("label naming", "LabelMap in " + BASE)],
  state=[{"name": "per-cluster sizes, centroids, compactness", "meaning": "sufficient statistics of the accepted samples", "where": BASE}]),
p("C02", "Streaming and batch agree at every instant",
  "At any moment of a stream, a batch call on a new object of the same class with the samples accepted so far, in any row order and under any one-to-one renaming of the labels to integers, succeeds and returns the value the stream holds, up to floating-point rounding, however many samples that is. "
  "This holds for all nine indices whenever at least two clusters have been seen and the index is defined on the data.",
  ["histories", "schedules", "inputs"],
  "an auditor may recompute after any prefix of any delivery schedule, with rows and label names in any order",
  TESTS + " at the end of one stream in file order with contiguous labels.",
  ALL + [BASE],
  [("batch parameters", "_param_batch of each module"), ("recursive parameters", "_param_inc of each module"), ("shared evaluation", "_evaluate of each module")]),
p("C03", "Replicas converge whatever the delivery order and the cluster names",
  "Two objects of the same class that have accepted the same multiset of samples with the same partition into clusters hold the same value, up to floating-point rounding, however the samples were ordered and interleaved between clusters and whatever integer names each used for the clusters.",
  ["schedules", "histories"],
  "all pairs of delivery orders of the same samples, with independent delays, drops with retransmission, partitions, crashes and label naming per replica",
  "the tests use one order and one naming.",
  ALL + [BASE],
  [("order-free sufficient statistics", "_param_inc of each module"), ("labels mapped in order of appearance", "LabelMap in " + BASE)]),
p("C04", "Objects never influence each other, whatever the thread schedule",
  "Every index object behaves exactly as if it were the only one in the process: the results of its calls depend only on its own calls, however the calls on other objects (of the same or other classes) are interleaved with them, in any threads, preempted anywhere, including objects created, dropped, handed from one thread to another or abandoned after an exception. "
  "(Calls on one and the same object are not concurrent here.)",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving, at any execution point inside the calls, of calls on different objects from different threads",
  "the tests are single-threaded and use one object at a time.",
  ALL + [BASE],
  [("all state in the instance", "__init__ and _setup of each module"), ("no module or class level mutable state", "src/cvi")]),
p("C05", "Callers keep ownership of their arrays",
  "A call never changes the sample, batch or label arrays it is given, works on read-only, strided, reversed or non-native arrays alike, and does not depend on them after it returns: the caller may overwrite, refill or free them at any time without affecting current or later values. "
  "A value once returned never changes afterwards.",
  ["schedules", "histories", "inputs"],
  "every interleaving of updates with the caller refilling and scribbling over its buffers, in streaming and batch mode",
  "the tests pass rows of an array nobody writes to.",
  ALL + [BASE],
  [("private copy on entry", "get_cvi in " + BASE), ("first sample kept as mean/centroid", "_setup and _param_inc of each module")]),
p("C06", "A refused call raises and leaves no trace",
  "A call the library cannot honour (wrong number of array dimensions, a sample whose length differs from the stream's, non-numeric data, an unhashable label, a batch with fewer than two clusters or with a label count that differs from the row count, a batch on an object in use) raises an exception and changes nothing: every later call behaves, and criterion_value reads, as if the refused call had never been made. "
  "For wrong array dimensions, single-cluster batches and batches on an object in use the exception is ValueError.",
  ["histories", "fault_sequences", "inputs"],
  "any sequence of malformed calls at any points of any stream or before a batch",
  "the tests make three kinds of bad call and look only at the exception, never at the object afterwards.",
  [BASE] + ALL,
  [("argument checks", "_update in " + BASE), ("update a copy, then switch", "get_cvi in " + BASE)],
  observe=["exception from get_cvi", "criterion_value", "later return values"]),
p("C07", "An update cut short is all or nothing",
  "When a call is cut short by an asynchronous exception or a failing callee (KeyboardInterrupt, MemoryError, FloatingPointError) at any point inside it, the object is afterwards either exactly as before the call or exactly as if the call had completed: criterion_value, every later value, and the possibility of repeating the sample or the batch follow one of these two histories.",
  ["fault_sequences", "crash_points", "histories"],
  "every execution point inside every call of a stream or batch, for each fault kind, followed by any continuation",
  "no test injects a fault.",
  [BASE] + ALL,
  [("update a copy, then switch in one assignment", "get_cvi in " + BASE), ("several dependent fields per update", "_param_inc of each module")]),
p("C08", "An object serves one mode for life",
  "A new object accepts either single samples or one batch; from then on it only ever accepts single samples (if streaming) or nothing more (if batched). Any attempt to change mode, however often, and also after the object was pickled, copied or restored in a new process, raises ValueError and leaves value and mode as they were.",
  ["histories", "crash_points"],
  "every sequence of samples, batches, copies and restarts",
  "the tests try one switch in one direction, right after the first update.",
  [BASE],
  [("mode flags", "_setup, _setup_batch and _update in " + BASE)],
  observe=["exception from get_cvi", "criterion_value"]),
p("C09", "A checkpointed object continues exactly where it was",
  "A copy of an object made by pickle (any protocol from 2) or copy.deepcopy at any moment of a stream, loaded in the same or a new process, holds the same value and answers every later call like the original would have; original and copies evolve independently.",
  ["crash_points", "histories", "fault_sequences"],
  "a checkpoint, crash and restore (or fork) between any two updates of any stream, repeatedly",
  "no test copies or pickles an object.",
  [BASE] + ALL,
  [("plain picklable attributes", "__init__ of each module and " + BASE), ("label map inside the object", "LabelMap in " + BASE)]),
p("C10", "Update cost and memory do not grow with the length of the stream",
  "For a fixed number of clusters and features, the size of an object (as pickled), the memory the process keeps for it and the number of steps an update takes stay bounded however many samples have been streamed and however many calls were refused or interrupted; samples are not accumulated.",
  ["histories", "fault_sequences"],
  "streams of any length, with refused and interrupted calls and restores in between",
  "the tests stream a few hundred samples and measure nothing.",
  ALL + [BASE],
  [("constant-size sufficient statistics", "_param_inc of each module"), ("label map grows with clusters only", "LabelMap in " + BASE)],
  observe=["len(pickle.dumps(object))", "live heap bytes", "execution points per update"]),
p("C11", "Degenerate phases never raise and never poison later values",
  "No valid sample or batch of ordinary magnitude (features up to about 1e4) raises, whatever phase the stream is in: a single cluster, repeated identical samples, clusters with coincident centroids, zero scatter, all-singleton clusters, constant or zero features. Where the index has no defined value the result may be non-finite, but as soon as the accepted samples define it again the value is right again.",
  ["histories", "inputs", "schedules"],
  "every stream that enters and leaves degenerate configurations at arbitrary moments, with checkpoints and audits inside them",
  "the test data has no degenerate phase except its first samples.",
  ALL,
  [("guards for one cluster and zero denominators", "_evaluate of each module"), ("running minima and sums over clusters", "_param_inc and _evaluate of each module")]),
p("C12", "A history replays identically anywhere and leaves the process alone",
  "Replaying the same calls gives bit-identical results whatever the random seeds, hash seed, clock, working directory, environment variables, garbage collector settings, numpy print or warning settings (short of settings that turn warnings into errors), calling thread or the placement of objects in memory. "
  "No call changes process-wide state (random generators, numpy error handling and print options, warning filters, logging, environment, working directory, threads) or writes to standard output, files, sockets or other processes.",
  ["configurations", "histories", "schedules"],
  "every history under every combination of simulated surroundings, changing also between calls",
  "the tests run in one environment.",
  ALL + [BASE, "src/cvi/__init__.py"],
  [("pure arithmetic on instance state", "src/cvi/modules")]),
p("C13", "A concurrent reader sees only values of completed updates",
  "While one thread updates an object, any other thread that reads criterion_value at any moment reads the value of the last completed call or, during a call, the value that call is about to return; never an intermediate or partially computed value, never an older value after a newer one, and never the value of a call that was refused or was cut short without effect.",
  ["schedules"],
  "every preemption point of the updating thread, with any number of readers",
  "the tests have no second thread.",
  [BASE] + ALL,
  [("value published in one assignment", "get_cvi in " + BASE)],
  observe=["criterion_value read from another thread"]),
p("C14", "Values follow rigid motions and scaling of the data",
  "Translating, rotating or reflecting all samples leaves the values of the distance-based indices unchanged, and scaling all samples changes each index by its known power of the scale.",
  ["inputs"],
  "all data sets and all rigid motions",
  "the tests use one data set.",
  ALL, [("formulas built from distances", "_evaluate of each module")]),
p("C15", "Values stay within each index's range",
  "Each index stays in its mathematical range on every data set where it is defined: centroid silhouette in [-1, 1], the others non-negative (partition separation excepted).",
  ["inputs"],
  "all data sets",
  "the tests use one data set.",
  ALL, [("formulas", "_evaluate of each module")]),
p("C16", "The legacy interface computes the same indices",
  "The legacy incremental classes kept for compatibility give the same values as the current ones on the same stream.",
  ["histories", "inputs"],
  "all streams",
  "the tests of the legacy interface are commented out upstream.",
  ["src/cvi/compat/v0.py"], [("separate implementation", "src/cvi/compat/v0.py")]),
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for o in OUT:
        f.write(json.dumps(o) + "\n")
