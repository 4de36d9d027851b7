#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
check.py --replay FILE
check.py <property> --log        print one digest per run (determinism proof)

Exit 0: the property held on everything explored.  Exit 1: it did not, with a
line  VIOLATION property=<id> replay=<path>.  Exit 2: the check itself failed.
"""

import argparse
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
PINNED = {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1"}


def reexec():
    """Same interpreter, hash seed and BLAS threads whoever calls."""
    want = dict(PINNED)
    want.setdefault("PYTHONHASHSEED", os.environ.get("CVI_SIM_HASHSEED", "0"))
    ok = all(os.environ.get(k) == v for k, v in want.items()) and sys.flags.dont_write_bytecode
    if ok and (os.path.realpath(sys.prefix) == os.path.realpath("/opt/venv")
               or not os.path.exists(PY)):
        return
    if os.environ.get("CVI_SIM_REEXEC"):
        return
    env = dict(os.environ, CVI_SIM_REEXEC="1", **want)
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)


RUN_LIMIT = 300          # seconds of processor time for one run; the slowest take a few
CALL_LIMIT = 40          # the same for one call into the package; the slowest take one
STILL_LIMIT = 100        # seconds a call may pass without using any processor at all
cpu_now = time.process_time
TICK = 4


class Hang(BaseException):
    pass


class Watch:
    """Notices a call into the package that does not come back."""

    # Judged by the processor time used, so that a busy machine is not taken for
    # a call that hangs; a call that waits for ever uses none, and is given longer.

    def __init__(self):
        self.call, self.since, self.still, self.last, self.began = None, 0, 0, 0, 0

    def __enter__(self):
        self.began = self.last = cpu_now()
        signal.signal(signal.SIGALRM, self.tick)
        signal.setitimer(signal.ITIMER_REAL, TICK, TICK)
        return self

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        self.call = None

    def tick(self, signum, frame):
        from sim import sut
        outer, now = None, cpu_now()
        while frame is not None:
            if sut.in_package(frame.f_code.co_filename):
                outer = frame
            frame = frame.f_back
        if outer is None or outer is not self.call:
            self.call, self.since, self.still = outer, now, 0
        elif now - self.last < 0.002:
            self.still += TICK
        else:
            self.still = 0
        self.last = now
        if outer is not None and (now - self.since >= CALL_LIMIT or self.still >= STILL_LIMIT):
            raise Hang("a call did not return within %d s" % CALL_LIMIT)
        if now - self.began >= RUN_LIMIT:
            raise Hang("the run did not end within %d s" % RUN_LIMIT)


def one_run(job):
    """Worker: one simulated execution."""
    from sim import props
    from sim.core import Violation, digest
    pid, seed, index, tier = job
    out = {"index": index}
    try:
        trace = props.trace_for(pid, seed, index, tier)
        out["simtime"] = trace.get("simtime", 0)
        out["net"] = trace.get("net", {})
        out["shape"] = "%s/%s/d%s" % (trace.get("regime"), trace.get("pattern"), trace.get("dim"))
        ex = watched(pid, trace)
        out["stats"] = ex.stats
        out["log"] = digest(ex.events)
        out["trail"] = getattr(ex, "trail", None)
        out["states"] = sorted({digest(repr(s)) for s in ex.states})[:4000]
    except Violation as v:
        out["violation"] = v.as_dict()
    except BaseException as e:          # noqa: B902
        out["error"] = traceback.format_exc()
        out["fault_of_code"] = blame(e)
    return out


def watched(pid, trace):
    from sim import props, sut
    from sim.core import Violation
    try:
        with Watch():
            return props.run_trace(pid, trace)
    except Hang as e:
        if not blame(e):
            raise
        raise Violation("stuck", str(e))
    except AttributeError as e:
        if e.name != "criterion_value" or not sut.is_module(type(e.obj).__module__):
            raise
        raise Violation("unreadable", str(e), cls=type(e.obj).__name__)


def blame(e):
    """Did the exception come out of the package, undisturbed?"""
    from sim import sut
    tb = e.__traceback__
    hit = False
    while tb is not None:
        hit = hit or sut.in_package(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    return hit


def fails_like(pid, violation):
    from sim.core import Violation

    def fails(trace):
        try:
            watched(pid, json.loads(json.dumps(trace)))
        except Violation as v:
            d = v.as_dict()
            return d["kind"] == violation["kind"] and d.get("cls") == violation.get("cls")
        except BaseException:           # noqa: B902
            return False
        return False
    return fails


def replay(path):
    from sim.core import Violation, digest
    rec = json.load(open(path))
    pid = rec["property"]
    try:
        ex = watched(pid, rec["trace"])
    except Violation as v:
        d = v.as_dict()
        print("%s: %s" % (d["kind"], d["detail"]))
        print("exact: %s" % (digest(d) == rec["violation_digest"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("property %s holds on %s (%s)" % (pid, path, ex.stats))
    return 0


def report(pid, seed, tier, index, violation, workdir, seconds):
    """Minimise, write the replay file, and prove that it replays."""
    from sim import minimise, props
    from sim.core import Violation, digest
    original = props.trace_for(pid, seed, index, tier)
    small, tried = minimise.shrink(json.loads(json.dumps(original)), violation,
                                   fails_like(pid, violation), seconds)
    path = None
    for trace in (small, original):
        trace = json.loads(json.dumps(trace))
        final = violation
        try:
            watched(pid, trace)
        except Violation as v:
            final = v.as_dict()
        except BaseException:           # noqa: B902
            continue
        rec = {"property": pid, "seed": seed, "run": index, "tier": tier, "violation": final,
               "violation_digest": digest(final), "minimiser_runs": tried, "trace": trace}
        os.makedirs(workdir, exist_ok=True)
        path = os.path.join(workdir, "%s-%s.json" % (pid, digest(rec["trace"])))
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
            f.write("\n")
        p = subprocess.run([sys.executable, "-B", os.path.abspath(__file__), "--replay", path],
                           capture_output=True, text=True, timeout=600)
        if p.returncode == 1 and "exact: True" in p.stdout:
            return path, final, True
    return path, violation, False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--wall", type=float, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--log", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    reexec()
    sys.path.insert(0, HERE)
    if a.replay:
        from sim import locks
        locks.install()
        return replay(a.replay)

    from sim import evidence, locks, props
    locks.install()
    pid, tier, seed = a.property, a.tier, a.seed
    if pid not in props.PROPS:
        print("unknown property %r" % pid, file=sys.stderr)
        return 2
    prop = props.PROPS[pid]
    runs = a.runs or (prop.quick if tier == "quick" else prop.thorough)
    wall = a.wall or (420 if tier == "quick" else 3300)
    workers = a.workers or min(8, os.cpu_count() or 1)
    t0 = time.monotonic()
    results, bad, errors, skipped = [], None, [], []
    jobs = [(pid, seed, i, tier) for i in range(runs)]
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(workers, maxtasksperchild=400)
    chunk = 1 if runs < 200 else 4
    try:
        for out in pool.imap(one_run, jobs, chunk):
            if "violation" in out:
                bad = out
                break
            if "error" in out:
                # code that fails on its own, undisturbed, belongs to another property
                (skipped if out["fault_of_code"] else errors).append(out)
                if len(errors) >= 3:
                    break
                continue
            results.append(out)
            if a.log:
                print(out["index"], out["log"], out.get("trail"))
            if time.monotonic() - t0 > wall:
                break
    finally:
        pool.terminate()
        pool.join()
    if bad is None and not results and skipped:
        # nothing could be decided: the code fails on its own everywhere
        bad = {"index": skipped[0]["index"], "violation": {
            "kind": "raised", "detail": skipped[0]["error"].strip().splitlines()[-1]}}
    path = None
    if bad is not None:
        path, violation, exact = report(pid, seed, tier, bad["index"], bad["violation"],
                                        os.path.join(HERE, "replays"), 60)
        if path is None:
            path = os.path.join(HERE, "replays", "%s-run%d.json" % (pid, bad["index"]))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                json.dump({"property": pid, "violation": violation, "violation_digest": "",
                           "trace": props.trace_for(pid, seed, bad["index"], tier)}, f)
    elapsed = time.monotonic() - t0
    if not a.no_evidence:
        evidence.write(HERE, pid, tier, seed, results, elapsed, workers, bad, skipped, errors)
    for s in skipped[:3]:
        print("note: run %d undecided: %s" % (s["index"], s["error"].strip().splitlines()[-1]),
              file=sys.stderr)
    if bad is not None:
        print("%s: %s" % (violation["kind"], violation["detail"]))
        print("run %d of seed %d; replay %s" % (
            bad["index"], seed, "reproduces exactly" if exact else "did NOT reproduce"))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print(errors[0]["error"], file=sys.stderr)
        return 2
    for line in evidence.known_findings(HERE, pid):
        print(line)
    print("%s held on %d simulated runs (seed %d, %s, %.1f s)" % (
        pid, len(results), seed, tier, elapsed))
    return 0


if __name__ == "__main__":
    sys.exit(main())
