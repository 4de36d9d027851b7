"""Caller threads under a scheduler that owns every switch (C04, C13).

Real threads run the real code, but only one holds the processor at a time.
At every execution point of the package (see points.py), and between calls,
the running thread asks the scheduler whether to go on; the schedule, a list
of [task, quantum] in the trace, is the only thing that decides.  When the
schedule is used up the remaining tasks run to completion one after another.
"""

import hashlib
import threading
import time

import numpy as np

from . import ref, sut
from .core import Violation, hexval
from .locks import SimLock
from .points import POINTS
from .ref import Model
from .runtime import array_of, bad_args, call, describe, label_of, refused_kinds

cpu_now = time.process_time   # the machine's own, whatever clock is being simulated
STALL = 20.0          # seconds without a switch before control is given up
ENDLESS = 12_000_000  # execution points in one run; the longest have one million


class Abandon(BaseException):
    pass


class Sched:
    def __init__(self, n, schedule):
        self.n = n
        self.schedule = list(schedule)
        self.cursor = 0
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.blocked = [None] * n          # predicate while waiting
        self.running = None
        self.left = 0
        self.switches = 0
        self.trail = hashlib.sha256()
        self.places = set()
        self.free = False                  # control given up: a real lock was met
        self.finished = threading.Semaphore(0)
        self.ticks = 0
        self.endless = False
        self.errors = []
        self.fault = [None] * n            # [countdown, exception]
        self.ident = {}                    # thread -> task

    # -- choosing ------------------------------------------------------------
    def ready(self, t):
        return not self.done[t] and (self.blocked[t] is None or self.blocked[t]())

    def pick(self):
        while self.cursor < len(self.schedule):
            t, q = self.schedule[self.cursor]
            self.cursor += 1
            t %= self.n
            if self.ready(t):
                return t, q
        for t in range(self.n):
            if self.ready(t):
                return t, 1 << 60
        for t in range(self.n):            # everyone waits: let the first through
            if not self.done[t]:
                return t, 1 << 60
        return None, 0

    # -- called by the running task -------------------------------------------
    def point(self, me, where):
        if self.free:
            return
        self.ticks += 1
        if self.ticks > ENDLESS:
            self.endless = True
            raise Abandon("endless")
        f = self.fault[me]
        if f is not None:
            f[0] -= 1
            if f[0] == 0:
                f[2] = where
                raise f[1]
        self.left -= 1
        if self.left > 0:
            return
        t, q = self.pick()
        self.left = q
        if t is None or t == me:
            return
        self.switches += 1
        self.trail.update(("%d>%d@%s;" % (me, t, where)).encode())
        self.places.add(where)
        self.running = t
        self.locks[t].release()
        self.locks[me].acquire()

    def wait(self, me, until):
        """Let others run until the predicate holds; False if nobody can make it."""
        while not until():
            if self.free:
                return False
            self.blocked[me] = until
            if not any(self.ready(t) for t in range(self.n)):
                self.blocked[me] = None
                return False
            self.left = 0
            self.point(me, "lock")
            self.blocked[me] = None
        return True

    def leave(self, me):
        self.done[me] = True
        if self.free:
            self.finished.release()
            return
        t, q = self.pick()
        self.left = q
        self.running = t
        if t is not None:
            self.trail.update(("%d|%d;" % (me, t)).encode())
            self.locks[t].release()
        self.finished.release()

    # -- the run ---------------------------------------------------------------
    def run(self, bodies):
        ident = self.ident

        def hook(code, offset, kind):
            me = ident.get(threading.get_ident())
            if me is not None:
                self.point(me, "%s+%d" % (code.co_name, offset))

        def body(me):
            ident[threading.get_ident()] = me
            self.locks[me].acquire()
            try:
                bodies[me](me)
            except BaseException as e:     # noqa: B902 - reported by the controller
                self.errors.append((me, e))
            finally:
                ident.pop(threading.get_ident(), None)
                self.leave(me)

        POINTS.discover()
        POINTS.hook = hook
        POINTS.active = True
        SimLock.sched = self
        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(self.n)]
        for t in threads:
            t.start()
        try:
            t, q = self.pick()
            self.left, self.running = q, t
            self.locks[t].release()
            waiting = self.n
            last, used = -1, cpu_now()
            while waiting:
                if self.finished.acquire(timeout=STALL):
                    waiting -= 1
                    continue
                now = cpu_now()
                if self.ticks == last and now - used > 0.01 and now - used < STALL:
                    continue               # a busy machine, or one long step
                used = now
                if self.ticks == last and not self.free:
                    self.free = True       # the code blocks on a lock of its own
                    for lk in self.locks:
                        lk.release()
                elif self.ticks == last:
                    raise Violation("stuck", "calls do not return: the threads wait for each other")
                last = self.ticks
            for t in threads:
                t.join(STALL)
            if self.endless:
                raise Violation("stuck", "a call did not return within %d execution points" % ENDLESS)
        finally:
            SimLock.sched = None
            POINTS.active = False
            POINTS.hook = None


class ThreadExec:
    """C04: every object behaves as if it were alone in the process."""

    EXC = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "error": FloatingPointError}

    def __init__(self, trace):
        self.tr = trace
        self.data = trace["data"]
        self.dim = trace["dim"]
        self.stats = {"updates": 0, "compared": 0, "switches": 0}
        self.events = []
        self.states = set()

    def bump(self, key, by=1):
        self.stats[key] = self.stats.get(key, 0) + by

    def step(self, objs, s, out):
        """One step on one object; appends what the caller observed."""
        kind = s[0]
        if kind == "new":
            objs[s[1]] = sut.make(self.tr["objs"][s[1]]["cls"])
            out.append(("new", hexval(objs[s[1]].criterion_value)))
            return
        o = objs.get(s[1])
        if o is None:
            return
        spec = self.tr["objs"][s[1]]
        d = spec.get("d", self.dim)       # objects watch different numbers of features
        if kind == "upd":
            msg = self.data[s[2]]
            x = array_of(msg["x"][:d], self.tr["dt"])
            st, v = call(o, x, spec["names"][msg["c"]])
            out.append((st, hexval(v) if st == "ok" else describe(v)))
        elif kind == "read":
            out.append(("read", hexval(o.criterion_value)))
        elif kind == "batch":
            idx = s[2]
            mat = np.array([self.data[i]["x"][:d] for i in idx], dtype=float).astype(self.tr["dt"])
            labs = np.array([spec["names"][self.data[i]["c"]] for i in idx])
            st, v = call(o, mat, labs)
            out.append((st, hexval(v) if st == "ok" else type(v).__name__))
        elif kind == "bad":
            fresh = not any(x[0] == "ok" for x in out)
            if refused_kinds(s[2], fresh, d):
                x, lab, _ = bad_args(s[2], d, self.data, self.tr["dt"])
                st, v = call(o, x, lab)
                out.append((st, type(v).__name__))
        elif kind == "drop":
            objs.pop(s[1])
            out.append(("drop",))

    def task(self, steps):
        def body(me):
            for s in steps:
                if s[0] == "wait":
                    tok, owner = s[1], s[2]
                    while tok not in self.tokens and not self.sched.done[owner] \
                            and not self.sched.free:
                        self.sched.blocked[me] = \
                            lambda: tok in self.tokens or self.sched.done[owner]
                        if not any(self.sched.ready(t) for t in range(self.sched.n)):
                            break
                        self.sched.left = 0
                        self.sched.point(me, "wait")
                    self.sched.blocked[me] = None
                    continue
                if s[0] == "signal":
                    self.tokens.add(s[1])
                    continue
                self.sched.point(me, "idle")
                if s[0] == "cut":
                    self.cut(me, s)
                    continue
                self.step(self.objs, s, self.seen.setdefault(s[1], []))
        return body

    def cut(self, me, s):
        """A fault inside this thread's call; the object is then thrown away."""
        o = self.objs.get(s[1])
        if o is None:
            return
        spec = self.tr["objs"][s[1]]
        msg = self.data[s[2]]
        f = self.sched.fault[me] = [s[4], self.EXC[s[3]]("injected"), None]
        try:
            o.get_cvi(array_of(msg["x"][:spec.get("d", self.dim)], self.tr["dt"]),
                      spec["names"][msg["c"]])
        except BaseException as e:         # noqa: B902
            if e is not f[1] and f[2] is None and not isinstance(e, Exception):
                raise
        finally:
            self.sched.fault[me] = None
        if f[2] is not None:
            self.bump("fault_" + s[3])
        self.objs.pop(s[1], None)

    def run(self):
        sut.restart()
        self.objs, self.seen, self.tokens = {}, {}, set()
        tasks = self.tr["tasks"]
        for st in self.tr.get("pre", ()):
            self.step(self.objs, st, self.seen.setdefault(st[1], []))
        self.sched = Sched(len(tasks), self.tr["schedule"])
        self.sched.run([self.task(t) for t in tasks])
        if self.sched.errors:
            me, e = self.sched.errors[0]
            raise e
        self.bump("switches", self.sched.switches)
        self.bump("points", self.sched.ticks)
        self.bump("uncontrolled", int(self.sched.free))
        self.events.append(self.sched.trail.hexdigest()[:16])
        for p in self.sched.places:
            self.states.add(p)
        self.trail = self.sched.trail.hexdigest()[:16]
        self.compare()
        return self.stats

    def compare(self):
        """Each object again, alone, in a process of its own."""
        for name in sorted(self.seen):
            sut.restart()
            alone, objs = [], {}
            spec = self.tr["objs"][name]
            for s in self.history(name):
                if s[0] == "cut":
                    break
                self.step(objs, s, alone)
            got = self.seen[name]
            self.events.append([name, got])
            self.bump("updates", len(got))
            for j, (a, b) in enumerate(zip(got, alone)):
                self.bump("compared")
                if a == b:
                    continue
                if a[0] == b[0] and a[0] in ("ok", "read") and \
                        ref.same(spec["cls"], float.fromhex(a[1]), float.fromhex(b[1])):
                    continue
                raise Violation("interference", "%s object %s, step %d: %s among other threads, %s "
                                "alone" % (spec["cls"], name, j, a, b), cls=spec["cls"])
            if len(got) != len(alone):
                raise Violation("interference", "%s object %s: %d observations among other threads, "
                                "%d alone" % (spec["cls"], name, len(got), len(alone)),
                                cls=spec["cls"])

    def history(self, name):
        """The object's steps in the order they happened: it is held by one task at
        a time, and hand-over is by token, so task order along tokens is it."""
        order = [s for s in self.tr.get("pre", ()) if s[1] == name]
        for t in self.tr["objs"][name]["owners"]:
            for s in self.tr["tasks"][t]:
                if s[0] not in ("wait", "signal") and s[1] == name:
                    order.append(s)
        return order


class ReaderExec:
    """C13: readers poll the current value while one thread updates."""

    def __init__(self, trace):
        self.tr = trace
        self.data = trace["data"]
        self.dim = trace["dim"]
        self.stats = {"updates": 0, "compared": 0, "switches": 0}
        self.events = []
        self.states = set()

    def bump(self, key, by=1):
        self.stats[key] = self.stats.get(key, 0) + by

    def run(self):
        sut.restart()
        tr = self.tr
        self.objs = {c: sut.make(c) for c in tr["classes"]}
        self.done = {c: [hexval(self.objs[c].criterion_value)] for c in tr["classes"]}
        self.flight = {c: False for c in tr["classes"]}
        self.reads = []
        n = 1 + tr["readers"]
        self.over = False
        self.sched = Sched(n, tr["schedule"])
        for op in tr["ops"][:tr.get("pre", 0)]:
            for c in tr["classes"]:
                self.write(op, c)
        self.sched.run([self.writer] + [self.reader] * tr["readers"])
        if self.sched.errors:
            me, e = self.sched.errors[0]
            raise e
        self.bump("switches", self.sched.switches)
        self.bump("points", self.sched.ticks)
        self.bump("uncontrolled", int(self.sched.free))
        self.trail = self.sched.trail.hexdigest()[:16]
        self.events.append(self.trail)
        self.states |= self.sched.places
        if not self.sched.free:
            self.check()
        return self.stats

    def writer(self, me):
        for op in self.tr["ops"][self.tr.get("pre", 0):]:
            for c in self.tr["classes"]:
                self.sched.point(me, "idle")
                self.write(op, c)
        self.over = True

    def write(self, op, c):
        tr, o = self.tr, self.objs[c]
        if op["op"] == "bad":
            if not refused_kinds(op, len(self.done[c]) == 1, self.dim):
                return
            args = bad_args(op, self.dim, self.data, tr["dt"])[:2]
        elif op["op"] == "batch":
            if len(self.done[c]) > 1:
                return
            args = (np.array([self.data[i]["x"] for i in op["idx"]], dtype=float),
                    np.array([tr["names"][self.data[i]["c"]] for i in op["idx"]]))
        else:
            msg = self.data[op["i"]]
            args = (array_of(msg["x"], tr["dt"]), tr["names"][msg["c"]])
        self.flight[c] = True
        if op.get("cut") and hasattr(self, "sched"):
            return self.cut(op, c, args)
        st, v = call(o, *args)
        # no point of the package lies between the return and this line
        if st == "ok":
            self.done[c].append(hexval(v))
            self.bump("updates")
        else:
            self.bump("refused")
        self.flight[c] = False

    def cut(self, op, c, args):
        """The writer's call is cut short: the value before it or after it, from now on."""
        kind, nth = op["cut"]
        f = self.sched.fault[0] = [nth, ThreadExec.EXC[kind]("injected"), None]
        try:
            v = self.objs[c].get_cvi(*args)
        except BaseException as e:         # noqa: B902
            if e is not f[1] and f[2] is None:
                raise
            v = self.objs[c].criterion_value
            self.bump("fault_" + kind)
        finally:
            self.sched.fault[0] = None
        if f[2] is None or hexval(v) != self.done[c][-1]:
            self.done[c].append(hexval(v))
        self.flight[c] = False

    def reader(self, me):
        while not self.over and len(self.reads) < 20000:
            for c in self.tr["classes"]:
                since = len(self.done[c]) - 1
                v = self.objs[c].criterion_value      # may itself be preempted
                self.reads.append((me, c, hexval(v), since, len(self.done[c]) - 1, self.flight[c]))
            self.sched.left = 0
            self.sched.point(me, "poll")
            if self.sched.free:
                break

    def check(self):
        seen = {}
        for me, c, v, since, done, flight in self.reads:
            self.bump("compared")
            if flight:
                self.bump("reads_in_flight")
            hist = self.done[c]
            allowed = list(range(since, done + 1)) + (
                [done + 1] if flight and done + 1 < len(hist) else [])
            at = [j for j in allowed if hist[j] == v]
            if not at:
                raise Violation("torn-read", "%s read as %s while update %d was %s; completed values "
                                "around it: %s" % (c, v, done + 1, "running" if flight else
                                                   "not running", hist[max(0, done - 1):done + 2]),
                                cls=c)
            key = (me, c)
            if max(at) < seen.get(key, 0):
                raise Violation("stale-read", "%s went back from update %d to %d" % (
                    c, seen[key], max(at)), cls=c)
            seen[key] = max(seen.get(key, 0), min(at))
        for c, o in self.objs.items():
            if hexval(o.criterion_value) != self.done[c][-1]:
                raise Violation("torn-read", "%s holds %r at the end, last update returned %s" % (
                    c, o.criterion_value, self.done[c][-1]), cls=c)
