"""C10: a stream that never ends, on a node with a checkpoint quota and a step
budget per update.  Neither may depend on how long the stream has been."""

import gc
import pickle
import random
import sys
import tracemalloc
import types

import numpy as np

from . import sut
from .core import Violation
from .points import POINTS
from .runtime import bad_args, call, describe, refused_kinds


def holdings(obj):
    """Bytes reachable from an object and from the package's modules and classes."""
    mods = [m for n, m in sorted(sys.modules.items()) if sut.is_module(n)]
    todo = [obj] + [v for m in mods for k, v in sorted(vars(m).items())
                    if not (k.startswith("__") and k.endswith("__"))]
    seen, total = set(), 0
    spaces = {id(vars(m)) for m in mods}
    while todo:
        o = todo.pop()
        if id(o) in seen or id(o) in spaces or isinstance(o, (
                types.ModuleType, types.CodeType, types.FrameType, types.BuiltinFunctionType)):
            continue
        if isinstance(o, (type, types.FunctionType)) and not sut.is_module(
                getattr(o, "__module__", None) or ""):
            continue
        seen.add(id(o))
        total += sys.getsizeof(o)
        todo.extend(gc.get_referents(o))
    return total


class FootprintExec:
    def __init__(self, trace):
        self.tr = trace
        self.dim = trace["dim"]
        self.stats = {"updates": 0, "compared": 0}
        self.events = []
        self.states = set()

    def bump(self, key, by=1):
        self.stats[key] = self.stats.get(key, 0) + by

    def sample(self, rnd, j):
        k, d = self.tr["k"], self.dim
        c = rnd.randrange(k) if j >= k else j
        x = np.array([5.0 * (c + 1) * ((t + c) % 3 - 1) + rnd.gauss(0, 1) for t in range(d)])
        if self.tr["dups"] and rnd.random() < 0.5:
            x = np.round(x)
        return x, self.tr["names"][c]

    def run(self):
        tr = self.tr
        sut.restart()
        for c in tr["classes"]:
            self.one(c)
        return self.stats

    def one(self, c):
        tr = self.tr
        rnd = random.Random(tr["seed"])
        obj = sut.make(c)
        box = [obj]
        j = 0
        marks = tr["marks"]               # history lengths at which to measure
        base = None
        POINTS.discover()
        for mark in marks:
            if tr.get("haul") and base is not None:
                j = self.haul(c, box, rnd, j, mark)
            while j < mark:
                x, lab = self.sample(rnd, j)
                self.disturb(c, box, rnd, j, x, lab)
                st, v = call(box[0], x, lab)
                if st == "err":
                    raise Violation("raised", "%s sample %d raised %s" % (c, j + 1, describe(v)),
                                    cls=c)
                j += 1
                self.bump("updates")
            size = len(pickle.dumps(box[0], protocol=4))
            steps = []
            for _ in range(tr.get("counted", 6)):
                x, lab = self.sample(rnd, max(j, tr["k"]))
                steps.append(POINTS.run_count(lambda: call(box[0], x, lab)))
                j += 1
            cost = max(steps)
            steps = steps[:6]
            self.leak(c, box, rnd, j)
            room = self.peak(box, rnd, j)
            j += tr["window"] + 20 + 6
            self.events.append([c, j, size, steps])
            self.states.add((c, tr["k"], self.dim, mark))
            self.bump("compared")
            if base is None:
                base = (size, cost, j, room)
                continue
            # a working array as long as the history costs at least a byte per sample
            if room > base[3] + 400 + (j - base[2]) // 2:
                raise Violation("slows", "%s update needs %d bytes to work after %d samples, %d "
                                "after %d" % (c, base[3], base[2], room, j), cls=c)
            # counters in the image take a few more bytes as they grow
            quota = base[0] + 10 * (tr["k"] + 8)
            if size > quota:
                raise Violation("grows", "%s checkpoint is %d bytes after %d samples of %d clusters, "
                                "%d bytes after %d" % (c, base[0], base[2], tr["k"], size, j), cls=c)
            budget = base[1] * 2 + 60
            if cost > budget:
                raise Violation("slows", "%s update takes %d steps after %d samples, %d after %d" % (
                    c, base[1], base[2], cost, j), cls=c)
        if tr["bad"] + tr["cut"] > 0:
            for part in (150, 400):       # a suspicion is confirmed over a longer stretch
                kept = self.trouble(c, box, rnd, j, part)
                if kept <= 1500 + 24 * part:
                    break
            else:
                raise Violation("leaks", "%s keeps memory with every refused or interrupted call, at "
                                "a fixed number of clusters" % c, cls=c)

    def haul(self, c, box, rnd, j, mark):
        """Tens of thousands of updates at full speed; whatever is kept now and then adds up."""
        POINTS.uninstall()
        stops = [n for n in (500, 1000, 2000, 4000) if n < mark // 8]
        stops += [mark // 8, mark * 9 // 16, mark]
        held = []
        for stop in stops:
            for _ in range(j, stop):
                x, lab = self.sample(rnd, max(j, self.tr["k"]))
                st, v = call(box[0], x, lab)
                j += 1
                if st == "err":
                    raise Violation("raised", "%s sample %d raised %s" % (c, j, describe(v)),
                                    cls=c)
                self.bump("updates")
            held.append((j, holdings(box[0])))
            # Counters take a few more bytes as they grow, and a cache of fixed size fills up
            # once.  Something kept with every sample is not worth waiting for.
            if len(held) > 2 and (stop == mark or stop >= 2000):
                (j0, h0), (j1, h1), (j2, h2) = held[-3:]
                if h1 - h0 > 300 and h2 - h1 > 300 and (
                        stop == mark or (h1 - h0 > 8 * (j1 - j0) and h2 - h1 > 8 * (j2 - j1))):
                    raise Violation("leaks", "%s keeps memory: %d more bytes after %d samples "
                                    "and another %d after %d" % (c, h1 - h0, j1, h2 - h1, j2),
                                    cls=c)
        self.bump("hauls")
        self.events.append([c, held])
        POINTS.discover()
        return j

    def peak(self, box, rnd, j):
        """Working memory of one update, over and above what is live."""
        out = []
        gc.collect()
        gc.disable()
        tracemalloc.start(1)
        try:
            for _ in range(6):
                x, lab = self.sample(rnd, max(j, self.tr["k"]))
                tracemalloc.reset_peak()
                live = tracemalloc.get_traced_memory()[0]
                box[0].get_cvi(x, lab)
                out.append(tracemalloc.get_traced_memory()[1] - live)
        finally:
            tracemalloc.stop()
            gc.enable()
        return min(out[1:])

    def trouble(self, c, box, rnd, j, part):
        """Live bytes added by calls that are refused or cut short."""
        gc.collect()
        tracemalloc.start(1)
        try:
            marks = []
            for n in range(-30, 3 * part):
                if n >= 0 and n % part == 0:
                    gc.collect()
                    marks.append(tracemalloc.get_traced_memory()[0])
                x, lab = self.sample(rnd, max(j, self.tr["k"]))
                self.disturb(c, box, rnd, j + n, x, lab, rnd.random() * 0.999)
            gc.collect()
            marks.append(tracemalloc.get_traced_memory()[0])
        finally:
            tracemalloc.stop()
        return min(b - a for a, b in zip(marks, marks[1:]))

    def leak(self, c, box, rnd, j):
        for part in (self.tr["window"] // 3, self.tr["window"]):
            if self.kept(box, rnd, j, part) <= 1500 + 16 * part:
                return
        raise Violation("leaks", "%s keeps memory with every update at a fixed number of clusters"
                        % c, cls=c)

    def kept(self, box, rnd, j, part):
        """Live bytes added by a window of updates (anywhere in the process)."""
        w = 3 * part
        gc.collect()
        tracemalloc.start(1)
        try:
            for _ in range(20):
                x, lab = self.sample(rnd, max(j, self.tr["k"]))
                box[0].get_cvi(x, lab)
            marks = []
            for n in range(w):
                if n % part == 0:
                    gc.collect()
                    marks.append(tracemalloc.get_traced_memory()[0])
                x, lab = self.sample(rnd, max(j, self.tr["k"]))
                box[0].get_cvi(x, lab)
            gc.collect()
            marks.append(tracemalloc.get_traced_memory()[0])
        finally:
            tracemalloc.stop()
        self.bump("updates", w)
        # something kept per update grows in every part; one-time allocations do not
        return min(b - a for a, b in zip(marks, marks[1:]))

    def disturb(self, c, box, rnd, j, x, lab, force=None):
        """Refused calls, faults and restarts must not accumulate anything either."""
        tr = self.tr
        u = rnd.random()
        if force is not None:
            u = force * (tr["bad"] + tr["cut"])
        if u < tr["bad"] and j > 0:
            op = {"kind": rnd.choice(["short", "long", "empty", "three_d", "text", "batch",
                                      "unhashable", "label_set", "batch_bad", "zero_d"]),
                  "label": 10 ** 6 + j, "u": rnd.random(), "n": 3}
            xb, lb, _ = bad_args(op, self.dim, None, "f8")
            call(box[0], xb, lb)
            self.bump("refused")
        elif u < tr["bad"] + tr["cut"] and j > tr["k"]:
            nth = 1 + int(rnd.random() * 120)
            raised, _ = POINTS.run_fault(lambda: box[0].get_cvi(x, lab), nth,
                                         MemoryError("injected"))
            self.bump("fault_memory", int(raised and POINTS.fired is not None))
        elif u < tr["bad"] + tr["cut"] + tr["restore"]:
            box[0] = pickle.loads(pickle.dumps(box[0], protocol=rnd.choice([2, 4, 5])))
            self.bump("restored")
