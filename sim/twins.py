"""Executors that compare an object living through faults with a twin that did
not: C05 (caller buffers), C06 (refused calls), C07 (faults inside a call),
C08 (one mode for life), C09 (checkpoint, crash, restore, fork)."""

import random

import numpy as np

from . import abroad, ref, sut
from .core import Violation, hexval
from .points import POINTS
from .ref import Model
from .runtime import (LABEL_TYPES, array_of, bad_args, call, describe, dump, label_array, label_of,
                      load, refused_kinds)


class Base:
    def __init__(self, trace):
        self.tr = trace
        self.data = trace["data"]
        self.dim = trace["dim"]
        self.dt = trace["dt"]
        self.events = []
        self.states = set()
        self.stats = {"updates": 0, "compared": 0}

    def bump(self, key, by=1):
        self.stats[key] = self.stats.get(key, 0) + by

    def fail(self, kind, detail, **info):
        raise Violation(kind, detail, at=getattr(self, "pos", None), **info)

    def twin(self, cls):
        """A new object in another process, out of reach of anything done in this one."""
        return getattr(self.other, cls)()

    def run(self):
        sut.restart()
        self.other = sut.elsewhere()
        self.start()
        for pos, op in enumerate(self.tr["ops"]):
            self.pos = pos
            fn = getattr(self, "op_" + op["op"], None)
            if fn is not None:
                fn(op)
        self.pos = len(self.tr["ops"])
        self.finish()
        return self.stats

    def start(self):
        pass

    def finish(self):
        pass

    def plain(self, i):
        return array_of(self.data[i]["x"], self.dt)

    def name(self, node, c, tag="int"):
        return label_of(self.tr["nodes"][node]["names"][c], tag)

    def model_of(self, log):
        return Model((self.data[i]["x"], c) for i, c in log)

    def replay(self, cls, node, log):
        """A fresh object fed exactly `log`, undisturbed."""
        o = self.twin(cls)
        v = 0.0
        for i, c in log:
            v = o.get_cvi(self.plain(i), self.name(node, c))
        return o, v

    def agree(self, cls, a, b, log):
        self.bump("compared")
        if ref.same(cls, a, b):
            return True
        return ref.same(cls, a, b, self.model_of(log))


# --------------------------------------------------------------------------
class BufferExec(Base):
    """C05: the producer refills, wipes and scrambles its arrays at any time."""

    def start(self):
        self.nodes = []
        for spec in self.tr["nodes"]:
            self.nodes.append({"objs": {c: sut.make(c) for c in spec["classes"]},
                               "twins": {c: self.twin(c) for c in spec["classes"]},
                               "log": [], "ret": {}})
        self.bufs = {}
        self.held = []        # arrays handed over earlier, still owned by the caller
        self.returned = []

    def op_upd(self, op):
        node = self.nodes[op["node"]]
        msg = self.data[op["i"]]
        a = array_of(msg["x"], self.dt, op.get("lay", "c"))
        b = op.get("buf")
        if b is not None:
            if b not in self.bufs:
                self.bufs[b] = np.zeros(self.dim, dtype=self.dt)
            else:
                self.bump("buffer_refill")
            self.bufs[b][:] = a
            a = self.bufs[b]
        elif a.flags.writeable:
            self.held.append(a)
        lab = self.name(op["node"], msg["c"], op["lt"])
        node["log"].append((op["i"], msg["c"]))
        row = []
        for c, o in node["objs"].items():
            before, flags = a.tobytes(), (a.flags.writeable, a.shape, a.dtype.str)
            status, v = call(o, a, lab)
            if a.tobytes() != before or (a.flags.writeable, a.shape, a.dtype.str) != flags:
                self.fail("input-changed", "%s changed the sample it was given" % c, cls=c)
            ts, tv = call(node["twins"][c], self.plain(op["i"]), lab)
            self.bump("updates")
            if status != ts:
                self.fail("raised", "%s with caller buffer: %s; with a private copy: %s" % (
                    c, v if status == "ok" else describe(v),
                    tv if ts == "ok" else describe(tv)), cls=c)
            if status == "ok":
                row.append(hexval(v))
                if not self.agree(c, v, tv, node["log"]):
                    self.fail("aliased", "%s after %d samples: %r when the caller reuses its "
                              "arrays, %r when it does not" % (
                                  c, len(node["log"]), float(v), float(tv)), cls=c)
                self.returned.append((c, v, hexval(v)))
        self.events.append(row)
        self.states.add((op["node"], len(node["log"]), self.stats.get("scribbled", 0)))

    def op_scribble(self, op):
        how = op["how"]
        targets = [self.bufs[op["buf"]]] if op["buf"] in self.bufs else []
        targets += self.held[-3:] if how != "next" else self.held[:1]
        for t in targets:
            if how == "nan" and t.dtype.kind == "f":
                t[:] = np.nan
            elif how == "zero":
                t[:] = 0
            elif how == "shuffle":
                t[:] = t[::-1].copy()
            elif how == "big":
                t[:] = 100 if t.dtype.kind in "iu" else 1e4
            else:
                t[:] = np.roll(t, 1)
            self.bump("scribbled")
        self.reads(op["node"])

    def reads(self, n):
        """No call was made, so no value may have moved."""
        node = self.nodes[n]
        for c in node["objs"]:
            a, b = node["objs"][c].criterion_value, node["twins"][c].criterion_value
            if not self.agree(c, a, b, node["log"]):
                self.fail("aliased", "%s current value became %r after the caller wrote to its own "
                          "array (was %r)" % (c, a, b), cls=c)

    def op_read(self, op):
        self.reads(op["node"])

    def op_audit(self, op):
        """A batch call on an array the caller keeps using."""
        node = self.nodes[op["node"]]
        if len({c for _, c in node["log"]}) < 2:
            return
        rnd = random.Random(op["perm"])
        mat = np.array([self.data[i]["x"] for i, _ in node["log"]], dtype=float).astype(self.dt)
        if op["how"] == "f":
            mat = np.asfortranarray(mat)
        labs = label_array([self.tr["nodes"][op["node"]]["names"][c] for _, c in node["log"]],
                           rnd.choice(LABEL_TYPES))
        frozen = rnd.random() < 0.3
        mat.flags.writeable = not frozen
        labs.flags.writeable = not frozen
        for c in node["objs"]:
            before = (mat.tobytes("A"), labs.tobytes())
            o = sut.make(c)
            status, v = call(o, mat, labs)
            if (mat.tobytes("A"), labs.tobytes()) != before:
                self.fail("input-changed", "batch %s changed the arrays it was given" % c, cls=c)
            if status == "err":
                tstat, _ = call(self.twin(c), mat.copy(), labs.copy())
                if tstat == "ok":
                    self.fail("raised", "batch %s on %s arrays: %s" % (
                        c, "read-only" if frozen else "caller-owned", describe(v)), cls=c)
                continue
            h = hexval(v)
            if not frozen:
                keep, keep_l = mat.copy(), labs.copy()
                mat[:] = 1
                labs[:] = 0
                if not (hexval(o.criterion_value) == h or ref.same(c, o.criterion_value, v)):
                    self.fail("aliased", "batch %s value moved with the caller's array" % c, cls=c)
                mat[:] = keep
                labs[:] = keep_l
                self.bump("scribbled")
            self.bump("batches")

    def finish(self):
        for c, v, h in self.returned:
            if hexval(v) != h:
                self.fail("output-changed", "a value %s returned earlier changed later" % c, cls=c)


# --------------------------------------------------------------------------
class RefuseExec(Base):
    """C06: malformed and disallowed calls between valid ones leave no trace."""

    def start(self):
        self.nodes = []
        for spec in self.tr["nodes"]:
            self.nodes.append({"objs": {c: sut.make(c) for c in spec["classes"]},
                               "twins": {c: self.twin(c) for c in spec["classes"]},
                               "log": [], "refused": 0})

    def op_bad(self, op):
        node = self.nodes[op["node"]]
        own = op["kind"] == "batch_own"
        if own and not node["log"]:
            return
        if not refused_kinds(op, not node["log"], self.dim):
            return
        for c, o in node["objs"].items():
            if own:
                # the very samples the object holds, as a batch
                x = np.array([self.data[i]["x"] for i, _ in node["log"]], dtype=float)
                lab = np.array([self.name(op["node"], cl) for _, cl in node["log"]])
                documented = True
            else:
                x, lab, documented = bad_args(op, self.dim, self.data, self.dt)
            before = o.criterion_value
            status, e = call(o, x, lab)
            if status == "ok":
                self.fail("accepted", "%s accepted a malformed call (%s) and returned %r" % (
                    c, op["kind"], e), cls=c)
            if documented and not isinstance(e, ValueError):
                self.fail("wrong-error", "%s refused %s with %s, not ValueError" % (
                    c, op["kind"], describe(e)), cls=c)
            after = o.criterion_value
            if hexval(before) != hexval(after):
                self.fail("trace", "%s value moved from %r to %r on a refused call (%s)" % (
                    c, before, after, op["kind"]), cls=c)
            self.bump("refused_" + op["kind"])
            self.bump("refused")
        node["refused"] += 1
        self.states.add((op["node"], op["kind"], min(len(node["log"]), 20)))

    def op_upd(self, op):
        node = self.nodes[op["node"]]
        msg = self.data[op["i"]]
        lab = self.name(op["node"], msg["c"], op["lt"])
        node["log"].append((op["i"], msg["c"]))
        row = []
        for c, o in node["objs"].items():
            status, v = call(o, array_of(msg["x"], self.dt, op.get("lay", "c")), lab)
            ts, tv = call(node["twins"][c], self.plain(op["i"]), lab)
            self.bump("updates")
            if status != ts:
                self.fail("poisoned", "%s sample %d: %s after %d refused calls, %s without them" % (
                    c, len(node["log"]), v if status == "ok" else describe(v), node["refused"],
                    tv if ts == "ok" else describe(tv)), cls=c)
            if status == "ok":
                row.append(hexval(v))
                if not self.agree(c, v, tv, node["log"]):
                    self.fail("trace", "%s after %d samples: %r after %d refused calls, %r without "
                              "them" % (c, len(node["log"]), float(v), node["refused"], float(tv)),
                              cls=c)
        self.events.append(row)

    def op_batch(self, op):
        """Fresh objects see refused calls, then one batch."""
        rnd = random.Random(op["seed"])
        n = op["n"]
        k = op["k"]
        mat = np.array([[rnd.gauss(3 * (j % k), 1) for _ in range(self.dim)] for j in range(n)])
        labs = np.array([j % k for j in range(n)])
        for c in self.tr["nodes"][0]["classes"]:
            o = sut.make(c)
            for b in op["bads"]:
                if not refused_kinds(b, True, self.dim):
                    continue
                x, lab, documented = bad_args(b, self.dim, self.data, self.dt)
                status, e = call(o, x, lab)
                if status == "ok":
                    self.fail("accepted", "a new %s accepted a malformed call (%s)" % (
                        c, b["kind"]), cls=c)
                if documented and not isinstance(e, ValueError):
                    self.fail("wrong-error", "a new %s refused %s with %s, not ValueError" % (
                        c, b["kind"], describe(e)), cls=c)
                self.bump("refused_" + b["kind"])
                self.bump("refused")
            status, v = call(o, mat, labs)
            ts, tv = call(self.twin(c), mat, labs)
            if status != ts or (status == "ok" and not ref.same(c, v, tv)):
                self.fail("poisoned", "batch %s after refused calls: %s; on a new object: %s" % (
                    c, v if status == "ok" else describe(v), tv if ts == "ok" else describe(tv)),
                    cls=c)
            # a batched object refuses everything, itself included, and keeps its value
            for b in op["bads"]:
                x, lab, _ = bad_args(b, self.dim, self.data, self.dt)
                call(o, x, lab)
            if status == "ok":
                st, e = call(o, mat, labs)
                if st == "ok" or not isinstance(e, ValueError):
                    self.fail("accepted", "a batched %s met the same batch again: %s" % (
                        c, e if st == "ok" else describe(e)), cls=c)
            if status == "ok" and not ref.same(c, o.criterion_value, tv):
                self.fail("trace", "batched %s value moved from %r to %r on refused calls" % (
                    c, tv, o.criterion_value), cls=c)
            self.bump("batches")


# --------------------------------------------------------------------------
class FaultExec(Base):
    """C07: an exception raised at a chosen point inside the call."""

    EXC = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "error": FloatingPointError,
           "exit": SystemExit, "timeout": TimeoutError}

    def start(self):
        self.nodes = []
        for n, spec in enumerate(self.tr["nodes"]):
            self.nodes.append({c: {"obj": sut.make(c), "cands": [([], self.twin(c), 0.0)]}
                               for c in spec["classes"]})
        POINTS.discover()

    def finish(self):
        POINTS.active = False

    def op_upd(self, op):
        fault = op.get("fault")
        for c in self.nodes[op["node"]]:
            slot = self.nodes[op["node"]][c]
            if fault and len(slot["cands"]) <= 3:
                cut = self.cut_short(op, c, slot, fault)
                if cut and op.get("retry") and op.get("fault2"):
                    # the second attempt fares no better
                    self.bump("fault_twice")
                    cut = self.cut_short(op, c, slot, op["fault2"])
                if not cut or not op.get("retry"):
                    continue
            self.deliver(op, c, slot)

    def entry(self, op):
        return (op["i"], self.data[op["i"]]["c"])

    def cut_short(self, op, c, slot, fault):
        """True if the injected fault came out of the call."""
        kind, u = fault
        lab = self.name(op["node"], self.data[op["i"]]["c"], op["lt"])
        x = self.plain(op["i"])
        # how many points does this call have?  Ask an undisturbed twin.
        log, _, _ = slot["cands"][0]
        probe, _ = self.replay(c, op["node"], log)
        total = max(1, POINTS.run_count(lambda: call(probe, x.copy(), lab)))
        nth = 1 + int(u * total)
        exc = self.EXC[kind]("injected")
        raised, out = POINTS.run_fault(lambda: slot["obj"].get_cvi(x, lab), nth, exc)
        if POINTS.fired is None:
            self.bump("not_fired")
        else:
            self.bump("fault_%s_at_%s" % (kind, POINTS.fired))
            self.states.add((c, kind, POINTS.fired, nth))
        entry = self.entry(op)
        if not raised:
            self.settle(op, c, slot, out)
            return False
        if POINTS.fired is None:
            self.fail("raised", "%s raised %s with no fault injected" % (c, describe(out)), cls=c)
        # either not applied at all, or applied completely
        both = list(slot["cands"])
        for log, _, _ in slot["cands"]:
            twin, v = self.replay(c, op["node"], log + [entry])
            both.append((log + [entry], twin, v))
        slot["cands"] = both
        cur = slot["obj"].criterion_value
        alive = [k for k in both if self.agree(c, cur, k[2], k[0])]
        if not alive:
            self.fail("torn", "%s value after a %s at point %d of %d (%s) is %r, neither the value "
                      "before nor after the update" % (c, kind, nth, total, POINTS.fired, cur),
                      cls=c)
        self.events.append([c, kind, POINTS.fired, nth, total, hexval(cur)])
        return True

    def deliver(self, op, c, slot):
        lab = self.name(op["node"], self.data[op["i"]]["c"], op["lt"])
        status, v = call(slot["obj"], self.plain(op["i"]), lab)
        if status == "err":
            self.fail("dead", "%s raised %s on a valid sample after an interrupted update" % (
                c, describe(v)), cls=c)
        self.settle(op, c, slot, v)

    def settle(self, op, c, slot, v):
        entry = self.entry(op)
        lab = self.name(op["node"], self.data[op["i"]]["c"], op["lt"])
        self.bump("updates")
        alive, seen = [], []
        for log, twin, _ in slot["cands"]:
            tv = twin.get_cvi(self.plain(op["i"]), lab)
            seen.append(float(tv))
            if self.agree(c, v, tv, log + [entry]):
                alive.append((log + [entry], twin, tv))
        if not alive:
            self.fail("torn", "%s returned %r after an interrupted update; with that update applied "
                      "or not it would be one of %r" % (c, float(v), seen), cls=c)
        # equal histories (as sets of samples) need not be tracked twice
        uniq = {}
        for k in alive:
            uniq.setdefault(tuple(k[0]), k)
        slot["cands"] = list(uniq.values())
        self.events.append([c, hexval(v)])

    def op_batch(self, op):
        rnd = random.Random(op["seed"])
        n, k = op["n"], op["k"]
        mat = np.array([[rnd.gauss(3 * (j % k), 1) for _ in range(self.dim)] for j in range(n)])
        labs = np.array([j % k for j in range(n)])
        for c in self.tr["nodes"][0]["classes"]:
            ref_obj = self.twin(c)
            total = max(1, POINTS.run_count(lambda: ref_obj.get_cvi(mat, labs)))
            want = ref_obj.criterion_value
            o = sut.make(c)
            kind, u = op["fault"]
            nth = 1 + int(u * total)
            raised, out = POINTS.run_fault(lambda: o.get_cvi(mat, labs), nth,
                                           self.EXC[kind]("injected"))
            if POINTS.fired is None:
                self.bump("not_fired")
                continue
            self.bump("batch_fault_%s_at_%s" % (kind, POINTS.fired))
            self.states.add((c, "batch", kind, POINTS.fired, nth))
            if not raised:
                if not ref.same(c, out, want):
                    self.fail("torn", "batch %s returned %r under a fault, %r without" % (
                        c, out, want), cls=c)
                continue
            self.bump("updates")
            cur = o.criterion_value
            if op["then"] == "stream":
                twin = self.twin(c)
                for j in range(min(n, 5)):
                    status, v = call(o, mat[j], int(labs[j]))
                    tv = twin.get_cvi(mat[j], int(labs[j]))
                    if status == "err":
                        if j == 0 and isinstance(v, ValueError) and ref.same(c, cur, want):
                            break           # the batch had been applied completely
                        self.fail("dead", "%s raised %s on a sample after an interrupted batch" % (
                            c, describe(v)), cls=c)
                    if not ref.same(c, v, tv):
                        self.fail("torn", "%s sample %d after an interrupted batch: %r, on a new "
                                  "object %r" % (c, j + 1, v, tv), cls=c)
            else:
                status, v = call(o, mat, labs)
                if status == "ok":
                    if not ref.same(c, v, want):
                        self.fail("torn", "repeated batch %s: %r, expected %r" % (c, v, want), cls=c)
                elif not (isinstance(v, ValueError) and ref.same(c, cur, want)):
                    self.fail("dead", "batch %s interrupted at point %d of %d cannot be repeated: "
                              "%s" % (c, nth, total, describe(v)), cls=c)


# --------------------------------------------------------------------------
class ModeExec(Base):
    """C08: fresh -> streaming or batched, never both, across restarts."""

    def start(self):
        self.slots = {c: {"obj": sut.make(c), "mode": "fresh", "log": [], "val": None}
                      for c in self.tr["nodes"][0]["classes"]}

    def _batch(self, op):
        rnd = random.Random(op["seed"])
        n, k = op["n"], op["k"]
        names = rnd.sample(range(-3, 30 + k), k) if op["odd"] else list(range(k))
        mat = np.array([[rnd.gauss(3 * (j % k), 1) for _ in range(self.dim)] for j in range(n)])
        return mat, np.array([names[j % k] for j in range(n)])

    def op_new(self, op):
        for c, s in self.slots.items():
            s.update(obj=sut.make(c), mode="fresh", log=[], val=None)

    def op_upd(self, op):
        msg = self.data[op["i"]]
        lab = self.name(0, msg["c"], op["lt"])
        for c, s in self.slots.items():
            before = s["obj"].criterion_value
            status, v = call(s["obj"], self.plain(op["i"]), lab)
            if s["mode"] == "batched":
                self.refused(c, s, status, v, before, "a single sample after a batch")
            else:
                s["mode"] = "streaming"
                self.allowed(c, s, status, v, "a sample")
                s["log"].append((op["i"], msg["c"]))
                _, tv = self.replay(c, 0, s["log"]) if len(s["log"]) <= 40 else (None, v)
                if not self.agree(c, v, tv, s["log"]):
                    self.fail("mixed", "%s value %r after %d samples, %r for the same samples on an "
                              "object never offered a batch" % (c, v, len(s["log"]), tv), cls=c)

    def op_batch(self, op):
        for c, s in self.slots.items():
            mat, labs = self._batch(op)
            if op.get("own") and len({cl for _, cl in s["log"]}) > 1:
                mat = np.array([self.data[i]["x"] for i, _ in s["log"]], dtype=float)
                labs = np.array([self.name(0, cl) for _, cl in s["log"]])
            before = s["obj"].criterion_value
            status, v = call(s["obj"], mat, labs)
            if s["mode"] != "fresh":
                self.refused(c, s, status, v, before, "a batch while %s" % s["mode"])
                continue
            if len(set(labs.tolist())) < 2:
                self.refused(c, s, status, v, before, "a batch of one cluster")
                continue
            s["mode"] = "batched"
            self.allowed(c, s, status, v, "a batch")
            ts, tv = call(self.twin(c), mat, labs)
            if ts != "ok" or not ref.same(c, v, tv):
                self.fail("mixed", "%s batch value %r, on a new object %r" % (c, v, tv), cls=c)

    def refused(self, c, s, status, v, before, what):
        self.bump("refused_switches")
        self.states.add((c, s["mode"], what, len(s["log"])))
        if status == "ok":
            self.fail("switched", "%s accepted %s and returned %r" % (c, what, v), cls=c)
        if not isinstance(v, ValueError):
            self.fail("wrong-error", "%s refused %s with %s, not ValueError" % (
                c, what, describe(v)), cls=c)
        if hexval(before) != hexval(s["obj"].criterion_value):
            self.fail("moved", "%s value moved on a refused switch (%s)" % (c, what), cls=c)
        self.events.append([c, what])

    def allowed(self, c, s, status, v, what):
        self.bump("updates")
        if status == "err":
            self.fail("refused", "%s in mode %s refused %s: %s" % (c, s["mode"], what, describe(v)),
                      cls=c)
        self.events.append([c, hexval(v)])

    def op_restart(self, op):
        """Checkpoint and restore in a new process: the mode is part of the state."""
        self.bump("crash")
        if op["how"] in ("deepcopy", "copy"):
            for s in self.slots.values():
                s["obj"] = load(dump(s["obj"], op["how"]))
            return
        if op.get("far"):
            # to another interpreter and back
            got = abroad.travel({c: s["obj"] for c, s in self.slots.items()}, op["how"], [],
                                op["far"])
            self.bump("journey")
            sut.restart()
            for c, s in self.slots.items():
                if got[c][1] is None:
                    self.fail("lost", "%s cannot be restored in another process" % c, cls=c)
                s["obj"] = load(("pickle", got[c][1]))
            return
        imgs = {c: dump(s["obj"], op["how"]) for c, s in self.slots.items()}
        sut.restart()
        for c, s in self.slots.items():
            s["obj"] = load(imgs[c])


# --------------------------------------------------------------------------
class _Bundle(dict):
    """A user's container of monitors."""


class RestoreExec(Base):
    """C09: checkpoint, crash, restore in a new incarnation, fork."""

    def start(self):
        spec = self.tr["nodes"][0]
        self.classes = spec["classes"]
        self.objs = {c: sut.make(c) for c in self.classes}
        self.log = []
        self.disk = None
        self.forks = []
        self.retwin()

    def retwin(self):
        self.twins = {}
        self.vals = {}
        for c in self.classes:
            self.twins[c], self.vals[c] = self.replay(c, 0, self.log)

    def op_upd(self, op):
        msg = self.data[op["i"]]
        lab = self.name(0, msg["c"], op["lt"])
        entry = (op["i"], msg["c"])
        self.log.append(entry)
        row = []
        for c in self.classes:
            status, v = call(self.objs[c], self.plain(op["i"]), lab)
            tv = self.twins[c].get_cvi(self.plain(op["i"]), lab)
            self.bump("updates")
            if status == "err":
                self.fail("lost", "%s raised %s after restoring" % (c, describe(v)), cls=c)
            row.append(hexval(v))
            if not self.agree(c, v, tv, self.log):
                self.fail("lost", "%s after %d samples: %r on the restored object, %r uninterrupted"
                          % (c, len(self.log), float(v), float(tv)), cls=c)
        # forks live their own lives on other data
        for f in self.forks:
            i = (op["i"] + f["shift"]) % len(self.data)
            cl = self.data[i]["c"]
            f["log"].append((i, cl))
            for c in self.classes:
                status, v = call(f["objs"][c], self.plain(i), self.name(0, cl))
                tv = f["twins"][c].get_cvi(self.plain(i), self.name(0, cl))
                if status == "err" or not self.agree(c, v, tv, f["log"]):
                    self.fail("entangled", "a copy of %s taken after %d samples gives %s, an object "
                              "with its history %r" % (
                                  c, f["at"], v if status == "ok" else describe(v), float(tv)),
                              cls=c)
        self.events.append(row)
        self.states.add((len(self.log), len(self.forks), self.stats.get("crash", 0)))

    def op_ckpt(self, op):
        imgs = {}
        if op.get("bundle"):
            # one image holding all of the node's monitors
            try:
                whole = dump(_Bundle(self.objs), op["how"])
            except Exception as e:
                self.fail("unsaveable", "a dict of index objects cannot be checkpointed (%s): %s" % (
                    op["how"], describe(e)))
            imgs = {c: ("part", whole, c) for c in self.objs}
            self.disk = (imgs, list(self.log), op["how"])
            self.bump("checkpoint")
            self.bump("checkpoint_bundle")
            return
        for c, o in self.objs.items():
            before = o.criterion_value
            try:
                imgs[c] = dump(o, op["how"])
            except Exception as e:
                self.fail("unsaveable", "%s cannot be checkpointed (%s): %s" % (
                    c, op["how"], describe(e)), cls=c)
            if hexval(before) != hexval(o.criterion_value):
                self.fail("lost", "checkpointing moved the value of %s" % c, cls=c)
        self.disk = (imgs, list(self.log), op["how"])
        self.bump("checkpoint")

    def op_crash(self, op):
        self.bump("crash")
        self.forks = []
        how = self.disk[2] if self.disk else None
        if op.get("reimport") and how != "deepcopy":
            sut.restart()
            self.bump("process_restart")
        if self.disk is None:
            self.objs = {c: sut.make(c) for c in self.classes}
            self.log = []
        else:
            imgs, log, _ = self.disk
            self.objs, self.log = {}, list(log)
            whole = None
            for c in self.classes:
                try:
                    if imgs[c][0] == "part":
                        whole = whole or load(imgs[c][1])
                        self.objs[c] = whole[c]
                    else:
                        self.objs[c] = load(imgs[c])
                except Exception as e:
                    self.fail("lost", "%s cannot be restored: %s" % (c, describe(e)), cls=c)
        self.retwin()
        for c in self.classes:
            cur = self.objs[c].criterion_value
            if not self.agree(c, cur, self.vals[c], self.log or [(0, 0)]):
                self.fail("lost", "%s restored after %d samples holds %r, was %r" % (
                    c, len(self.log), cur, self.vals[c]), cls=c)

    def op_journey(self, op):
        """The node's objects move to another interpreter, live on there, and perhaps return."""
        calls = []
        log = list(self.log)
        for i in op["idx"]:
            cl = self.data[i]["c"]
            calls.append([self.data[i]["x"], self.dt, self.tr["nodes"][0]["names"][cl],
                          op["lt"]])
            log.append((i, cl))
        try:
            got = abroad.travel(self.objs, op["how"], calls, op["seed"])
        except Exception as e:
            if isinstance(e, (RuntimeError, OSError)):
                raise
            self.fail("unsaveable", "the objects cannot be pickled: %s" % describe(e))
        self.bump("journey")
        for c in self.classes:
            seen, image = got[c]
            twin = self.replay(c, 0, self.log)[0]
            want = [twin.criterion_value] + [
                twin.get_cvi(self.plain(i), self.name(0, self.data[i]["c"])) for i in op["idx"]]
            for j, (st, v) in enumerate(seen):
                if st == "err":
                    self.fail("lost", "%s %s after moving to another process" % (
                        c, "cannot be restored (%s)" % v if j == 0 else "raised %s" % v), cls=c)
                n = len(self.log) + j
                if not self.agree(c, float.fromhex(v), want[j], log[:n] or [(0, 0)]):
                    self.fail("lost", "%s after %d samples: %r in another process, %r at home" % (
                        c, n, float.fromhex(v), float(want[j])), cls=c)
            self.events.append(seen)
            if op["back"]:
                self.objs[c] = load(("pickle", image))
        if op["back"]:
            self.log = log
            self.retwin()
            self.forks = []

    def op_batchck(self, op):
        """New and batched objects survive checkpoints as well as streaming ones."""
        rnd = random.Random(op["seed"])
        n, k = op["n"], op["k"]
        mat = np.array([[rnd.gauss(3 * (j % k), 1) for _ in range(self.dim)] for j in range(n)])
        labs = np.array([j % k for j in range(n)])
        for c in self.classes:
            new, o = sut.make(c), sut.make(c)
            if call(o, mat, labs)[0] == "err":
                continue
            want = o.criterion_value
            try:
                o2, new2 = load(dump(o, op["how"])), load(dump(new, op["how"]))
            except Exception as e:
                self.fail("unsaveable", "a batched or new %s cannot be copied (%s): %s" % (
                    c, op["how"], describe(e)), cls=c)
            self.bump("batch_checkpoint")
            if not ref.same(c, o2.criterion_value, want):
                self.fail("lost", "a copy of a batched %s holds %r, not %r" % (
                    c, o2.criterion_value, want), cls=c)
            if call(o2, mat, labs)[0] == "ok" or call(o2, mat[0], 0)[0] == "ok":
                self.fail("lost", "a copy of a batched %s answers where the original refuses" % c,
                          cls=c)
            st, v = call(new2, mat, labs)
            if st == "err" or not ref.same(c, v, want):
                self.fail("lost", "a copy of a new %s: batch gives %s, not %r" % (
                    c, v if st == "ok" else describe(v), want), cls=c)
            if not ref.same(c, new.criterion_value, 0.0):
                self.fail("entangled", "the original of a new %s changed with its copy" % c, cls=c)

    def op_fork(self, op):
        if len(self.forks) >= 2:
            return
        self.bump("fork")
        objs = {}
        for c, o in self.objs.items():
            try:
                objs[c] = load(dump(o, op["how"]))
            except Exception as e:
                self.fail("unsaveable", "%s cannot be copied: %s" % (c, describe(e)), cls=c)
        self.forks.append({
            "objs": objs,
            "twins": {c: self.replay(c, 0, self.log)[0] for c in self.classes},
            "log": list(self.log), "at": len(self.log), "shift": 1 + len(self.forks) * 3})
