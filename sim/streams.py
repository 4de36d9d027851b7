"""Executors for the streaming properties C01, C02, C03 and C11: the real
objects against the reference model, a batch audit, and each other."""

import random

import numpy as np

from . import ref, sut
from .core import Violation, hexval
from .runtime import (LABEL_TYPES, Node, array_of, bad_args, call, describe, dump, label_array,
                      label_of, load, matrix_of, refused_kinds)


def arrange(rnd, clusters):
    """A row order for a batch: random, or one of those that files come in."""
    order = list(range(len(clusters)))
    how = rnd.choice(["shuffle"] * 5 + ["arrived", "reverse", "clusters", "rounds"])
    if how == "reverse":
        order.reverse()
    elif how == "shuffle":
        rnd.shuffle(order)
    elif how == "clusters":
        order.sort(key=lambda j: clusters[j])
    elif how == "rounds":
        seen, turn = {}, []
        for c in clusters:
            seen[c] = seen.get(c, 0) + 1
            turn.append(seen[c])
        order.sort(key=lambda j: turn[j])
    return order


def rename(rnd, n, tag):
    """Other names for n clusters: close together, or all over the type's range."""
    lo, hi = -5, 5 * n + 5
    if rnd.random() < 0.4:
        dt = tag if tag in ("i1", "u1", "i2", "u2", "i4", "u4", "u8") else "i8"
        info = np.iinfo(dt)
        if int(info.max) - int(info.min) > n:
            lo, hi = max(int(info.min), -2 ** 61), min(int(info.max), 2 ** 61)
    if rnd.random() < 0.2:
        # the ends of the range too
        return ([lo, hi] + rnd.sample(range(lo + 1, hi), n))[:n]
    return rnd.sample(range(lo, hi + 1), n)


class StreamExec:
    """oracles: subset of {'ref', 'audit', 'converge', 'alive'}"""

    def __init__(self, trace, oracles):
        self.tr = trace
        self.oracles = oracles
        self.data = trace["data"]
        self.dim = trace["dim"]
        self.stats = {"updates": 0, "compared": 0, "undefined": 0, "ill": 0, "audits": 0,
                      "crash": 0, "checkpoint": 0, "refused": 0, "buffer_reuse": 0,
                      "recovered": 0, "converged_pairs": 0, "degenerate_updates": 0}
        self.events = []                  # event log, for the determinism proof
        self.states = set()
        self.bufs = {}

    def run(self):
        sut.restart()
        self.nodes = [Node(s) for s in self.tr["nodes"]]
        self.stride = self.thin()
        for pos, op in enumerate(self.tr["ops"]):
            self.pos = pos
            getattr(self, "op_" + op["op"])(op)
        if "converge" in self.oracles:
            self.converge()
        return self.stats

    def thin(self):
        """Very expensive histories consult the definition at every stride-th update only
        (and after every new cluster, and at the end)."""
        ups = sum(op["op"] == "upd" for op in self.tr["ops"])
        k = len({m["c"] for m in self.data})
        cost = ups * len(self.tr["nodes"][0]["classes"]) * 0.15e-3
        if "rCIP" in self.tr["nodes"][0]["classes"]:
            cost += ups * k * k * (self.dim * 3e-6 + self.dim * self.dim * 1e-6)
        cost += ups * k * k * 1.5e-5
        cost += ups * ups * 2e-7
        return max(1, int(cost / self.tr.get("budget", 0.6)))

    def fail(self, kind, detail, **info):
        raise Violation(kind, detail, at=getattr(self, "pos", None), **info)

    # -- operations ---------------------------------------------------------
    def sample(self, op):
        msg = self.data[op["i"]]
        a = array_of(msg["x"], op.get("dt", self.tr["dt"]), op.get("lay", "c"))
        b = op.get("buf")
        if b is None:
            return a
        buf = self.bufs.get(b)
        if buf is None:
            buf = self.bufs[b] = np.zeros(self.dim, dtype=self.tr["dt"])
        else:
            self.stats["buffer_reuse"] += 1
        buf[:] = a
        return buf

    def op_upd(self, op):
        node = self.nodes[op["node"]]
        msg = self.data[op["i"]]
        x = self.sample(op)
        lab = label_of(node.spec["names"][msg["c"]], op["lt"])
        node.log.append((op["i"], msg["c"]))
        node.model.add(msg["x"], msg["c"])
        self.stats["updates"] += 1
        want = None
        k = len(node.model.groups)
        due = (len(node.log) % self.stride == 0
               or (k != node.k_seen and (k <= 70 or k % 4 == 0 or abs(k - 128) < 4 or abs(k - 256) < 4))
               or self.pos >= len(self.tr["ops"]) - 2)
        node.k_seen = k
        if self.oracles & {"ref", "alive"} and due:
            want = node.model.values(node.classes)
        row = []
        for c in node.classes:
            status, v = call(node.objs[c], x, lab)
            if status == "err":
                if self.oracles & {"ref", "alive", "converge", "audit"}:
                    self.fail("raised", "%s update %d raised %s" % (
                        c, len(node.log), describe(v)), cls=c)
                continue
            row.append(hexval(v))
            node.value[c] = v
            if want is not None:
                self.check(node, c, v, want[c])
        self.events.append(row)
        self.states.add((op["node"], node.model.sizes()))

    def op_flood(self, op):
        """A very long uneventful stretch, generated on the fly; the definition is
        consulted now and then, around the sizes at which narrow counters wrap."""
        node = self.nodes[op["node"]]
        rnd = np.random.Generator(np.random.PCG64(op["seed"]))
        n, k = op["n"], op["k"]
        if op.get("sizes"):
            lab = rnd.permutation(np.repeat(np.arange(k), op["sizes"]))[:n]
            n = len(lab)
        else:
            lab = (rnd.random(n) < op["minor"]).astype(int) * rnd.integers(1, k, n)
        x = rnd.normal(size=(n, self.dim)) + 4.0 * lab[:, None]
        x[:, 0] += op["shift"]
        due = {2, 127, 128, 256, 1000, 1024, 4096, 10001, 32768, 65536, n - 1}
        names = node.spec["names"]
        if "ref" in self.oracles:
            # and at random moments, half of them right after a sample of a small cluster
            minor = np.flatnonzero(lab)
            due |= set(rnd.integers(0, n, 30).tolist())
            due |= set(rnd.choice(minor, min(30, len(minor)), replace=False).tolist())
        for j in range(n):
            c = int(lab[j])
            node.model.add(x[j], c)
            want = None
            if (node.model.n - 1 in due and "ref" in self.oracles) or j == n - 1:
                want = node.model.values(node.classes)
            for cl in node.classes:
                status, v = call(node.objs[cl], x[j], names[c])
                if status == "err":
                    self.fail("raised", "%s update %d raised %s" % (
                        cl, node.model.n, describe(v)), cls=cl)
                node.value[cl] = v
                if want is not None:
                    self.check(node, cl, v, want[cl])
                    self.events.append(hexval(v))
            self.stats["updates"] += 1
        self.states.add((op["node"], node.model.sizes()))
        if "audit" in self.oracles:
            order = rnd.permutation(n)
            self.audit(node, x[order], np.array(names)[lab[order]])

    def check(self, node, c, v, want):
        verdict = ref.judge(c, v, node.model, want)
        self.stats["compared"] += 1
        if verdict == "undefined":
            self.stats["undefined"] += 1
            node.undef = getattr(node, "undef", set()) | {c}
            return
        if verdict == "ill":
            self.stats["ill"] += 1
        if c in getattr(node, "undef", ()):
            node.undef.discard(c)
            self.stats["recovered"] += 1
        if verdict == "bad":
            self.fail("value", "%s after %d samples, sizes %s: returned %r, definition gives %r"
                      % (c, node.model.n, node.model.sizes(), float(v), want), cls=c)

    def op_read(self, op):
        node = self.nodes[op["node"]]
        for c in node.classes:
            cur = getattr(node.objs[c], "criterion_value")
            if "ref" in self.oracles and hexval(cur) != hexval(node.value[c]) and \
                    not ref.same(c, cur, node.value[c]):
                self.fail("read", "%s current value %r differs from the last returned %r"
                          % (c, cur, node.value[c]), cls=c)

    def op_scribble(self, op):
        buf = self.bufs.get(op["buf"])
        if buf is not None:
            buf[:] = 3

    def op_ckpt(self, op):
        node = self.nodes[op["node"]]
        node.disk = ({c: dump(o, op["how"]) for c, o in node.objs.items()},
                     list(node.log), dict(node.value))
        self.stats["checkpoint"] += 1

    def op_crash(self, op):
        node = self.nodes[op["node"]]
        self.stats["crash"] += 1
        if node.disk is None:
            node.objs = {c: sut.make(c) for c in node.classes}
            node.log, node.value = [], {c: 0.0 for c in node.classes}
        else:
            imgs, log, value = node.disk
            node.objs = {c: load(i) for c, i in imgs.items()}
            node.log, node.value = list(log), dict(value)
        node.rebuild_model(self.data)

    def op_bad(self, op):
        node = self.nodes[op["node"]]
        fresh = not node.log
        if not refused_kinds(op, fresh, self.dim):
            return
        x, lab, _ = bad_args(op, self.dim, self.data, self.tr["dt"])
        for c in node.classes:
            status, _ = call(node.objs[c], x, lab)
            self.stats["refused"] += status == "err"

    def op_audit(self, op):
        node = self.nodes[op["node"]]
        if len(node.model.groups) < 2:
            return
        rnd = random.Random(op["perm"])
        order = arrange(rnd, [c for _, c in node.log])
        names = node.spec["names"]
        tag = rnd.choice(LABEL_TYPES)
        if rnd.random() < 0.6 or max(map(abs, names)) >= 2 ** 63:
            names = rename(rnd, len(names), tag)
        mat = np.array([self.data[node.log[j][0]]["x"] for j in order], dtype=float)
        mat = mat.astype(self.tr["dt"])
        mat = matrix_of(mat, op["how"] if rnd.random() < 0.5 else rnd.choice("srom"))
        labs = label_array([names[node.log[j][1]] for j in order], tag)
        self.audit(node, mat, labs)

    def audit(self, node, mat, labs):
        keep, keep_l = mat.copy(), labs.copy()
        self.stats["audits"] += 1
        row = []
        for c in node.classes:
            status, v = call(sut.make(c), mat, labs)
            if status == "err":
                self.fail("audit-raised", "batch %s on %d samples raised %s" % (
                    c, len(mat), describe(v)), cls=c)
            row.append(hexval(v))
            if not (np.array_equal(mat, keep, equal_nan=True) and np.array_equal(labs, keep_l)):
                mat, labs = keep.copy(), keep_l.copy()
            if "audit" in self.oracles:
                if not ref.same(c, v, node.value[c], node.model):
                    self.fail("audit", "%s after %d samples, sizes %s: streamed %r, batch %r" % (
                        c, node.model.n, node.model.sizes(), float(node.value[c]), float(v)),
                        cls=c)
                verdict = ref.judge(c, v, node.model)
                if verdict == "bad":
                    self.fail("audit-value", "batch %s on %d samples: %r, definition gives %r" % (
                        c, len(mat), float(v), node.model.values((c,))[c]), cls=c)
                self.stats["undefined"] += verdict == "undefined"
        self.events.append(row)

    def op_mirror(self, op):
        """A late replica is brought up to date from the log, in another order and under
        other names."""
        node = self.nodes[op["node"]]
        if not node.log or len(node.log) > 500:
            return
        rnd = random.Random(op["perm"])
        order = list(node.log)
        how = op.get("how") or rnd.choice(["shuffle", "shuffle", "reverse", "clusters", "rounds",
                                           "smallest", "smallest", "largest"])
        rnd.shuffle(order)
        if how == "reverse":
            order = node.log[::-1]
        elif how in ("clusters", "smallest", "largest"):
            # cluster by cluster
            known = sorted({c for _, c in order})
            rnd.shuffle(known)
            if how != "clusters":
                size = {}
                for _, c in order:
                    size[c] = size.get(c, 0) + (1 if how == "smallest" else -1)
                known.sort(key=size.get)
            rank = {c: j for j, c in enumerate(known)}
            order.sort(key=lambda e: rank[e[1]])
        elif how == "rounds":
            seen, key = {}, {}
            for e in order:
                seen[e[1]] = seen.get(e[1], 0) + 1
                key[id(e)] = seen[e[1]]
            order.sort(key=lambda e: key[id(e)])
        n = len(node.spec["names"])
        names = rnd.sample(range(-n, 4 * n), n)
        self.stats["mirrors"] = self.stats.get("mirrors", 0) + 1
        for c in node.classes:
            o, v = sut.make(c), 0.0
            for i, cl in order:
                status, v = call(o, array_of(self.data[i]["x"], self.tr["dt"]), names[cl])
                if status == "err":
                    self.fail("raised", "%s update raised %s" % (c, describe(v)), cls=c)
            if not ref.same(c, node.value[c], v, node.model):
                self.fail("diverged", "%s after the same %d samples in different order: %r and %r"
                          % (c, len(order), float(node.value[c]), float(v)), cls=c)

    def converge(self):
        """Quiescence: replicas that accepted the same samples hold the same value."""
        self.pos = len(self.tr["ops"])
        for i, a in enumerate(self.nodes):
            for b in self.nodes[i + 1:]:
                if sorted(a.log) != sorted(b.log):
                    continue
                self.stats["converged_pairs"] += 1
                for c in a.classes:
                    va, vb = a.objs[c].criterion_value, b.objs[c].criterion_value
                    if not ref.same(c, va, vb, a.model):
                        self.fail("diverged", "%s after the same %d samples in different order: "
                                  "%r and %r" % (c, len(a.log), float(va), float(vb)), cls=c)
