"""Shrinking a failing trace while the same violation persists."""

import copy
import json
import time


class Shrinker:
    def __init__(self, trace, fails, seconds):
        self.best = trace
        self.fails = fails
        self.deadline = time.monotonic() + seconds
        self.tried = 0

    def left(self):
        return time.monotonic() < self.deadline

    def attempt(self, cand):
        if not self.left():
            return False
        self.tried += 1
        if self.fails(cand):
            self.best = cand
            return True
        return False

    def edit(self, fn):
        cand = copy.deepcopy(self.best)
        try:
            if fn(cand) is False:
                return False
        except (KeyError, IndexError, TypeError):
            return False
        return self.attempt(cand)

    def ddmin(self, get, put):
        """Remove as many items of a list as possible."""
        size = max(1, len(get(self.best)) // 2)
        while size >= 1 and self.left():
            at = 0
            while at < len(get(self.best)) and self.left():
                def cut(c, at=at, size=size):
                    items = get(c)
                    put(c, items[:at] + items[at + size:])
                if not self.edit(cut):
                    at += size
            size //= 2


def _get(key):
    return (lambda t: t.get(key) or []), (lambda t, v: t.__setitem__(key, v))


def shrink(trace, violation, fails, seconds=60):
    s = Shrinker(trace, fails, seconds)
    cls = violation.get("cls")
    if cls:
        def only(t):
            if "classes" in t:
                t["classes"] = [cls]
            for n in t.get("nodes", []):
                n["classes"] = [cls]
        s.edit(only)
    at = violation.get("at")
    if at is not None and trace.get("ops"):
        s.edit(lambda t: t.__setitem__("ops", t["ops"][:at + 1]))
    for key in ("ambients", "ops", "schedule"):
        if trace.get(key):
            s.ddmin(*_get(key))
    if trace.get("subprocess") is not None:
        s.edit(lambda t: t.__setitem__("subprocess", None))
    for n in range(len(trace.get("tasks", []))):
        s.ddmin(lambda t, n=n: t["tasks"][n], lambda t, v, n=n: t["tasks"].__setitem__(n, v))
    if isinstance(trace.get("pre"), list):
        s.ddmin(*_get("pre"))
    elif trace.get("pre"):
        s.edit(lambda t: t.__setitem__("pre", 0))
    if trace.get("ops"):
        s.ddmin(*_get("ops"))
    for p, op in enumerate(s.best.get("ops") or []):
        if op["op"] == "flood":
            size = op["n"]
            while size > 1 and s.left():
                size //= 2
                s.edit(lambda t, p=p, size=size: t["ops"][p].__setitem__(
                    "n", t["ops"][p]["n"] - size))
    if trace.get("marks"):
        for f in ("bad", "cut", "restore"):
            s.edit(lambda t, f=f: t.__setitem__(f, 0))
        s.edit(lambda t: t.__setitem__("marks", t["marks"][:2]))
    # simpler data, labels and representations
    for digits in (0, 1, 3):
        def rounded(t, digits=digits):
            for m in t["data"]:
                m["x"] = [float(round(v, digits)) for v in m["x"]]
        if trace.get("data") and s.edit(rounded):
            break

    def plain(t):
        hit = False
        for op in t["ops"]:
            for k in ("lay", "buf", "dt"):
                hit = op.pop(k, None) is not None or hit
            if op.get("lt"):
                op["lt"] = "int"
        return hit
    s.edit(plain)

    def names(t):
        for n in t["nodes"]:
            n["names"] = list(range(len(n["names"])))
    s.edit(names)
    s.edit(lambda t: t.__setitem__("dt", "f8"))
    s.edit(lambda t: _compact(t))
    if len(trace.get("data") or []) and (trace.get("dim") or 1) > 1:
        for d in (1, 2):
            def narrow(t, d=d):
                if t["dim"] <= d:
                    return False
                t["dim"] = d
                for m in t["data"]:
                    m["x"] = m["x"][:d]
            if s.edit(narrow):
                break
    return s.best, s.tried


def _stepped(t):
    """All lists of thread steps: of the tasks, and before them (C04)."""
    return t.get("tasks", []) + ([t["pre"]] if isinstance(t.get("pre"), list) else [])


def _compact(t):
    """Drop the samples no operation mentions."""
    used = set()
    for op in t.get("ops", []):
        if "i" in op:
            used.add(op["i"])
        used.update(op.get("idx", []))
    for task in _stepped(t):
        for st in task:
            if st[0] in ("upd", "cut"):
                used.add(st[2])
            elif st[0] == "batch":
                used.update(st[2])
    order = sorted(used) or [0]
    if len(order) == len(t["data"]):
        return False
    new = {i: j for j, i in enumerate(order)}
    t["data"] = [t["data"][i] for i in order]
    for op in t.get("ops", []):
        if "i" in op:
            op["i"] = new[op["i"]]
        if "idx" in op:
            op["idx"] = [new[i] for i in op["idx"]]
    for task in _stepped(t):
        for st in task:
            if st[0] in ("upd", "cut"):
                st[2] = new[st[2]]
            elif st[0] == "batch":
                st[2] = [new[i] for i in st[2]]
    return True


def weight(trace):
    return len(json.dumps(trace))
