"""One integer decides everything: seeded streams, digests, violations."""

import hashlib
import json
import random


def stream(seed, *path):
    """An independent PRNG for a purpose; a pure function of its arguments."""
    key = "/".join([str(seed)] + [str(p) for p in path])
    return random.Random(int.from_bytes(hashlib.sha256(key.encode()).digest()[:16], "big"))


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:16]


def hexval(v):
    """Exact, comparable form of a returned value."""
    try:
        return float(v).hex()
    except (TypeError, ValueError):
        return repr(v)


class Violation(Exception):
    """The property does not hold on this run."""

    def __init__(self, kind, detail, **info):
        super().__init__(detail)
        self.kind = kind
        self.detail = detail
        self.info = info

    def as_dict(self):
        return {"kind": self.kind, "detail": self.detail, **self.info}


def weighted(rnd, table):
    """table: list of (weight, value)"""
    total = sum(w for w, _ in table)
    x = rnd.random() * total
    for w, v in table:
        x -= w
        if x < 0:
            return v
    return table[-1][1]
