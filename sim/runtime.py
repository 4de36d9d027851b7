"""Applying operations to the real code: arrays, labels, nodes, disk."""

import copy
import pickle
import warnings

import numpy as np

from . import sut
from .core import Violation, hexval
from .ref import Model

warnings.simplefilter("ignore")          # degenerate phases warn by design
warnings.showwarning = lambda *a, **k: None
np.seterr(all="warn")


def label_array(values, tag):
    """Batch labels in one of the integer types and layouts callers use."""
    lo, hi = min(values), max(values)
    a = np.array(values, dtype=np.int64)
    if tag == "strided":
        big = np.zeros((len(a), 2), dtype=np.int64)
        big[:, 0] = a
        return big[:, 0]
    if tag == "reversed":
        return a[::-1].copy()[::-1]
    for dt in ("i1", "u1", "i2", "u2", "i4", ">i4", "u4", "u8"):
        if tag == dt:
            info = np.iinfo(dt)
            if info.min <= lo and hi <= info.max:
                return a.astype(dt)
    return a


LABEL_TYPES = ("i8", "i8", "i8", "i4", "i4", "strided", "reversed", "i1", "u1", "i2", "u2",
               ">i4", "u4", "u8")


def label_of(value, tag):
    if tag != "int":
        info = np.iinfo(tag)
        if info.min <= value <= info.max:
            return np.dtype(tag).type(value)
    return int(value)


def array_of(x, dt, lay="c"):
    """The sample as the caller holds it: type, stride, direction, access."""
    a = np.array(x, dtype=float).astype(dt)
    if lay == "s":
        big = np.zeros((len(a), 3), dtype=dt)
        big[:, 1] = a
        return big[:, 1]
    if lay == "r":
        return a[::-1].copy()[::-1]
    if lay == "o":
        a.flags.writeable = False
        return a
    if lay == "m":
        raw = np.zeros(a.nbytes + 1, dtype=np.uint8)
        odd = raw[1:].view(a.dtype)      # not on a word boundary
        odd[:] = a
        return odd
    if lay == "f":
        big = np.asfortranarray(np.zeros((3, len(a)), dtype=dt))
        big[1, :] = a
        return big[1, :]
    return a


def matrix_of(mat, lay):
    """The batch as the caller holds it."""
    n, d = mat.shape
    if lay == "f":
        return np.asfortranarray(mat)
    if lay == "s":
        big = np.zeros((2 * n, d + 1), dtype=mat.dtype)
        big[::2, :d] = mat
        return big[::2, :d]
    if lay == "r":
        return mat[::-1, ::-1].copy()[::-1, ::-1]
    if lay == "o":
        mat.flags.writeable = False
        return mat
    if lay == "m":
        raw = np.zeros(mat.nbytes + 1, dtype=np.uint8)
        odd = raw[1:].view(mat.dtype).reshape(n, d)
        odd[:] = mat
        return odd
    return mat


class Node:
    """A process hosting live index objects, fed by the network."""

    def __init__(self, spec, names=None):
        self.spec = spec
        self.classes = list(names or spec["classes"])
        self.objs = {c: sut.make(c) for c in self.classes}
        self.log = []                     # accepted (message index, cluster)
        self.value = {c: 0.0 for c in self.classes}
        self.model = Model()
        self.disk = None                  # last durable checkpoint
        self.k_seen = 0

    def rebuild_model(self, data):
        self.model = Model((data[i]["x"], c) for i, c in self.log)


def dump(obj, how):
    if how == "copy":
        return ("copy", copy.copy(obj))
    if how == "deepcopy":
        return ("obj", copy.deepcopy(obj))
    return ("pickle", pickle.dumps(obj, protocol=int(how[1])))


def load(image):
    kind, payload = image
    if kind == "copy":
        return copy.copy(payload)
    if kind == "obj":
        return copy.deepcopy(payload)
    return pickle.loads(payload)


def call(obj, x, label):
    """get_cvi with exceptions as values: ('ok', v) or ('err', e)."""
    try:
        return "ok", obj.get_cvi(x, label)
    except Exception as e:                # noqa: B902
        return "err", e


def describe(e):
    return "%s: %s" % (type(e).__name__, str(e)[:120])


def bad_args(op, dim, data, dt):
    """Arguments of a malformed call, and whether a ValueError is documented."""
    kind, lab, u = op["kind"], op["label"], op["u"]
    base = [round(3 * u + j, 3) for j in range(dim)]
    if kind == "short":
        return np.array(base[:-1]), lab, False
    if kind == "long":
        return np.array(base + [u] * (1 + int(3 * u))), lab, False
    if kind == "one":
        return np.array([u]), lab, False
    if kind == "empty":
        return np.zeros(0), lab, False
    if kind == "zero_d":
        return np.array(u), lab, True
    if kind == "three_d":
        return np.zeros((2, dim, 2)) + u, lab, True
    if kind == "four_d":
        return np.zeros((1, 1, dim, 1)) + u, lab, True
    if kind == "text":
        return np.array(["torn"] * dim), lab, False
    if kind == "object":
        return np.array([object() for _ in range(dim)], dtype=object), lab, False
    if kind == "unhashable":
        return np.array(base), [lab], False
    if kind == "label_set":
        return np.array(base), {lab}, False
    if kind == "label_array":
        return np.array(base), np.array([lab]), False
    if kind == "label_0d":
        return np.array(base), np.array(lab), False
    if kind == "none":
        return None, lab, False
    n = max(2, op["n"])
    if kind == "three_d_batch":
        return (np.array([[[j * 1.5 + t + u] * 2 for t in range(dim)] for j in range(n)]),
                np.array([j % 2 for j in range(n)]), True)
    if kind == "batch_empty":
        return np.zeros((0, dim)), np.zeros(0, dtype=int), True
    if kind == "batch_text":
        return np.array([["torn"] * dim] * n), np.array([j % 2 for j in range(n)]), False
    mat = np.array([[j * 1.5 + t + u for t in range(dim)] for j in range(n)])
    if kind == "batch":
        return mat, np.array([j % 2 for j in range(n)]), True
    if kind == "batch_one":
        return mat, np.array([lab] * n), True
    if kind == "batch_bad":
        m = n + 1 if u < 0.5 or n < 3 else n - 1
        return mat, np.array([j % 2 for j in range(m)]), False
    if kind == "batch_scalar":
        return mat, lab, True
    if kind == "batch_double":
        return mat, np.array([j % 2 for j in range(2 * n)]), False
    if kind == "two_d_row":
        return mat[:1], np.array([lab]), True
    raise KeyError(kind)


FRESH_BAD = ("zero_d", "three_d", "four_d", "text", "object", "unhashable", "batch_one",
             "batch_bad", "two_d_row", "batch_empty", "batch_scalar", "batch_double",
             "batch_text", "label_set", "three_d_batch", "label_array", "label_0d", "none")


def refused_kinds(op, fresh, dim):
    """Must this malformed call be refused in this state?"""
    k = op["kind"]
    if fresh:
        return k in FRESH_BAD
    if k == "one":
        return dim != 1
    if k == "short":
        return True
    return True
