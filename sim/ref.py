"""Reference model: the nine indices computed from scratch, by definition.

The model is a list of accepted (sample, cluster) pairs.  Every value is
recomputed from that list in extended precision with centred two-pass sums, so
it shares neither the recursions nor the summation order of the code under
test.  `judge` decides whether a value is acceptable: it first compares at a
tight relative tolerance and, only where that fails, measures how much the
definition itself moves under perturbations of the order of rounding, so an
ill-conditioned history can neither raise an alarm nor loosen the rest.
"""

import random

import numpy as np

LD = np.longdouble
INDICES = ("CH", "cSIL", "DB", "GD43", "GD53", "PS", "rCIP", "WB", "XB")

RTOL = 1e-9          # fast path
PERTURB = 1e-12      # relative size of the perturbations
SLACK = 50.0         # how many perturbation spreads are rounding
FLOOR = {"PS": 1e-11, "cSIL": 1e-11}


def _chol(a):
    d = a.shape[0]
    low = np.zeros((d, d), LD)
    for i in range(d):
        for j in range(i + 1):
            s = a[i, j] - np.dot(low[i, :j], low[j, :j])
            if i == j:
                if not s > 0:
                    raise ArithmeticError("not positive definite")
                low[i, i] = np.sqrt(s)
            else:
                low[i, j] = s / low[j, j]
    return low


def _gauss(diff, sig):
    """(2 pi)^(-d/2) |sig|^(-1/2) exp(-diff' sig^-1 diff / 2)"""
    d = len(diff)
    low = _chol(sig)
    y = np.zeros(d, LD)
    for i in range(d):
        y[i] = (diff[i] - np.dot(low[i, :i], y[:i])) / low[i, i]
    expo = -np.dot(y, y) / 2 - np.sum(np.log(np.diag(low)))
    return np.exp(expo - LD(d) / 2 * np.log(2 * LD(np.pi)))


class Model:
    """Accepted samples, grouped by cluster; arrival order is irrelevant."""

    def __init__(self, pairs=()):
        self.groups = {}
        self.n = 0
        for x, c in pairs:
            self.add(x, c)

    def add(self, x, c):
        self.groups.setdefault(c, []).append(np.asarray(x, LD))
        self.n += 1

    def copy(self):
        m = Model()
        m.groups = {c: list(g) for c, g in self.groups.items()}
        m.n = self.n
        return m

    def sizes(self):
        return tuple(sorted(len(g) for g in self.groups.values()))

    def blocks(self):
        return [np.array(g, LD) for g in self.groups.values()]

    def values(self, names=INDICES):
        if len(self.groups) < 2:
            return {n: 0.0 for n in names}
        return evaluate(self.blocks(), names)

    def scale(self):
        return max(float(np.max(np.abs(b))) for b in self.blocks())

    def spread(self, name, want):
        """How far the definition moves under rounding-sized perturbations."""
        blocks = self.blocks()
        scale = self.scale() or 1.0
        rnd = random.Random(12345)
        nmax = max(len(b) for b in blocks)
        worst = 0.0
        for rep in range(6):
            pert = [
                b + LD(PERTURB * scale) * np.array(
                    [[rnd.uniform(-1, 1) for _ in row] for row in b], LD)
                for b in blocks
            ]
            # the recursions for cSIL and the batch covariance of rCIP subtract
            # uncentred second moments: their rounding is eps * |x|^2
            jig = 4e-16 * nmax * scale * scale
            v = evaluate(pert, (name,), jig, rnd, 1e-15 * scale)[name]
            if not np.isfinite(v):
                return float("inf")
            worst = max(worst, abs(v - want))
        return worst

    def defined(self, name):
        return bool(np.isfinite(self.values((name,))[name]))


def evaluate(blocks, names, jig=0.0, rnd=None, ulp=0.0):
    """Values of the named indices for k >= 2 non-empty clusters."""
    with np.errstate(all="ignore"):
        return _evaluate(blocks, names, jig, rnd, ulp)


def _evaluate(blocks, names, jig, rnd, ulp):
    k = len(blocks)
    n = np.array([len(b) for b in blocks], LD)
    tot = LD(sum(len(b) for b in blocks))
    v = np.array([b.mean(axis=0) for b in blocks], LD)
    d = v.shape[1]
    cp = np.array([np.sum((b - c) ** 2) for b, c in zip(blocks, v)], LD)
    mu = np.sum(v * n[:, None], axis=0) / tot
    dist2 = np.array([[np.sum((a - b) ** 2) for b in v] for a in v], LD)
    off = ~np.eye(k, dtype=bool)
    wgss = np.sum(cp)
    out = {}
    for name in names:
        if name == "CH" or name == "WB":
            bgss = np.sum(n * np.sum((v - mu) ** 2, axis=1))
            if name == "CH":
                val = (bgss / wgss) * ((tot - k) / (k - 1)) if tot > k else LD("nan")
            else:
                val = wgss / bgss * k
        elif name == "XB":
            val = wgss / (tot * np.min(dist2[off]))
        elif name == "DB":
            s = cp / n
            r = (s[:, None] + s[None, :]) / dist2
            r[~off] = -np.inf
            val = np.sum(np.max(r, axis=0)) / k
        elif name == "GD43":
            val = np.sqrt(np.min(dist2[off])) / (2 * np.max(cp / n))
        elif name == "GD53":
            w = (cp[:, None] + cp[None, :]) / (n[:, None] + n[None, :])
            val = np.min(w[off]) / (2 * np.max(cp / n))
        elif name == "PS":
            bar = v.mean(axis=0)
            if ulp:
                # beta is measured from a rounded mean of rounded centroids
                bar = bar + LD(ulp) * np.array([rnd.uniform(-1, 1) for _ in range(d)], LD)
                v = v + LD(ulp) * np.array(
                    [[rnd.uniform(-1, 1) for _ in range(d)] for _ in range(k)], LD)
            beta = np.sum((v - bar) ** 2) / k
            near = np.array([np.min(dist2[i][off[i]]) for i in range(k)], LD)
            val = np.sum(n / np.max(n) - np.exp(-near / beta))
        elif name == "cSIL":
            s = np.array([[np.mean(np.sum((b - c) ** 2, axis=1)) for c in v]
                          for b in blocks], LD)
            if jig:
                s = np.abs(s + LD(jig) * np.array(
                    [[rnd.uniform(-1, 1) for _ in range(k)] for _ in range(k)], LD))
            if not s.any():
                val = LD("nan")           # all samples coincide: 0/0
            else:
                coef = []
                for i in range(k):
                    a = s[i, i]
                    b = np.min(s[off[:, i], i])
                    coef.append((b - a) / max(a, b))
                val = np.sum(np.array(coef, LD)) / k
        elif name == "rCIP":
            delta = LD(10) ** (LD(-12) / d)
            sig = []
            for b, c in zip(blocks, v):
                if len(b) > 1:
                    z = b - c
                    m = z.T.dot(z) / LD(len(b) - 1)
                    if jig:
                        e = np.array([[rnd.uniform(-1, 1) for _ in range(d)]
                                      for _ in range(d)], LD) * LD(jig)
                        m = m + (e + e.T) / 2
                else:
                    m = np.zeros((d, d), LD)
                sig.append(m + delta * np.eye(d, dtype=LD))
            val = LD(0)
            try:
                for i in range(k - 1):
                    for j in range(i + 1, k):
                        val += _gauss(v[i] - v[j], sig[i] + sig[j])
            except ArithmeticError:
                val = LD("nan")
        else:
            raise KeyError(name)
        out[name] = float(val)
    return out


def _floor(name):
    return FLOOR.get(name, 1e-290)


def noise(name, want, spread):
    """Is the value of this history decided by rounding?  (A condition number of
    1e9 or more: centroids or scatters that vanish up to the last digits.)"""
    if not np.isfinite(spread):
        return True
    return spread > (1e-4 if name in FLOOR else 1e-3 * abs(want))


def settled(name, spread, model):
    """An index that vanishes has no relative precision, but it may be well determined on
    the scale of the data; then anything visibly away from it is wrong.  0: it is not."""
    if name not in ("CH", "WB", "XB", "DB", "GD43", "GD53"):
        return 0.0
    unit = 1.0 / (model.scale() or 1.0) if name == "GD43" else 1.0
    return 1e-5 * unit if SLACK * spread <= 1e-7 * unit else 0.0


def judge(name, got, model, want=None):
    """'ok', 'undefined', 'ill' (ill-conditioned, within its own spread) or 'bad'."""
    if want is None:
        want = model.values((name,))[name]
    try:
        got = float(got)
    except (TypeError, ValueError):
        return "bad"
    if not np.isfinite(want):
        return "undefined"
    if abs(got - want) <= RTOL * abs(want) + _floor(name):
        return "ok"
    if len(model.groups) < 2:
        return "bad"
    spread = model.spread(name, want)
    if noise(name, want, spread):
        room = settled(name, spread, model)
        return "bad" if room and not abs(got - want) <= room else "undefined"
    tol = SLACK * spread
    return "ill" if abs(got - want) <= tol else "bad"


def same(name, a, b, model=None):
    """Two values of one history computed by two routes."""
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if a == b or (a != a and b != b):
        return True
    if np.isfinite(a) and np.isfinite(b) and \
            abs(a - b) <= RTOL * max(abs(a), abs(b)) + _floor(name):
        return True
    if model is None:
        return False
    want = model.values((name,))[name]
    if not np.isfinite(want):
        return True
    if len(model.groups) < 2:
        return False
    spread = model.spread(name, want)
    if noise(name, want, spread):
        room = settled(name, spread, model)
        return not room or bool(abs(a - b) <= 2 * room)
    tol = 2 * SLACK * spread
    return bool(abs(a - b) <= tol)
