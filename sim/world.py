"""The simulated deployment around the library, as a discrete-event simulation.

Producers emit labelled samples; a lossy, duplicating, reordering network with
partitions carries them to monitor nodes; each node hosts live index objects,
checkpoints them to a simulated disk, crashes and restarts; auditors recompute
in batch.  The world decides, from one PRNG, what happens when, and writes it
down as a flat list of operations with simulated timestamps.  Executors then
apply the operations to the real code, so the list is at the same time the
schedule, the fault trace and the replay file.
"""

import heapq
import math
import struct

from . import sut
from .core import weighted

# indices whose recursions stay accurate far from the origin
STABLE = ("CH", "DB", "GD43", "GD53", "PS", "WB", "XB")

DEFAULT = dict(
    nodes=(1, 1),
    messages=[(6, (8, 30)), (6, (30, 80)), (2, (80, 160)), (0.25, (300, 700))],
    dims=[(2, 1), (6, 2), (4, 3), (2, 4), (1.5, 5), (0.7, 8), (0.4, 12), (0.3, 20), (0.06, 40), (0.04, 130), (0.015, 300)],
    clusters=[(5, 2), (5, 3), (4, 4), (3, 5), (2, 7), (1, 10), (0.6, 18), (0.3, 30), (0.05, 70), (0.03, 140)],
    regimes=[(6, "blobs"), (2, "overlap"), (2, "grid"), (2, "dups"), (1.5, "aniso"),
             (1, "offset"), (1, "far"), (1, "tiny"), (1, "large"), (1, "bytes"), (1, "half"),
             (1, "lattice")],
    classes=[(5, 9), (3, 3), (2, 1)],
    audit=0.0, bad=0.0, scribble=0.0, crash=0.0, ckpt=0.0, fork=0.0, fault=0.0,
    buffers=0.3, net=True, batch=0.0, read=0.1, dedup=0.6, wide=False, ambient=0.0, mirror=0.0, swarm=True, only=None,
)


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def f16(x):
    return struct.unpack("e", struct.pack("e", x))[0]


class World:
    def __init__(self, rnd, **over):
        self.rnd = rnd
        cfg = dict(DEFAULT)
        cfg.update(over)
        self.cfg = cfg
        self.ops = []
        self.data = []
        self.heap = []
        self.seq = 0
        self.now = 0.0
        self.net = {"delivered": 0, "dropped": 0, "duplicated": 0, "reordered": 0,
                    "delayed": 0, "partitions": 0, "redelivered": 0}

    # -- events ------------------------------------------------------------
    def at(self, t, kind, **kw):
        self.seq += 1
        heapq.heappush(self.heap, (t, self.seq, kind, kw))

    def emit(self, op, **kw):
        kw["op"] = op
        kw["t"] = round(self.now, 6)
        self.ops.append(kw)

    # -- workload ----------------------------------------------------------
    def _setup_data(self):
        r, cfg = self.rnd, self.cfg
        self.regime = weighted(r, cfg["regimes"])
        self.dim = weighted(r, cfg["dims"])
        self.k = weighted(r, cfg["clusters"])
        lo, hi = weighted(r, cfg["messages"])
        self.n_msg = r.randint(lo, hi)
        if self.k > 30:
            # a crowd: let most of its clusters show up, and keep the matrices small
            self.n_msg = max(self.n_msg, int(2.2 * self.k))
            self.dim = min(self.dim, 4)
        if self.dim > 20:
            self.k = min(self.k, 5)
            self.n_msg = min(self.n_msg, 80)
        self.k = max(1, min(self.k, self.n_msg // 2))
        reg = self.regime
        sep = r.choice([2.0, 4.0, 8.0])
        if reg == "overlap":
            sep = 0.5
        self.centres = [[r.gauss(0, sep) for _ in range(self.dim)] for _ in range(self.k)]
        self.sds = [r.choice([0.3, 1.0, 1.0, 2.0]) for _ in range(self.k)]
        if reg == "spaced":
            # a crowd in which nobody comes close to anybody else
            side = max(2, math.ceil(self.k ** (1.0 / min(self.dim, 3))))
            spots = r.sample(range(self.k), self.k)
            self.centres = [[9.0 * (s // side ** j % side if j < 3 else 0) + r.gauss(0, 1)
                             - 4.5 * side for j in range(self.dim)] for s in spots]
            self.sds = [r.choice([0.3, 0.6]) for _ in range(self.k)]
        self.offset = [0.0] * self.dim
        if reg == "offset":
            self.offset = [r.choice([-1, 1]) * r.choice([30.0, 1e3]) for _ in range(self.dim)]
        elif reg == "far":
            self.offset = [r.choice([-1, 1]) * r.choice([1e5, 1e6]) for _ in range(self.dim)]
        self.dt = {"bytes": r.choice(["u1", "u1", "i1", "i1", "i2", "i4", "i8", "u2", "u4", "u8",
                                      ">i2", ">i4"]),
                   "half": r.choice(["f2", "f4", "f4", ">f4"]),
                   "grid": r.choice(["f8", "i8", "i4"])}.get(reg, r.choice(["f8"] * 12 + [">f8"] * 2 + ["g"]))
        self.pool = []
        self.special = r.choice([0, 0, 0.03, 0.15])
        if reg == "spaced":
            self.special = 0
        # cluster arrival pattern
        self.pattern = r.choice(["random", "random", "random", "blocks", "robin", "late",
                                 "skewed", "alternate"])

    def _point(self, c):
        r = self.rnd
        reg = self.regime
        if self.data and reg != "far" and r.random() < self.special:
            # points real streams contain and random ones do not
            how = r.choice(["origin", "again", "again", "axis", "twin", "flat", "mirror", "mean"])
            if how == "origin":
                return [0.0] * self.dim
            if how == "again":
                return list(self.data[-1]["x"])
            if how == "twin":
                return list(r.choice(self.data)["x"])
            if how == "flat":
                return [self.data[-1]["x"][0]] * self.dim
            if how == "mean":
                own = [m["x"] for m in self.data if m["c"] == c][:64]
                if own and reg != "grid" and self.dt in ("f8", ">f8", "g"):
                    return [sum(col) / len(own) for col in zip(*own)]
            x = list(self.data[-1]["x"])
            if how == "mirror" and self.dt in ("f8", ">f8", "g", "f4", "f2", "i4", "i8"):
                return [-v for v in x]
            x[r.randrange(self.dim)] = 0.0
            return x
        base, sd = self.centres[c], self.sds[c]
        if reg == "lattice":
            # few places, so that clusters often have the same centroid
            x = [0.0] * self.dim
            for j in range(min(self.dim, 2)):
                x[j] = float(r.randint(0, 2) + (c // 2 * 3 if j == 0 else 0))
            return x
        if reg == "grid":
            return [float(round(b) + r.randint(-2, 2)) for b in base]
        if reg == "bytes":
            mul, lo, hi = {"u1": (12, 0, 255), "i1": (6, -128, 127)}.get(
                self.dt, (150, -32768, 32767))
            if self.dt in ("u2", "u4", "u8"):
                lo, hi = 0, 65535
            add = {"u1": 128, "u2": 32768, "u4": 32768, "u8": 32768}.get(self.dt, 0)
            return [float(min(hi, max(lo, round(mul * (b + r.gauss(0, sd)) + add))))
                    for b in base]
        x = [b + r.gauss(0, sd) for b in base]
        if reg == "dups":
            if self.pool and r.random() < 0.6:
                return list(r.choice(self.pool))
            x = [round(v, 1) for v in x]
            self.pool.append(x)
        elif reg == "aniso":
            x = [b + r.gauss(0, sd) * (3.0 if j == 0 else 0.2) for j, b in enumerate(base)]
        elif reg in ("offset", "far"):
            x = [v + o for v, o in zip(x, self.offset)]
        elif reg == "tiny":
            x = [v * 1e-3 for v in x]
        elif reg == "large":
            x = [v * 1e3 for v in x]
        elif reg == "half":
            conv = f16 if self.dt == "f2" else f32
            x = [conv(v) for v in x]
        return [float(v) for v in x]

    def _cluster(self, m):
        r, k, p = self.rnd, self.k, self.pattern
        if p == "blocks":
            return min(k - 1, m * k // max(1, self.n_msg))
        if p == "robin":
            return m % k
        if p == "late":
            return r.randrange(max(1, k - 1)) if m < self.n_msg * 2 // 3 else r.randrange(k)
        if p == "skewed":
            return min(int(r.expovariate(1.2)), k - 1)
        if p == "alternate":
            return (m // 2) % k if r.random() < 0.8 else r.randrange(k)
        return r.randrange(k)

    def _naming(self):
        """A node's own names for the clusters: any distinct integers."""
        r, k = self.rnd, self.k
        style = r.choice(["zero", "zero", "one", "perm", "sparse", "negative", "huge", "alike"])
        if style == "zero":
            return list(range(k))
        if style == "one":
            return list(range(1, k + 1))
        if style == "perm":
            out = list(range(k))
        elif style == "sparse":
            out = r.sample(range(0, 50 * k + 50), k)
        elif style == "negative":
            out = list(range(-1, k - 1)) if r.random() < 0.5 else r.sample(range(-60 - k, 60 + k), k)
        elif style == "alike":
            # names that collide when truncated, hashed or compared loosely
            b = r.choice([0, 1, 5])
            pool = [b, b + 2 ** 8, b + 2 ** 16, b + 2 ** 31, b + 2 ** 32, -1, -2, b + 2 ** 61 - 1,
                    -b - 3, b + 2 ** 53, b + 2 ** 53 + 1, 10 + b, 100 + b, b - 2 ** 32]
            pool = sorted(set(pool))
            pool += [3 * 2 ** 33 + j for j in range(max(0, k - len(pool)))]
            out = r.sample(pool, k)
        elif self.cfg["wide"] and r.random() < 0.5:
            # beyond the machine word
            b = r.choice([2 ** 63, 2 ** 64, 10 ** 30])
            out = [r.choice([1, 1, -1]) * b * (1 + j % 3) + j for j in range(k)]
        else:
            out = [r.choice([1, -1]) * (2 ** 40 + j * 7919) for j in range(k)]
        r.shuffle(out)
        return out

    def _classes(self):
        r = self.rnd
        if self.cfg["only"]:
            return [self.cfg["only"]]
        want = weighted(r, self.cfg["classes"])
        names = list(sut.NAMES)
        if self.regime in ("far",):
            names = list(STABLE)
        if self.regime == "large":
            names = [n for n in names if n != "rCIP"]
        if self.k > 30:
            want = min(want, 2)
        want = min(want, len(names))
        return sorted(r.sample(names, want))

    # -- the run -----------------------------------------------------------
    def generate(self):
        r, cfg = self.rnd, self.cfg
        self._setup_data()
        n_nodes = r.randint(*cfg["nodes"])
        if self.k > 30:
            n_nodes = min(n_nodes, 2)
        classes = self._classes()
        self.nodes = []
        for _ in range(n_nodes):
            self.nodes.append({
                "classes": classes, "names": self._naming(),
                "ltype": r.choice(["int", "int", "int", "i8", "i8", "i4", "mix", "mix", "i2", "u1", "u8"]),
            })
        # swarm: a random subset of fault kinds and rates is on in this run
        on = (lambda p: p * r.choice([0, 1, 1, 2])) if cfg["swarm"] else (lambda p: p)
        self.rate = {k: on(cfg[k]) for k in
                     ("audit", "bad", "scribble", "crash", "ckpt", "fork", "fault", "batch",
                      "read", "ambient", "mirror")}
        netcfg = {"delay": 0.0, "drop": 0.0, "dup": 0.0, "heavy": 0.0, "part": 0.0}
        if cfg["net"]:
            netcfg = {"delay": r.choice([0.0, 0.5, 3.0, 10.0]), "drop": r.choice([0, 0, 0.05, 0.2]),
                      "dup": r.choice([0, 0, 0.05, 0.15]), "heavy": r.choice([0, 0.05]),
                      "part": r.choice([0, 0, 0.4])}
        self.netcfg = netcfg
        dedup = r.random() < cfg["dedup"]
        st = [{"up": True, "seen": set(), "since": [], "last": -1, "down_until": 0.0,
               "since_ck": set()} for _ in self.nodes]
        parts = []
        if r.random() < netcfg["part"]:
            for _ in range(r.randint(1, 2)):
                t0 = r.uniform(0, self.n_msg)
                parts.append((r.randrange(4), r.randrange(n_nodes), t0, t0 + r.uniform(2, 15)))
                self.net["partitions"] += 1

        for m in range(self.n_msg):
            c = self._cluster(m)
            self.data.append({"x": self._point(c), "c": c})
            t = m + r.uniform(0, 1.5)
            src = r.randrange(4)
            for node in range(n_nodes):
                self._send(t, src, node, m, parts)
        for node in range(n_nodes):
            if self.rate["crash"] and r.random() < self.rate["crash"]:
                for _ in range(r.randint(1, 3)):
                    self.at(r.uniform(1, self.n_msg + 5), "crash", node=node)

        bufs = r.random() < cfg["buffers"] or cfg["scribble"] > 0
        while self.heap:
            t, _, kind, kw = heapq.heappop(self.heap)
            self.now = t
            node = kw["node"]
            s = st[node]
            if kind == "deliver":
                m = kw["m"]
                if not s["up"]:
                    self.at(s["down_until"] + r.uniform(0.01, 3), "deliver", node=node, m=m)
                    self.net["redelivered"] += 1
                    continue
                if dedup and m in s["seen"]:
                    continue
                if m < s["last"]:
                    self.net["reordered"] += 1
                s["last"] = max(m, s["last"])
                self.net["delivered"] += 1
                self._around(node, s)
                op = dict(node=node, i=m, lay=r.choice("ccccsrofm"))
                if self.regime == "grid" and r.random() < 0.3:
                    op["dt"] = r.choice(["f8", "i8", "i4", "i2", "f4"])
                nd = self.nodes[node]
                lt = nd["ltype"]
                op["lt"] = r.choice(["int", "int", "i8", "i8", "i4", "i4", "i1", "u1", "i2", "u2", "u4",
                                      "u8"]) if lt == "mix" else lt
                if bufs and r.random() < 0.7:
                    op["buf"] = r.randrange(2)
                if self.rate["fault"] and r.random() < self.rate["fault"]:
                    kinds = ["interrupt"] * 3 + ["memory"] * 3 + ["error"] * 2 + ["exit", "timeout"]
                    op["fault"] = [r.choice(kinds), round(r.random(), 6)]
                    if r.random() < 0.2:
                        op["fault2"] = [r.choice(kinds), round(r.random(), 6)]
                    op["retry"] = r.random() < 0.6
                self.emit("upd", **op)
                s["seen"].add(m)
                s["since"].append(m)
                if self.rate["scribble"] and r.random() < self.rate["scribble"]:
                    self.emit("scribble", buf=r.randrange(2), how=r.choice(
                        ["nan", "zero", "shuffle", "next", "big"]), node=node)
            elif kind == "crash" and s["up"]:
                s["up"] = False
                s["down_until"] = t + r.uniform(0.5, 6)
                self.emit("crash", node=node, reimport=r.random() < 0.5)
                lost, s["since"] = s["since"], []
                s["seen"] = set(s["since_ck"])
                for m in lost:
                    if dedup or r.random() < 0.8:
                        self.at(s["down_until"] + r.uniform(0, 5), "deliver", node=node, m=m)
                        self.net["redelivered"] += 1
                self.at(s["down_until"], "up", node=node)
            elif kind == "up":
                s["up"] = True
        for node in range(n_nodes):
            if self.rate["audit"]:
                self.emit("audit", node=node, perm=r.randrange(1 << 30), how=r.choice("cf"))
        return {"nodes": self.nodes, "data": self.data, "ops": self.ops,
                "dt": self.dt, "dim": self.dim, "regime": self.regime,
                "pattern": self.pattern, "net": self.net, "dedup": dedup,
                "simtime": round(self.now, 3)}

    def _send(self, t, src, node, m, parts):
        r, nc = self.rnd, self.netcfg
        tries = 0
        while r.random() < nc["drop"] and tries < 4:
            self.net["dropped"] += 1
            tries += 1
            t += 4.0 * tries               # retransmission timer
        delay = r.uniform(0, nc["delay"])
        if r.random() < nc["heavy"]:
            delay += r.uniform(10, 60)
            self.net["delayed"] += 1
        for p_src, p_node, t0, t1 in parts:
            if p_src == src and p_node == node and t0 <= t + delay < t1:
                delay = t1 - t + r.uniform(0, 1)
        self.at(t + delay, "deliver", node=node, m=m)
        if r.random() < nc["dup"]:
            self.net["duplicated"] += 1
            self.at(t + delay + r.uniform(0, 8), "deliver", node=node, m=m)

    def _around(self, node, s):
        """Things that may happen between deliveries."""
        r, q = self.rnd, self.rate
        if q["bad"] and r.random() < q["bad"]:
            self.emit("bad", node=node, **bad_message(r, self.dim, self.k))
        if q["ckpt"] and r.random() < q["ckpt"]:
            self.emit("ckpt", node=node, how=r.choice(["p2", "p3", "p4", "p5", "deepcopy"]),
                      bundle=r.random() < 0.3)
            s["since_ck"] = set(s["seen"])
            s["since"] = []
        if q["audit"] and r.random() < q["audit"]:
            self.emit("audit", node=node, perm=r.randrange(1 << 30), how=r.choice("cf"))
        if q["mirror"] and r.random() < q["mirror"]:
            self.emit("mirror", node=node, perm=r.randrange(1 << 30))
        if q["fork"] and r.random() < q["fork"]:
            self.emit("fork", node=node, how=r.choice(["p2", "p5", "deepcopy"]))
        if q["read"] and r.random() < q["read"]:
            self.emit("read", node=node)
        if q["ambient"] and r.random() < q["ambient"]:
            self.emit("ambient", node=node, a=r.randrange(1 << 30))


BAD_KINDS = ("short", "long", "one", "empty", "zero_d", "three_d", "text", "object",
             "unhashable", "batch", "batch_one", "batch_bad", "four_d", "two_d_row",
             "batch_empty", "batch_scalar", "batch_double", "batch_text", "label_set",
             "three_d_batch", "label_array", "label_0d", "none")


def bad_message(r, dim, k, kinds=BAD_KINDS):
    """A message torn or corrupted on the way, which the library must refuse."""
    kind = r.choice(kinds)
    return {"kind": kind, "label": r.choice([0, 1, 2, 7, -3, 10 ** 6]),
            "u": round(r.random(), 6), "n": r.randint(2, 6)}
