"""What each property simulates: the generator of its worlds, its executor, and
how many runs make a quick and a thorough exploration."""

from . import entropy, sut
from .ambient import AmbientExec
from .core import stream, weighted
from .footprint import FootprintExec
from .streams import StreamExec
from .threads import ReaderExec, ThreadExec
from .twins import BufferExec, FaultExec, ModeExec, RefuseExec, RestoreExec
from .world import World, bad_message

SHORT = [(6, (6, 25)), (5, (25, 50)), (1, (50, 90))]
SMALL_DIMS = [(2, 1), (6, 2), (4, 3), (2, 4), (1, 6), (0.4, 9), (0.2, 17), (0.1, 33)]
SMALL_K = [(5, 2), (5, 3), (4, 4), (2, 6), (0.5, 10), (0.15, 17), (0.1, 34)]


def _world(rnd, **kw):
    return World(rnd, **kw).generate()


def _insert(rnd, ops, new, times):
    for _ in range(times):
        at = rnd.randint(0, len(ops))
        op = new()
        op.setdefault("t", ops[at - 1]["t"] if at else 0.0)
        ops.insert(at, op)


GROWN = dict(messages=[(1, (60, 140)), (2, (140, 330))], dims=[(1, 1), (3, 2), (1, 3), (1, 9), (1, 26)],
             clusters=[(1, 2), (1, 4), (2, 13), (1, 20), (1, 36)], classes=[(1, 1)])
KEEP = {"c05": 40, "c06": 40, "c07": 14, "c09": 60}


# Each class in turn with more samples, clusters or features than the limits people like to set.
VETERANS = [
    dict(messages=[(1, (1050, 1150)), (1, (2060, 2200))], dims=[(1, 1), (2, 2), (1, 3)],
         clusters=[(1, 2), (1, 3), (1, 4)]),
    dict(messages=[(1, (180, 300))], dims=[(1, 1), (2, 2), (1, 3)], clusters=[(1, 70), (1, 132)],
         regimes=[(3, "spaced"), (1, "overlap")]),
    dict(messages=[(1, (20, 45))], dims=[(2, 70), (2, 132), (1, 260)], clusters=[(1, 2), (1, 3)]),
]


def _veteran(rnd):
    """What is special about this run's object, if its number says so."""
    kind, which = divmod(rnd.index, len(sut.NAMES))
    if kind >= len(VETERANS):
        return None
    return dict(VETERANS[kind], only=sut.NAMES[which], classes=[(1, 1)])


def _attend(rnd, tr):
    """Let every cluster of a crowd show up early on: two samples each, or only one.
    Samples change places, so that each stays where its cluster is."""
    n = len(tr["nodes"][0]["names"])
    if n <= 30:
        return tr
    home = {}
    for m in tr["data"]:
        home.setdefault(m["c"], m["x"])
    # somebody for the clusters nobody came from
    spare = [m for m in tr["data"]]
    for c in range(n):
        if c not in home:
            home[c] = [v + 9.0 * (c + 1) for v in tr["data"][0]["x"]]
    times = rnd.choice([1, 2, 2])
    for j, c in enumerate(rnd.sample(range(n), n) if times == 1 else
                          [c for c in rnd.sample(range(n), n) for _ in range(2)]):
        if j < len(spare) and spare[j]["c"] != c:
            spare[j]["c"] = c
            spare[j]["x"] = [v + round(rnd.gauss(0, 0.4), 3) for v in home[c]]
    return tr


# lengths of a stream at which something special may happen
ROUND = sorted({v + j for v in (64, 100, 128, 200, 250, 256, 500, 512, 1000, 1024, 2000, 2048)
                for j in (-1, 0, 1)})


def _round(rnd, ops, new, share=1.0):
    """Something between two updates of a long stream, at round lengths."""
    out, n = [], 0
    for op in ops:
        out.append(op)
        if op["op"] == "upd":
            n += 1
            if n in ROUND and rnd.random() < share:
                out.append(dict(new(), node=0, t=op["t"]))
    return out


def _grown(rnd, share, which, **kw):
    """A share of the runs meets an object that has lived for long: many samples, clusters
    or features.  Only the end of its life is eventful.  None: an ordinary run, please."""
    vet = _veteran(rnd)
    if vet is None and rnd.random() >= share:
        return None
    over = dict(kw)
    over.update(vet or GROWN)
    if vet and which == "c07" and (1, 132) in vet["clusters"]:
        over["clusters"] = [(1, 66)]      # several histories are followed at once
    tr = _attend(rnd, _world(rnd, **over))
    last = max(0, len(tr["ops"]) - KEEP[which])
    early = []
    for op in tr["ops"][:last]:
        if op["op"] == "upd":
            op = {q: v for q, v in op.items() if q not in ("fault", "fault2", "retry", "buf")}
            early.append(op)
    if vet and which == "c06":
        k = len(tr["nodes"][0]["names"])
        early = _round(rnd, early, lambda: {"op": "bad", **bad_message(rnd, tr["dim"], k)})
    elif vet and which == "c07" and len(early) > 900:
        ups = early
        for n in rnd.sample([n for n in ROUND if n < len(ups)], 4):
            ups[n - 1].update(fault=[rnd.choice(["interrupt", "memory", "error"]),
                                     round(rnd.random(), 6)], retry=rnd.random() < 0.6)
    elif vet and which == "c09":
        early = _round(rnd, early, lambda: {
            "op": "ckpt", "how": rnd.choice(["p2", "p3", "p4", "p5", "deepcopy"])}, 0.2)
    tr["ops"] = early + tr["ops"][last:]
    tr["grown"] = len(early)
    return tr


def _bsize(rnd):
    """Rows and clusters of a batch: the smallest possible, ordinary, or large."""
    k = weighted(rnd, [(5, 2), (3, 3), (1, 5), (0.5, 13), (0.2, 33)])
    return {"n": weighted(rnd, [(2, k), (1, k + 1), (4, k + rnd.randint(2, 12)),
                                (1, 3 * k + rnd.randint(0, 60))]), "k": k}


def _newcomers(rnd, tr, share, last):
    """Now and then a share of the late samples founds clusters of their own."""
    if rnd.random() >= share:
        return tr
    late = sorted({op["i"] for op in tr["ops"][-last:] if op["op"] == "upd"})
    for i in late:
        if rnd.random() < 0.4:
            c = len(tr["nodes"][0]["names"])
            tr["data"][i]["c"] = c
            for node in tr["nodes"]:
                node["names"].append(max(node["names"]) + rnd.choice([1, 1, 7]))
    return tr


# -- generators ---------------------------------------------------------------
def gen_c01(rnd, tier):
    over = {}
    if rnd.index < len(sut.NAMES) or (tier == "thorough" and rnd.index % 500 == 0):
        return _marathon(rnd)
    if rnd.index < 2 * len(sut.NAMES):
        return _crowd(rnd, nodes=(1, 1), crash=0.25, ckpt=0.02, bad=0.02)
    if rnd.index < 3 * len(sut.NAMES):
        return _throng(rnd)
    if rnd.index < 4 * len(sut.NAMES):
        return _wide(rnd, crash=0.25, ckpt=0.04, bad=0.03)
    u = rnd.random()
    if tier == "thorough" and u < 0.02:
        over["messages"] = [(1, (1500, 5000))]
        over["clusters"] = SMALL_K
        over["dims"] = SMALL_DIMS
    elif u < 0.004:
        over["messages"] = [(1, (1100, 2500))]
        over["clusters"] = [(1, 2), (1, 3)]
        over["dims"] = [(1, 2)]
        over["classes"] = [(1, 9)]
    return _world(rnd, nodes=(1, 2), crash=0.25, ckpt=0.04, bad=0.03, scribble=0.04, wide=True,
                  **over)


def _marathon(rnd, size=70500):
    """One object, tens of thousands of samples, one cluster much larger than the rest."""
    k = rnd.choice([2, 3])
    dim = rnd.choice([1, 2, 3])
    size += rnd.randrange(1 + size // 100)
    return {"nodes": [{"classes": [sut.NAMES[rnd.index % len(sut.NAMES)]],
                       "names": rnd.sample(range(0, 40), k), "ltype": "int"}],
            "data": [], "dt": "f8", "dim": dim, "regime": "marathon", "pattern": "skewed",
            "net": {}, "simtime": float(size), "ops": [
                {"op": "flood", "node": 0, "t": 0.0, "n": size, "k": k, "minor": 0.05,
                 "shift": rnd.choice([0.0, 0.0, 30.0]), "seed": rnd.randrange(1 << 30)}]}


def _crowd(rnd, **over):
    """Each class in turn with more clusters than small capacities hold."""
    tr = _world(rnd, clusters=[(1, 70), (1, 140)], messages=[(1, (150, 320))],
                dims=[(1, 1), (2, 2), (1, 3)], regimes=[(1, "overlap"), (4, "spaced")],
                only=sut.NAMES[rnd.index % len(sut.NAMES)], **over)
    _attend(rnd, tr)
    tr["budget"] = 2.0
    return tr


def _throng(rnd, **over):
    """More clusters than a byte can number, each class in turn."""
    tr = _world(rnd, clusters=[(1, 262), (1, 275)], messages=[(1, (500, 560))], net=False,
                dims=[(1, 1), (2, 2)], regimes=[(1, "spaced")], nodes=(1, 1),
                only=sut.NAMES[rnd.index % len(sut.NAMES)], **over)
    _attend(rnd, tr)
    tr["budget"] = 2.0
    return tr


def _wide(rnd, **over):
    """More features than samples as a rule, each class in turn."""
    kw = dict(nodes=(1, 1), dims=[(1, 70), (2, 132), (1, 260), (2, 520)], messages=[(1, (24, 60))],
              clusters=[(1, 2), (1, 3)])
    only = sut.NAMES[rnd.index % len(sut.NAMES)]
    if only == "rCIP":
        kw["dims"] = [(1, 520)]          # powers of the number of features
    kw.update(over)
    tr = _world(rnd, only=only, **kw)
    tr["budget"] = 2.0
    return tr


def gen_c02(rnd, tier):
    if rnd.index < len(sut.NAMES):
        return _crowd(rnd, nodes=(1, 1), audit=0.01, swarm=False)
    if rnd.index < 2 * len(sut.NAMES) or (tier == "thorough" and rnd.index % 500 == 0):
        return _marathon(rnd)
    if rnd.index < 3 * len(sut.NAMES):
        return _throng(rnd, audit=0.004, swarm=False)
    if rnd.index < 4 * len(sut.NAMES):
        return _wide(rnd, audit=0.2, swarm=False)
    if rnd.index < 10 * len(sut.NAMES) or rnd.random() < 0.01:
        # clusters of the sizes at which work is commonly cut into blocks
        tr = _marathon(rnd, 100)
        op = tr["ops"][0]
        op["sizes"] = []
        for _ in range(op["k"]):
            block = rnd.choice([32, 64, 100, 128, 250, 256, 500, 512, 512, 1000, 1024, 2048, 4096])
            times = rnd.randint(1, max(1, min(9, 4100 // block)))
            op["sizes"].append(block * times + rnd.choice([-1, 0, 1, 2, 5]))
        op["n"] = sum(op["sizes"])
        tr["simtime"] = float(op["n"])
        return tr
    return _world(rnd, nodes=(1, 1), audit=0.12, crash=0.15, ckpt=0.04, bad=0.02,
                  messages=[(6, (8, 30)), (6, (30, 80)), (2, (80, 160)), (0.3, (300, 600))])


def gen_c03(rnd, tier):
    tr = _replicas(rnd)
    # at the end somebody starts from the log
    hows = [None] * rnd.choice([1, 1, 2])
    if rnd.index < 2 * len(sut.NAMES):
        hows = ["smallest", "largest", rnd.choice(["clusters", "reverse"])]
    for how in hows:
        tr["ops"].append({"op": "mirror", "node": rnd.randrange(len(tr["nodes"])), "how": how,
                          "t": tr["simtime"], "perm": rnd.randrange(1 << 30)})
    return tr


def _replicas(rnd):
    if rnd.index < 2 * len(sut.NAMES):
        return _crowd(rnd, nodes=(2, 2), dedup=1.0, crash=0.2, ckpt=0.02, mirror=0.01, swarm=False)
    if rnd.index < 3 * len(sut.NAMES):
        return _wide(rnd, nodes=(2, 2), dedup=1.0, crash=0.2, mirror=0.1, swarm=False)
    if rnd.index < 9 * len(sut.NAMES) or rnd.random() < 0.02:
        # many small clusters, compared all along
        return _world(rnd, nodes=(1, 2), dedup=1.0, ckpt=0.02, mirror=0.09, swarm=False,
                      clusters=[(1, 9), (2, 18), (2, 26), (1, 40)], messages=[(1, (30, 90))],
                      dims=[(1, 1), (2, 2), (1, 5)], only=sut.NAMES[rnd.index % len(sut.NAMES)],
                      regimes=[(3, "blobs"), (1, "overlap"), (1, "grid")])
    return _world(rnd, nodes=(2, 4), dedup=1.0, crash=0.2, ckpt=0.05, bad=0.02, mirror=0.03,
                  wide=True)


def gen_c05(rnd, tier):
    kw = dict(nodes=(1, 2), scribble=0.3, audit=0.04, buffers=0.7, read=0.2)
    return _grown(rnd, 0.03, "c05", **kw) or _world(rnd, messages=SHORT, **kw)


def gen_c06(rnd, tier):
    kw = dict(nodes=(1, 1), bad=0.5, swarm=False)
    tr = _grown(rnd, 0.04, "c06", **kw) or _world(
        rnd, messages=SHORT, classes=[(4, 9), (2, 3)], **kw)
    _newcomers(rnd, tr, 0.3, 40)
    dim, k = tr["dim"], len(tr["nodes"][0]["names"])
    _insert(rnd, tr["ops"], lambda: {"op": "bad", "node": 0, "kind": "batch_own",
                                     "label": 0, "u": 0.5, "n": 2}, rnd.choice([0, 1, 2]))
    # calls refused before the object has seen anything
    first = [{"op": "bad", "node": 0, "t": 0.0, **bad_message(rnd, dim, k)}
             for _ in range(rnd.choice([0, 0, 1, 3]))]
    tr["ops"][:0] = first
    _insert(rnd, tr["ops"], lambda: {
        "op": "batch", "node": 0, "seed": rnd.randrange(1 << 30), **_bsize(rnd),
        "bads": [bad_message(rnd, dim, k) for _ in range(rnd.randint(1, 4))]},
        rnd.choice([0, 1, 2]))
    return tr


def gen_c07(rnd, tier):
    kw = dict(nodes=(1, 1), fault=0.35, swarm=False)
    tr = _grown(rnd, 0.08, "c07", **kw) or _world(
        rnd, messages=SHORT, dims=SMALL_DIMS, clusters=SMALL_K,
        classes=[(2, 9), (3, 3), (3, 1)], **kw)
    _newcomers(rnd, tr, 0.4, 14)
    _insert(rnd, tr["ops"], lambda: {
        "op": "batch", "node": 0, "seed": rnd.randrange(1 << 30), **_bsize(rnd),
        "then": rnd.choice(["stream", "again"]),
        "fault": [rnd.choice(["interrupt", "memory", "error", "exit", "timeout"]),
                  round(rnd.random(), 6)]},
        rnd.choice([0, 2, 5]))
    return tr


def gen_c08(rnd, tier):
    vet = _veteran(rnd)
    grown = vet or rnd.random() < 0.04
    over = vet or (GROWN if grown else dict(messages=[(1, (6, 30))], dims=SMALL_DIMS,
                                            clusters=SMALL_K))
    tr = _attend(rnd, _world(rnd, nodes=(1, 1), **over))
    ups = [op for op in tr["ops"] if op["op"] == "upd"]
    ops = [dict(op) for op in ups] if grown else []
    if vet:
        ops = _round(rnd, ops, lambda: {"op": "batch", "seed": rnd.randrange(1 << 30),
                                        **_bsize(rnd), "odd": False})
    t = ops[-1]["t"] if ops else 0.0
    for _ in range(rnd.randint(4, 40)):
        t += rnd.random()
        kind = weighted(rnd, [(6, "upd"), (3, "batch"), (1, "new"), (1.5, "restart")])
        if kind == "upd":
            op = dict(rnd.choice(ups), t=round(t, 4))
        elif kind == "batch":
            op = {"op": "batch", "seed": rnd.randrange(1 << 30), **_bsize(rnd),
                  "odd": rnd.random() < 0.5}
            if rnd.random() < 0.2:
                op["k"] = 1
            earlier = [q for q in ops if q["op"] == "batch"]
            if earlier and rnd.random() < 0.4:
                op = dict(rnd.choice(earlier))
            elif rnd.random() < 0.15:
                op["own"] = True
        elif kind == "new":
            op = {"op": "new"}
        else:
            op = {"op": "restart", "how": rnd.choice(["p2", "p3", "p4", "p5", "deepcopy", "copy"])}
            if rnd.random() < 0.02:
                op["far"] = rnd.randrange(1, 1 << 30)
        op["t"] = round(t, 4)
        op["node"] = 0
        ops.append(op)
    tr["ops"] = ops
    tr["simtime"] = round(t, 3)
    return tr


def gen_c09(rnd, tier):
    kw = dict(nodes=(1, 1), crash=1.0, ckpt=0.15, fork=0.06, swarm=False)
    tr = _grown(rnd, 0.05, "c09", **kw) or _world(
        rnd, messages=[(6, (8, 30)), (5, (30, 70)), (1, (70, 130))], **kw)
    tr["ops"] = [op for op in tr["ops"] if op["op"] in ("upd", "ckpt", "crash", "fork")]
    _newcomers(rnd, tr, 0.3, 40)
    _insert(rnd, tr["ops"], lambda: {
        "op": "batchck", "node": 0, "seed": rnd.randrange(1 << 30), **_bsize(rnd),
        "how": rnd.choice(["p2", "p3", "p4", "p5", "deepcopy"])},
        rnd.choice([0, 1, 1]))
    if rnd.random() < 0.12:
        n = len(tr["data"])
        _insert(rnd, tr["ops"], lambda: {
            "op": "journey", "node": 0, "seed": rnd.randrange(1 << 30),
            "how": rnd.choice(["p2", "p3", "p4", "p5"]), "back": rnd.random() < 0.5,
            "lt": rnd.choice(["int", "i8", "i4"]),
            "idx": [rnd.randrange(n) for _ in range(rnd.choice([1, 4, 12]))]},
            rnd.choice([1, 1, 2]))
    return tr


def gen_c11(rnd, tier):
    over = dict(messages=SHORT + [(0.4, (120, 300))], crash=0.2, ckpt=0.05, audit=0.05)
    vet = _veteran(rnd)
    if vet:
        over = dict(vet, crash=0.2, ckpt=0.01, audit=0.01)
        if max(d for _, d in vet["dims"]) > 20:
            over.update(dims=[(1, 132), (1, 260)], audit=0.1)
            if vet["only"] == "rCIP":
                over.update(dims=[(1, 420)])
    tr = _attend(rnd, _world(rnd, nodes=(1, 1), net=False, **over))
    if vet:
        tr["budget"] = 2.0
    data, dim, k = tr["data"], tr["dim"], max(2, len(tr["nodes"][0]["names"]))
    tr["dt"] = "f8"
    for op in tr["ops"]:
        op.pop("dt", None)
    if len(tr["nodes"][0]["names"]) < 2:
        tr["nodes"][0]["names"] = [3, 8]
    # a degenerate prologue or middle, then ordinary life
    how = rnd.choice(["one", "dups", "coincident", "zero", "constant", "singletons", "line",
                      "flat", "mirror", "pair", "mixed"])
    n = len(data)
    a = rnd.choice([0, 0, rnd.randrange(n)])
    b = min(n, a + rnd.randint(1, max(2, 2 * n // 3)))
    kinds = [how] if how != "mixed" else [rnd.choice(
        ["one", "dups", "coincident", "zero", "constant", "singletons", "line", "flat", "pair"])
        for _ in range(3)]
    spot = [round(rnd.gauss(0, 3), 1) for _ in range(dim)]
    for j in range(a, b):
        kind = kinds[(j - a) * len(kinds) // max(1, b - a)]
        m = data[j]
        if kind == "one":
            m["c"] = data[a]["c"]
        elif kind == "dups":
            m["x"] = list(spot)
        elif kind == "coincident":
            # centroids coincide, scatter does not vanish
            off = [1.0 if t == 0 else 0.0 for t in range(dim)]
            sgn = 1 if (j - a) % 2 else -1
            m["x"] = [s + sgn * o for s, o in zip(spot, off)]
            m["c"] = ((j - a) // 2) % k
        elif kind == "pair":
            # two clusters share a centroid, the others live elsewhere
            if j % 3:
                q = (j - a) // 2
                m["x"] = [s + (1 if q % 2 else -1) * (1.0 if t == 0 else 0.0)
                          for t, s in enumerate(spot)]
                m["c"] = (q // 2) % 2
        elif kind == "zero":
            m["x"] = [0.0] * dim
        elif kind == "constant":
            m["x"] = [s + m["c"] for s in spot]
        elif kind == "singletons":
            m["c"] = (j - a) % k
        elif kind == "line":
            m["x"] = [float(j % 5)] + [0.0] * (dim - 1)
        elif kind == "flat":
            m["x"] = [spot[0]] + m["x"][1:]
        elif kind == "mirror":
            m["x"] = [-v for v in data[max(a, j - 1)]["x"]]
    for m in data:
        m["c"] = min(m["c"], k - 1)
    tr["degenerate"] = how
    return tr


def gen_c12(rnd, tier):
    over = dict(clusters=SMALL_K + [(0.2, 18), (0.1, 30)],
                messages=[(5, (6, 25)), (4, (25, 60)), (1, (60, 120)), (0.3, (150, 320))])
    kw = dict(nodes=(1, 2), audit=0.05, ambient=0.15, bad=0.08)
    vet = _veteran(rnd)
    if vet:
        over = vet
        kw = dict(nodes=(1, 1), audit=0.005, ambient=0.02, bad=0.03)
    tr = _attend(rnd, _world(rnd, swarm=False, **kw, **over))
    tr["ambients"] = [rnd.randrange(1 << 30) for _ in range(rnd.randint(2, 3))]
    tr["subprocess"] = rnd.randrange(1 << 30) if rnd.random() < 0.12 else None
    return tr


def gen_c10(rnd, tier):
    if rnd.index < len(sut.NAMES) or (tier == "thorough" and rnd.index % 150 == 0):
        n = rnd.choice([40000, 60000]) if tier == "quick" else rnd.choice([40000, 90000])
        k = rnd.choice([2, 3])
        return {"classes": [sut.NAMES[rnd.index % len(sut.NAMES)]], "k": k,
                "names": rnd.sample(range(-20, 300), k), "dim": rnd.choice([1, 2, 3]),
                "seed": rnd.randrange(1 << 30), "marks": [100, n], "haul": n, "counted": 1100,
                "window": 360, "dups": rnd.random() < 0.3, "bad": 0, "cut": 0, "restore": 0,
                "dt": "f8", "regime": "haul", "pattern": "random", "data": [], "ops": [],
                "simtime": float(n)}
    k = rnd.choice([1, 2, 2, 3, 3, 5, 8, 20])
    classes = sorted(rnd.sample(list(sut.NAMES), rnd.choice([1, 2, 3])))
    dim = weighted(rnd, SMALL_DIMS + [(1, 16 if k < 8 else 2)])
    kind = rnd.index // len(sut.NAMES)
    if kind in (1, 2):
        # a crowd, and many features, each class in turn
        classes = [sut.NAMES[rnd.index % len(sut.NAMES)]]
        k, dim = (rnd.choice([34, 66]), rnd.choice([1, 2])) if kind == 1 else (2, rnd.choice([66, 130]))
    names = rnd.sample(range(-20, 300), k)
    first = 40 + 4 * k
    last = rnd.choice([300, 500, 900]) if tier == "quick" else rnd.choice([600, 1500, 4000])
    if kind in (1, 2):
        last = 300
    return {"classes": classes, "k": k,
            "names": names, "dim": dim, "seed": rnd.randrange(1 << 30),
            "marks": [first, first + 450, first + 450 + last], "window": rnd.choice([360, 480]),
            "dups": rnd.random() < 0.3, "bad": rnd.choice([0, 0.05, 0.2]),
            "cut": rnd.choice([0, 0.03, 0.1]), "restore": rnd.choice([0, 0.02]),
            "dt": "f8", "regime": "steady", "pattern": "random", "data": [], "ops": [],
            "simtime": float(first + 450 + last)}


def _schedule(rnd, n):
    """Who runs, for how many execution points."""
    style = rnd.choice(["fine", "mixed", "mixed", "few", "bursts", "starve"])
    out = []
    if style == "few":
        for _ in range(rnd.randint(1, 6)):
            out.append([rnd.randrange(n), rnd.randint(1, 400)])
        return out
    for _ in range(rnd.randint(50, 700)):
        t = rnd.randrange(n)
        if style == "fine":
            q = rnd.randint(1, 4)
        elif style == "bursts":
            q = rnd.choice([1, 1, 2, 150])
        elif style == "starve":
            t = 0 if rnd.random() < 0.8 else t
            q = rnd.randint(1, 60)
        else:
            q = int(rnd.expovariate(1 / 25.0)) + 1
        out.append([t, q])
    return out


def gen_c04(rnd, tier):
    vet = _veteran(rnd)
    grown = vet or rnd.random() < 0.03
    over = vet or (dict(GROWN, classes=[(2, 1), (2, 3)]) if grown else dict(
        messages=[(6, (10, 40)), (2, (40, 90))], dims=SMALL_DIMS, clusters=SMALL_K))
    w = World(rnd, nodes=(1, 1), net=False, **over)
    base = _attend(rnd, w.generate())
    data = base["data"]
    pre = []
    n_tasks = rnd.choice([2, 2, 3, 4])
    one_class = rnd.random() < 0.5
    cls0 = rnd.choice(base["nodes"][0]["classes"])
    objs, tasks = {}, [[] for _ in range(n_tasks)]
    n_obj = rnd.randint(2, 5) if rnd.random() < 0.93 else rnd.randint(6, 24)
    tok = 0
    for o in range(n_obj):
        name = "o%d" % o
        cls = cls0 if one_class else rnd.choice(base["nodes"][0]["classes"])
        owners = [rnd.randrange(n_tasks)]
        if rnd.random() < 0.3 and n_tasks > 1:
            owners.append(rnd.choice([t for t in range(n_tasks) if t > owners[0]] or owners))
        if len(owners) == 2 and owners[0] == owners[1]:
            owners.pop()
        objs[name] = {"cls": cls, "names": w._naming(), "owners": owners,
                      "d": base["dim"] if rnd.random() < 0.6 else rnd.randint(1, base["dim"])}
        steps = [["new", name]]
        mode = rnd.random()
        if grown:
            # set up and fed by the main thread before the others start
            pre += steps + [["upd", name, i] for i in range(0, len(data), rnd.choice([1, 1, 3]))]
            steps, mode = [], 1.0
        if mode < 0.15:
            idx = rnd.sample(range(len(data)), min(len(data), rnd.choice([rnd.randint(2, 5), rnd.randint(6, 14), 40])))
            steps.append(["batch", name, idx])
            steps.append(["read", name])
        else:
            for _ in range(rnd.randint(4, 22)):
                u = rnd.random()
                if u < 0.06:
                    steps.append(["bad", name, bad_message(rnd, base["dim"], 3)])
                elif u < 0.14:
                    steps.append(["read", name])
                else:
                    steps.append(["upd", name, rnd.randrange(len(data))])
        if rnd.random() < 0.15 and len(owners) == 1:
            steps.append(["cut", name, rnd.randrange(len(data)),
                          rnd.choice(["interrupt", "memory", "error"]), rnd.randint(1, 140)])
        elif rnd.random() < 0.3:
            steps.append(["drop", name])
        if len(owners) == 2:
            cutpos = rnd.randint(1, len(steps))
            tok += 1
            tasks[owners[0]] += [(o, s) for s in steps[:cutpos]] + [(o, ["signal", tok])]
            tasks[owners[1]] += [(o, ["wait", tok, owners[0]])] + [(o, s) for s in steps[cutpos:]]
        else:
            tasks[owners[0]] += [(o, s) for s in steps]
    # each task interleaves its objects' steps, keeping the order per object
    out = []
    for steps in tasks:
        per = {}
        for o, s in steps:
            per.setdefault(o, []).append(s)
        merged = []
        style = rnd.choice(["serial", "merge", "merge"])
        keys = list(per)
        while keys:
            o = keys[0] if style == "serial" else rnd.choice(keys)
            merged.append(per[o].pop(0))
            if not per[o]:
                keys.remove(o)
        out.append(merged)
    return {"objs": objs, "tasks": out, "pre": pre, "schedule": _schedule(rnd, n_tasks), "data": data,
            "dt": base["dt"], "dim": base["dim"], "regime": base["regime"],
            "pattern": base["pattern"], "simtime": base["simtime"], "ops": []}


def gen_c13(rnd, tier):
    vet = _veteran(rnd)
    grown = vet or rnd.random() < 0.03
    over = vet or (GROWN if grown else dict(messages=[(1, (6, 30))], dims=SMALL_DIMS,
                                            clusters=SMALL_K))
    w = World(rnd, nodes=(1, 1), net=False, **over)
    base = _attend(rnd, w.generate())
    ops = []
    if not grown and rnd.random() < 0.15:
        n = len(base["data"])
        ops.append({"op": "batch", "idx": list(range(n))})
        ops += [{"op": "upd", "i": i} for i in range(min(2, n))]
        if len({m["c"] for m in base["data"]}) < 2:
            base["data"][0]["c"] = 0
            base["data"][-1]["c"] = 1
            if len(base["nodes"][0]["names"]) < 2:
                base["nodes"][0]["names"] = [0, 1]
    else:
        for i in range(len(base["data"])):
            ops.append({"op": "upd", "i": i})
            if rnd.random() < 0.1:
                ops[-1]["cut"] = [rnd.choice(["interrupt", "memory", "error"]),
                                  rnd.randint(1, rnd.choice([60, 200, 400]))]
            if rnd.random() < 0.08:
                ops.append({"op": "bad", **bad_message(rnd, base["dim"], 3)})
    readers = rnd.choice([1, 1, 2])
    sched = []
    for _ in range(rnd.randint(100, 900)):
        sched.append([0, rnd.choice([1, 2, 3, 7, 20, 60, 150])])
        sched.append([1 + rnd.randrange(readers), 1])
    return {"classes": sorted(rnd.sample(base["nodes"][0]["classes"],
                                         min(len(base["nodes"][0]["classes"]),
                                             rnd.choice([1, 1, 2])))),
            "pre": len(ops) - 8 if grown else 0,
            "names": base["nodes"][0]["names"], "readers": readers, "schedule": sched,
            "data": base["data"], "dt": base["dt"], "dim": base["dim"], "ops": ops,
            "regime": base["regime"], "pattern": base["pattern"], "simtime": base["simtime"]}


# -- registry ------------------------------------------------------------------
class Prop:
    def __init__(self, gen, execute, quick, thorough, minimise=("ops",)):
        self.gen = gen
        self.execute = execute
        self.quick = quick
        self.thorough = thorough
        self.minimise = minimise


PROPS = {
    "C01": Prop(gen_c01, lambda t: StreamExec(t, {"ref"}), 2000, 30000),
    "C02": Prop(gen_c02, lambda t: StreamExec(t, {"audit"}), 3000, 30000),
    "C03": Prop(gen_c03, lambda t: StreamExec(t, {"converge"}), 1600, 30000),
    "C04": Prop(gen_c04, ThreadExec, 8000, 30000),
    "C05": Prop(gen_c05, BufferExec, 5000, 30000),
    "C06": Prop(gen_c06, RefuseExec, 5000, 30000),
    "C07": Prop(gen_c07, FaultExec, 1300, 40000),
    "C08": Prop(gen_c08, ModeExec, 6000, 40000),
    "C09": Prop(gen_c09, RestoreExec, 2200, 30000),
    "C10": Prop(gen_c10, FootprintExec, 160, 3000),
    "C11": Prop(gen_c11, lambda t: StreamExec(t, {"alive"}), 5000, 40000),
    "C12": Prop(gen_c12, AmbientExec, 600, 12000),
    "C13": Prop(gen_c13, ReaderExec, 15000, 30000),
}


def trace_for(pid, seed, index, tier):
    rnd = stream(seed, pid, index)
    rnd.index = index
    tr = PROPS[pid].gen(rnd, tier)
    tr["property"] = pid
    tr["seed_path"] = [seed, pid, index]
    return tr


def run_trace(pid, trace):
    entropy.install()
    entropy.reseed(7)
    ex = PROPS[pid].execute(trace)
    ex.run()
    return ex
