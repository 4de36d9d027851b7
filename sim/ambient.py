"""C12: one history replayed in many simulated environments."""

import _signal
import atexit
import builtins
import copyreg
import datetime
import decimal
import faulthandler
import gc
import hashlib
import io
import json
import locale
import logging
import os
import random
import resource
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import warnings

import numpy as np

from . import entropy, sut
from .core import Violation, hexval
from .runtime import array_of, bad_args, call, describe, refused_kinds

_watch = {"on": False, "hits": []}
_FORBIDDEN = ("socket.connect", "socket.bind", "socket.sendto", "subprocess.Popen", "os.system",
              "os.exec", "os.fork", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chdir",
              "os.putenv", "os.unsetenv", "os.kill", "os.truncate", "shutil.rmtree", "os.chmod")


def _audit(event, args):
    if not _watch["on"]:
        return
    if event in _FORBIDDEN:
        _watch["hits"].append(event)
    elif event == "open":
        path, mode, flags = (tuple(args) + (None, None, None))[:3]
        write = (isinstance(mode, str) and any(ch in mode for ch in "wax+")) or (
            mode is None and isinstance(flags, int)
            and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        if write:
            _watch["hits"].append("open %s for writing" % (path,))


_installed = False


def install_audit():
    global _installed
    if not _installed:
        sys.addaudithook(_audit)
        _installed = True


def snapshot():
    """Process-wide state a numeric library has no business changing."""
    st = np.random.get_state()
    return {
        "numpy random state": (hashlib.sha256(st[1].tobytes()).hexdigest(), st[2], st[3]),
        "random state": hash(random.getstate()),
        "numpy error handling": tuple(sorted(np.geterr().items())),
        "numpy print options": repr(sorted((k, repr(v)) for k, v in
                                           np.get_printoptions().items())),
        "warning filters": len(warnings.filters) and repr(warnings.filters),
        "environment": hash(frozenset(os.environ._data.items())),
        "working directory": os.getcwd(),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "threads": threading.active_count(),
        "recursion limit": sys.getrecursionlimit(),
        "decimal context": repr(decimal.getcontext()),
        "switch interval": sys.getswitchinterval(),
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "logging setup": (logging.root.level, len(logging.root.handlers),
                          logging.root.manager.disable),
        "signal handlers": tuple(map(id, map(_signal.getsignal, _SIGNALS))),
        "scheduling": (os.getpriority(os.PRIO_PROCESS, 0), os.sched_getaffinity(0)),
        "limits": (sys.get_int_max_str_digits(), faulthandler.is_enabled(),
                   resource.getrlimit(resource.RLIMIT_NOFILE),
                   resource.getrlimit(resource.RLIMIT_AS)),
        "builtins": hash(tuple(map(id, vars(builtins).values()))),
        "locale": locale.setlocale(locale.LC_ALL),
        "import path": tuple(sys.path),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook),
                  id(sys.gettrace()), id(sys.getprofile()), id(warnings.showwarning),
                  len(gc.callbacks), atexit._ncallbacks(), len(copyreg.dispatch_table),
                  len(sys.meta_path), len(sys.path_hooks)),
        "numpy error callback and buffer": (id(np.geterrcall()), np.getbufsize()),
        "socket timeout": socket.getdefaulttimeout(),
        "umask": _umask(),
    }


_SIGNALS = [getattr(signal, n) for n in ("SIGINT", "SIGTERM", "SIGALRM", "SIGPIPE", "SIGCHLD",
                                         "SIGHUP", "SIGUSR1")]


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def numpy_names():
    return {k: id(v) for k, v in vars(np).items()}


class Screen(io.StringIO):
    """Standard output and error while a call is being watched."""

    def fileno(self):
        raise OSError("no descriptor")


class Descriptor:
    """The standard output descriptor, watched for writes that bypass Python's streams."""

    def __enter__(self):
        sys.stdout.flush()
        self.fd = os.memfd_create("out")
        self.real = os.dup(1)
        os.dup2(self.fd, 1)
        self.seen = 0
        return self

    def grown(self):
        size = os.fstat(self.fd).st_size
        old, self.seen = self.seen, size
        return size != old

    def __exit__(self, *a):
        os.dup2(self.real, 1)
        os.close(self.real)
        os.close(self.fd)


class Environ(type(os.environ)):
    """os.environ that remembers which variables the package asked for."""

    asked = None

    def __getitem__(self, key):
        if Environ.asked is not None:
            f, depth = sys._getframe(1), 0
            while f is not None and depth < 6:
                if sut.in_package(f.f_code.co_filename):
                    Environ.asked.add(key)
                    break
                f, depth = f.f_back, depth + 1
        return super().__getitem__(key)


_asked = set()


def watch_environment():
    if not isinstance(os.environ, Environ):
        env = object.__new__(Environ)
        env.__dict__.update(os.environ.__dict__)
        os.environ = env
    Environ.asked = _asked


class SimDatetime(datetime.datetime):
    clock = None

    @classmethod
    def now(cls, tz=None):
        return datetime.datetime.fromtimestamp(abs(cls.clock.read()) % 4e9, tz)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


class SimClock:
    """Simulated time: skewed, and jumping both ways when told to."""

    NAMES = ("time", "monotonic", "perf_counter", "process_time", "thread_time")

    def __init__(self, rnd):
        self.rnd = rnd
        self.now = rnd.uniform(-1e9, 4e9)
        self.reads = 0
        self.saved = {}

    def read(self):
        self.reads += 1
        self.now += self.rnd.choice([0.0, 1e-6, 0.5])
        return self.now

    def jump(self):
        self.now += self.rnd.choice([-1e6, -1.0, 1.0, 3600.0, 1e8])

    def __enter__(self):
        for n in self.NAMES:
            self.saved[n] = getattr(time, n)
            setattr(time, n, self.read)
            self.saved[n + "_ns"] = getattr(time, n + "_ns")
            setattr(time, n + "_ns", lambda: int(self.read() * 1e9))
        self.saved["sleep"] = time.sleep
        time.sleep = lambda s=0: setattr(self, "now", self.now + float(s))
        self.datetime = datetime.datetime
        SimDatetime.clock = self
        datetime.datetime = SimDatetime
        self.pid, self.cpus = os.getpid, os.cpu_count
        pid, cpus = self.rnd.randrange(2, 4000000), self.rnd.choice([1, 2, 64, None])
        os.getpid, os.cpu_count = (lambda: pid), (lambda: cpus)
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(time, n, f)
        datetime.datetime = self.datetime
        os.getpid, os.cpu_count = self.pid, self.cpus


class Ambient:
    """Chooses and applies the surroundings; restores everything afterwards."""

    def __init__(self, seed):
        self.rnd = random.Random(seed)
        self.kinds = []

    def __enter__(self):
        r = self.rnd
        self.keep = {
            "np": np.random.get_state(), "rnd": random.getstate(), "err": np.geterr(),
            "cwd": os.getcwd(), "env": dict(os.environ), "gc": (gc.isenabled(), gc.get_threshold()),
            "rec": sys.getrecursionlimit(), "po": np.get_printoptions(),
            "wf": list(warnings.filters), "dec": decimal.getcontext().copy(),
            "sw": sys.getswitchinterval(),
        }
        self.clock = SimClock(r)
        self.clock.__enter__()
        self.scratch = tempfile.TemporaryDirectory(prefix="cvi-sim-")
        self.ballast = []
        entropy.reseed(r.randrange(1 << 60), generators=False)
        for _ in range(r.randint(1, 4)):
            self.shake()
        return self

    def shake(self):
        """One change of the surroundings."""
        r = self.rnd
        kind = r.choice(["npseed", "seed", "errstate", "cwd", "env", "gc", "print", "warn",
                         "clock", "heap", "decimal", "recursion", "switch"])
        self.kinds.append(kind)
        if kind == "npseed":
            np.random.seed(r.randrange(1 << 31))
        elif kind == "seed":
            random.seed(r.randrange(1 << 31))
        elif kind == "errstate":
            np.seterr(all=r.choice(["ignore", "warn"]))
        elif kind == "cwd":
            os.chdir(self.scratch.name if r.random() < 0.7 else "/")
        elif kind == "env":
            # first of all whatever the package itself looks at
            for key in sorted(_asked):
                os.environ[key] = r.choice(["", "0", "1", "1", "2", "1e-3", "true", "yes", "off",
                                            "debug", "/"])
            os.environ[r.choice(["LANG", "LC_ALL", "TZ", "HOME", "CVI_DEBUG", "DEBUG", "CI",
                                 "PYTHONOPTIMIZE", "SEED"])] = r.choice(["", "1", "de_DE", "/"])
        elif kind == "gc":
            (gc.disable if r.random() < 0.5 else gc.enable)()
            gc.set_threshold(r.choice([1, 50, 700, 100000]))
        elif kind == "print":
            np.set_printoptions(precision=r.choice([1, 3, 17]), suppress=r.random() < 0.5)
        elif kind == "warn":
            warnings.simplefilter(r.choice(["ignore", "default"]))
        elif kind == "clock":
            self.clock.jump()
        elif kind == "heap":
            # objects land at other addresses, with other alignments
            self.ballast = [np.zeros(r.randint(1, 65), "u1") for _ in range(r.randint(1, 60))]
            self.ballast += [object() for _ in range(r.randint(1, 500))]
        elif kind == "decimal":
            decimal.getcontext().prec = r.choice([3, 28, 50])
        elif kind == "recursion":
            sys.setrecursionlimit(r.choice([600, 1000, 5000]) + 200)
        elif kind == "switch":
            sys.setswitchinterval(r.choice([1e-6, 0.005, 0.1]))

    def __exit__(self, *a):
        k = self.keep
        self.clock.__exit__()
        np.random.set_state(k["np"])
        random.setstate(k["rnd"])
        np.seterr(**k["err"])
        os.chdir(k["cwd"])
        os.environ.clear()
        os.environ.update(k["env"])
        (gc.enable if k["gc"][0] else gc.disable)()
        gc.set_threshold(*k["gc"][1])
        sys.setrecursionlimit(k["rec"])
        np.set_printoptions(**k["po"])
        warnings.filters[:] = k["wf"]
        warnings._filters_mutated()
        decimal.setcontext(k["dec"])
        sys.setswitchinterval(k["sw"])
        self.scratch.cleanup()


def play(trace, ambient=None, watch=None):
    """The history in one environment -> list of observations."""
    out = []
    objs = {}
    data = trace["data"]
    last = None
    seen = Screen()
    for op in trace["ops"]:
        kind = op["op"]
        if kind == "ambient":
            if ambient is not None:
                ambient.shake()
                last = None
            continue
        if kind not in ("upd", "audit", "read", "bad"):
            continue
        spec = trace["nodes"][op["node"]]
        for c in spec["classes"]:
            key = (op["node"], c)
            if watch:
                screen = sys.stdout, sys.stderr
                sys.stdout = sys.stderr = seen
                before = last or snapshot()
                _watch["on"] = True
            try:
                if key not in objs:
                    objs[key] = (sut.make(c), [])
                o, log = objs[key]
                if kind == "upd":
                    msg = data[op["i"]]
                    x = array_of(msg["x"], trace["dt"], op.get("lay", "c"))
                    log.append(op["i"])
                    st, v = call(o, x, spec["names"][msg["c"]])
                elif kind == "read":
                    st, v = "ok", o.criterion_value
                elif kind == "bad":
                    if not refused_kinds(op, not log, trace["dim"]):
                        continue
                    xb, lb, _ = bad_args(op, trace["dim"], data, trace["dt"])
                    st, v = call(o, xb, lb)
                    v = v if st == "ok" else type(v).__name__
                else:
                    if len({data[i]["c"] for i in log}) < 2:
                        continue
                    order = list(log)
                    random.Random(op["perm"]).shuffle(order)
                    mat = np.array([data[i]["x"] for i in order], dtype=float).astype(trace["dt"])
                    labs = np.array([spec["names"][data[i]["c"]] for i in order])
                    st, v = call(sut.make(c), mat, labs)
            finally:
                _watch["on"] = False
                if watch:
                    last = after = snapshot()
                    sys.stdout, sys.stderr = screen
            what = {"upd": "update", "read": "read", "bad": "refused call"}.get(kind, "batch")
            out.append([op["node"], c, kind, hexval(v) if st == "ok" else
                        v if kind == "bad" else describe(v)])
            if watch:
                for item in before:
                    if before[item] != after[item]:
                        raise Violation("side-effect", "%s %s changed the process's %s" % (
                            c, what, item), cls=c)
                if seen.getvalue():
                    raise Violation("side-effect", "%s %s wrote %r to standard output" % (
                        c, what, seen.getvalue()[:60]), cls=c)
                if watch.grown():
                    raise Violation("side-effect", "%s %s wrote to the standard output descriptor"
                                    % (c, what), cls=c)
                if _watch["hits"]:
                    hit = _watch["hits"][0]
                    _watch["hits"].clear()
                    raise Violation("side-effect", "%s touched the outside world: %s" % (c, hit),
                                    cls=c)
    return out


def diff(base, got, where):
    for a, b in zip(base, got):
        if a != b:
            raise Violation("environment", "%s (%s): %s in one environment, %s with %s" % (
                a[1], a[2], a[3], b[3], where), cls=a[1])
    if len(base) != len(got):
        raise Violation("environment", "%d observations in one environment, %d with %s" % (
            len(base), len(got), where))


class AmbientExec:
    def __init__(self, trace):
        self.tr = trace
        self.stats = {"updates": 0, "compared": 0}
        self.events = []
        self.states = set()

    def bump(self, key, by=1):
        self.stats[key] = self.stats.get(key, 0) + by

    def run(self):
        install_audit()
        watch_environment()
        sut.restart()
        np_before = numpy_names()
        with Descriptor() as out:
            base = play(self.tr, watch=out)
        for k, v in numpy_names().items():
            if np_before.get(k, v) != v:
                raise Violation("side-effect", "numpy.%s was replaced" % k)
        self.bump("updates", len(base))
        self.events = base
        for seed in self.tr["ambients"]:
            with Descriptor() as out, Ambient(seed) as amb:
                # whatever is read at import time is read in these surroundings
                sut.restart()
                if seed % 3 == 0:
                    box = []
                    t = threading.Thread(target=lambda: box.append(self._try(amb, out)))
                    t.start()
                    t.join()
                    got = box[0]
                    amb.kinds.append("thread")
                else:
                    got = self._try(amb, out)
            for k in amb.kinds:
                self.bump("ambient_" + k)
                self.states.add((k, self.tr["regime"], self.tr["pattern"]))
            self.bump("clock_reads", amb.clock.reads)
            if isinstance(got, BaseException):
                raise got
            self.bump("compared", len(got))
            diff(base, got, "+".join(sorted(set(amb.kinds))))
        if self.tr.get("subprocess") is not None:
            self.elsewhere(base)
        return self.stats

    def _try(self, amb, out):
        try:
            return play(self.tr, ambient=amb, watch=out)
        except BaseException as e:         # noqa: B902
            return e

    def elsewhere(self, base):
        """The same history in another interpreter: hash seed, -O, locale, heap."""
        r = random.Random(self.tr["subprocess"])
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str(r.randrange(1, 4000000000))
        env["LC_ALL"] = r.choice(["C", "POSIX", "C.UTF-8"])
        env["TZ"] = r.choice(["UTC", "Asia/Tokyo"])
        cmd = [sys.executable, "-B"] + (["-O"] if r.random() < 0.5 else []) + [
            "-c", "import sys; sys.path.insert(0, %r); from sim import ambient; ambient.child()"
            % os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
        p = subprocess.run(cmd, input=json.dumps(self.tr), capture_output=True, text=True,
                           env=env, timeout=300)
        if p.returncode != 0:
            raise RuntimeError("child interpreter failed: " + p.stderr[-500:])
        got = json.loads(p.stdout.splitlines()[-1])
        self.bump("compared", len(got))
        self.bump("ambient_interpreter")
        self.states.add(("interpreter", self.tr["regime"], self.tr["pattern"]))
        diff(base, got, "another interpreter (hash seed %s)" % env["PYTHONHASHSEED"])


def child():
    trace = json.loads(sys.stdin.read())
    entropy.install()
    entropy.reseed(11)
    sut.restart()
    print(json.dumps(play(trace)))
