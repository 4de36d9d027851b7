"""Locks the package makes for itself, as the scheduler's business.

A package that guards its objects with threading.Lock or RLock would, under a
scheduler that lets one thread run at a time, block on a lock whose owner is
parked.  So locks created by the package's code are made here: waiting for one
is a scheduling event, and a wait nobody can end is reported at once as
Deadlock instead of hanging.  Everybody else gets the real thing.
"""

import _thread
import sys
import threading

from . import sut

_real = {"Lock": threading.Lock, "RLock": threading.RLock}


class Deadlock(RuntimeError):
    pass


class SimLock:
    reentrant = False
    sched = None                  # the scheduler in charge, if any

    def __init__(self):
        self._held = _thread.allocate_lock()
        self._owner = None
        self._depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self.reentrant and self._owner == me:
            self._depth += 1
            return True
        if not self._held.acquire(False):
            if not blocking:
                return False
            if not self._wait(me, timeout):
                return False
        self._owner, self._depth = me, 1
        return True

    def _wait(self, me, timeout):
        sched = SimLock.sched
        task = None if sched is None or sched.free else sched.ident.get(me)
        if task is None:
            if self._owner == me and timeout < 0:
                raise Deadlock("waits for a lock it never gave back")
            return self._held.acquire(True, timeout if timeout >= 0 else 60) or self._late(timeout)
        while True:
            if not sched.wait(task, lambda: not self._held.locked()):
                if timeout >= 0:
                    return False
                raise Deadlock("waits for a lock nobody will give back")
            if self._held.acquire(False):
                return True

    def _late(self, timeout):
        if timeout >= 0:
            return False
        raise Deadlock("a lock was not given back within 60 s")

    def release(self):
        if self._depth == 0 or (self.reentrant and self._owner != _thread.get_ident()):
            raise RuntimeError("release unlocked lock")
        self._depth -= 1
        if self._depth == 0:
            self._owner = None
            self._held.release()

    def locked(self):
        return self._held.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle '_thread.%s' object" % (
            "RLock" if self.reentrant else "lock"))

    # what threading.Condition wants of an RLock
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        saved, self._depth, self._owner = self._depth, 0, None
        self._held.release()
        return saved

    def _acquire_restore(self, saved):
        self.acquire()
        self._depth = saved


class SimRLock(SimLock):
    reentrant = True


def _factory(name, cls):
    def make(*a, **k):
        f = sys._getframe(1)
        if f.f_code.co_filename == threading.__file__:
            f = f.f_back              # a Condition or Semaphore made by ...
        if f is not None and sut.in_package(f.f_code.co_filename):
            return cls()
        return _real[name](*a, **k)
    make.__name__ = name
    return make


def install():
    if getattr(threading.Lock, "__name__", "") == "Lock" and threading.Lock is not _real["Lock"]:
        return
    threading.Lock = _factory("Lock", SimLock)
    threading.RLock = _factory("RLock", SimRLock)
