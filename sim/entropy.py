"""Randomness from the operating system, as the simulator's business.

Nothing in the package draws any today; code that came to (an unseeded
generator, a uuid, a salted table) would draw it from here, so that a run
stays repeatable from its seed and the surroundings can vary it on purpose.
"""

import os
import random

import numpy as np

_pool = random.Random(0)
_real_seed = random.Random.seed
_installed = []


def draw(n):
    return _pool.getrandbits(8 * n).to_bytes(n, "little") if n else b""


def _seed(self, a=None, version=2):
    if a is None and self is not _pool:
        a = int.from_bytes(draw(16), "little")
    return _real_seed(self, a, version)


def install():
    if _installed:
        return
    _installed.append(True)
    os.urandom = random._urandom = draw
    random.Random.seed = _seed
    random.seed = random._inst.seed


def reseed(value, generators=True):
    """A new source, and the process-wide generators set to match."""
    if generators:
        random.seed(value)
        np.random.seed(value % (1 << 32))
    _real_seed(_pool, value)
