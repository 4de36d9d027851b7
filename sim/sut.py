"""Loads the code under test from the repository's working tree.

`fresh()` imports the package anew, which is what a process restart means in
the simulation: every class, module global and cache is new and only bytes
(pickles) survive.
"""

import importlib
import importlib.machinery
import os
import sys

REPO = os.environ.get("CVI_SIM_REPO", "/repo")
SRC = os.path.realpath(os.path.join(REPO, "src"))
PKG = os.path.join(SRC, "cvi") + os.sep

# never trust bytecode left in the tree: it is matched by mtime and size only
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join("/nonexistent", "cvi-sim-no-pycache")
if sys.path[0] != SRC:
    sys.path.insert(0, SRC)

NAMES = ("CH", "cSIL", "DB", "GD43", "GD53", "PS", "rCIP", "WB", "XB")


_code = {}
_get_code = importlib.machinery.SourceFileLoader.get_code


def _cached_get_code(self, fullname):
    # one compilation per process: a restart re-executes the modules
    if not is_module(fullname):
        return _get_code(self, fullname)
    if fullname not in _code:
        _code[fullname] = _get_code(self, fullname)
    return _code[fullname]


importlib.machinery.SourceFileLoader.get_code = _cached_get_code


def _purge():
    for name in [m for m in sys.modules if m == "cvi" or m.startswith("cvi.")]:
        del sys.modules[name]


def fresh():
    """A new incarnation of the package."""
    _purge()
    importlib.invalidate_caches()
    mod = importlib.import_module("cvi")
    where = os.path.realpath(mod.__file__)
    if not where.startswith(PKG):
        raise RuntimeError("imported %s, not the tree under test" % where)
    return mod


_current = None
_generation = 0


def generation():
    return _generation


def current():
    if _current is None:
        restart()
    return _current


def restart():
    global _current, _generation
    _current = fresh()
    _generation += 1
    return _current


def make(name):
    return getattr(current(), name)()


def elsewhere():
    """Another incarnation, as if in another process: nothing the first one does
    reaches it.  The current one stays the one that imports and pickles see."""
    keep = {m: sys.modules[m] for m in sys.modules if is_module(m)}
    try:
        return fresh()
    finally:
        _purge()
        sys.modules.update(keep)


_inside = {}


def in_package(filename):
    if filename not in _inside:
        _inside[filename] = os.path.realpath(filename).startswith(PKG)
    return _inside[filename]


def is_module(name):
    return name == "cvi" or str(name).startswith("cvi.")
