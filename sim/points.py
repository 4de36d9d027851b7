"""The seam inside a call: execution points of the package's own code.

Built on sys.monitoring (PEP 669), so the repository needs no hook.  Every code
object of the package reports the instructions at which real faults and real
preemptions happen:

  call    before a call: the callee fails (MemoryError, KeyboardInterrupt)
  after   just after a call returned: where CPython delivers an interrupt
  alloc   before an operator or subscript, which allocates
  enter   function entry, and
  loop    backward jumps: the interpreter's other interrupt points

`Points.arm(mode)` chooses what a point does: nothing, count, raise at the n-th
point, or hand the processor to a scheduler callback.
"""

import dis
import sys
import types

from . import sut

mon = sys.monitoring
TOOL = 3
E = mon.events

_ALLOC = {"BINARY_OP", "BINARY_SUBSCR", "STORE_SUBSCR", "BINARY_SLICE", "STORE_SLICE",
          "BUILD_LIST", "BUILD_MAP", "UNARY_NEGATIVE"}
_CALL = {"CALL", "CALL_FUNCTION_EX", "CALL_KW", "CALL_INTRINSIC_1"}
_LOOP = {"JUMP_BACKWARD"}
_ENTER = {"RESUME"}


def _kinds(code):
    """offset -> kind of point, for the offsets that are points."""
    out = {}
    prev = None                     # the instruction before
    nones = 0                       # consecutive "load None" before
    taken = False                   # a lock was just taken
    for ins in dis.get_instructions(code):
        name = ins.opname
        if name == "CACHE":
            continue
        kind = None
        if name in _CALL:
            kind = "call"
            if nones >= 3 and ins.arg == 2:
                kind = None         # leaving a with block: nothing gets in before __exit__
            elif prev.opname == "LOAD_ATTR" and prev.argval == "release":
                kind = None         # nor before a lock is given back
        elif name in _ALLOC:
            kind = "alloc"
        elif name in _LOOP:
            kind = "loop"
        elif name in _ENTER:
            kind = "enter"
        elif prev is not None and prev.opname in _CALL and name != "RETURN_GENERATOR" \
                and not taken:
            kind = "after"
        taken = name in _CALL and prev is not None and prev.opname == "LOAD_ATTR" \
            and prev.argval == "acquire"
        nones = nones + 1 if name == "LOAD_CONST" and ins.argval is None else 0
        prev = ins
        if kind:
            out[ins.offset] = kind
    return out


class Points:
    def __init__(self):
        # id(code) -> (code, {offset: kind}); code objects compare by content
        self.tables = {}
        self.installed = False
        self.generation = None
        self.active = False
        self.count = 0
        self.target = -1
        self.exc = None
        self.fired = None
        self.hook = None

    # -- installation ------------------------------------------------------
    def install(self):
        if self.installed:
            return
        mon.use_tool_id(TOOL, "cvi-sim")
        mon.register_callback(TOOL, E.PY_START, self._on_start)
        mon.register_callback(TOOL, E.INSTRUCTION, self._on_instruction)
        mon.set_events(TOOL, E.PY_START)
        self.installed = True

    def uninstall(self):
        if not self.installed:
            return
        mon.set_events(TOOL, 0)
        for code, _ in self.tables.values():
            mon.set_local_events(TOOL, code, 0)
        mon.register_callback(TOOL, E.PY_START, None)
        mon.register_callback(TOOL, E.INSTRUCTION, None)
        mon.free_tool_id(TOOL)
        self.tables.clear()
        self.generation = None
        mon.restart_events()
        self.installed = False

    def _on_start(self, code, offset):
        if id(code) not in self.tables and sut.in_package(code.co_filename):
            self._watch(code)
        return mon.DISABLE

    def _watch(self, code):
        if id(code) in self.tables:
            return
        self.tables[id(code)] = (code, _kinds(code))
        mon.set_local_events(TOOL, code, E.INSTRUCTION)
        for const in code.co_consts:
            if isinstance(const, types.CodeType):
                self._watch(const)

    def discover(self):
        """Instrument every function of the package as currently imported."""
        self.install()
        if self.generation == sut.generation():
            return
        self.generation = sut.generation()
        for name, mod in sorted(sys.modules.items()):
            if name != "cvi" and not name.startswith("cvi."):
                continue
            for obj in list(vars(mod).values()):
                self._discover(obj, 0)

    def _discover(self, obj, depth):
        if depth > 3:
            return
        if isinstance(obj, type):
            if sut.is_module(obj.__module__):
                for member in list(vars(obj).values()):
                    self._discover(member, depth + 1)
        elif isinstance(obj, (staticmethod, classmethod)):
            self._discover(obj.__func__, depth + 1)
        elif isinstance(obj, property):
            for f in (obj.fget, obj.fset):
                self._discover(f, depth + 1)
        else:
            while hasattr(obj, "__wrapped__"):
                code = getattr(obj, "__code__", None)
                if code is not None and sut.in_package(code.co_filename):
                    self._watch(code)
                obj = obj.__wrapped__
            code = getattr(obj, "__code__", None)
            if isinstance(code, types.CodeType) and sut.in_package(code.co_filename):
                self._watch(code)

    def _on_instruction(self, code, offset):
        kind = self.tables[id(code)][1].get(offset)
        if kind is None:
            return mon.DISABLE
        if not self.active:
            return None
        if self.hook is not None:
            self.hook(code, offset, kind)
            return None
        self.count += 1
        if self.count == self.target:
            self.fired = kind
            self.active = False
            raise self.exc
        return None

    # -- use ---------------------------------------------------------------
    def run_count(self, fn):
        """Number of points fn() passes; fn must not raise anything odd."""
        self.discover()
        self.count, self.target, self.exc, self.hook = 0, -1, None, None
        self.active = True
        try:
            fn()
        finally:
            self.active = False
        return self.count

    def run_fault(self, fn, nth, exc):
        """fn() with exc raised at its nth point.  -> (raised, value_or_exception)"""
        self.discover()
        self.count, self.target, self.exc, self.hook = 0, nth, exc, None
        self.fired = None
        self.active = True
        try:
            value = fn()
            return False, value
        except BaseException as e:      # noqa: B902 - injected faults are BaseExceptions
            return True, e
        finally:
            self.active = False


POINTS = Points()
