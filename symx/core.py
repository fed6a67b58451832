"""Symbolic execution engine.

The *real* functions of /repo are executed by the real CPython interpreter on
proxy objects whose values are z3 terms.  A branch on a proxy (``bool(x)``)
asks the solver which sides are feasible under the current path condition and
forks; exploration is a depth-first walk over the resulting decision tree,
re-executing the harness from the start for every path.  ``check`` asks the
solver for values that satisfy the path condition and falsify the assertion.
Every counterexample is replayed with plain Python values, without any shim,
before it is reported.
"""

from __future__ import annotations

import contextlib
import itertools
import os
import signal
import sys
import threading
import time
import uuid
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

import z3  # noqa: E402

REPO_PREFIX = os.environ.get("VERIF_DEV_PATH", "/repo/python") + "/"  # the variable is for trying planted bugs on a copy
VERIF_PREFIX = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/"


class EngineSignal(BaseException):
    """Base of everything the engine raises through code under test."""


class PathAbort(EngineSignal):
    """The current path is infeasible (assumption false)."""


class PathInconclusive(EngineSignal):
    """The solver said unknown, or a per-path budget ran out."""


class Nondeterminism(EngineSignal):
    """Re-execution of a decision prefix diverged."""


class StubGap(EngineSignal):
    """The code asked an environment stub for something it does not model."""


class PathTimeout(EngineSignal):
    """One execution of the harness took far longer than any normal one."""


class HarnessBug(EngineSignal):
    """The harness misused the engine."""


class Stub:
    """Base class of environment stand-ins."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise StubGap(f"{type(self).__name__}.{name}")


def outcome(fn, *args, **kwargs):
    """Run real code: ("ok", value) or ("exc", exception)."""
    try:
        return "ok", fn(*args, **kwargs)
    except (EngineSignal, KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException as err:
        # Python attaches frames and contexts to it; only the value matters
        return "exc", err


@contextlib.contextmanager
def time_limit(seconds):
    """Raise PathTimeout in this (main) thread after a while."""
    def handler(*_):
        raise PathTimeout()

    if threading.current_thread() is not threading.main_thread():
        yield
        return
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds, 5.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Violation(EngineSignal):
    """An assertion can be (or, in replay, is) false."""

    def __init__(self, label, model=None, detail=""):
        super().__init__(label)
        self.label = label
        self.model = model
        self.detail = detail


def _is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __slots__ = ("eng", "t")

    def __init__(self, eng, t):
        self.eng = eng
        self.t = t

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBool(Sym):
    __slots__ = ()

    def __bool__(self):
        return self.eng.fork(self.t)

    def __and__(self, o):
        return SymBool(self.eng, z3.And(self.t, tb(self.eng, o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(self.eng, z3.Or(self.t, tb(self.eng, o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(self.eng, z3.Xor(self.t, tb(self.eng, o)))

    __rxor__ = __xor__

    def __invert__(self):  # logical not (documented deviation from int ~)
        return SymBool(self.eng, z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return SymBool(self.eng, self.t == tb(self.eng, o))
        if isinstance(o, int) and o in (0, 1):
            return SymBool(self.eng, self.t == z3.BoolVal(bool(o)))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def _as_int(self):
        return SymInt(self.eng, z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._as_int() + o

    __radd__ = __add__


def tb(eng, x):
    """z3 Bool of anything boolean."""
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SymNum):
        return x.t != 0
    return z3.BoolVal(bool(x))


class SymNum(Sym):
    __slots__ = ()

    def _lift(self, o):
        raise NotImplementedError

    def _mk(self, t):
        return type(self)(self.eng, t)

    def _cmp(self, o, f):
        b = self._lift(o)
        if b is None:
            return NotImplemented
        return SymBool(self.eng, f(self.t, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        b = self._lift(o)
        if b is None:
            return False
        return SymBool(self.eng, self.t == b)

    def __ne__(self, o):
        b = self._lift(o)
        if b is None:
            return True
        return SymBool(self.eng, self.t != b)

    def __bool__(self):
        return self.eng.fork(self.t != 0)

    def __neg__(self):
        return self._mk(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return self._mk(z3.If(self.t < 0, -self.t, self.t))

    def _bin(self, o, f):
        if isinstance(self, SymInt) and isinstance(o, (float, Fraction, SymReal)):
            return SymReal(self.eng, z3.ToReal(self.t))._bin(o, f)
        b = self._lift(o)
        if b is None:
            return NotImplemented
        return self._mk(f(self.t, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: b * a)

    def _real(self):
        return self.t if isinstance(self, SymReal) else z3.ToReal(self.t)

    def __truediv__(self, o):
        b = SymReal(self.eng, z3.RealVal(0))._lift(o)
        if b is None:
            return NotImplemented
        if self.eng.fork(b == 0):
            raise ZeroDivisionError("division by zero")
        return SymReal(self.eng, self._real() / b)

    def __rtruediv__(self, o):
        b = SymReal(self.eng, z3.RealVal(0))._lift(o)
        if b is None:
            return NotImplemented
        if self.eng.fork(self.t == 0):
            raise ZeroDivisionError("division by zero")
        return SymReal(self.eng, b / self._real())

    def __float__(self):
        return float(self.eng.realise(self))


class SymInt(SymNum):
    __slots__ = ("const_hash",)

    def __init__(self, eng, t, const_hash=False):
        super().__init__(eng, t)
        self.const_hash = const_hash

    def _mk(self, t):
        return SymInt(self.eng, t, self.const_hash)

    def _lift(self, o):
        if isinstance(o, SymInt):
            return o.t
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        if isinstance(o, SymBool):
            return o._as_int().t
        if isinstance(o, SymReal):
            return o.t
        if isinstance(o, (float, Fraction)):
            return real_val(o)
        return None

    def _cmp(self, o, f):
        if isinstance(o, (float, Fraction, SymReal)):
            return SymReal(self.eng, z3.ToReal(self.t))._cmp(o, f)
        return super()._cmp(o, f)

    @staticmethod
    def _floordiv_t(a, b):
        bs = z3.simplify(b)
        if z3.is_int_value(bs):
            return a / b if bs.as_long() > 0 else (-a) / (-b)
        return z3.If(b > 0, a / b, (-a) / (-b))

    def _div(self, a, b):
        if self.eng.fork(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        return self._floordiv_t(a, b)

    def __floordiv__(self, o):
        b = self._lift(o)
        if b is None:
            return NotImplemented
        return self._mk(self._div(self.t, b))

    def __rfloordiv__(self, o):
        a = self._lift(o)
        if a is None:
            return NotImplemented
        return self._mk(self._div(a, self.t))

    def __mod__(self, o):
        b = self._lift(o)
        if b is None:
            return NotImplemented
        return self._mk(self.t - b * self._div(self.t, b))

    def __rmod__(self, o):
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        a = self._lift(o)
        return self._mk(a - self.t * self._div(a, self.t))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (self.__rfloordiv__(o), self.__rmod__(o))

    def __lshift__(self, o):
        return self * (1 << int(o))

    def __rshift__(self, o):
        return self // (1 << int(o))

    def __and__(self, o):
        # Only masks of the form 2**k - 1 stay symbolic.
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1) if o else self * 0
        return int(self) & int(o)

    __rand__ = __and__

    def __or__(self, o):
        return int(self) | int(o)

    __ror__ = __or__

    def __xor__(self, o):
        return int(self) ^ int(o)

    __rxor__ = __xor__

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = self * 0 + 1
            for _ in range(o):
                r = r * self
            return r
        return int(self) ** int(o)

    def __rpow__(self, o):
        return o ** int(self)

    def __hash__(self):
        if self.const_hash:
            return 7
        return hash(self.eng.realise(self))

    def __int__(self):
        return self.eng.realise(self)

    __index__ = __int__

    def bit_length(self, maxbits=160):
        a = z3.If(self.t < 0, -self.t, self.t)
        self.eng.assume(SymBool(self.eng, a < 2**maxbits))
        return SymInt(self.eng, z3.Sum([z3.If(a >= 2**k, z3.IntVal(1), z3.IntVal(0)) for k in range(maxbits)]))

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from .bytesx import SymBytes

        length = int(length)
        if byteorder != "big" or signed:
            return self.eng.realise(self).to_bytes(length, byteorder, signed=signed)
        if self < 0:
            raise OverflowError("can't convert negative int to unsigned")
        if self >= 256**length:
            raise OverflowError("int too big to convert")
        return SymBytes([(self, length)])


def real_val(o):
    if isinstance(o, float):
        if o != o or o in (float("inf"), float("-inf")):
            return None
        o = Fraction(o)
    return z3.Q(o.numerator, o.denominator)


class SymReal(SymNum):
    __slots__ = ()

    def _lift(self, o):
        if isinstance(o, SymReal):
            return o.t
        if isinstance(o, SymInt):
            return z3.ToReal(o.t)
        if isinstance(o, bool):
            return z3.RealVal(int(o))
        if isinstance(o, int):
            return z3.RealVal(o)
        if isinstance(o, (float, Fraction)):
            return real_val(o)
        return None

    def _cmp(self, o, f):
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            # f on plain numbers: the real is finite
            return f(0.0, o)
        return super()._cmp(o, f)

    def __hash__(self):
        return hash(self.eng.realise(self))

    def __int__(self):
        return int(self.eng.realise(self))

    def __round__(self, n=None):
        v = self.eng.realise(self)
        return round(v, n) if n is not None else round(v)


def ite(eng, c, a, b):
    """If-then-else on numbers without forking."""
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, SymReal) or isinstance(b, SymReal) or isinstance(a, float) or isinstance(b, float):
        z = SymReal(eng, z3.RealVal(0))
        return SymReal(eng, z3.If(c.t, z._lift(a), z._lift(b)))
    z = SymInt(eng, z3.IntVal(0))
    return SymInt(eng, z3.If(c.t, z._lift(a), z._lift(b)))


class Engine:
    """One exploration of one harness (symbolic mode)."""

    symbolic = True
    path_limit = 60.0
    known_labels: frozenset = frozenset()

    def __init__(self, *, max_paths=10**9, time_cap=1e9, query_ms=20000, max_decisions=4000, validate_every=25):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.solver.set("random_seed", int(os.environ.get("VERIF_SEED", "1") or 1))
        self.max_paths = max_paths
        self.time_cap = time_cap
        self.max_decisions = max_decisions
        self.validate_every = validate_every
        self.stats = dict(
            paths=0, aborted=0, inconclusive=0, decisions=0, forced=0, queries=0, solver_s=0.0, checks=0,
            checks_concrete=0, realisations=0, validated=0, unknown=0,
        )
        self.reached: dict[str, int] = {}
        self.functions: set[str] = set()
        self.exhausted = False
        self.samples: list = []
        self._prefix: list[list] = []  # [value, has_alternative, term-hash]
        self.pcs: list = []
        self.violations: list = []
        self.notes: dict = {}

    # -- solver ---------------------------------------------------------
    def _check(self, *extra):
        t0 = time.monotonic()
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.monotonic() - t0
        self.stats["queries"] += 1
        if r == z3.unknown:
            self.stats["unknown"] += 1
        return r

    def fork(self, term, prefer=None) -> bool:
        term = z3.simplify(term)
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        if self._aborted:
            raise PathAbort()
        n = len(self._trace)
        if n >= self.max_decisions:
            self._inconclusive("decision budget")
        key = term.hash()
        if n < len(self._prefix):
            val, _, k = self._prefix[n][:3]
            if k != key:
                raise Nondeterminism(f"decision {n} differs on re-execution: {term}")
            self._trace.append(self._prefix[n])
            self._assert(term if val else z3.Not(term))
            if n == len(self._prefix) - 1:
                self._model = None
            return val
        # which side does the current model take?
        if self._model is None:
            r = self._check()
            if r == z3.unknown:
                self._inconclusive("unknown")
            if r == z3.unsat:
                self._aborted = True
                raise PathAbort()
            self._model = self.solver.model()
        val = z3.is_true(self._model.eval(term, model_completion=True))
        other = z3.Not(term) if val else term
        r = self._check(other)
        if r == z3.unknown:
            self._inconclusive("unknown")
        has_alt = r == z3.sat
        if has_alt:
            self.stats["decisions"] += 1
        else:
            self.stats["forced"] += 1
        e = [val, has_alt, key]
        self._trace.append(e)
        self._prefix.append(e)
        if has_alt:
            self._assert(term if val else z3.Not(term))
        return val

    def _assert(self, term):
        self._pc.append(term)
        self.solver.add(term)

    def _inconclusive(self, why):
        self._aborted = True
        self.notes[why] = self.notes.get(why, 0) + 1
        raise PathInconclusive(why)

    def realise(self, x):
        t = z3.simplify(x.t)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return frac_py(t)
        self.stats["realisations"] += 1
        for _ in range(self.max_decisions):
            # the value must be reproducible on re-execution: ask a fresh
            # model only when extending the trace.
            n = len(self._trace)
            if n < len(self._prefix):
                v = self._prefix[n][3]
            else:
                if self._model is None:
                    r = self._check()
                    if r == z3.unknown:
                        self._inconclusive("unknown")
                    if r == z3.unsat:
                        self._aborted = True
                        raise PathAbort()
                    self._model = self.solver.model()
                v = self._model.eval(t, model_completion=True)
            before = len(self._trace)
            hit = self.fork(t == v)
            if len(self._trace) > before:
                e = self._trace[before]
                if len(e) == 3:
                    e.append(v)
            if hit:
                return v.as_long() if z3.is_int_value(v) else frac_py(v)
        self._inconclusive("realise")

    # -- variables ------------------------------------------------------
    def _new(self, name, mk):
        if name in self._vars:
            raise HarnessBug(f"duplicate symbolic variable {name}")
        v = mk(name)
        self._vars[name] = v
        return v

    def int(self, name, lo=None, hi=None, const_hash=False):
        v = self._new(name, z3.Int)
        if lo is not None:
            self.solver.add(v >= lo)
            self._dom.append(v >= lo)
        if hi is not None:
            self.solver.add(v <= hi)
            self._dom.append(v <= hi)
        if not ((lo is None or lo <= 0) and (hi is None or hi >= 0)):
            self._model = None  # model completion (0) may leave the domain
        return SymInt(self, v, const_hash)

    def bool(self, name):
        return SymBool(self, self._new(name, z3.Bool))

    def real(self, name, lo=None, hi=None):
        v = self._new(name, z3.Real)
        for c in ([v >= lo] if lo is not None else []) + ([v <= hi] if hi is not None else []):
            self.solver.add(c)
            self._dom.append(c)
        if not ((lo is None or lo <= 0) and (hi is None or hi >= 0)):
            self._model = None
        return SymReal(self, v)

    def choice(self, name, options):
        """A concrete element of options, selected by a symbolic index."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        lo, hi = 0, len(options) - 1
        while lo < hi:
            mid = (lo + hi) // 2
            if i <= mid:
                hi = mid
            else:
                lo = mid + 1
        return options[lo]

    def uuid(self, name):
        """A UUID whose 128-bit value is symbolic."""
        n = self.int(name, 0, 2**128 - 1, const_hash=True)
        u = object.__new__(uuid.UUID)
        object.__setattr__(u, "int", n)
        object.__setattr__(u, "is_safe", uuid.SafeUUID.unknown)
        return u

    def assume(self, c):
        t = z3.simplify(tb(self, c))
        if z3.is_true(t):
            return
        if z3.is_false(t):
            self._aborted = True
            raise PathAbort()
        self._pc_assume.append(t)
        self.solver.add(t)
        self._model = None
        # feasibility is discovered lazily, except when already extending
        if len(self._trace) >= len(self._prefix):
            r = self._check()
            if r == z3.unsat:
                self._aborted = True
                raise PathAbort()
            if r == z3.unknown:
                self._inconclusive("unknown")
            self._model = self.solver.model()

    def both(self, *cs):
        return SymBool(self, z3.And(*[tb(self, c) for c in cs])) if cs else True

    def any_of(self, *cs):
        return SymBool(self, z3.Or(*[tb(self, c) for c in cs])) if cs else False

    def implies(self, a, b):
        return SymBool(self, z3.Implies(tb(self, a), tb(self, b)))

    def ite(self, c, a, b):
        return ite(self, c, a, b)

    # -- assertions -----------------------------------------------------
    def check(self, cond, label, detail=""):
        """Assert cond for every value on this path."""
        if self._aborted:
            raise PathAbort()
        if isinstance(cond, Sym):
            t = z3.simplify(z3.Not(tb(self, cond)))
            self.stats["checks"] += 1
            if z3.is_false(t):
                return
            r = self._check(t)
            if r == z3.unsat:
                return
            if r == z3.unknown:
                self._inconclusive("unknown on assertion")
            raise Violation(label, self._values(self.solver.model()), detail)
        self.stats["checks_concrete"] += 1
        if not cond:
            r = self._check()
            if r == z3.unsat:
                self._aborted = True
                raise PathAbort()
            if r == z3.unknown:
                self._inconclusive("unknown on assertion")
            raise Violation(label, self._values(self.solver.model()), detail)

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def _values(self, model):
        out = {}
        for name, v in self._vars.items():
            m = model.eval(v, model_completion=True)
            if z3.is_bool(v):
                out[name] = z3.is_true(m)
            elif v.sort() == z3.IntSort():
                out[name] = m.as_long()
            else:
                f = m if z3.is_rational_value(m) else z3.simplify(m)
                if z3.is_algebraic_value(f):
                    f = f.approx(20)
                out[name] = {"num": f.numerator_as_long(), "den": f.denominator_as_long()}
        return out

    # -- shims ----------------------------------------------------------
    @contextlib.contextmanager
    def shim(self, module, **names):
        """Replace module globals while symbolic (no-op in replay)."""
        with patched(module, **names):
            yield

    # -- exploration ----------------------------------------------------
    def run_path(self, fn):
        self._trace = []
        self._pc = []
        self._pc_assume = []
        self._dom = []
        self._vars = {}
        self._model = None
        self._aborted = False
        self.solver.push()
        try:
            fn(self)
            if self._aborted:
                raise PathAbort()
        finally:
            # (values needed by callers are taken before pop)
            self._last_vars = dict(self._vars)

    def explore(self, fn, replay_fn=None):
        """Explore every path of fn; returns list of confirmed violations."""
        t_start = time.monotonic()
        confirmed: list = []
        seen_labels: set[str] = set()
        nondet = 0
        t_vio = None
        while True:
            first = self.stats["paths"] < 2
            try:
                outcome = "ok"
                values = None
                vio = None
                if first:
                    sys.setprofile(self._profile)
                try:
                    with time_limit(self.path_limit):
                        self.run_path(fn)
                except PathAbort:
                    outcome = "abort"
                except PathTimeout:
                    # only a replay that does not end either makes this a violation
                    outcome = "inconclusive"
                    self.notes["timeouts"] = self.notes.get("timeouts", 0) + 1
                    if self.notes["timeouts"] <= 2 and not self._aborted and self._check() == z3.sat:
                        outcome = "violation"
                        vio = Violation("does not terminate", self._values(self.solver.model()))
                except PathInconclusive:
                    outcome = "inconclusive"
                except Nondeterminism as err:
                    outcome = "nondet"
                    self.notes["nondeterminism"] = str(err)
                except StubGap as err:
                    outcome = "inconclusive"
                    self.notes.setdefault("stub_gaps", {}).setdefault(str(err), 0)
                    self.notes["stub_gaps"][str(err)] += 1
                except Violation as v:
                    outcome = "violation"
                    vio = v
                except KeyboardInterrupt:
                    raise
                except BaseException as err:
                    outcome = "harness_error"
                    import traceback
                    tb_text = traceback.format_exc()[-3000:]
                    if not self._aborted and raised_by_repo(err) and self._check() == z3.sat:
                        # decided by a replay on plain values, like any counterexample
                        outcome = "violation"
                        vio = Violation(f"unexpected {type(err).__name__}", self._values(self.solver.model()), str(err)[:200])
                    else:
                        self.notes.setdefault("harness_errors", []).append(tb_text)
                finally:
                    sys.setprofile(None)
                if self._aborted and outcome in ("violation", "harness_error"):
                    # an engine signal was swallowed by the code under test
                    outcome = "abort"
                if outcome == "ok":
                    self.stats["paths"] += 1
                    k = self.stats["paths"]
                    need_model = replay_fn is not None and (k <= 3 or k % self.validate_every == 0)
                    if need_model:
                        r = self._check()
                        if r == z3.sat:
                            values = self._values(self.solver.model())
                            if len(self.samples) < 3:
                                self.samples.append(values)
                elif outcome == "abort":
                    self.stats["aborted"] += 1
                elif outcome in ("inconclusive", "nondet", "harness_error"):
                    self.stats["inconclusive"] += 1
                    if outcome == "nondet":
                        nondet += 1
                elif outcome == "violation":
                    self.stats["paths"] += 1
            finally:
                self.solver.pop()
            if outcome == "violation":
                rep = Replay(vio.model)
                ok, label, detail = rep.run(replay_fn or fn)
                if ok:
                    if label not in seen_labels:
                        seen_labels.add(label)
                        confirmed.append(dict(label=label, values=vio.model, detail=detail or vio.detail))
                else:
                    self.stats["inconclusive"] += 1
                    kind = "boundary" if "<sym>" in vio.detail or "Sym" in vio.detail else "unreproduced"
                    self.notes.setdefault(kind, []).append(
                        dict(label=vio.label, values=_short(vio.model), replay=label, detail=vio.detail))
                fresh = [c for c in confirmed if c["label"] not in self.known_labels]
                if fresh and t_vio is None:
                    t_vio = time.monotonic()
                if fresh and (len(fresh) >= 5 or self.stats["paths"] > 2000 or time.monotonic() - t_vio > 15
                              or fresh[-1]["label"] == "does not terminate"):
                    break
            if outcome == "harness_error" and len(self.notes["harness_errors"]) > 20:
                break
            if values is not None:
                # validation of the engine: the same path, concretely, on the
                # unshimmed code, must also satisfy every assertion.
                ok, label, detail = Replay(values).run(replay_fn)
                self.stats["validated"] += 1
                if ok:
                    if label not in seen_labels:
                        seen_labels.add(label)
                        confirmed.append(dict(label=label, values=values, detail=detail))
            # backtrack
            while self._prefix and not self._prefix[-1][1]:
                self._prefix.pop()
            if not self._prefix:
                self.exhausted = nondet == 0
                break
            last = self._prefix[-1]
            nxt = [not last[0], False] + last[2:]
            self._prefix[-1] = nxt
            if self.stats["paths"] >= self.max_paths or time.monotonic() - t_start > self.time_cap or nondet > 20:
                break
        self.stats["wall_s"] = time.monotonic() - t_start
        self.violations = confirmed
        return confirmed

    def _profile(self, frame, event, arg):
        if event == "call":
            co = frame.f_code
            if co.co_filename.startswith(REPO_PREFIX):
                self.functions.add(co.co_filename[len(REPO_PREFIX):] + ":" + co.co_qualname)


def _short(m):
    s = str(m)
    return s if len(s) < 2000 else s[:2000] + "..."


def frac_py(t):
    f = Fraction(t.numerator_as_long(), t.denominator_as_long())
    return frac_to_num(f)


def frac_to_num(f):
    if f.denominator & (f.denominator - 1) == 0 and abs(f) < 2**52 and f.denominator < 2**30:
        return float(f)
    return f


def raised_by_repo(err):
    """Whether an exception that no harness expected was raised by the code
    under test itself, and not by (or for want of) one of our stand-ins."""
    last = None
    tb = err.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(REPO_PREFIX):
            last = "repo"
        elif f.startswith(VERIF_PREFIX):
            last = "verif"
        tb = tb.tb_next
    if last != "repo":
        return result_malformed(err)
    if isinstance(err, AttributeError):
        mod = getattr(type(err.obj), "__module__", "") or ""
        return not mod.startswith(("props", "symx")) and getattr(err.obj, "__module__", "") not in ("props", "symx")
    return not (isinstance(err, TypeError) and "argument" in str(err)) and not isinstance(err, (RecursionError, MemoryError))


def result_malformed(err):
    """Whether an oracle (and no stand-in called by the code under test) could
    not find in a result what it must contain."""
    if isinstance(err, EngineSignal):
        return False
    last = ""
    tb = err.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(REPO_PREFIX):
            return False
        if f.startswith(VERIF_PREFIX):
            last = f[len(VERIF_PREFIX):].lstrip("/")
        tb = tb.tb_next
    if not last.startswith("props/"):
        return False
    if isinstance(err, (AttributeError, TypeError)):
        return "NoneType" in str(err)
    return isinstance(err, (KeyError, IndexError, StopIteration)) or type(err).__name__ == "ValidationError" or (
        type(err) is ValueError and "unpack" in str(err))


class Replay:
    """Concrete mode of the same API: plain values, no shims."""

    symbolic = False
    path_limit = 40.0

    def __init__(self, values):
        self.values = values
        self.reached = {}
        self.used = set()

    def run(self, fn):
        """Return (violated, label, detail)."""
        try:
            with time_limit(self.path_limit):
                fn(self)
        except Violation as v:
            return True, v.label, v.detail
        except PathTimeout:
            return True, "does not terminate", f"no end after {self.path_limit} s"
        except PathAbort:
            return False, "assumption false on replay", ""
        except EngineSignal as e:
            return False, f"engine signal {e!r}", ""
        except KeyboardInterrupt:
            raise
        except BaseException as e:  # harness bug or unexpected exception type
            if raised_by_repo(e):
                return True, f"unexpected {type(e).__name__}", str(e)[:200]
            return False, f"exception {type(e).__name__}: {e}", ""
        return False, "assertion holds on replay", ""

    def int(self, name, lo=None, hi=None, const_hash=False):
        v = self.values.get(name)
        return int(v) if v is not None else (lo or 0)

    def bool(self, name):
        return bool(self.values.get(name, False))

    def real(self, name, lo=None, hi=None):
        v = self.values.get(name)
        if v is None:
            return float(lo or 0)
        return frac_to_num(Fraction(v["num"], v["den"]))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0)]

    def uuid(self, name):
        return uuid.UUID(int=self.int(name))

    def assume(self, c):
        if not c:
            raise PathAbort()

    def both(self, *cs):
        return all(bool(c) for c in cs)

    def any_of(self, *cs):
        return any(bool(c) for c in cs)

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def check(self, cond, label, detail=""):
        if not cond:
            raise Violation(label, self.values, detail)

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def realise(self, x):
        return x

    @contextlib.contextmanager
    def shim(self, module, **names):
        yield


_orig_uuid_str = uuid.UUID.__str__


def _uuid_str(self):
    # formatting a symbolic UUID (log and error messages) must not concretise
    return "<sym uuid>" if isinstance(self.int, Sym) else _orig_uuid_str(self)


uuid.UUID.__str__ = _uuid_str


_MISSING = object()


@contextlib.contextmanager
def patched(obj, **names):
    """Set attributes for the duration of a block (used in both modes for
    environment stubs, via `env`; `Engine.shim` only in symbolic mode)."""
    old = {}
    for k, v in names.items():
        old[k] = obj.__dict__.get(k, _MISSING)
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is _MISSING:
                delattr(obj, k)
            else:
                setattr(obj, k, v)
