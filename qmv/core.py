"""
qmv.core -- terms, path exploration and the prover.

The verifier runs the *real* functions of /repo (source extracted on every run, loops
rewritten mechanically, see qmv.loader) under CPython over symbolic values.  Every
symbolic branch forks the path; every path ends in the contract's postcondition, which
is handed to z3 (cvc5 when z3 answers unknown) under the path condition.

Numbers are mathematical: Python/numpy floats and C doubles are reals, integers are
unbounded (C int32 expressions additionally carry a no-overflow obligation).
"""
from __future__ import annotations

import contextlib
import fractions
import math
import os
import subprocess
import tempfile
import time

import z3

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


# --------------------------------------------------------------------------- control
class Control(BaseException):
    """Engine control flow: never caught by `except Exception` in verified code."""


class Infeasible(Control):
    pass


class Unsupported(Control):
    """The construct is outside the verifier's reach."""


class Enough(Control):
    """Several obligations failed: the verdict is in."""


class Abandon(Control):
    pass


# --------------------------------------------------------------------------- context
class Obligation:
    __slots__ = ("name", "status", "backend", "secs", "model", "detail", "goal", "where")

    def __init__(self, name, status, backend="", secs=0.0, model=None, detail="", where=""):
        self.name, self.status, self.backend = name, status, backend
        self.secs, self.model, self.detail, self.where = secs, model, detail, where


class GenFn:
    """Uninterpreted function with leading generic arguments."""

    def __init__(self, f, ks):
        self.f, self.ks = f, ks

    def __call__(self, *a):
        return self.f(*self.ks, *a)

    def name(self):
        return self.f.name()

    def range(self):
        return self.f.range()


class Ctx:
    def __init__(self):
        self.timeout_ms = int(os.environ.get("QMV_Z3_MS", "8000"))
        self.fork_ms = 2500
        self.scale = 1
        self.gave_up = 0       # side questions the solver did not answer in time
        self.results = []          # obligations of the whole run
        self.solver_secs = 0.0
        self.max_paths = 400
        self.max_failed = int(os.environ.get("QMV_MAX_FAILED", "3"))
        self.hard_reset()

    def hard_reset(self):
        self.pc = []
        self.dec = []
        self.n = 0
        self.trail = []
        self.pos = 0
        self.pending = []          # alternative trails discovered
        self.quiet = 0             # >0 : obligations are not recorded (discovery pass)
        self.skolems = []
        self.glob = []             # definitional facts about fresh symbols
        self.gfor = []             # definitional forall facts
        self.schemas = {}          # symbol name -> callables: (application, skolems) -> facts, see instantiate()
        self.memo = {}
        self.foralls = []          # (guard/body) callables k -> z3 Bool, instantiated at skolems
        self.psums = {}            # key -> (decl, body(k, params), nparams)
        self.decl2psum = {}
        self.logbuf = []
        self.markers = {}
        self.unroll = False        # while loops whose condition is decided are unrolled
        self.csv = None            # where DataFrame.to_csv is recorded
        self.extra_state = {}
        self.loop_depth = 0
        self.generic = []

    # -- names
    def raw(self, hint="v", sort=R):
        """Plain constant (loop indices, placeholders: things that get substituted away)."""
        self.n += 1
        return z3.Const(f"{hint}!{self.n}", sort)

    def fresh(self, hint="v", sort=R):
        """Unknown value.  Inside generic contexts it is a function of the generic indices."""
        self.n += 1
        if self.generic:
            return z3.Function(f"{hint}!{self.n}", *([g.sort() for g in self.generic]), sort)(*self.generic)
        return z3.Const(f"{hint}!{self.n}", sort)

    def fresh_fn(self, hint, *sorts):
        self.n += 1
        if self.generic:
            return GenFn(z3.Function(f"{hint}!{self.n}", *[g.sort() for g in self.generic], *sorts), tuple(self.generic))
        return z3.Function(f"{hint}!{self.n}", *sorts)

    def skolem(self, hint="i", sort=I):
        c = self.fresh(hint, sort)
        if sort == I:
            self.skolems.append(c)
        return c

    @contextlib.contextmanager
    def gen(self, *ks):
        """Generic context: symbols created inside depend on ks."""
        self.generic.extend(ks)
        try:
            yield
        finally:
            del self.generic[len(self.generic) - len(ks):]

    # -- facts about fresh symbols
    def define(self, fact, *about):
        """Definitional fact; instantiated at other values of the generic indices on demand."""
        self.glob.append(fact)
        if self.generic:
            self._lift(lambda sk: [fact], about)

    def define_forall(self, q, *about):
        self.gfor.append(q)
        if self.generic:
            self._lift(lambda sk: [f for f in (q(j) for j in sk) if f is not None], about)

    def _lift(self, facts, about):
        ks = tuple(self.generic)
        names = {(a.decl().name() if z3.is_expr(a) else a.name()) for a in about}
        n = len(ks)

        def schema(app, sk):
            if app.decl().name() not in names:
                return None
            lead = app.children()[:n]
            if all(a.eq(b) for a, b in zip(lead, ks)):
                return None
            return [z3.substitute(f, *zip(ks, lead)) for f in facts(sk)]
        self._register(schema, names)

    def _register(self, run, names):
        memo = {}

        def cached(app, sk):
            key = (app.get_id(), tuple(k.get_id() for k in sk))
            r = memo.get(key)
            if r is None:
                r = memo[key] = (run(app, sk), app, list(sk))      # terms kept alive: their ids stay theirs
            return r[0]
        for nm in names:
            self.schemas.setdefault(nm, []).append(cached)

    def schema(self, fn, *about):
        """fn(app, skolems) -> facts, for applications of the symbols in `about`."""
        ks = tuple(self.generic)
        names = {(a.decl().name() if z3.is_expr(a) else a.name()) for a in about}
        n = len(ks)

        def run(app, sk):
            if app.decl().name() not in names:
                return None
            if not n:
                return fn(app.decl().name(), tuple(app.children()), sk)
            ch = app.children()
            lead, rest = ch[:n], ch[n:]
            if all(a.eq(b) for a, b in zip(lead, ks)):
                return fn(app.decl().name(), tuple(rest), sk)
            ph = [z3.Const(f"lift!{i}!{c.sort()}", c.sort()) for i, c in enumerate(rest)]
            fs = fn(app.decl().name(), tuple(ph), sk)
            return [z3.substitute(f, *zip(ks, lead), *zip(ph, rest)) for f in fs or []]
        self._register(run, names)

    # -- decisions (branch conditions, as opposed to assumptions)
    def assume_branch(self, f):
        self.assume(f)
        self.dec.append(tobool(f))

    # -- assumptions
    def assume(self, f):
        f = tobool(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise Infeasible()
        self.pc.append(f)

    @contextlib.contextmanager
    def under(self, *fs):
        n = len(self.pc)
        m = len(self.foralls)
        self.pc.extend(tobool(f) for f in fs)
        try:
            yield
        finally:
            del self.pc[n:]
            del self.foralls[m:]

    # -- branching
    def choose(self, n, label=""):
        """Non-deterministic choice between n alternatives (all get explored)."""
        if n == 1:
            return 0
        if self.pos < len(self.trail):
            c = self.trail[self.pos]
        else:
            c = 0
            base = list(self.trail)
            for alt in range(n - 1, 0, -1):
                self.pending.append(base + [alt])
            self.trail.append(0)
        self.pos += 1
        return c

    def decide(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trail):
            v = self.trail[self.pos]
            self.pos += 1
            if v in (2, 3):           # forced decisions are replayed without re-asking
                return v == 2
            self.pc.append(c if v == 0 else z3.Not(c))
            self.dec.append(self.pc[-1])
            return v == 0
        can_t = quick_sat(self.pc + [c])
        can_f = quick_sat(self.pc + [z3.Not(c)])
        if can_t and can_f:
            self.pending.append(list(self.trail) + [1])
            self.trail.append(0)
            self.pos += 1
            self.pc.append(c)
            self.dec.append(c)
            return True
        if not can_t and not can_f:
            raise Infeasible()
        self.trail.append(2 if can_t else 3)
        self.pos += 1
        return can_t


C = Ctx()


def explore(fn, limit=None):
    """Run fn() once per feasible path.  fn must rebuild all its inputs itself."""
    outs = []
    work = [[]]
    n = 0
    while work:
        tr = work.pop()
        C.hard_reset()
        C.trail = list(tr)
        n += 1
        if n > (limit or C.max_paths):
            raise Unsupported(f"more than {limit or C.max_paths} paths")
        try:
            outs.append(fn())
        except Infeasible:
            pass
        work.extend(C.pending)
    return outs


def sub_explore(fn, limit=200):
    """Nested exploration (loop bodies). fn restores the heap itself.  Yields
    (branch decisions, result) per path; assumptions made on the way are not part of the
    decisions (they are obligations already recorded, or facts about fresh symbols)."""
    saved = (C.trail, C.pos, C.pending)
    base_pc = list(C.pc)
    base_for = list(C.foralls)
    base_dec = list(C.dec)
    base_sk = list(C.skolems)
    res = []
    work = [[]]
    try:
        while work:
            tr = work.pop()
            C.trail, C.pos, C.pending = list(tr), 0, []
            C.pc = list(base_pc)
            C.foralls = list(base_for)
            C.dec = list(base_dec)
            C.skolems = list(base_sk)
            try:
                r = fn()
                res.append((C.dec[len(base_dec):], r))
            except Infeasible:
                pass
            work.extend(C.pending)
            if len(res) > limit:
                raise Unsupported("too many paths in loop body")
    finally:
        C.trail, C.pos, C.pending = saved
        C.pc = base_pc
        C.foralls = base_for
        C.dec = base_dec
        C.skolems = base_sk
    return res


# --------------------------------------------------------------------------- scalars
def frac(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported("infinite literal in arithmetic")
        return z3.RealVal(str(fractions.Fraction(repr(x))))
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(str(x))
    raise Unsupported(f"not a number: {type(x)}")


def is_pynum(x):
    return isinstance(x, (int, float, fractions.Fraction)) or (
        type(x).__module__ == "numpy" and type(x).__name__ in NPSC)


NPSC = {"float64", "int64", "int32", "float32", "bool_", "bool"}


def pyval(x):
    return x.item() if type(x).__module__ == "numpy" else x


def tobool(f):
    if isinstance(f, SBool):
        return f.e
    if isinstance(f, bool):
        return z3.BoolVal(f)
    if isinstance(f, z3.BoolRef):
        return f
    if type(f).__name__ in ("bool_", "bool"):
        return z3.BoolVal(bool(f))
    raise Unsupported(f"not a boolean: {type(f)}")


def ex(x):
    """z3 arithmetic expression of a number-like value (nan-free)."""
    if isinstance(x, SNum):
        return x.e
    if isinstance(x, z3.ArithRef):
        return x
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if is_pynum(x):
        return frac(pyval(x))
    if hasattr(x, "_qm_num"):
        return x._qm_num().e
    raise Unsupported(f"number expected, got {type(x).__name__}")


def nanof(x):
    if isinstance(x, SNum):
        return x.nan
    if isinstance(x, float) and math.isnan(x):
        return z3.BoolVal(True)
    return None


def rl(e):
    return z3.ToReal(e) if e.sort() == I else e


def orn(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return z3.Or(a, b)


def num(x):
    """Lift to SNum."""
    if isinstance(x, SNum):
        return x
    if isinstance(x, z3.ArithRef):
        return SNum(x)
    if isinstance(x, (SBool, z3.BoolRef)):
        return SNum(ex(x))
    if is_pynum(x):
        x = pyval(x)
        if isinstance(x, float) and math.isnan(x):
            return SNum(z3.RealVal(0), nan=z3.BoolVal(True))
        return SNum(frac(x))
    if hasattr(x, "_qm_num"):
        return x._qm_num()
    raise Unsupported(f"number expected, got {type(x).__name__}")


def isnumlike(x):
    return isinstance(x, (SNum, SBool, z3.ArithRef)) or is_pynum(x)


class SBool:
    __slots__ = ("e",)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e if isinstance(e, z3.BoolRef) else tobool(e)

    def __bool__(self):
        return C.decide(self.e)

    def _l(self, o):
        if isinstance(o, (SBool, bool, z3.BoolRef)) or type(o).__name__ in ("bool_", "bool"):
            return tobool(o)
        return None

    def __and__(self, o):
        b = self._l(o)
        return NotImplemented if b is None else SBool(z3.And(self.e, b))

    __rand__ = __and__

    def __or__(self, o):
        b = self._l(o)
        return NotImplemented if b is None else SBool(z3.Or(self.e, b))

    __ror__ = __or__

    def __xor__(self, o):
        b = self._l(o)
        return NotImplemented if b is None else SBool(z3.Xor(self.e, b))

    __rxor__ = __xor__

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def __eq__(self, o):
        b = self._l(o)
        if b is None:
            if isnumlike(o):
                return SNum(ex(self)) == o
            return NotImplemented
        return SBool(self.e == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SBool(z3.Not(r.e)) if isinstance(r, SBool) else (not r)

    def __hash__(self):
        return id(self)

    def any(self):
        return self

    def all(self):
        return self

    def item(self):
        return self

    # arithmetic (sum of booleans)
    def __add__(self, o):
        return SNum(ex(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return SNum(ex(self)) * o

    __rmul__ = __mul__

    def __repr__(self):
        return f"SBool({self.e})"

    def __format__(self, spec):
        return marker(self, spec)

    def __str__(self):
        return marker(self, "")


class Repeated:
    """a text, n times"""

    def __init__(self, text, n):
        self.text, self.n = text, n


class SNum:
    """Symbolic number: z3 term (Int or Real) plus an optional NaN flag."""
    __slots__ = ("e", "nan")
    __array_ufunc__ = None
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, e, nan=None):
        self.e = e
        if nan is not None:
            nan = z3.simplify(nan)
            if z3.is_false(nan):
                nan = None
        self.nan = nan

    @property
    def isint(self):
        return self.e.sort() == I

    # ---- helpers
    def _bin(self, o, f, rev=False):
        if isinstance(o, float) and math.isinf(o):
            raise Unsupported("arithmetic with inf")
        if not isnumlike(o):
            return NotImplemented
        b = num(o)
        x, y = (b, self) if rev else (self, b)
        return SNum(f(x.e, y.e), orn(x.nan, y.nan))

    @staticmethod
    def _mix(a, b):
        if a.sort() == b.sort():
            return a, b
        return rl(a), rl(b)

    def __add__(self, o):
        return self._bin(o, lambda a, b: (lambda p: p[0] + p[1])(self._mix(a, b)))

    def __radd__(self, o):
        return self._bin(o, lambda a, b: (lambda p: p[0] + p[1])(self._mix(a, b)), True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: (lambda p: p[0] - p[1])(self._mix(a, b)))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: (lambda p: p[0] - p[1])(self._mix(a, b)), True)

    def __mul__(self, o):
        if isinstance(o, str):
            return Repeated(o, self)
        return self._bin(o, lambda a, b: (lambda p: p[0] * p[1])(self._mix(a, b)))

    def __rmul__(self, o):
        if isinstance(o, str):
            return Repeated(o, self)
        return self._bin(o, lambda a, b: (lambda p: p[0] * p[1])(self._mix(a, b)), True)

    def __truediv__(self, o):
        if isinstance(o, float) and math.isinf(o):
            return SNum(z3.RealVal(0))
        r = self._bin(o, lambda a, b: rdiv(rl(a), rl(b)))
        return r

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: rdiv(rl(a), rl(b)), True)

    def __floordiv__(self, o):
        return self._bin(o, floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, floordiv, True)

    def __mod__(self, o):
        return self._bin(o, floormod)

    def __rmod__(self, o):
        return self._bin(o, floormod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 6:
            r = SNum(z3.IntVal(1) if self.isint else z3.RealVal(1), self.nan)
            for _ in range(o):
                r = r * self
            return r
        if isinstance(o, float) and o == 0.5:
            return sqrt_(self)
        return power_(self, o)

    def __rpow__(self, o):
        return power_(num(o), self)

    def __neg__(self):
        return SNum(-self.e, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return SNum(z3.If(self.e >= 0, self.e, -self.e), self.nan)

    def _cmp(self, o, f, ne=False):
        if o is None:
            return ne
        if isinstance(o, float) and math.isinf(o):
            big = o > 0
            probe = f(z3.RealVal(0), z3.RealVal(1 if big else -1))
            r = z3.simplify(probe)
            if self.nan is not None:
                r = z3.And(z3.Not(self.nan), r) if not ne else z3.Or(self.nan, r)
            return SBool(r)
        if not isnumlike(o):
            return NotImplemented
        b = num(o)
        x, y = self._mix(self.e, b.e)
        r = f(x, y)
        n = orn(self.nan, b.nan)
        if n is not None:
            r = z3.Or(n, r) if ne else z3.And(z3.Not(n), r)
        return SBool(r)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, ne=True)

    def __hash__(self):
        v = z3.simplify(self.e)
        return hash(v.sexpr())

    def __bool__(self):
        r = self.e != 0
        if self.nan is not None:
            r = z3.Or(self.nan, r)
        return C.decide(r)

    def __index__(self):
        v = z3.simplify(self.e)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported(f"symbolic integer used as a Python index: {v}")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("float() of a symbolic value in an unmodelled place")

    def __round__(self, nd=None):
        return round_(self, nd)

    def __ceil__(self):
        return SNum(ceil_(self.e), self.nan)

    def __floor__(self):
        return SNum(floor_(self.e), self.nan)

    def __trunc__(self):
        return SNum(trunc_(self.e), self.nan)

    def __repr__(self):
        return f"SNum({self.e})"

    def __format__(self, spec):
        return marker(self, spec)

    def __str__(self):
        return marker(self, "")

    # numpy-scalar-like helpers
    def astype(self, t):
        return cast_(self, t)

    def item(self):
        return self

    def copy(self):
        return self

    def squeeze(self):
        return self

    @property
    def values(self):
        return self

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return "int64" if self.isint else "float64"

    def is_integer(self):
        if self.isint:
            return True
        return SBool(z3.IsInt(self.e))

    def any(self):
        return SBool(self.e != 0)

    all = any


def cast_(x, t):
    n = getattr(t, "__name__", str(t))
    if isinstance(x, SBool):
        x = SNum(ex(x))
    if "int" in n:
        return SNum(trunc_(x.e), x.nan)
    if "float" in n or "double" in n:
        return SNum(rl(x.e), x.nan)
    if "bool" in n:
        return SBool(x.e != 0)
    raise Unsupported(f"astype({n})")


DIV0 = z3.Function("div0", R, R)


def rdiv(a, b):
    return a / b


def floordiv(a, b):
    if a.sort() == I and b.sort() == I:
        if z3.is_int_value(b) and b.as_long() > 0:
            return a / b
        # z3's div rounds so that the remainder is >= 0 ; Python floors.
        return z3.If(b > 0, a / b, (-a) / (-b))
    return z3.ToReal(z3.ToInt(rl(a) / rl(b)))


def floormod(a, b):
    if a.sort() == I and b.sort() == I:
        if z3.is_int_value(b) and b.as_long() > 0:
            return a % b
        return z3.If(b > 0, a % b, -((-a) % (-b)))
    return rl(a) - rl(b) * z3.ToReal(z3.ToInt(rl(a) / rl(b)))


def floor_(e):
    return e if e.sort() == I else z3.ToInt(e)


def ceil_(e):
    return e if e.sort() == I else -z3.ToInt(-e)


def trunc_(e):
    if e.sort() == I:
        return e
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


def rint_(e):
    """Round half to even, as an integer term."""
    if e.sort() == I:
        return e
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    half = z3.RealVal("1/2")
    return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


def round_(x, nd=None):
    x = num(x)
    if nd is None or (isinstance(nd, int) and nd == 0 and x.isint):
        return SNum(rint_(x.e), x.nan)
    if isinstance(nd, int):
        p = z3.RealVal(10 ** abs(nd)) if nd >= 0 else z3.RealVal(f"1/{10 ** abs(nd)}")
        return SNum(z3.ToReal(rint_(rl(x.e) * p)) / p, x.nan)
    return SNum(ROUND(rl(x.e), ex(nd)), x.nan)


ROUND = z3.Function("round_nd", R, I, R)
EXP = z3.Function("exp", R, R)
LOG = z3.Function("log", R, R)
LOG10 = z3.Function("log10", R, R)
SQRT = z3.Function("sqrt", R, R)
POW = z3.Function("pow", R, R, R)
SIN = z3.Function("sin", R, R)
COS = z3.Function("cos", R, R)


def exp_(x):
    x = num(x)
    return SNum(EXP(rl(x.e)), x.nan)


def log_(x):
    x = num(x)
    return SNum(LOG(rl(x.e)), orn(x.nan, z3.simplify(rl(x.e) < 0)))


def log10_(x):
    x = num(x)
    return SNum(LOG10(rl(x.e)), orn(x.nan, z3.simplify(rl(x.e) < 0)))


def sqrt_(x):
    x = num(x)
    return SNum(SQRT(rl(x.e)), x.nan)


def power_(a, b):
    a, b = num(a), num(b)
    vb = z3.simplify(b.e)
    if z3.is_int_value(vb) and 0 <= vb.as_long() <= 6:
        return a ** vb.as_long()
    if z3.is_rational_value(vb) and vb.as_fraction() == fractions.Fraction(1, 2):
        return sqrt_(a)
    if z3.is_rational_value(vb) and vb.denominator_as_long() == 1 and 0 <= vb.numerator_as_long() <= 6:
        return a ** vb.numerator_as_long()
    return SNum(POW(rl(a.e), rl(b.e)), orn(a.nan, b.nan))


def ite(c, a, b):
    """If over values: numbers, booleans, or structured values with _qm_ite."""
    if isinstance(c, bool):
        return a if c else b
    c = tobool(c)
    cs = z3.simplify(c)
    if z3.is_true(cs):
        return a
    if z3.is_false(cs):
        return b
    if a is b:
        return a
    if hasattr(a, "_qm_ite") or hasattr(b, "_qm_ite"):
        h = a if hasattr(a, "_qm_ite") else b
        return h._qm_ite(c, a, b)
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(z3.If(c, tobool(a), tobool(b)))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isnumlike(a) and isnumlike(b):
        x, y = num(a), num(b)
        p, q = SNum._mix(x.e, y.e)
        n = None
        if x.nan is not None or y.nan is not None:
            n = z3.If(c, x.nan if x.nan is not None else z3.BoolVal(False),
                      y.nan if y.nan is not None else z3.BoolVal(False))
        if type(x) is type(y) and type(x) is not SNum:
            return x._wrap(z3.If(c, p, q))
        return SNum(z3.If(c, p, q), n)
    if type(a) is type(b) and not isinstance(a, (list, dict)):
        try:
            if a == b:
                return a
        except Control:
            raise
        except Exception:
            pass
    raise Unsupported(f"cannot merge {type(a).__name__} and {type(b).__name__}")


def real(e):
    """an exception that the library the model stands for raises too"""
    e._qm_real = True
    return e


# --------------------------------------------------------------------------- markers
class MStr(str):
    """the text of one symbolic value"""

    def _again(self, how):
        v, spec = unmark(self)
        if spec:
            raise Unsupported("text formatted twice")
        return marker(v, how)

    def zfill(self, n):
        return self._again(f"0{n}")

    def rjust(self, n, fill=" "):
        return self._again(f"{fill}>{n}")

    def ljust(self, n, fill=" "):
        return self._again(f"{fill}<{n}")

    def _no(self, *a, **k):
        raise Unsupported("character of the text of a value")

    def __bool__(self):
        return True
    __getitem__ = __len__ = __iter__ = split = strip = lstrip = rstrip = startswith = endswith = find = upper = lower = center = _no


def marker(v, spec=""):
    return MStr(marker_(v, spec))


def marker_(v, spec):
    """Symbolic value inside a native string: opaque token, decodable."""
    key = (repr(z3.simplify(v.e)) if hasattr(v, "e") else repr(v)) + "|" + spec
    for k, (kk, vv, sp) in C.markers.items():
        if kk == key:
            return f"\u27e8{k}\u27e9"
    k = len(C.markers) + 1
    C.markers[k] = (key, v, spec)
    return f"\u27e8{k}\u27e9"


def unmark(s):
    """value, spec of a string that is exactly one marker (else None)."""
    import re
    if hasattr(s, "_qm_unmark"):
        return s._qm_unmark()
    m = re.fullmatch("\u27e8(\\d+)\u27e9", s)
    if not m:
        return None
    _, v, sp = C.markers[int(m.group(1))]
    return v, sp


# --------------------------------------------------------------------------- sums
def _free_of(e, v):
    return not contains(e, v)


_contains_cache = {}


def contains(e, v):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if x.eq(v):
            return True
        st.extend(x.children())
    return False


def _linear_parts(e, k):
    """Split e into [(coef (k-free), atom)] ; atom may be None for the k-free part."""
    if _free_of(e, k):
        return [(e, None)]
    d = e.decl().kind()
    if d == z3.Z3_OP_ADD:
        out = []
        for c in e.children():
            out += _linear_parts(c, k)
        return out
    if d == z3.Z3_OP_SUB:
        cs = e.children()
        out = _linear_parts(cs[0], k)
        for c in cs[1:]:
            out += [(-a, b) for a, b in _linear_parts(c, k)]
        return out
    if d == z3.Z3_OP_UMINUS:
        return [(-a, b) for a, b in _linear_parts(e.children()[0], k)]
    if d == z3.Z3_OP_MUL:
        free = [c for c in e.children() if _free_of(c, k)]
        dep = [c for c in e.children() if not _free_of(c, k)]
        if free:
            co = free[0]
            for f in free[1:]:
                co = co * f
            rest = dep[0]
            for f in dep[1:]:
                rest = rest * f
            return [(co * a, b) for a, b in _linear_parts(rest, k)]
        return [(z3.RealVal(1), e)]
    if d == z3.Z3_OP_DIV:
        n_, d_ = e.children()
        if _free_of(d_, k):
            return [(a / d_, b) for a, b in _linear_parts(n_, k)]
        return [(z3.RealVal(1), e)]
    if d == z3.Z3_OP_TO_REAL:
        c = e.children()[0]
        if c.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_ITE):
            return _linear_parts(push_real(c), k)
        return [(z3.RealVal(1), e)]
    if d == z3.Z3_OP_ITE:
        c, a, b = e.children()
        if _free_of(c, k):
            pa, pb = _linear_parts(a, k), _linear_parts(b, k)
            zero = z3.RealVal(0)
            return [(z3.If(c, x, zero), y) for x, y in pa] + \
                   [(z3.If(c, zero, x), y) for x, y in pb]
        # factor a common structure If(c,x,0): keep atomic
        return [(z3.RealVal(1), e)]
    return [(z3.RealVal(1), e)]


def push_real(c):
    d = c.decl().kind()
    if d == z3.Z3_OP_ADD:
        r = None
        for x in c.children():
            y = push_real(x)
            r = y if r is None else r + y
        return r
    if d == z3.Z3_OP_SUB:
        cs = c.children()
        r = push_real(cs[0])
        for x in cs[1:]:
            r = r - push_real(x)
        return r
    if d == z3.Z3_OP_UMINUS:
        return -push_real(c.children()[0])
    if d == z3.Z3_OP_ITE:
        a, x, y = c.children()
        return z3.If(a, push_real(x), push_real(y))
    if z3.is_int_value(c):
        return z3.RealVal(c.as_long())
    return z3.ToReal(c)


def _find_shift(e, k):
    """First maximal Int subterm of the form k + c (c k-free): returns c."""
    st = [e]
    order = []
    seen = set()
    while st:
        x = st.pop(0)
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.sort() == I and contains(x, k):
            c = z3.simplify(x - k, som=True)
            if _free_of(c, k):
                return c
        st[0:0] = x.children()
    return None


def ssum_raw(lo, hi, fn):
    """Sum of fn(k) for lo <= k < hi assuming lo <= hi ; fn: z3 Int -> z3 term."""
    k = C.raw("k", I)
    with C.gen(k):
        body = fn(k)
    body = rl(body) if body.sort() == I else body
    body = z3.simplify(body, som=True)
    body = z3.simplify(tidy(body, k, lo, hi), som=True)
    total = z3.RealVal(0)
    parts = _linear_parts(body, k)
    for coef, atom in parts:
        coef = rl(coef) if coef.sort() == I else coef
        if atom is None:
            total = total + coef * z3.ToReal(hi - lo)
            continue
        sh = _find_shift(atom, k)
        if sh is None:
            sh = z3.IntVal(0)
        cur = z3.simplify(z3.substitute(atom, (k, k - sh)), som=True)
        total = total + coef * (psum(cur, k, hi + sh) - psum(cur, k, lo + sh))
    return z3.simplify(total)


def _bound_atom(c, k, lo, hi):
    """truth of a comparison of k with something, from lo <= k < hi (None: unknown)"""
    kd = c.decl().kind()
    if kd not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        return None
    a, b = c.children()
    if a.sort() != I:
        return None
    d = z3.simplify(a - b - k)
    if contains(d, k):
        d = z3.simplify(a - b + k)
        if contains(d, k):
            return None
        d, kd = z3.simplify(b - a - k), {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}[kd]
    # k + d  (kd)  0
    low, high = z3.simplify(lo + d), z3.simplify(hi - 1 + d)      # low <= k + d <= high
    n = lambda x: x.as_long() if z3.is_int_value(x) else None
    l, h = n(low), n(high)
    if kd == z3.Z3_OP_GE:
        return True if l is not None and l >= 0 else False if h is not None and h < 0 else None
    if kd == z3.Z3_OP_GT:
        return True if l is not None and l > 0 else False if h is not None and h <= 0 else None
    if kd == z3.Z3_OP_LE:
        return True if h is not None and h <= 0 else False if l is not None and l > 0 else None
    return True if h is not None and h < 0 else False if l is not None and l >= 0 else None


def tidy(e, k, lo, hi):
    """Drop conditions decided by lo <= k < hi or by an enclosing If."""
    def cond(c, facts):
        g = c.get_id()
        if g in facts:
            return z3.BoolVal(facts[g])
        kd = c.decl().kind()
        if kd == z3.Z3_OP_NOT:
            return z3.Not(cond(c.arg(0), facts))
        if kd in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            ch = [cond(x, facts) for x in c.children()]
            return z3.simplify(z3.And(*ch) if kd == z3.Z3_OP_AND else z3.Or(*ch))
        v = _bound_atom(c, k, lo, hi)
        return c if v is None else z3.BoolVal(v)

    def learn(c, val, facts, keep):
        f = dict(facts)
        st = [(c, val)]
        while st:
            x, v = st.pop()
            f[x.get_id()] = v
            keep.append(x)
            kd = x.decl().kind()
            if kd == z3.Z3_OP_NOT:
                st.append((x.arg(0), not v))
            elif kd == (z3.Z3_OP_AND if v else z3.Z3_OP_OR):
                st.extend((y, v) for y in x.children())
        return f

    def walk(x, facts, keep):
        if not z3.is_app(x) or not x.children():
            return x
        if x.decl().kind() == z3.Z3_OP_ITE:
            c = z3.simplify(cond(x.arg(0), facts))
            if z3.is_true(c):
                return walk(x.arg(1), facts, keep)
            if z3.is_false(c):
                return walk(x.arg(2), facts, keep)
            return z3.If(c, walk(x.arg(1), learn(c, True, facts, keep), keep), walk(x.arg(2), learn(c, False, facts, keep), keep))
        if x.sort() == B:
            return cond(x, facts)
        if not contains_ite_(x):
            return x
        ch = [walk(y, facts, keep) for y in x.children()]
        if all(a.eq(b) for a, b in zip(ch, x.children())):
            return x
        kd = x.decl().kind()
        if kd == z3.Z3_OP_ADD:
            return z3.Sum(ch)
        if kd == z3.Z3_OP_MUL:
            return z3.Product(ch)
        return x.decl()(*ch)
    if not contains_ite_(e):
        return e
    return walk(e, {}, [])


def contains_ite_(e):
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE:
            return True
        st.extend(x.children())
    return False


def psum(body, k, t):
    """Prefix function application P_body(t), parameterised by body's k-free subterms."""
    params = []
    ph = []

    def walk(x):
        if x.eq(k):
            return x
        if not contains(x, k):
            if z3.is_int_value(x) or z3.is_rational_value(x) or z3.is_true(x) or z3.is_false(x):
                return x
            for i, p in enumerate(params):
                if p.eq(x):
                    return ph[i]
            v = z3.Const(f"ph!{len(params)}!{x.sort()}", x.sort())
            params.append(x)
            ph.append(v)
            return v
        ch = x.children()
        new = [walk(c) for c in ch]
        return x.decl()(*new) if not z3.is_app_of(x, z3.Z3_OP_ADD) and not z3.is_app_of(x, z3.Z3_OP_MUL) and not z3.is_app_of(x, z3.Z3_OP_AND) and not z3.is_app_of(x, z3.Z3_OP_OR) else _nary(x, new)

    def _nary(x, new):
        kd = x.decl().kind()
        if kd == z3.Z3_OP_ADD:
            return z3.Sum(new) if len(new) > 1 else new[0]
        if kd == z3.Z3_OP_MUL:
            return z3.Product(new) if len(new) > 1 else new[0]
        if kd == z3.Z3_OP_AND:
            return z3.And(*new)
        return z3.Or(*new)

    g = walk(body)
    kk = z3.Const("k!!", I)
    g = z3.substitute(g, (k, kk))
    key = g.sexpr()
    if key not in C.psums:
        name = f"PSUM{len(C.psums)}"
        decl = z3.Function(name, I, *[p.sort() for p in ph], R)
        C.psums[key] = (decl, g, kk, list(ph))
        C.decl2psum[name] = key
    decl = C.psums[key][0]
    return decl(z3.simplify(t, som=True), *params)


def psum_body(app, t):
    """Summand of the prefix-sum application `app` at index t."""
    key = C.decl2psum[app.decl().name()]
    _, g, kk, ph = C.psums[key]
    subs = [(kk, t)] + list(zip(ph, app.children()[1:]))
    return z3.substitute(g, *subs)


def ssum(lo, hi, fn):
    """Sum over lo <= k < hi (0 when empty). fn: SNum -> number-like."""
    lo, hi = ex(lo), ex(hi)
    lo_s, hi_s = z3.simplify(lo), z3.simplify(hi)
    if z3.is_int_value(lo_s) and z3.is_int_value(hi_s) and hi_s.as_long() - lo_s.as_long() <= 8:
        t = SNum(z3.RealVal(0))
        for j in range(lo_s.as_long(), hi_s.as_long()):
            t = t + num(fn(SNum(z3.IntVal(j))))
        return t
    nn = []

    def f(k):
        v = num(fn(SNum(k)))
        if v.nan is not None:
            nn.append((k, v.nan))
        return v.e
    t = ssum_raw(lo, hi, f)
    nan = None
    if nn:
        k, cond = nn[-1]
        nan = exists_flag(lo, hi, k, cond)
    if not valid(lo <= hi):
        t = z3.If(lo <= hi, t, z3.RealVal(0))
    return SNum(t, nan)


def exists_flag(lo, hi, k, cond):
    """Boolean: exists k in [lo,hi) cond.  Introduced by two facts (witness + instances)."""
    cs = z3.simplify(cond)
    if z3.is_false(cs):
        return z3.BoolVal(False)
    if not contains(cs, k):
        return z3.And(lo < hi, cs)
    key = ("exf", z3.simplify(lo).sexpr(), z3.simplify(hi).sexpr(),
           z3.substitute(cs, (k, z3.Const("k!exf", I))).sexpr(), tuple(g.sexpr() for g in C.generic))
    cache = C.extra_state.setdefault("exf", {})
    if key in cache:
        b, w = cache[key]
        if not any(w.eq(x) for x in C.skolems):
            C.skolems.append(w)
        return b
    b = C.fresh("ex", B)
    w = C.fresh("w", I)
    C.skolems.append(w)
    cache[key] = (b, w)
    C.define(z3.Implies(b, z3.And(lo <= w, w < hi, z3.substitute(cond, (k, w)))), b, w)
    C.define_forall(lambda j, lo=lo, hi=hi, k=k, cond=cond, b=b: z3.Implies(
        z3.And(lo <= j, j < hi, z3.substitute(cond, (k, j))), b), b)
    return b


# --------------------------------------------------------------------------- prover
def apps_of(fs):
    """applications of uninterpreted functions (outer ones first)"""
    seen = set()
    out = []
    for f in fs:
        for i, x in _apps(f):
            if i not in seen:
                seen.add(i)
                out.append(x)
    return out


def _apps(f):
    memo = C.memo.setdefault("apps", {})
    got = memo.get(f.get_id())
    if got is not None:
        return got[1]
    seen = set()
    out = []
    st = [f]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            n = x.num_args()
            if n:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.append((i, x))
                st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    memo[f.get_id()] = (f, out)
    return out


def has_var(x):
    memo = C.memo.setdefault("hasvar", {})
    r = memo.get(x.get_id())
    if r is None:
        r = memo[x.get_id()] = (_has_var(x), x)
    return r[0]


def _has_var(x):
    st = [x]
    while st:
        y = st.pop()
        if z3.is_var(y):
            return True
        st.extend(y.children())
    return False


def instantiate(fs, rounds=2, skolems=None):
    """Ground instances of the built-in lemmas for the terms occurring in fs."""
    facts = []
    done = set()
    cur = list(fs)
    sk = list(skolems if skolems is not None else C.skolems)
    for r in range(rounds):
        new = []
        if r == 0:
            for q in C.foralls + C.gfor:
                for j in sk:
                    f = q(j)
                    if f is not None:
                        new.append(f)
        for a in apps_of(cur + new):
            if a.get_id() in done or has_var(a):
                continue
            done.add(a.get_id())
            nm = a.decl().name()
            if nm in C.decl2psum and r == 0:
                t, ps = a.children()[0], a.children()[1:]
                new.append(a.decl()(t + 1, *ps) == a + psum_body(a, t))
                new.append(a == a.decl()(t - 1, *ps) + psum_body(a, t - 1))
            elif nm == "exp":
                new.append(a > 0)
            elif nm == "sqrt":
                x = a.children()[0]
                new.append(z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)))
            for s in C.schemas.get(nm, ()):
                f = s(a, sk)
                if f:
                    new.extend(f)
        facts += new
        cur = new
        if not new:
            break
    # pairwise facts for exp/log monotonicity & injectivity
    al = [a for a in apps_of(list(fs) + facts) if a.decl().name() in ("exp", "log", "log10") and not has_var(a)]
    al = al[:8]
    for i in range(len(al)):
        for j in range(i + 1, len(al)):
            if al[i].decl().name() == al[j].decl().name():
                x, y = al[i].children()[0], al[j].children()[0]
                pos = z3.BoolVal(True) if al[i].decl().name() == "exp" else z3.And(x > 0, y > 0)
                facts.append(z3.Implies(pos, z3.And((x < y) == (al[i] < al[j]), (x == y) == (al[i] == al[j]))))
    return facts


def quick_sat(fs):
    """Feasibility (unknown counts as feasible)."""
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", C.fork_ms)
    fs = [z3.simplify(f) for f in list(fs) + C.glob]
    s.add(*fs)
    r = s.check()
    if r == z3.sat:
        # refine with ground lemmas: the path may still be infeasible
        s.add(*instantiate(fs, rounds=1))
        r = s.check()
    C.gave_up += r == z3.unknown
    C.solver_secs += time.time() - t0
    return r != z3.unsat


def valid(f, ms=1500):
    f = tobool(f)
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return not quick_sat(C.pc)
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", int(ms * C.scale))
    fs = list(C.pc) + C.glob + [z3.Not(f)]
    s.add(*fs)
    r = s.check()
    if r != z3.unsat:
        s.add(*instantiate(fs, rounds=1))
        r = s.check()
    C.gave_up += r == z3.unknown
    C.solver_secs += time.time() - t0
    return r == z3.unsat


def relevant(pc, goal):
    """Whole path condition (no slicing): kept as a hook."""
    return list(pc)


def cvc5_check(fs, secs=10):
    s = z3.Solver()
    s.add(*fs)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        p = f.name
    try:
        r = subprocess.run(["cvc5", f"--tlimit={int(secs * 1000)}", "--nl-ext-tplanes", p],
                           capture_output=True, text=True, timeout=secs + 5)
        out = r.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(p)


def prove(goal, ms=None, rounds=2, light=False):
    """('proved'|'refuted'|'unknown', backend, secs, model)"""
    goal = tobool(goal)
    ms = ms or C.timeout_ms
    t0 = time.time()
    g = z3.simplify(goal)
    if z3.is_true(g):
        return "proved", "simplifier", time.time() - t0, None
    base = [z3.simplify(f) for f in C.pc + C.glob]
    ng = z3.Not(g)
    model = None
    status = "unknown"
    backend = "z3"
    lemmas = instantiate(base + [ng], rounds=rounds)
    sx = sum_ext_lemmas(base, ng)
    for attempt in range(3):
        s = z3.Solver() if attempt == 0 else (
            z3.SolverFor("QF_UFNIRA") if attempt == 1 else z3.Solver())
        s.set("timeout", ms if attempt == 0 else max(ms // 2, 2000))
        if attempt == 2:
            s.set("arith.solver", 2)
        s.add(*base)
        s.add(ng)
        s.add(*lemmas)
        s.add(*sx)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unsat:
            status = "proved"
            break
        if r == z3.sat:
            status = "refuted"
            model = s.model()
            break
        if light:
            break
    if status == "unknown" and not light:
        r = cvc5_check(base + [ng] + lemmas + sx, 10)
        if r == "unsat":
            status, backend = "proved", "cvc5"
        elif r == "sat":
            status, backend = "refuted", "cvc5"
    dt = time.time() - t0
    C.solver_secs += dt
    return status, backend, dt, model


_sumext_busy = [False]


def agree(a, b):
    """Do two terms evaluate alike when their atoms get arbitrary values?  (Only steers effort.)"""
    import random
    atoms = {}
    st = [a, b]
    seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            atoms[x.get_id()] = x
        else:
            st.extend(x.children())
    for t in range(3):
        rnd = random.Random(t)
        sub = [(x, z3.BoolVal(rnd.random() < .5) if x.sort() == B else z3.IntVal(rnd.randint(1, 40)) if x.sort() == I
                else z3.Q(rnd.randint(1, 999), 16)) for _, x in sorted(atoms.items(), key=lambda kv: kv[1].sexpr()) if x.sort() in (B, I, R)]
        v = z3.simplify(z3.substitute(a, *sub) == z3.substitute(b, *sub))
        if z3.is_false(v):
            return False
    return True


def sum_ext_lemmas(base, ng):
    """Equate prefix sums whose summands are provably equal under the path condition."""
    if _sumext_busy[0]:
        return []
    aps = [a for a in apps_of([ng]) if a.decl().name() in C.decl2psum and not has_var(a)]
    if len({(a.decl().name(),) + tuple(c.get_id() for c in a.children()[1:]) for a in aps}) < 2:
        return []
    out = []
    groups = {}
    for a in aps:
        groups.setdefault((a.decl().name(),) + tuple(c.get_id() for c in a.children()[1:]), []).append(a)
    keys = sorted(groups, key=str)
    _sumext_busy[0] = True
    try:
        for i in range(len(keys)):
            for j in range(i + 1, len(keys)):
                fa, gb = groups[keys[i]], groups[keys[j]]
                # ranges mentioned: pair up [lo,hi) from f's args
                ts = {}
                for a in fa + gb:
                    ts[a.children()[0].get_id()] = a.children()[0]
                ts = list(ts.values())
                if len(ts) < 2 or len(ts) > 6:
                    continue
                for x in range(len(ts)):
                    for y in range(len(ts)):
                        if x == y:
                            continue
                        lo, hi = ts[x], ts[y]
                        k = z3.Const("kx!", I)
                        b1, b2 = psum_body(fa[0], k), psum_body(gb[0], k)
                        d = b1 == b2
                        memo = C.extra_state.setdefault("sumext", {})
                        mk = (b1.sexpr(), b2.sexpr(), lo.sexpr(), hi.sexpr())
                        if mk in memo and memo[mk][0] <= {b.get_id() for b in base}:
                            out.append(memo[mk][1])
                            continue
                        if memo.get(("no",) + mk[:2], 0) >= 2:
                            continue
                        likely = agree(b1, b2)
                        if not likely:
                            memo[("no",) + mk[:2]] = memo.get(("no",) + mk[:2], 0) + 1
                        s = z3.Solver()
                        s.set("timeout", int(C.scale * (1500 if likely else 200)))
                        s.add(*base)
                        s.add(lo <= k, k < hi, z3.Not(d))
                        sub = [q(k) for q in C.foralls + C.gfor]
                        s.add(*[f for f in sub if f is not None])
                        s.add(*instantiate(base + [d], rounds=1, skolems=C.skolems + [k]))
                        r = s.check()
                        C.gave_up += likely and r == z3.unknown
                        if r == z3.unsat:
                            pf = lambda t: fa[0].decl()(t, *fa[0].children()[1:])
                            pg = lambda t: gb[0].decl()(t, *gb[0].children()[1:])
                            out.append(z3.Implies(lo <= hi, pf(hi) - pf(lo) == pg(hi) - pg(lo)))
                            memo[mk] = ({b.get_id() for b in base}, out[-1])
                            C.extra_state.setdefault("sumext_keep", []).extend(base)
    finally:
        _sumext_busy[0] = False
    return out


def oblige(name, f, where=""):
    """Record a proof obligation at the current point and discharge it."""
    if C.quiet:
        C.pc.append(tobool(f))
        return True
    st, be, dt, m = prove(f)
    o = Obligation(name, st, be, dt, m, where=where)
    if st != "proved":
        o.detail = f"goal: {str(z3.simplify(tobool(f)))[:1500]}\npath: " + \
                   "; ".join(str(z3.simplify(p))[:200] for p in C.pc[-12:])
        if m is not None:
            o.detail += "\nmodel: " + ", ".join(f"{d.name()}={m[d]}" for d in list(m.decls())[:40])[:2500]
    C.results.append(o)
    if st != "proved" and sum(x.status != "proved" for x in C.results) >= C.max_failed:
        raise Enough()
    C.pc.append(tobool(f))     # continue as if it held
    return st == "proved"


# ------------------------------------------------------------------ lemmas
_lemma_ok = {}


def lemma(name, sorts, body, *inst):
    """Prove `forall xs. body(xs)` on its own (no path condition), then use the instances given."""
    if name not in _lemma_ok:
        vs = [z3.Const(f"lm{q}", s) for q, s in enumerate(sorts)]
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", int(20000 * C.scale))
        s.add(z3.Not(body(*vs)))
        r = s.check()
        st = "proved" if r == z3.unsat else "refuted" if r == z3.sat else "unknown"
        if st == "unknown" and cvc5_check([z3.Not(body(*vs))], 20) == "unsat":
            st = "proved"
        _lemma_ok[name] = (st, time.time() - t0)
    st, dt = _lemma_ok[name]
    C.results.append(Obligation("lemma: " + name, st, "z3", dt))
    for a in inst:
        C.pc.append(z3.simplify(body(*a)))


def mixed_radix(n, a, b):
    """digits of a number to the radices n are unique"""
    f = lambda m, q, r, Q, W: z3.Implies(z3.And(m >= 1, r >= 0, r < m, W >= 0, W < m, q * m + r == Q * m + W), z3.And(q == Q, r == W))
    ins, qa, qb = [], a[0], b[0]
    for d in range(1, len(n)):
        ins.append((n[d], qa, a[d], qb, b[d]))
        qa, qb = qa * n[d] + a[d], qb * n[d] + b[d]
    lemma("digits of a flat index are unique", [I] * 5, f, *ins)
