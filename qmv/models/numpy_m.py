"""numpy over symbolic arrays."""
from __future__ import annotations

import math
import types

import z3

from .. import core, loops
from ..arr import (Arr, Cell, bcast_reader, bshape, dim, embedding, filtered, iv, promote, ravel_expr,
                   same, arr_exists)
from ..core import (B, C, I, R, SBool, SNum, Unsupported, ex, exists_flag, is_pynum, isnumlike, ite, num,
                    oblige, rl, ssum, tobool, valid)
from ..loops import QList, QSeq

np = types.ModuleType("numpy")


# ------------------------------------------------------------------ helpers
def isseq(x):
    return isinstance(x, (list, tuple, QSeq, range)) or hasattr(x, "_qm_arr") or \
        type(x).__name__ in ("dict_values", "dict_keys")


def as_arr(x, dtype=None):
    if isinstance(x, Arr):
        return x
    if hasattr(x, "_qm_arr"):
        return x._qm_arr()
    if isinstance(x, QList) and x.symbolic():
        s = x.seq()
        if s is None:
            raise Unsupported("array of a filtered summarised list")
        x = s
    if isinstance(x, QSeq):
        p = x.sym_get(z3.Const("probe!", I))
        if isinstance(p, Arr) or hasattr(p, "_qm_arr"):
            p = as_arr(p)
            return Arr.make((x.sym_len(),) + tuple(p.shape), lambda ix: as_arr(x.sym_get(ix[0])).reader()(ix[1:]), p.dtype)
        if isinstance(p, (tuple, list)):
            return Arr.make((x.sym_len(), len(p)),
                            lambda ix: as_arr(list(x.sym_get(ix[0]))).reader()((ix[1],)), "float64")
        if isnumlike(p) and not isinstance(p, SBool):
            isint = num(p).isint
            return Arr.make((x.sym_len(),), lambda ix: num(x.sym_get(ix[0])), "int64" if isint else "float64")
        return Arr.make((x.sym_len(),), lambda ix: x.sym_get(ix[0]), "bool" if isinstance(p, SBool) else "object")
    if isseq(x):
        return Arr.from_list([y for y in x], dtype)
    if isnumlike(x) or isinstance(x, float):
        v = x if isinstance(x, SBool) else num(x)
        return Arr.make((), lambda ix: v, "int64" if isinstance(v, SNum) and v.isint else "float64")
    raise Unsupported(f"array of {type(x).__name__}")


def elem(f, out=None):
    """lift a scalar function"""
    def g(x, *a, **k):
        if isinstance(x, Arr) or isseq(x):
            r = as_arr(x).map(f, out)
        elif hasattr(x, "_qm_map"):
            r = x._qm_map(f)
        else:
            r = f(num(x))
        if k.get("out") is not None:
            k["out"]._store(k["out"].view, k["out"].shape, r)
            return k["out"]
        return r
    return g


def binop(f, dtype=None):
    def g(a, b, out=None, where=None, dtype=None, casting=None):
        if where is not None:
            raise Unsupported("ufunc where=")
        if isseq(a) and not hasattr(a, "_qm_arr"):
            a = as_arr(a)
        if isseq(b) and not hasattr(b, "_qm_arr"):
            b = as_arr(b)
        if isinstance(a, Arr) or isinstance(b, Arr) or hasattr(a, "_qm_arr") or hasattr(b, "_qm_arr"):
            a = as_arr(a) if hasattr(a, "_qm_arr") else a
            b = as_arr(b) if hasattr(b, "_qm_arr") else b
            r = a._bin(b, f) if isinstance(a, Arr) else b._bin(a, f, True)
        else:
            r = f(num(a) if isnumlike(a) else a, num(b) if isnumlike(b) else b)
        if out is not None:
            out._store(out.view, out.shape, r)
            return out
        return r
    return g


from ..arr import ADD, DIV, MUL, SUB  # noqa: E402


def _dt(dtype):
    if dtype is None:
        return None
    n = getattr(dtype, "__name__", str(dtype)).strip("_")
    if n in ("double", "float", "float64", "f8", "<f8") or "float" in n:
        return "float64"
    if "bool" in n:
        return "bool"
    if "int" in n:
        return "int64"
    return "object"


class DType:
    def __init__(self, name):
        self.__name__ = name

    def __call__(self, x=0):
        if isinstance(x, Arr):
            return x.astype(self)
        if isinstance(x, str) and x == "nan":
            return float("nan")
        return core.cast_(num(x), self.__name__)

    def __repr__(self):
        return self.__name__


for _nm in ("float64", "float32", "int64", "int32", "int16", "int8", "uint8", "bool_", "double", "integer", "floating"):
    setattr(np, _nm, DType(_nm))
np.int_ = DType("int64")
np.bool = np.bool_
np.object_ = DType("object")
np.ndarray = Arr
np.generic = SNum
np.nan = float("nan")
np.NaN = float("nan")
np.inf = float("inf")
np.pi = SNum(z3.Real("pi"))
np.newaxis = None
np.e = math.e


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(dim(x) if not isinstance(x, int) else x for x in (num(y) if not isinstance(y, int) else y for y in s))
    if isinstance(s, Arr):
        return tuple(dim(s[i]) for i in range(s.shape[0]))
    return (dim(num(s)) if not isinstance(s, int) else s,)


def _chkshape(sh):
    for s in sh:
        if not isinstance(s, int):
            if not s.isint:
                raise TypeError("'float' object cannot be interpreted as an integer")
            oblige("array dimensions are not negative", s.e >= 0)
        elif s < 0:
            raise ValueError("negative dimensions are not allowed")


def _const(v):
    def f(shape, dtype=None, **k):
        sh = _shape(shape)
        _chkshape(sh)
        d = _dt(dtype) or "float64"
        x = SBool(z3.BoolVal(bool(v))) if d == "bool" else SNum(z3.IntVal(v) if d == "int64" else z3.RealVal(v))
        return Arr.make(sh, lambda ix: x, d)
    return f


np.zeros = _const(0)
np.ones = _const(1)


def empty(shape, dtype=None, **k):
    if hasattr(dtype, "_qm_struct"):
        return dtype._qm_struct(shape)
    sh = _shape(shape)
    _chkshape(sh)
    d = _dt(dtype) or "float64"
    f = C.fresh_fn("empty", *([I] * len(sh)), I if d == "int64" else B if d == "bool" else R)
    mk = (lambda e: SBool(e)) if d == "bool" else SNum
    return Arr.make(sh, lambda ix: mk(f(*ix) if ix else C.fresh("empty")), d)


np.empty = empty


def full(shape, v, dtype=None, **k):
    sh = _shape(shape)
    if isinstance(v, Arr) and all(isinstance(d, int) and d == 1 for d in v.shape):
        v = v.copy().reader()((z3.IntVal(0),) * v.ndim)
    if isinstance(v, (bool, SBool)) and _dt(dtype) in (None, "bool"):
        b = SBool(tobool(v))
        return Arr.make(sh, lambda ix: b, "bool")
    d = _dt(dtype) or ("int64" if isnumlike(v) and not isinstance(v, SBool) and num(v).isint else "float64")
    x = v if isinstance(v, SBool) else num(v)
    if d == "float64":
        x = SNum(rl(x.e), x.nan)
    return Arr.make(sh, lambda ix: x, d)


np.full = full
np.zeros_like = lambda a, dtype=None, **k: np.zeros(as_arr(a).shape, dtype or as_arr(a).dtype)
np.ones_like = lambda a, dtype=None, **k: np.ones(as_arr(a).shape, dtype or as_arr(a).dtype)
np.full_like = lambda a, v, dtype=None, **k: full(as_arr(a).shape, v, dtype or as_arr(a).dtype)
np.empty_like = lambda a, dtype=None, **k: empty(as_arr(a).shape, dtype or as_arr(a).dtype)


def array(x, dtype=None, copy=True, **k):
    if isnumlike(x) or isinstance(x, float):
        return as_arr(x)
    a = as_arr(x)
    d = _dt(dtype)
    if d and d != "object" and d != a.dtype:
        return a.astype(dtype)
    return a.copy()


np.array = array


def asarray(x, dtype=None, **k):
    if isinstance(x, Arr) and (_dt(dtype) in (None, x.dtype)):
        return x
    return array(x, dtype)


np.asarray = asarray
np.ascontiguousarray = asarray
np.asanyarray = asarray
np.require = lambda x, dtype=None, requirements=None: asarray(x, dtype)
np.copy = lambda x: as_arr(x).copy()


def arange(*a, dtype=None):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    lo, hi, st = num(lo), num(hi), num(st)
    n = (hi - lo) / st
    m = core.ceil_(n.e)
    if lo.isint and hi.isint and st.isint:
        v = z3.simplify(st.e)
        if z3.is_int_value(v) and v.as_long() == 1:
            m = hi.e - lo.e
    if not valid(m >= 0):
        m = z3.If(m < 0, z3.IntVal(0), m)
    allint = lo.isint and st.isint
    return Arr.make((dim(m),), lambda ix: lo + SNum(ix[0]) * st, "int64" if allint else "float64")


np.arange = arange


def linspace(a, b, n=50, endpoint=True, retstep=False, dtype=None):
    a, b, n = num(a), num(b), num(n)
    if not n.isint:
        raise TypeError("'float' object cannot be interpreted as an integer")
    oblige("number of samples is not negative", n.e >= 0)
    d = n - 1 if endpoint else n
    step = (b - a) / d
    ra = SNum(rl(a.e), a.nan)

    def f(ix):
        return SNum(z3.If(ix[0] == 0, ra.e, (a + SNum(ix[0]) * step).e) if False else (ra + SNum(ix[0]) * step).e, orn(ra.nan, step.nan))
    if endpoint:
        # a single sample is the start value
        g = f
        f = lambda ix: ite(ix[0] == 0, ra, g(ix))
    return Arr.make((dim(n),), f, "float64")


orn = core.orn
np.linspace = linspace

np.log = elem(core.log_, "float64")
np.log10 = elem(core.log10_, "float64")
np.exp = elem(core.exp_, "float64")
np.sqrt = elem(core.sqrt_, "float64")
np.abs = elem(abs)
np.absolute = np.abs
np.fabs = np.abs
np.square = elem(lambda x: x * x)
np.negative = elem(lambda x: -x)
np.rint = elem(lambda x: SNum(z3.ToReal(core.rint_(x.e)) if core.rint_(x.e).sort() == I else x.e, x.nan), "float64")
np.floor = elem(lambda x: SNum(z3.ToReal(core.floor_(x.e)), x.nan), "float64")
np.ceil = elem(lambda x: SNum(z3.ToReal(core.ceil_(x.e)), x.nan), "float64")
np.trunc = elem(lambda x: SNum(z3.ToReal(core.trunc_(x.e)), x.nan), "float64")
np.sin = elem(lambda x: SNum(core.SIN(rl(x.e)), x.nan), "float64")
np.cos = elem(lambda x: SNum(core.COS(rl(x.e)), x.nan), "float64")
np.sign = elem(lambda x: SNum(z3.If(x.e > 0, 1, z3.If(x.e < 0, -1, 0)), x.nan))


def isnan(x):
    f = lambda v: SBool(v.nan if v.nan is not None else z3.BoolVal(False))
    if isinstance(x, Arr):
        return x.map(lambda v: f(num(v)), "bool")
    if hasattr(x, "_qm_map"):
        return x._qm_map(lambda v: f(num(v)))
    r = f(num(x))
    return r


np.isnan = isnan
np.isfinite = lambda x: (lambda r: ~r)(isnan(x))
np.isscalar = lambda x: isinstance(x, (int, float, str, SNum, SBool))
np.logical_and = binop(lambda a, b: a & b)
np.logical_or = binop(lambda a, b: a | b)
np.logical_not = lambda x: ~x
np.add = binop(ADD)
np.subtract = binop(SUB)
np.multiply = binop(MUL)
np.divide = binop(DIV)
np.true_divide = np.divide
np.power = binop(lambda a, b: num(a) ** b if not isinstance(a, Arr) else a ** b)
np.float_power = np.power
np.remainder = binop(lambda a, b: num(a) % num(b))
np.mod = np.remainder
np.hypot = binop(lambda a, b: core.sqrt_(num(a) * num(a) + num(b) * num(b)), "float64")
np.maximum = binop(lambda a, b: ite(num(a) >= num(b), num(a), num(b)))
np.minimum = binop(lambda a, b: ite(num(a) <= num(b), num(a), num(b)))
np.greater = binop(lambda a, b: a > b)
np.less = binop(lambda a, b: a < b)
np.greater_equal = binop(lambda a, b: a >= b)
np.less_equal = binop(lambda a, b: a <= b)
np.equal = binop(lambda a, b: a == b)


def isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    d = np.abs(np.subtract(a, b))
    return d <= (np.abs(b) * rtol + atol)


np.isclose = isclose
np.allclose = lambda a, b, **k: np.all(isclose(a, b, **k))


def array_equal(a, b, equal_nan=False):
    if equal_nan:
        raise Unsupported("array_equal with equal_nan")
    a, b = as_arr(a), as_arr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not bool(num(x) == num(y)):
            return False
    return np.all(np.equal(a, b))


np.array_equal = array_equal


def clip(x, lo, hi, out=None):
    if any(isinstance(b, Arr) or isseq(b) for b in (lo, hi)):
        if out is not None:
            raise Unsupported("clip into an array with array bounds")
        r = as_arr(x)
        if lo is not None:
            r = np.maximum(r, lo)
        return r if hi is None else np.minimum(r, hi)

    def f(v):
        r = v
        if not (isinstance(lo, float) and math.isinf(lo)) and lo is not None:
            r = ite(v < lo, num(lo), r)
        if not (isinstance(hi, float) and math.isinf(hi)) and hi is not None:
            r = ite(v > hi, num(hi), r)
        return r
    if isinstance(x, Arr):
        isint = x.dtype == "int64" and all(b is None or (isnumlike(b) and num(b).isint) for b in (lo, hi))
        r = x.map(f, "int64" if isint else "float64")
        if out is not None:
            out._store(out.view, out.shape, r)
            return out
        return r
    if hasattr(x, "_qm_map"):
        return x._qm_map(f)
    return f(num(x))


np.clip = clip


def where(c, *ab):
    c = as_arr(c) if not isinstance(c, (SBool, bool)) else c
    if not ab:
        return nonzero(c)
    a, b = ab
    if isinstance(c, (SBool, bool)):
        return ite(c, a, b)
    sh = c.shape
    for x in (a, b):
        if isinstance(x, Arr) or hasattr(x, "_qm_arr"):
            sh = bshape(sh, as_arr(x).shape)
    rc = bcast_reader(c, sh)
    ra = bcast_reader(as_arr(a), sh) if isinstance(a, Arr) or hasattr(a, "_qm_arr") else (lambda ix: a)
    rb = bcast_reader(as_arr(b), sh) if isinstance(b, Arr) or hasattr(b, "_qm_arr") else (lambda ix: b)
    da = as_arr(a).dtype if not isinstance(a, (str, SBool, bool)) else "object"
    db = as_arr(b).dtype if not isinstance(b, (str, SBool, bool)) else "object"

    if all(isinstance(x, (bool, SBool)) or getattr(x, "dtype", None) == "bool" for x in (a, b)):
        return Arr.make(sh, lambda ix: ite(rc(ix), ra(ix), rb(ix)), "bool")

    def f(ix):
        return ite(rc(ix), num(ra(ix)) if isnumlike(ra(ix)) else ra(ix), num(rb(ix)) if isnumlike(rb(ix)) else rb(ix))
    return Arr.make(sh, f, promote(da, db, None))


np.where = where


def nonzero1(mask):
    if mask.dtype != "bool":
        mask = mask.map(lambda v: SBool(num(v).e != 0), "bool")
    em = embedding(mask)
    out = Arr.make((SNum(em.m),), lambda ix: SNum(em.e(ix[0])), "int64")
    out.embed = em
    out.nonzero = True
    return out




def nonzero(a):
    a = as_arr(a)
    if a.ndim <= 1:
        return (nonzero1(a),)
    # row-major enumeration of the positions that hold, each split into its indices
    from ..arr import unravel_expr
    flat = nonzero1(a.flatten())
    sh, e = a.shape, flat.embed.e
    return tuple(Arr.make(flat.shape, lambda ix, q=q: SNum(unravel_expr(e(ix[0]), sh)[q]), "int64") for q in range(a.ndim))


np.nonzero = nonzero
np.flatnonzero = lambda a: nonzero1(as_arr(a))


def red(kind):
    def f(a, axis=None, **k):
        a = as_arr(a)
        return getattr(a, kind)(axis) if axis is not None else getattr(a, kind)()
    return f


np.sum = red("sum")
np.mean = red("mean")
np.any = red("any")
np.all = red("all")
np.max = np.amax = red("max")
np.min = np.amin = red("min")
np.argmax = red("argmax")
np.argmin = red("argmin")


def denan(a, v=0):
    return a.map(lambda x: ite(num(x).nan, num(v), SNum(num(x).e)) if num(x).nan is not None else num(x))


np.nansum = lambda a, axis=None: np.sum(denan(as_arr(a)), axis)


def nanmask(a):
    return a.map(lambda v: SBool(z3.Not(num(v).nan)) if num(v).nan is not None else SBool(z3.BoolVal(True)), "bool")


def nanmean(a, axis=None):
    a = as_arr(a)
    return np.sum(denan(a), axis) / np.sum(nanmask(a).astype(np.int64), axis)


np.nanmean = nanmean


# ------------------------------------------------------------------ extrema (any rank)
def extremum(a, kind, skipnan=False):
    """(value, flat first index) of the maximum/minimum; facts instead of a loop."""
    a = as_arr(a)
    sh = a.shape
    r = a.reader()
    n = iv(a.size)
    if a.ndim == 1 and isinstance(sh[0], int) and sh[0] == 1:
        return r((z3.IntVal(0),)), SNum(z3.IntVal(0))
    oblige("non-empty array has an extremum", n > 0)
    ph = [z3.Const(f"xm{d}!", I) for d in range(a.ndim)]
    with C.gen(*ph):
        v = num(r(tuple(ph)))
    key = ("ext", tuple(g.sexpr() for g in C.generic), kind, skipnan, v.e.sexpr(), "" if v.nan is None else v.nan.sexpr(), tuple(z3.simplify(iv(s)).sexpr() for s in sh))
    cache = C.extra_state.setdefault("ext", {})
    if key in cache:
        return cache[key]
    if v.nan is not None and not skipnan:
        raise Unsupported("extremum of an array that may contain NaN")
    ok = (lambda ix: z3.Not(num(r(ix)).nan)) if v.nan is not None else (lambda ix: z3.BoolVal(True))
    ats = [C.skolem("am") for _ in sh]
    m = C.fresh("mx", v.e.sort())
    inb = lambda ix: z3.And(*[z3.And(i >= 0, i < iv(s)) for i, s in zip(ix, sh)])
    C.define(z3.Implies(n > 0, z3.And(inb(ats), ok(tuple(ats)), num(r(tuple(ats))).e == m)), m, *ats)
    le = (lambda p, q: p <= q) if kind == "max" else (lambda p, q: p >= q)
    lt = (lambda p, q: p < q) if kind == "max" else (lambda p, q: p > q)
    if a.ndim == 1:
        C.define_forall(lambda j: z3.Implies(z3.And(inb((j,)), ok((j,))), z3.And(
            le(num(r((j,))).e, m), z3.Implies(j < ats[0], lt(num(r((j,))).e, m)))), m, *ats)
        if isinstance(sh[0], int) and sh[0] <= 8:
            C.define(z3.And(*[z3.Implies(ok((z3.IntVal(j),)), le(num(r((z3.IntVal(j),))).e, m)) for j in range(sh[0])]), m, *ats)
    else:
        # instances are asked for by name: extremum_instance(res, ix)
        pass
    flat = ravel_expr(tuple(ats), sh)
    with C.gen(*ph):
        vv = r(tuple(ph))
    wrap = vv._wrap if isinstance(vv, SNum) and type(vv) is not SNum else SNum
    res = (wrap(m), SNum(z3.simplify(flat)))
    C.extra_state.setdefault("extinfo", []).append((m, tuple(ats), flat, r, sh, le, lt, ok))

    def inst(ix):
        """fact for a chosen location"""
        x = tuple(iv(i) for i in ix)
        return z3.Implies(z3.And(inb(x), ok(x)), le(num(r(x)).e, m))
    res[0].__class__
    C.extra_state.setdefault("extinst", {})[m.sexpr()] = (inst, ats)
    cache[key] = res
    return res


def extremum_fact(val, ix):
    inst, _ = C.extra_state["extinst"][val.e.sexpr()]
    return inst(ix)


def extremum_at(val):
    return C.extra_state["extinst"][val.e.sexpr()][1]


np.nanmax = lambda a, axis=None: extremum(a, "max", True)[0]
np.nanmin = lambda a, axis=None: extremum(a, "min", True)[0]
np.nanargmax = lambda a, axis=None: extremum(a, "max", True)[1]
np.nanargmin = lambda a, axis=None: extremum(a, "min", True)[1]


def unravel_index(f, shape):
    """Digits of a flat index; when the index came from an extremum the digits are known."""
    sh = _shape(shape)
    if isinstance(f, SNum):
        for m, ats, flat, r, s, *_ in C.extra_state.get("extinfo", []):
            if z3.simplify(flat).eq(z3.simplify(f.e)) and len(s) == len(sh) and all(same(a, b) for a, b in zip(s, sh)):
                return tuple(SNum(a) for a in ats)
    if isinstance(f, Arr) or isseq(f):
        fa = as_arr(f)
        outs = []
        for d in range(len(sh)):
            outs.append(fa.map(lambda v, d=d: SNum(_digits(ex(v), sh)[d]), "int64"))
        return tuple(outs)
    return tuple(SNum(x) for x in _digits(iv(num(f)), sh))


def _digits(f, sh):
    """fresh mixed-radix digits of f (defining facts recorded)"""
    if len(sh) == 1:
        return (f,)
    key = ("dig", tuple(g.sexpr() for g in C.generic), z3.simplify(f).sexpr(), tuple(z3.simplify(iv(s)).sexpr() for s in sh))
    cache = C.extra_state.setdefault("dig", {})
    if key in cache:
        return cache[key]
    ds = tuple(C.fresh("dg", I) for _ in sh)
    tot = z3.IntVal(1)
    for s in sh:
        tot = tot * iv(s)
    C.define(z3.Implies(z3.And(f >= 0, f < tot),
                        z3.And(*[z3.And(d >= 0, d < iv(s)) for d, s in zip(ds, sh)], ravel_expr(ds, sh) == f)), *ds)
    cache[key] = ds
    return ds


np.unravel_index = unravel_index


def ravel_multi_index(mi, shape, mode="raise"):
    sh = _shape(shape)
    mi = [as_arr(m) if isinstance(m, Arr) else num(m) for m in (mi if not isinstance(mi, Arr) else [mi[i] for i in range(mi.shape[0])])]
    if any(isinstance(m, Arr) for m in mi):
        base = [m for m in mi if isinstance(m, Arr)][0]
        rd = [m.reader() if isinstance(m, Arr) else (lambda ix, m=m: m) for m in mi]
        return Arr.make(base.shape, lambda ix: SNum(ravel_expr(tuple(ex(r(ix)) for r in rd), sh)), "int64")
    for m, s in zip(mi, sh):
        oblige("multi-index within the grid", z3.And(m.e >= 0, m.e < iv(s)))
    return SNum(ravel_expr(tuple(m.e for m in mi), sh))


np.ravel_multi_index = ravel_multi_index


def prod(a, **k):
    if isinstance(a, (list, tuple)) or isinstance(a, Arr) and isinstance(a.shape[0], int):
        r = SNum(z3.IntVal(1))
        for v in (a if not isinstance(a, Arr) else [a[i] for i in range(a.shape[0])]):
            r = r * v
        return r
    raise Unsupported("product of an array of symbolic length")


np.prod = prod


def cumsum(a, axis=None, **k):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum of an n-d array")
    r = a.reader()
    return Arr.make(a.shape, lambda ix: ssum(SNum(z3.IntVal(0)), SNum(ix[0] + 1), lambda j: r((ex(j),))), a.dtype)


np.cumsum = cumsum


def concatenate(xs, axis=0):
    xs = [as_arr(x) for x in xs]
    out = xs[0]
    for b in xs[1:]:
        out = _cat(out, b, axis)
    return out


def _cat(a, b, axis=0):
    if isinstance(a.shape[axis], int) and a.shape[axis] == 0 and a.ndim == b.ndim:
        return b.copy()
    ra, rb, n = a.reader(), b.reader(), iv(a.shape[axis])

    def f(ix):
        i = ix[axis]
        jx = tuple(ix[:axis]) + (z3.simplify(i - n),) + tuple(ix[axis + 1:])
        c = z3.simplify(i < n)
        if z3.is_true(c):
            return ra(ix)
        if z3.is_false(c):
            return rb(jx)
        x, y = ra(ix), rb(jx)
        return ite(c, x, y)
    sh = list(a.shape)
    sh[axis] = dim(n + iv(b.shape[axis]))
    return Arr.make(tuple(sh), f, promote(a.dtype, b.dtype, None))


np.concatenate = concatenate


def pad(x, width, mode="constant", constant_values=0, **k):
    x = as_arr(x)
    if k or x.ndim != 1 or mode not in ("constant", "edge") or isinstance(constant_values, (tuple, list)):
        raise Unsupported("pad of other kinds")
    while isinstance(width, (tuple, list)) and len(width) == 1:
        width = width[0]
    a, b = width if isinstance(width, (tuple, list)) else (width, width)
    r = x.reader()
    n = iv(x.shape[0])
    first = r((z3.IntVal(0),)) if mode == "edge" else constant_values
    last = r((z3.simplify(n - 1),)) if mode == "edge" else constant_values
    return concatenate([np.full(a, first, dtype=x.dtype), x, np.full(b, last, dtype=x.dtype)])


np.pad = pad
np.append = lambda a, b, axis=None: _cat(atleast1(as_arr(a)), atleast1(as_arr(b)), axis or 0)
np.hstack = concatenate


def vstack(xs):
    if isinstance(xs, Arr):
        if xs.ndim >= 2:
            return xs.copy()
        if xs.ndim == 1:
            r = xs.reader()
            return Arr.make((xs.shape[0], 1), lambda ix: r((ix[0],)), xs.dtype)
    return concatenate([as_arr(x)[None] if as_arr(x).ndim == 1 else as_arr(x) for x in xs])


np.vstack = vstack


class _CC:
    def __getitem__(self, k):
        return np.column_stack(list(k) if isinstance(k, tuple) else [k])


np.c_ = _CC()


def atleast1(a):
    return a if a.ndim else Arr.make((1,), lambda ix: a.at(), a.dtype)


def stack(xs, axis=0):
    if loops.is_symbolic(xs):
        a = as_arr(xs)
    else:
        lst = [as_arr(x) for x in xs]
        if not lst:
            raise ValueError("need at least one array to stack")
        for x in lst[1:]:
            if x.ndim != lst[0].ndim:
                raise ValueError("all input arrays must have the same shape")
            for p, q in zip(x.shape, lst[0].shape):
                if not same(p, q):
                    oblige("all input arrays must have the same shape", iv(p) == iv(q))
        a = Arr.from_list(lst)
    if axis in (-1, a.ndim - 1) and a.ndim > 1:
        r = a.reader()
        sh = tuple(a.shape[1:]) + (a.shape[0],)
        return Arr.make(sh, lambda ix: r((ix[-1],) + tuple(ix[:-1])), a.dtype)
    if axis != 0:
        raise Unsupported("stack axis")
    return a


np.stack = stack


def column_stack(xs):
    xs = [atleast1(as_arr(x)) for x in xs]
    if any(x.ndim > 2 for x in xs):
        raise Unsupported("column_stack of an n-d array")
    if all(x.ndim == 1 for x in xs):
        return stack(xs, axis=-1)
    return concatenate([x if x.ndim == 2 else vstack(x) for x in xs], axis=1)


np.column_stack = column_stack


def meshgrid(*xs, indexing="xy"):
    xs = [atleast1(as_arr(x)) for x in xs]
    n = len(xs)
    order = list(range(n))
    if indexing == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    sh = tuple(xs[d].shape[0] for d in order)
    out = QList()
    for d, x in enumerate(xs):
        r = x.reader()
        p = order.index(d)
        out.append(Arr.make(sh, lambda ix, r=r, p=p: r((ix[p],)), x.dtype))
    return out


np.meshgrid = meshgrid


def _round(x, decimals=0):
    return elem(lambda v: core.round_(v, decimals) if decimals else SNum(z3.ToReal(core.rint_(v.e)) if v.e.sort() == R else v.e, v.nan), "float64")(x)


np.round = np.around = _round


def reshape(a, sh):
    return as_arr(a).reshape(sh)


np.reshape = reshape


def flip(a, axis=None):
    a = as_arr(a)
    axes = range(a.ndim) if axis is None else [x % a.ndim for x in (axis if isinstance(axis, (tuple, list)) else [axis])]
    return a[tuple(slice(None, None, -1) if d in axes else slice(None) for d in range(a.ndim))]


np.flip = flip
np.ravel = lambda a: as_arr(a).flatten()


def broadcast_to(a, sh):
    a = as_arr(a)
    sh = _shape(sh)
    r = bcast_reader(a, sh)
    return Arr.make(sh, r, a.dtype)


np.broadcast_to = broadcast_to


def diff(a, n=1, axis=-1):
    a = as_arr(a)
    return a[1:] - a[:-1]


np.diff = diff
np.ptp = lambda a, axis=None: np.max(a, axis=axis) - np.min(a, axis=axis)


def indices(dimensions, dtype=None, sparse=False):
    if dtype is not None or sparse:
        raise Unsupported("np.indices options")
    return np.stack(meshgrid(*[arange(n) for n in dimensions], indexing="ij"), axis=0)


np.indices = indices


def repeat(a, n, axis=None):
    a = as_arr(a)
    n = num(n)
    if a.ndim == 0:
        v = a.item()
        return Arr.make((dim(n),), lambda ix: v, a.dtype)
    if a.ndim == 1 and axis in (None, 0, -1):
        L = a.shape[0]
        return broadcast_to(a[:, None], (L, n)).reshape((num(L) * n,))
    raise Unsupported("np.repeat of an array")


def tile(a, n):
    a = as_arr(a)
    if a.ndim == 1 and not isinstance(n, (tuple, list)):
        n = num(n)
        L = a.shape[0]
        return broadcast_to(a[None, :], (n, L)).reshape((n * num(L),))
    raise Unsupported("np.tile over several axes")


np.repeat = repeat
np.tile = tile


# --------------------------------------------------- aggregators known only up to their input
def agg(name, facts=None):
    """Uninterpreted aggregate of an array: same contents -> same value."""
    def f(a, *args, **k):
        a = as_arr(a)
        if args and args[0] in (0, -1) and name == "median":
            k, args = {**k, "axis": args[0]}, args[1:]
        if k.get("axis") is not None and not (a.ndim == 1 and k["axis"] in (0, -1)):
            raise Unsupported(name + " over an axis")
        ph = tuple(z3.Const(f"ag{d}!", I) for d in range(a.ndim))
        with C.gen(*ph):
            v = num(a.reader()(ph))
        key = (name, tuple(g.sexpr() for g in C.generic), z3.simplify(v.e, som=True).sexpr(), "" if v.nan is None else v.nan.sexpr(),
               tuple(z3.simplify(iv(s)).sexpr() for s in a.shape), tuple(repr(x) for x in args))
        cache = C.extra_state.setdefault("agg", {})
        if key not in cache:
            m = C.fresh(name, R)
            cache[key] = m
            C.extra_state.setdefault("aggl", []).append((name, a, m, args))
            if facts:
                facts(a, m)
        return SNum(cache[key])
    return f


np.median = agg("median")
np.std = agg("std", lambda a, m: C.define(m >= 0, m))
np.var = agg("var", lambda a, m: C.define(m >= 0, m))
np.percentile = agg("percentile")
np.nanmedian = agg("nanmedian")


class _Fi:
    eps = float(2.220446049250313e-16)
    tiny = 2.2250738585072014e-308
    max = 1.7976931348623157e308
    min = -1.7976931348623157e308


np.finfo = lambda t: _Fi()


class _Es:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


np.errstate = _Es


def _dtype(x, align=False):
    if isinstance(x, (list, tuple)):
        from .ctypes_m import StructArr, StructDType
        d = StructDType(x)
        d._qm_struct = lambda shape: StructArr(d, shape)
        return d
    return DType(getattr(x, "__name__", str(x)))


np.dtype = _dtype


def _sub(n):
    from ..loader import Stub
    return Stub("numpy." + n)


def matmul(a, b):
    a, b = as_arr(a), as_arr(b)
    ra, rb = a.reader(), b.reader()
    if a.ndim == 2 and b.ndim == 2:
        return Arr.make((a.shape[0], b.shape[1]), lambda ix: ssum(0, a.shape[1], lambda k: num(ra((ix[0], ex(k)))) * num(rb((ex(k), ix[1])))), "float64")
    if a.ndim == 2 and b.ndim == 1:
        return Arr.make((a.shape[0],), lambda ix: ssum(0, a.shape[1], lambda k: num(ra((ix[0], ex(k)))) * num(rb((ex(k),)))), "float64")
    if a.ndim == 1 and b.ndim == 2:
        return Arr.make((b.shape[1],), lambda ix: ssum(0, a.shape[0], lambda k: num(ra((ex(k),))) * num(rb((ex(k), ix[0])))), "float64")
    raise Unsupported("matmul")


np.matmul = matmul


class _Linalg:
    """Dense linear algebra: the entries of the results are unknown; an inverse satisfies its defining
    equations (a singular matrix raises instead of returning), pseudo-inverses and eigenvalues are only named."""

    def __getattr__(self, n):
        from ..loader import Stub
        return Stub("numpy.linalg." + n)

    def inv(self, a):
        a = as_arr(a)
        sh = [z3.simplify(iv(d)) for d in a.shape]
        if len(sh) != 2 or not all(z3.is_int_value(d) for d in sh) or sh[0].as_long() != sh[1].as_long():
            raise Unsupported("inverse of a matrix of symbolic shape")
        n, r = sh[0].as_long(), a.reader()
        f = C.fresh_fn("inv", I, I, R)
        for i in range(n):
            for k in range(n):
                C.assume(z3.Sum(*[rl(num(r((z3.IntVal(i), z3.IntVal(j)))).e) * f(j, k) for j in range(n)]) == (1 if i == k else 0))
        C.extra_state.setdefault("inv", []).append((a, f))
        return Arr.make((n, n), lambda ix: SNum(f(*ix)), "float64")

    def pinv(self, a, *x, **k):
        a = as_arr(a)
        f = C.fresh_fn("pinv", I, I, R)
        C.extra_state.setdefault("pinv", []).append((a, f))
        return Arr.make((a.shape[1], a.shape[0]), lambda ix: SNum(f(*ix)), "float64")

    def eig(self, a):
        a = as_arr(a)
        f, g = C.fresh_fn("eigenvalue", I, R), C.fresh_fn("eigenvector", I, I, R)
        C.extra_state.setdefault("eig", []).append((a, f))
        return Arr.make((a.shape[0],), lambda ix: SNum(f(*ix)), "float64"), Arr.make(a.shape, lambda ix: SNum(g(*ix)), "float64")

    eigh = eig


np.linalg = _Linalg()
np.dot = lambda a, b: matmul(a, b)


def diag(a):
    a = as_arr(a)
    r = a.reader()
    if a.ndim == 2:
        return Arr.make((a.shape[0],), lambda ix: r((ix[0], ix[0])), a.dtype)
    return Arr.make((a.shape[0], a.shape[0]), lambda ix: ite(ix[0] == ix[1], r((ix[0],)), SNum(z3.RealVal(0))), a.dtype)


np.diag = diag


def insert(a, i, v):
    a = as_arr(a)
    if not (isinstance(i, int) and isnumlike(v)):
        raise Unsupported("np.insert")
    if i == 0:
        return _cat(Arr.from_list([v]), a)
    return _cat(_cat(a[:i], Arr.from_list([v])), a[i:])


np.insert = insert


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return _sub(name)


class _NP(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _sub(n)


np.__class__ = _NP


def split(a, where, axis=0):
    """np.split at ascending points: chunk c holds a[where[c-1]:where[c]]"""
    from ..loops import QSeq
    a, where = as_arr(a), as_arr(where)
    if a.ndim != 1 or where.ndim != 1:
        raise Unsupported("np.split of this kind of array")
    n, k, r = iv(a.shape[0]), iv(where.shape[0]), where.reader()
    at = lambda j: num(r((j,))).e
    j = C.skolem("sp")
    with C.under(j >= 0, j < k):
        oblige("split points are within the array and ascending", z3.And(at(j) >= 0, at(j) <= n, z3.Implies(j + 1 < k, at(j) <= at(j + 1))))

    lo = lambda c: z3.If(c == 0, 0, at(c - 1))
    hi = lambda c: z3.If(c == k, n, at(c))

    def chunk(c):
        c = iv(c)
        l, h = lo(c), hi(c)
        rd = a.reader()
        return Arr.make((SNum(z3.simplify(h - l)),), lambda ix: rd((z3.simplify(l + ix[0]),)), a.dtype)
    # the chunks partition the array: which one holds a place
    of = C.fresh_fn("chunk", I, I)
    C.schema(lambda nm, args, sk: [z3.Implies(z3.And(args[0] >= 0, args[0] < n), z3.And(
        of(args[0]) >= 0, of(args[0]) <= k, lo(of(args[0])) <= args[0], args[0] < hi(of(args[0]))))] +
        # the points ascend, so a place is in one chunk only
        [z3.Implies(z3.And(c >= 0, c <= k, args[0] >= 0, args[0] < n, lo(c) <= args[0], args[0] < hi(c)), of(args[0]) == c) for c in (sk or []) if c.sort() == I], of)
    C.extra_state.setdefault("splits", []).append((lo, hi, of, k))
    return QSeq(SNum(z3.simplify(k + 1)), chunk)


np.split = split


def average(a, axis=None, weights=None, **k):
    if k or axis is not None:
        raise Unsupported("np.average options")
    a = as_arr(a)
    if weights is None:
        return np.mean(a)
    w = as_arr(weights)
    return np.sum(a * w) / np.sum(w)


np.average = average


def apply_over_axes(f, a, axes):
    a = as_arr(a)
    if a.ndim != 1 or axes not in (0, [0], (0,)):
        raise Unsupported("np.apply_over_axes")
    v = f(a, 0)
    return Arr.make((1,), lambda ix: v, "float64")


np.apply_over_axes = apply_over_axes
