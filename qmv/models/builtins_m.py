"""Python builtins over symbolic values."""
from __future__ import annotations

import builtins
import itertools as _it
import types

import z3

from .. import core, loops
from ..arr import Arr, dim, iv
from ..core import C, SBool, SNum, Unsupported, ex, isnumlike, ite, num, oblige
from ..loops import QDict, QList, QSeq, SRange


class TypeShadow(type):
    pass


def _shadow(name, real, conv, symcheck):
    class Meta(type):
        def __instancecheck__(cls, o):
            return builtins.isinstance(o, real) or symcheck(o)

        def __call__(cls, *a, **k):
            return conv(*a, **k)

        def __eq__(cls, o):
            return o is cls or o is real

        def __hash__(cls):
            return hash(real)

        def __getattr__(cls, n):
            return getattr(real, n)
    return Meta(name, (), {"__real__": real})


def _int(x=0, *a):
    if isinstance(x, SNum):
        return SNum(core.trunc_(x.e), x.nan)
    if isinstance(x, SBool):
        return SNum(ex(x))
    if isinstance(x, str) and "\u27e8" in x:
        u = core.unmark(x)
        if u is None:
            raise Unsupported("int() of a symbolic string")
        return _int(u[0])
    if isinstance(x, Arr):
        return _int(x.item())
    if hasattr(x, "_qm_num"):
        return _int(x._qm_num())
    return int(x, *a)


def _float(x=0.0):
    if isinstance(x, (SNum, SBool)):
        x = num(x)
        return SNum(core.rl(x.e), x.nan)
    if isinstance(x, str) and "\u27e8" in x:
        u = core.unmark(x)
        if u is None:
            raise Unsupported("float() of a symbolic string")
        return _float(u[0])
    if isinstance(x, Arr):
        return _float(x.item())
    if hasattr(x, "_qm_num"):
        return _float(x._qm_num())
    return float(x)


def _str(x=""):
    if hasattr(x, "_qm_str"):
        return x._qm_str()
    if isinstance(x, (SNum, SBool)):
        return core.marker(x, "")
    return str(x)


def _bool(x=False):
    return bool(x)


INTS = _shadow("int", int, _int, lambda o: isinstance(o, SNum) and o.isint)
FLOATS = _shadow("float", float, _float, lambda o: isinstance(o, SNum) and not o.isint)
STRS = _shadow("str", str, _str, lambda o: False)
BOOLS = _shadow("bool", bool, _bool, lambda o: isinstance(o, SBool))


def _list(x=()):
    if hasattr(x, "_qm_list"):
        return x._qm_list()
    if isinstance(x, QList):
        return x.copy()
    if loops.is_symbolic(x):
        q = QList()
        n = x.sym_len()
        list.append(q, loops.Comp(iv(n), lambda j: z3.BoolVal(True), lambda j: x.sym_get(j)))
        return q
    return QList(x)


def _dict(*a, **k):
    if a and hasattr(a[0], "parts") and a[0].symbolic():
        d = QDict()
        for p in a[0].parts():
            if isinstance(p, loops.Comp):
                d.segs.append(loops.DSeg(p.n, p.guard, lambda j, p=p: p.elem(j)[0], lambda j, p=p: p.elem(j)[1]))
            else:
                d[p[0]] = p[1]
        return d
    return QDict(*a, **k)


LISTS = _shadow("list", list, _list, lambda o: False)
DICTS = _shadow("dict", dict, _dict, lambda o: False)


def _isinstance(o, t):
    if isinstance(t, tuple):
        return any(_isinstance(o, x) for x in t)
    if t is int:
        t = INTS
    if t is float:
        t = FLOATS
    try:
        return isinstance(o, t)
    except TypeError:
        return False


def _len(x):
    if isinstance(x, (QList, QSeq, Arr, SRange)) or hasattr(x, "sym_len"):
        return loops.qlen(x)
    return len(x)


def _range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    a = [x if isinstance(x, int) else num(x) for x in a]
    for x in a:
        if isinstance(x, SNum) and not x.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
    if len(a) == 1:
        a = [0, a[0]]
    r = SRange(*a)
    vs = [z3.simplify(iv(x)) for x in a]
    if all(z3.is_int_value(v) for v in vs):
        return range(*[v.as_long() for v in vs])
    return r


def _enumerate(x, start=0):
    if loops.is_symbolic(x):
        if isinstance(x, QList) and x.seq() is None:
            raise Unsupported("enumerate of a filtered list")
        s = x.seq() if isinstance(x, QList) else x
        return QSeq(s.sym_len(), lambda k: (SNum(z3.simplify(k + iv(start))), s.sym_get(k)))
    return enumerate(x, start)


def _zip(*xs, strict=False):
    if any(loops.is_symbolic(x) for x in xs):
        ss = []
        for x in xs:
            if isinstance(x, QList):
                s = x.seq()
                if s is None and x.symbolic():
                    raise Unsupported("zip of a filtered list")
                ss.append(s if s is not None else _Conc(x))
            elif hasattr(x, "sym_len"):
                ss.append(x)
            elif isinstance(x, (list, tuple)):
                ss.append(_Conc(x))
            else:
                raise Unsupported("zip with a native iterator")
        n = iv(ss[0].sym_len())
        for s in ss[1:]:
            m = iv(s.sym_len())
            if not core.valid(n <= m):
                n = z3.If(n <= m, n, m) if not core.valid(m <= n) else m
        return QSeq(dim(n), lambda k: tuple(s.sym_get(k) for s in ss))
    return zip(*xs)


class _Conc:
    def __init__(self, x):
        self.x = QList(x)

    def sym_len(self):
        return len(self.x)

    def sym_get(self, k):
        return self.x[SNum(k)]


def _reversed(x):
    if loops.is_symbolic(x):
        s = x.seq() if isinstance(x, QList) else x
        n = iv(s.sym_len())
        return QSeq(dim(n), lambda k: s.sym_get(n - 1 - k))
    return reversed(x)


def _minmax(kind):
    real = min if kind == "min" else max

    def f(*a, **k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, Arr):
                return x.min() if kind == "min" else x.max()
            if isinstance(x, QList) and x.symbolic() or isinstance(x, QSeq) and loops.is_symbolic(x):
                if k.get("key"):
                    raise Unsupported("max with key over a symbolic sequence")
                s = x.seq() if isinstance(x, QList) else x
                if s is None:
                    raise Unsupported("max of a filtered list")
                from .numpy_m import extremum
                if not bool(num(s.sym_len()) > 0):
                    if "default" in k:
                        return k["default"]
                    raise ValueError(f"{kind}() arg is an empty sequence")
                return extremum(Arr.make((s.sym_len(),), lambda ix: num(s.sym_get(ix[0]))), kind)[0]
            vals = list(x)
        else:
            vals = list(a)
        if not any(isinstance(v, (SNum, SBool)) for v in vals) or k.get("key"):
            return real(*a, **k) if len(a) > 1 else real(vals, **k)
        r = vals[0]
        for v in vals[1:]:
            c = (v < r) if kind == "min" else (v > r)
            r = ite(c, v, r) if isinstance(c, SBool) else (v if c else r)
        return r
    return f


def _sum(x, start=0):
    if isinstance(x, Arr):
        return x.sum() + start
    if isinstance(x, QList) and x.symbolic():
        ps = x.parts()
        if len(ps) == 1 and isinstance(ps[0], loops.Comp) and isinstance(ps[0].elem(z3.Const("probe!", core.I)), Arr):
            from . import numpy_m                   # element by element
            if not core.valid(ps[0].n >= 1 if hasattr(ps[0].n, "sort") else num(ps[0].n).e >= 1):
                raise core.Unsupported("sum of possibly no arrays")
            t = numpy_m.np.sum(numpy_m.as_arr(x), axis=0)
            return t if isinstance(start, int) and start == 0 else t + start
        t = num(start)
        for p in ps:
            if isinstance(p, loops.Comp):
                isint = num(p.elem(z3.Const("probe!", core.I))).isint
                v = core.ssum(0, p.n, lambda j: ite(p.guard(ex(j)), num(p.elem(ex(j))), SNum(z3.RealVal(0))))
                t = t + (SNum(z3.ToInt(v.e)) if isint else v)
            else:
                t = t + p
        return t
    if loops.is_symbolic(x):
        if isinstance(x.sym_get(z3.Const("probe!", core.I)), Arr):
            from . import numpy_m
            if not core.valid(num(x.sym_len()).e >= 1):
                raise core.Unsupported("sum of possibly no arrays")
            t = numpy_m.np.sum(numpy_m.as_arr(x), axis=0)
            return t if isinstance(start, int) and start == 0 else t + start
        isint = num(x.sym_get(z3.Const("probe!", core.I))).isint
        v = core.ssum(0, x.sym_len(), lambda j: num(x.sym_get(ex(j))))
        return (SNum(z3.ToInt(v.e)) if isint else v) + start
    r = start
    for v in x:
        r = r + v
    return r


def _any(x):
    return _quant(x, True)


def _all(x):
    return _quant(x, False)


def _quant(x, ex_):
    if isinstance(x, Arr):
        return x.any() if ex_ else x.all()
    if loops.is_symbolic(x):
        parts = x.parts() if isinstance(x, QList) else [loops.Comp(iv(x.sym_len()), lambda j: z3.BoolVal(True), x.sym_get)]
        acc = []
        for p in parts:
            if isinstance(p, loops.Comp):
                k = C.raw("kq", core.I)
                with C.gen(k):
                    v = p.elem(k)
                c = v.e if isinstance(v, SBool) else core.tobool(v) if isinstance(v, bool) else num(v).e != 0
                if not ex_:
                    c = z3.Not(c)
                acc.append(core.exists_flag(z3.IntVal(0), iv(p.n), k, z3.And(p.guard(k), c)))
            else:
                c = p.e if isinstance(p, SBool) else z3.BoolVal(bool(p))
                acc.append(c if ex_ else z3.Not(c))
        r = z3.Or(*acc) if acc else z3.BoolVal(False)
        return SBool(r if ex_ else z3.Not(r))
    acc = []
    for v in x:
        if isinstance(v, (SBool, SNum)):
            acc.append(v.e if isinstance(v, SBool) else v.e != 0)
        elif bool(v) == ex_:
            return ex_
    if not acc:
        return not ex_
    return SBool(z3.Or(*acc) if ex_ else z3.And(*acc))


def _sorted(x, key=None, reverse=False):
    if isinstance(x, loops.SymSet) and key is None and not reverse:
        return loops.SymSet(x.comps, ordered=True)
    if isinstance(x, QList) and x.symbolic():
        return loops.Shuffled(x.parts())
    if loops.is_symbolic(x):
        raise Unsupported("sorted() of a symbolic sequence")
    vals = list(x)
    ks = [key(v) if key else v for v in vals]
    if any(isinstance(k, SNum) for k in ks):
        # insertion by decided comparisons
        out = []
        for v, k in zip(vals, ks):
            pos = len(out)
            for i, (kk, _) in enumerate(out):
                if bool(k < kk) if not reverse else bool(k > kk):
                    pos = i
                    break
            out.insert(pos, (k, v))
        return QList(v for _, v in out)
    return QList(sorted(vals, key=key, reverse=reverse))


def _round(x, nd=None):
    if isinstance(x, (SNum, SBool)):
        return core.round_(x, nd)
    if hasattr(x, "round") and not isinstance(x, (int, float)):
        return x.round(nd or 0)
    return round(x, nd) if nd is not None else round(x)


def _iter(x, *a):
    return iter(x, *a)


def _type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, SNum):
        return INTS if x.isint else FLOATS
    if isinstance(x, SBool):
        return BOOLS
    return {int: INTS, float: FLOATS, str: STRS, bool: BOOLS, QList: LISTS, list: LISTS,
            QDict: DICTS, dict: DICTS}.get(type(x), type(x))


def _abs(x):
    return abs(x)


def _divmod(a, b):
    return a // b, a % b


def _set(x=()):
    if loops.is_symbolic(x):
        if isinstance(x, QList) and x.parts() and all(isinstance(p, loops.Comp) for p in x.parts()):
            return loops.SymSet(x.parts())
        raise Unsupported("set() of a symbolic sequence")
    return set(x)


def _map(f, *xs):
    if any(loops.is_symbolic(x) for x in xs):
        z = _zip(*xs)
        return QSeq(z.sym_len(), lambda k: f(*z.sym_get(k)))
    return map(f, *xs)


def _next(x, *default):
    """the first element of a generator expression (a list to the engine): asked for once"""
    if not isinstance(x, QList):
        return next(x, *default)
    if getattr(x, "_begun", False):
        raise Unsupported("next() of a generator already begun")
    x._begun = True
    for p in x.parts():
        if not isinstance(p, loops.Comp):
            return p
        n, k = iv(p.n), C.raw("kn", core.I)
        if C.decide(core.exists_flag(z3.IntVal(0), n, k, p.guard(k))):
            i = C.skolem("first")
            C.define(z3.And(i >= 0, i < n, p.guard(i)), i)
            C.define_forall(lambda j: z3.Implies(z3.And(j >= 0, j < i), z3.Not(p.guard(j))), i)
            return p.elem(i)
    if default:
        return default[0]
    raise StopIteration


def table():
    return {"next": _next,
        "int": INTS, "float": FLOATS, "str": STRS, "bool": BOOLS, "list": LISTS, "dict": DICTS,
        "isinstance": _isinstance, "len": _len, "range": _range, "enumerate": _enumerate, "zip": _zip,
        "min": _minmax("min"), "max": _minmax("max"), "sum": _sum, "any": _any, "all": _all,
        "sorted": _sorted, "round": _round, "type": _type, "abs": _abs, "reversed": _reversed,
        "set": _set, "divmod": _divmod, "map": _map,
    }


itertools_mod = types.ModuleType("itertools")
itertools_mod.__dict__.update(_it.__dict__)


def _chain(*xs):
    if any(loops.is_symbolic(x) for x in xs):
        q = QList()
        for x in xs:
            for p in _list(x).parts():
                list.append(q, p)
        return q
    return _it.chain(*xs)


itertools_mod.chain = _chain
