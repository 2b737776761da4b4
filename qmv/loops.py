"""
qmv.loops -- loops over symbolic ranges, summarised for an arbitrary number of iterations.

The loop body (the real one) is run once for a generic iteration k from a havocked state;
from what it does to every location a closed form is derived and checked:
  * unchanged, or a function of the iteration only;
  * accumulation  v' = v + d(k)            ->  v0 + sum_{j<k} d(j);
  * running extremum with its index         ->  the defining inequalities;
  * array writes: location-wise accumulation, or at most one writing iteration per
    location (disjointness is an obligation) -> piecewise value;
  * append-only lists / insert-only dicts    ->  comprehension over the iterations.
These closed forms are the loop invariants; the body is then run again from the closed-form
state at iteration k with all obligations recorded.  Anything else raises Unsupported.
"""
from __future__ import annotations

import types

import z3

from . import core
from .arr import Arr, Cell, dim, iv
from .core import (B, C, I, R, Infeasible, SBool, SNum, Unsupported, contains, ex, ite,
                   isnumlike, num, oblige, rl, ssum_raw, sub_explore, tobool, valid)


class Break(core.Control):
    pass


class Return(core.Control):
    def __init__(self, v):
        self.v = v


class Poison:
    """Value that is not known at this point (reading it is outside the verifier's reach)."""

    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def _no(self, *a, **k):
        raise Unsupported("use of a loop-dependent value: " + object.__getattribute__(self, "why"))

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = _no
    __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = _no
    __getitem__ = __setitem__ = __iter__ = __len__ = __call__ = __str__ = __format__ = _no
    __neg__ = __abs__ = __float__ = __int__ = __contains__ = _no
    __hash__ = object.__hash__

    def __getattr__(self, n):
        if n.startswith("_qm") or n in ("sym_len", "sym_get"):
            raise AttributeError(n)
        self._no()


# ------------------------------------------------------------------ symbolic sequences
class QSeq:
    """Sequence with symbolic length; element k is get(k)."""

    def __init__(self, n, get, name="seq"):
        self.n = n
        self.get = get
        self.name = name

    def sym_len(self):
        return dim(iv(self.n))

    def sym_get(self, k):
        return self.get(iv(k))

    def __getitem__(self, k):
        if isinstance(k, slice):
            st, ln, sp = Arr._slice(k, self.sym_len())
            if sp != 1:
                raise Unsupported("strided slice of a symbolic sequence")
            return QSeq(dim(ln), lambda j: self.get(z3.simplify(st + j)))
        e = iv(k)
        es = z3.simplify(e)
        if z3.is_int_value(es) and es.as_long() < 0:
            e = iv(self.n) + e
        oblige("sequence index in bounds", z3.And(e >= 0, e < iv(self.n)))
        return self.get(e)

    def __iter__(self):
        n = self.sym_len()
        if isinstance(n, int):
            return iter([self.get(z3.IntVal(i)) for i in range(n)])
        raise Unsupported("native iteration over a symbolic sequence")

    def __bool__(self):
        n = self.sym_len()
        return n > 0 if isinstance(n, int) else bool(n > 0)

    def __len__(self):
        n = self.sym_len()
        return n if isinstance(n, int) else n.__index__()


class SRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def sym_len(self):
        lo, hi = iv(self.lo), iv(self.hi)
        st = self.step
        if isinstance(st, SNum):
            oblige("range step positive", st.e > 0)
            d = (hi - lo + st.e - 1) / st.e
        elif st > 0:
            d = hi - lo if st == 1 else (hi - lo + st - 1) / st
        else:
            d = lo - hi if st == -1 else (lo - hi - st - 1) / (-st)
        if not valid(d >= 0):
            d = z3.If(d < 0, z3.IntVal(0), d)
        return dim(d)

    def sym_get(self, k):
        return SNum(z3.simplify(iv(self.lo) + iv(self.step) * iv(k)))

    def __iter__(self):
        n = self.sym_len()
        if isinstance(n, int):
            return iter([self.sym_get(z3.IntVal(i)) for i in range(n)])
        raise Unsupported("native iteration over a symbolic range")


class Comp:
    """Part of a summarised list: for j in [0,n) with guard(j): elem(j)."""

    def __init__(self, n, guard, elem):
        self.n, self.guard, self.elem = n, guard, elem

    def total(self):
        k = C.raw("cg", I)
        return valid(z3.Implies(z3.And(k >= 0, k < iv(self.n)), self.guard(k)))


class QList(list):
    """Python list created by verified code: concrete, or with summarised parts."""

    def __init__(self, it=()):
        super().__init__(it)
        self.frozen = False

    def _chk(self):
        if self.frozen:
            raise Unsupported("list read inside the loop that builds it")
        if self.symbolic():
            raise Unsupported("summarised list read natively")

    def symbolic(self):
        return any(isinstance(x, Comp) for x in list.__iter__(self))

    def parts(self):
        return list(list.__iter__(self))

    def seq(self):
        """As a QSeq when every element position is known."""
        ps = self.parts()
        if not self.symbolic():
            return None
        if len(ps) == 1 and ps[0].total():
            return QSeq(ps[0].n, ps[0].elem)
        return None

    def __iter__(self):
        if not list.__len__(self):
            if self.frozen:
                raise Unsupported("list read inside the loop that builds it")
            return list.__iter__(self)
        self._chk()
        return list.__iter__(self)

    def __getitem__(self, k):
        if self.symbolic() and not self.frozen:
            s = self.seq()
            if s is not None:
                return s[k]
        if self.frozen and isinstance(k, int) and k < 0 and -k <= list.__len__(self) - self._base:
            return list.__getitem__(self, k)
        self._chk()
        if isinstance(k, (SNum, Arr)):
            v = z3.simplify(iv(k)) if isinstance(k, SNum) else None
            if v is not None and z3.is_int_value(v):
                return list.__getitem__(self, v.as_long())
            out = list.__getitem__(self, -1)
            for j in range(list.__len__(self) - 2, -1, -1):
                out = ite(iv(k) == j, list.__getitem__(self, j), out)
            oblige("list index in bounds", z3.And(iv(k) >= 0, iv(k) < list.__len__(self)))
            return out
        r = list.__getitem__(self, k)
        return QList(r) if isinstance(k, slice) else r

    def __len__(self):
        if self.symbolic() or self.frozen:
            raise Unsupported("native len() of a summarised list")
        return list.__len__(self)

    def __bool__(self):
        if self.frozen:
            raise Unsupported("truth of a list inside the loop that builds it")
        if self.symbolic():
            n = qlen(self)
            return bool(n > 0)
        return list.__len__(self) > 0

    def __add__(self, o):
        return QList(self.parts() + (o.parts() if isinstance(o, QList) else list(o)))

    def copy(self):
        return QList(self.parts())

    def __contains__(self, x):
        self._chk()
        return list.__contains__(self, x)

    def sym_len(self):
        return qlen(self)

    def sym_get(self, k):
        s = self.seq()
        if s is not None:
            return s.sym_get(k)
        return self[SNum(iv(k))]


class Shuffled(QList):
    """the elements of a list in some other order: only what is in it is known"""

    def seq(self):
        return None

    def __add__(self, o):
        return Shuffled(QList.__add__(self, o).parts())

    def copy(self):
        return Shuffled(self.parts())


class Char:
    def __init__(self, text, k):
        self.text, self.k = text, k

    def _qm_subst(self, f):
        return Char(self.text, f(self.k))


class Joined:
    """text made of the texts of a list of unknown length"""

    def __init__(self, sep, lst, after=""):
        self.sep, self.lst, self.after = sep, lst, after
        self.n = C.fresh("chars", I)
        C.assume(self.n >= 0)

    def sym_len(self):
        return SNum(self.n)

    def sym_get(self, k):
        return Char(self, iv(k))

    def _qm_symbolic(self):
        return True

    def __iter__(self):
        raise Unsupported("characters of a text of unknown length")

    def __bool__(self):
        return C.decide(self.n > 0)

    def __add__(self, o):
        if not isinstance(o, str):
            raise Unsupported("text added")
        return Joined(self.sep, self.lst, self.after + o)

    def _qm_subst(self, f):
        return self


def _native(name):
    op = getattr(list, name)

    def method(self, *a, **k):
        self._chk()
        return op(self, *a, **k)
    return method


for _n in ("index", "count", "remove", "reverse", "sort", "insert", "pop", "__mul__", "__reversed__", "__eq__", "__ne__", "__lt__", "__delitem__", "__iadd__"):
    if _n not in QList.__dict__:
        setattr(QList, _n, _native(_n))
QList.__hash__ = None


def qlen(x):
    if isinstance(x, QList):
        if x.frozen:
            raise Unsupported("length of a list inside the loop that builds it")
        tot = None
        for p in x.parts():
            if isinstance(p, Comp):
                if p.total():
                    n = iv(p.n)
                else:
                    n = z3.ToInt(core.ssum(0, p.n, lambda j: SNum(z3.If(p.guard(ex(j)), z3.RealVal(1), z3.RealVal(0)))).e)
                    k = C.raw("k", I)
                    some = core.exists_flag(z3.IntVal(0), iv(p.n), k, p.guard(k))
                    C.define(z3.And(n >= 0, (n >= 1) == some), some)
            else:
                n = z3.IntVal(1)
            tot = n if tot is None else tot + n
        return dim(tot) if tot is not None else 0
    if hasattr(x, "sym_len"):
        return x.sym_len()
    return len(x)


class SymSet:
    """The different values of a symbolic sequence, in some order (ascending when sorted)."""

    def __init__(self, comps, ordered=False):
        self.comps = comps
        probe = comps[0].elem(z3.Const("ss!", I))
        self.wrap = (lambda e: type(probe)(e)) if hasattr(probe, "d") else (lambda e: probe._wrap(e))
        key = lambda v: v.d if hasattr(v, "d") else num(v).e
        srt = key(probe).sort()
        self.G = C.fresh("different", I)
        self.K, self.P = C.fresh_fn("value", I, srt), C.fresh_fn("place", srt, I)
        K, P, G = self.K, self.P, self.G
        S = [C.fresh_fn("source", I, I) for _ in comps]
        W = C.fresh_fn("which", I, I)
        C.define(G >= 0, G)
        names = [K.name(), P.name()]
        ing = lambda g: z3.And(g >= 0, g < G)

        def member(g):
            alt = [z3.And(W(g) == q, s(g) >= 0, s(g) < iv(p.n), p.guard(s(g)), key(p.elem(s(g))) == K(g)) for q, (p, s) in enumerate(zip(comps, S))]
            return z3.Implies(ing(g), z3.And(z3.Or(*alt), P(K(g)) == g))

        def schema(nm, a, sk):
            if nm == names[0]:
                g = a[0]
                out = [member(g)]
                if ordered:
                    out += [z3.Implies(z3.And(ing(g), ing(g + 1)), K(g) < K(g + 1)), z3.Implies(z3.And(ing(g), ing(g - 1)), K(g - 1) < K(g))]
                return out
            return []
        C.schema(schema, K, P)
        for p in comps:
            C.define_forall(lambda j, p=p: z3.Implies(z3.And(j >= 0, j < iv(p.n), p.guard(j)), z3.And(
                ing(P(key(p.elem(j)))), K(P(key(p.elem(j)))) == key(p.elem(j)))), K, P)

    def sym_len(self):
        return SNum(self.G)

    def sym_get(self, k):
        return self.wrap(self.K(iv(k)))

    def _qm_symbolic(self):
        return True

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic set")

    __hash__ = None


class DSeg:
    def __init__(self, n, guard, key, val):
        self.n, self.guard, self.key, self.val = n, guard, key, val


class QDict(dict):
    """Python dict created by verified code; insert-only inside summarised loops."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.segs = []
        self.frozen = False
        self._own = set()

    def symbolic(self):
        return bool(self.segs)

    def __getitem__(self, k):
        if dict.__contains__(self, k) and (not self.frozen or k in self._own):
            return dict.__getitem__(self, k)
        if self.frozen or self.segs:
            for s in self.segs:
                r = match_key(s, k)
                if r is not None:
                    return r
            raise Unsupported("dictionary read inside/after the loop that builds it")
        return dict.__getitem__(self, k)

    def __setitem__(self, k, v):
        dict.__setitem__(self, k, v)
        self._own.add(k)

    def setdefault(self, k, d=None):
        if self.frozen and k not in self._own:
            self[k] = d
            self.extra = True
            return d
        return dict.setdefault(self, k, d)

    def get(self, k, d=None):
        if self.frozen and k not in self._own or self.segs:
            raise Unsupported("dictionary read inside the loop that builds it")
        return dict.get(self, k, d)

    def update(self, *a, **k):
        for x in a:
            for kk, vv in (x.items() if hasattr(x, "items") else x):
                self[kk] = vv
        for kk, vv in k.items():
            self[kk] = vv

    def copy(self):
        d = QDict(dict.items(self))
        d.segs = list(self.segs)
        return d

    def _parts(self, f):
        if self.frozen:
            raise Unsupported("dictionary iterated inside the loop that builds it")
        if not self.segs:
            return None
        ps = [f(k, v) for k, v in dict.items(self)]
        for s in self.segs:
            ps.append(Comp(s.n, s.guard, lambda j, s=s: f(s.key(j), s.val(j))))
        return QList(ps)

    def items(self):
        p = self._parts(lambda k, v: (k, v))
        return dict.items(self) if p is None else p

    def keys(self):
        p = self._parts(lambda k, v: k)
        return dict.keys(self) if p is None else p

    def values(self):
        p = self._parts(lambda k, v: v)
        return dict.values(self) if p is None else p

    def __iter__(self):
        if self.frozen or self.segs:
            raise Unsupported("native iteration over a summarised dict")
        return dict.__iter__(self)

    def __contains__(self, k):
        if dict.__contains__(self, k) and not self.frozen:
            return True
        if self.frozen or self.segs:
            raise Unsupported("membership test on a summarised dict")
        return False


def match_key(seg, k):
    return None


# ------------------------------------------------------------------ substitution
def subst(v, pairs, memo=None):
    """Replace z3 constants inside a value (structured)."""
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, SNum):
        if type(v) is not SNum:
            return v._wrap(z3.substitute(v.e, *pairs))
        return SNum(z3.substitute(v.e, *pairs), None if v.nan is None else z3.substitute(v.nan, *pairs))
    if isinstance(v, SBool):
        return SBool(z3.substitute(v.e, *pairs))
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if isinstance(v, str):
        if "\u27e8" not in v:
            return v
        import re
        return type(v)(re.sub("\u27e8(\\d+)\u27e9",
                      lambda m: core.marker(subst(C.markers[int(m.group(1))][1], pairs),
                                            C.markers[int(m.group(1))][2]), str(v)))
    if v is None or isinstance(v, (int, float, bool, bytes, types.FunctionType, type, types.ModuleType)):
        return v
    if isinstance(v, tuple):
        return tuple(subst(x, pairs, memo) for x in v)
    if isinstance(v, Arr):
        r = v.reader()
        out = Arr.make(tuple(subst(s, pairs) for s in v.shape), lambda ix: subst_at(r, ix, pairs), v.dtype)
        if hasattr(v, "unique"):
            out.unique = v.unique
        if hasattr(getattr(v, "embed", None), "_qm_subst"):
            out.embed = v.embed._qm_subst(lambda x: subst(x, pairs))
        return out
    if hasattr(v, "_qm_subst"):
        return v._qm_subst(lambda x: subst(x, pairs, memo))
    if isinstance(v, QList):
        n = QList()
        memo[id(v)] = n
        for x in v.parts():
            list.append(n, Comp(subst(x.n, pairs), lambda j, x=x: z3.substitute(x.guard(j), *pairs),
                                lambda j, x=x: subst(x.elem(j), pairs)) if isinstance(x, Comp) else subst(x, pairs, memo))
        return n
    if isinstance(v, list):
        return [subst(x, pairs, memo) for x in v]
    if isinstance(v, QDict):
        n = QDict()
        memo[id(v)] = n
        for k, x in dict.items(v):
            dict.__setitem__(n, subst(k, pairs, memo), subst(x, pairs, memo))
        if v.segs:
            raise Unsupported("substitution in a summarised dict")
        return n
    if isinstance(v, dict):
        return {subst(k, pairs, memo): subst(x, pairs, memo) for k, x in v.items()}
    if isinstance(v, QSeq):
        return QSeq(subst(v.n, pairs), lambda j: subst(v.get(j), pairs))
    if hasattr(v, "__dict__"):
        n = object.__new__(type(v))
        memo[id(v)] = n
        for k, x in v.__dict__.items():
            object.__setattr__(n, k, subst(x, pairs, memo))
        return n
    return v


def subst_at(r, ix, pairs):
    """reader at ix with pairs substituted, without touching ix itself"""
    ph = [C.raw("ix", I) for _ in ix]
    with C.gen(*ph):
        v = subst(r(tuple(ph)), pairs)
    return subst(v, list(zip(ph, ix)))


# ------------------------------------------------------------------ heap
SKIP = (types.ModuleType, types.FunctionType, type, types.MethodType, types.BuiltinFunctionType,
        str, int, float, bool, bytes, type(None), SNum, SBool, z3.AstRef, Poison)


class Heap:
    """Shallow snapshots of every mutable object reachable from the roots."""

    def __init__(self, roots):
        self.items = {}
        self.wf = {}
        seen = set()
        st = list(roots)
        while st:
            o = st.pop()
            if isinstance(o, SKIP) or id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, Arr):
                st.append(o.cell)
            elif isinstance(o, Cell):
                self.items[id(o)] = (o, "cell", o.fn)
                self.wf[id(o)] = o.wfn
            elif isinstance(o, QList):
                self.items[id(o)] = (o, "list", o.parts())
                st.extend(x for x in o.parts() if not isinstance(x, Comp))
            elif isinstance(o, list):
                self.items[id(o)] = (o, "list", list(o))
                st.extend(o)
            elif isinstance(o, dict):
                self.items[id(o)] = (o, "dict", dict(dict.items(o)))
                st.extend(dict.values(o))
            elif isinstance(o, (tuple, set, frozenset)):
                st.extend(o)
            elif hasattr(o, "__dict__"):
                self.items[id(o)] = (o, "obj", dict(o.__dict__))
                st.extend(o.__dict__.values())

    def restore(self):
        for o, kind, val in self.items.values():
            if kind == "cell":
                o.fn = val
                o.wfn = self.wf[id(o)]
            elif kind == "list":
                list.__setitem__(o, slice(None), val)
                if isinstance(o, QList):
                    o.frozen = False
            elif kind == "dict":
                dict.clear(o)
                dict.update(o, val)
                if isinstance(o, QDict):
                    o.frozen = False
                    o._own = set()
            else:
                o.__dict__.clear()
                o.__dict__.update(val)

    def diff(self):
        """slot -> new content"""
        out = {}
        for i, (o, kind, val) in self.items.items():
            if kind == "cell":
                if o.fn is not val:
                    out[("cell", i)] = (o.fn, o.wfn)
            elif kind == "list":
                cur = list(list.__iter__(o))
                if len(cur) != len(val) or any(a is not b for a, b in zip(cur, val)):
                    if len(cur) < len(val) or any(a is not b for a, b in zip(cur, val)):
                        raise Unsupported("loop changes list elements in place")
                    out[("list", i)] = cur[len(val):]
            elif kind == "dict":
                cur = dict(dict.items(o))
                ch = [(k, v) for k, v in cur.items() if k not in val or val[k] is not v]
                if len(cur) < len(val):
                    raise Unsupported("loop deletes dictionary entries")
                if ch:
                    out[("dict", i)] = ch
            else:
                cur = o.__dict__
                for k in set(cur) | set(val):
                    if k.startswith("_qmi"):
                        continue
                    a, b = val.get(k, MISSING), cur.get(k, MISSING)
                    if a is not b:
                        out[("attr", i, k)] = b
        return out


class _Missing:
    def __repr__(self):
        return "<missing>"


MISSING = _Missing()


def leaves(v, path=()):
    """Flatten a structured value into scalar leaves: [(path, scalar)] or None."""
    if isinstance(v, (SNum, SBool)) or (isinstance(v, (int, float)) and not isinstance(v, bool)):
        return [(path, v)]
    if isinstance(v, bool):
        return [(path, v)]
    if hasattr(v, "_qm_parts"):
        out = []
        for n, x in v._qm_parts():
            r = leaves(x, path + (n,))
            if r is None:
                return None
            out += r
        return out
    if isinstance(v, tuple):
        out = []
        for n, x in enumerate(v):
            r = leaves(x, path + (n,))
            if r is None:
                return None
            out += r
        return out
    return None


def rebuild(v, vals, path=()):
    if path in vals:
        if isinstance(v, SNum) and type(v) is not SNum:
            return v._wrap(vals[path].e)
        return vals[path]
    if hasattr(v, "_qm_parts"):
        return v._qm_make({n: rebuild(x, vals, path + (n,)) for n, x in v._qm_parts()})
    if isinstance(v, tuple):
        return tuple(rebuild(x, vals, path + (n,)) for n, x in enumerate(v))
    return v


def valid_same(a, b):
    if a is b:
        return True
    la, lb = leaves(a), leaves(b)
    if la is None or lb is None:
        return False
    if [p for p, _ in la] != [p for p, _ in lb]:
        return False
    for (_, x), (_, y) in zip(la, lb):
        if isinstance(x, (SBool, bool)) != isinstance(y, (SBool, bool)):
            return False
        if isinstance(x, (SBool, bool)):
            if not valid(tobool(x) == tobool(y)):
                return False
        else:
            x, y = num(x), num(y)
            if (x.nan is not None) or (y.nan is not None):
                return False
            p, q = SNum._mix(x.e, y.e)
            if not valid(p == q):
                return False
    return True


def raw_fn(hint, *sorts):
    C.n += 1
    return z3.Function(f"{hint}!{C.n}", *sorts)


class Slot:
    """One scalar leaf, or one array cell, changed by the loop."""

    def __init__(self, key, path, v0, hv):
        self.key, self.path, self.v0, self.hv = key, path, v0, hv
        self.closed = None        # t (z3 Int) -> SNum/SBool
        self.nxt = None           # value after one iteration


# ------------------------------------------------------------------ the summariser
class Loop:
    def __init__(self, body, get, setv, n=None, elem=None, cond=None, omp=None):
        self.body, self.get, self.setv = body, get, setv
        self.n, self.elem, self.cond = n, elem, cond
        self.omp = omp
        self.roots = []
        for f in (body, cond):
            if f is not None and getattr(f, "__closure__", None):
                for nm, cell in zip(f.__code__.co_freevars, f.__closure__):
                    try:
                        self.roots.append(cell.cell_contents)
                    except ValueError:
                        pass

    # one run of the body from the current state; returns (kind, payload, locals, heapdiff)
    def _iter(self, k, heap0, locs0, state):
        heap0.restore()
        self.setv(dict(locs0))
        self._install(state, heap0)
        heap = Heap([*locs0.values(), *self.roots, *[v for v in self.get().values()]])
        for o, kind, val in heap.items.values():
            if kind == "cell":
                o.wfn = lambda bx: z3.BoolVal(False)
            elif kind == "list" and isinstance(o, QList):
                o.frozen, o._base = True, len(val)
            elif kind == "dict" and isinstance(o, QDict):
                o.frozen, o._own = True, set()
        l0 = self.get()
        if self.cond is not None:
            c = self.cond()
            C.assume(c if isinstance(c, (SBool, bool)) else bool(c))
        kind, payload = "ok", None
        try:
            if self.elem is not None:
                self.body(self.elem(k))
            else:
                self.body()
        except Break:
            kind = "break"
        except Return as r:
            kind, payload = "return", r.v
        except core.Control:
            raise
        except Exception as e:
            kind, payload = "raise", e
        l1 = self.get()
        ch = {}
        for nme in set(l0) | set(l1):
            a, b = l0.get(nme, MISSING), l1.get(nme, MISSING)
            if a is not b:
                ch[("loc", nme)] = b
        hd = heap.diff()
        return kind, payload, ch, hd, heap, l0

    def _install(self, state, heap0):
        """state: {slotkey: value}"""
        for key, v in state.items():
            if key[0] == "loc":
                self.setv({key[1]: v})
            elif key[0] == "attr":
                heap0.items[key[1]][0].__dict__[key[2]] = v
            elif key[0] == "cell":
                heap0.items[key[1]][0].fn = v

    def run(self):
        heap0 = Heap([*self.get().values(), *self.roots])
        locs0 = self.get()
        k = C.raw("k", I)
        C.skolems.append(k)
        if self.n is not None:
            nn = iv(self.n)
            rng = [k >= 0, k < nn]
        else:
            rng = [k >= 0]
        # ---- pass 1: which locations change?
        changed = {}                       # key -> entry value
        tmpl = {}
        C.quiet += 1
        try:
            for rnd in range(8):
                state = {}
                hv = {}
                for key, v0 in changed.items():
                    state[key], hv[key] = self._havoc(key, v0, heap0)
                with C.under(*rng), C.gen(k):
                    paths = sub_explore(lambda: self._iter(k, heap0, locs0, state))
                heap0.restore()
                self.setv(dict(locs0))
                new = False
                for pc, (kind, payload, ch, hd, heap, l0) in paths:
                    for key in list(ch) + list(hd):
                        if key[0] in ("list", "dict"):
                            continue
                        if key in changed:
                            continue
                        if key[0] == "loc":
                            if key[1] not in locs0:
                                continue
                            v0 = locs0[key[1]]
                        elif key[0] == "attr":
                            if key[1] not in heap0.items:
                                continue
                            v0 = heap0.items[key[1]][2].get(key[2], MISSING)
                        else:
                            if key[1] not in heap0.items:
                                continue
                            v0 = heap0.items[key[1]][2]
                        nv = ch.get(key, hd.get(key))
                        if key[0] != "cell" and valid_same(v0, nv):
                            continue
                        changed[key] = v0
                        new = True
                if not new:
                    break
            else:
                raise Unsupported("loop state does not stabilise")
            # ---- recurrences
            slots = self._slots(changed, hv, paths, heap0)
            self._solve(slots, k, rng, paths, heap0, changed)
        finally:
            C.quiet -= 1

        def state_at(t):
            st = {}
            for key, v0 in changed.items():
                st[key] = self._value_at(key, v0, slots, t, heap0)
            return st

        # ---- number of iterations
        if self.n is not None:
            K = nn
        else:
            K = C.fresh("K", I)
        # ---- pass 2: verify the body from the closed-form state
        condk = None
        with C.under(*rng, *([k < K] if self.n is None else [])):
            if self.n is None and self.cond is not None:
                heap0.restore()
                self.setv(dict(locs0))
                self._install(state_at(k), heap0)
                C.quiet += 1
                c = self.cond()
                C.quiet -= 1
                condk = tobool(c) if isinstance(c, (SBool, bool)) else z3.BoolVal(bool(c))
            C.loop_depth += 1
            try:
                sk = state_at(k)
                with C.gen(k):
                    paths2 = sub_explore(lambda: self._iter(k, heap0, locs0, sk))
            finally:
                C.loop_depth -= 1
            heap0.restore()
            self.setv(dict(locs0))
            if self.omp:
                self._omp_checks(k, K, slots, paths2, heap0)
        # ---- leave the loop
        C.skolems[:] = [x for x in C.skolems if not x.eq(k)]
        ispl = lambda j: z3.And(j >= 0, j < K)
        C.define(K >= 0, K) if self.n is None else C.assume(K >= 0)
        if self.n is None:
            C.define_forall(lambda j: z3.Implies(ispl(j), z3.substitute(condk, (k, j))), K)
            C.define(z3.Implies(K > 0, z3.substitute(condk, (k, K - 1))), K)
        guards = []
        for pc, (kind, payload, ch, hd, heap, l0) in paths2:
            if kind != "ok":
                guards.append((kind, payload, z3.And(*pc) if pc else z3.BoolVal(True), ch, hd))
        which = 0
        if guards:
            G = z3.simplify(z3.Or(*[g[2] for g in guards]))
            flag = core.exists_flag(z3.IntVal(0), K, k, G)
            which = C.choose(len(guards) + 1)
        if which == 0:
            if guards:
                C.assume_branch(z3.Not(flag))
                for q in (K - 1, z3.IntVal(0)):
                    C.pc.append(z3.Implies(K > 0, z3.Not(z3.substitute(G, (k, q)))))
            st = state_at(K)
            T = K
        else:
            kind, payload, g, ch, hd = guards[which - 1]
            j0 = C.skolem("kx")
            C.define(z3.Implies(flag, z3.And(ispl(j0), z3.substitute(G, (k, j0)))), j0)
            C.define_forall(lambda q: z3.Implies(z3.And(flag, q >= 0, q < j0), z3.Not(z3.substitute(G, (k, q)))), j0)
            C.assume_branch(z3.And(flag, ispl(j0), z3.substitute(g, (k, j0))))
            st = state_at(j0)
            T = j0
        if not core.quick_sat(C.pc):
            raise Infeasible()
        self._install(st, heap0)
        for s in slots:
            if s.path is None:
                cell = heap0.items[s.key[1]][0]
                w0 = heap0.wf[s.key[1]]
                if w0 is not None:
                    cell.wfn = lambda bx, w0=w0, s=s: z3.Or(w0(bx), s.proj(T, tuple(bx)))
        # lists and dicts
        self._containers(k, T, paths2, heap0)
        # tables grown row by row
        for key, v0 in changed.items():
            if key[0] == "loc" and hasattr(v0, "_qm_frozen"):
                self._grown(key, v0, k, T, paths2, final=which == 0)
        # temporaries
        if which == 0:
            self._temps(k, K, paths2, locs0, changed)
            if self.cond is not None:
                c = self.cond()
                C.assume(z3.Not(tobool(c)) if isinstance(c, (SBool, bool)) else z3.BoolVal(not c))
            return None
        for nm, v in ch.items():
            if nm[0] == "loc" and v is not MISSING:
                self.setv({nm[1]: subst(v, [(k, j0)])})
        for key, v in hd.items():
            if key[0] == "attr" and key[1] in heap0.items:
                heap0.items[key[1]][0].__dict__[key[2]] = subst(v, [(k, j0)])
            elif key[0] == "list" and key[1] in heap0.items:
                heap0.items[key[1]][0].extend(subst(x, [(k, j0)]) for x in v)
            elif key[0] in ("cell", "dict") and key[1] in heap0.items and kind != "raise":
                raise Unsupported("array/dict change in the iteration that leaves the loop")
        if kind == "break":
            return "break"
        if kind == "return":
            raise Return(subst(payload, [(k, j0)]))
        raise subst_exc(payload, [(k, j0)])

    # -------------------------------------------------------------- helpers
    def _havoc(self, key, v0, heap0):
        if key[0] == "cell":
            cell = heap0.items[key[1]][0]
            hp = tuple(z3.Const(f"hp{d}", I) for d in range(len(cell.shape)))
            with C.gen(*hp):
                probe = v0(hp)
            if isinstance(probe, SBool):
                H = raw_fn("H", *([I] * len(cell.shape)), B)
                return (lambda ix: SBool(H(*ix))), H
            if not isnumlike(probe):
                raise Unsupported("loop writes an array of objects")
            p = num(probe)
            H = raw_fn("H", *([I] * len(cell.shape)), p.e.sort())
            return (lambda ix: SNum(H(*ix))), H
        if hasattr(v0, "_qm_frozen"):
            return v0._qm_frozen(key), None
        ls = leaves(v0) if v0 is not MISSING else None
        if ls is None:
            return Poison(str(key)), None
        vals, hs = {}, {}
        for p, x in ls:
            if isinstance(x, (bool, SBool)):
                h = C.raw("h", B)
                vals[p] = SBool(h)
            else:
                h = C.raw("h", num(x).e.sort())
                vals[p] = SNum(h)
            hs[p] = h
        return rebuild(v0, vals), hs

    def _slots(self, changed, hv, paths, heap0):
        slots = []
        for key, v0 in changed.items():
            if key[0] == "cell":
                s = Slot(key, None, v0, hv[key])
                slots.append(s)
                continue
            if hv[key] is None:
                continue
            for p, x in leaves(v0):
                h = hv[key][p]
                s = Slot(key, p, x if isinstance(x, (SBool, bool)) else num(x), h)
                # merged next value
                same_ = SBool(h) if h.sort() == B else SNum(h)
                nxt = None      # what it is on a path that leaves the loop does not matter
                for pc, (kind, payload, ch, hd, heap, l0) in paths:
                    if kind != "ok":
                        continue
                    nv = ch.get(key, hd.get(key, None)) if key in ch or key in hd else None
                    if nv is None:
                        y = same_
                    else:
                        lv = dict(leaves(nv) or [])
                        if p not in lv:
                            nxt = None
                            break
                        y = lv[p]
                    g = z3.And(*pc) if pc else z3.BoolVal(True)
                    nxt = y if nxt is None else ite(g, y, nxt)
                else:
                    nxt = same_ if nxt is None else nxt
                s.nxt = nxt
                slots.append(s)
        return slots

    def _solve(self, slots, k, rng, paths, heap0, changed):
        unsolved = [s for s in slots]
        with C.under(*rng):
            progress = True
            while progress and unsolved:
                progress = False
                for s in list(unsolved):
                    if self._solve_one(s, k, slots, unsolved, paths, heap0):
                        unsolved.remove(s)
                        progress = True
                if not progress:
                    if self._solve_extremum(unsolved, slots, k, paths) or self._solve_rec(unsolved, slots, k):
                        progress = True
        self.unsolved = unsolved

    def _subst_solved(self, e, slots, k):
        pairs = []
        for s in slots:
            if s.closed is not None and s.path is not None:
                v = s.closed(k)
                pairs.append((s.hv, v.e if isinstance(v, (SNum, SBool)) else ex(v)))
        if pairs:
            e = z3.substitute(e, *pairs)
        # arrays already solved: replace H(ix) by the closed form
        for s in slots:
            if s.closed is not None and s.path is None:
                hn = s.hv.name()
                for a in core.apps_of([e]):
                    if a.decl().name() == hn and not core.has_var(a):
                        v = s.closed(k)(tuple(a.children()))
                        e = z3.substitute(e, (a, v.e))
        return e

    def _mentions(self, e, slot):
        if slot.path is None:
            return any(a.decl().name() == slot.hv.name() for a in core.apps_of([e]))
        return contains(e, slot.hv)

    def _solve_one(self, s, k, slots, unsolved, paths, heap0):
        if s.path is None:
            return self._solve_cell(s, k, slots, unsolved, paths, heap0)
        if s.nxt is None:
            return False
        if s.hv.sort() == B:
            T = z3.simplify(self._subst_solved(tobool(s.nxt), slots, k))
            if contains(T, s.hv) or any(self._mentions(T, u) for u in unsolved if u is not s):
                # v' = v or c(k)
                if any(self._mentions(T, u) for u in unsolved if u is not s):
                    return False
                t1 = z3.simplify(z3.substitute(T, (s.hv, z3.BoolVal(True))))
                t0 = z3.simplify(z3.substitute(T, (s.hv, z3.BoolVal(False))))
                if z3.is_true(t1) or valid(t1):
                    v0 = tobool(s.v0)

                    def closed(t, t0=t0, v0=v0):
                        return SBool(z3.Or(v0, core.exists_flag(z3.IntVal(0), t, k, t0)))
                    s.closed = closed
                    return True
                if z3.is_false(t0) or valid(z3.Not(t0)):
                    v0 = tobool(s.v0)

                    def closed(t, t1=t1, v0=v0):
                        return SBool(z3.And(v0, z3.Not(core.exists_flag(z3.IntVal(0), t, k, z3.Not(t1)))))
                    s.closed = closed
                    return True
                return False
            v0 = tobool(s.v0)
            s.closed = lambda t: SBool(z3.simplify(z3.If(t == 0, v0, z3.substitute(T, (k, t - 1)))))
            return True
        nx = num(s.nxt)
        nan0 = s.v0.nan is not None
        if nan0 or nx.nan is not None:
            return False
        T = nx.e
        if T.sort() != s.hv.sort():
            # an integer variable becoming real: retry with a real havoc is not attempted
            return False
        T = z3.simplify(self._subst_solved(T, slots, k), som=True)
        if any(self._mentions(T, u) for u in unsolved if u is not s):
            return False
        v0 = s.v0.e
        if v0.sort() != s.hv.sort():
            v0 = rl(v0)
        if not contains(T, s.hv):
            if valid(T == v0):
                s.closed = lambda t: SNum(v0)
            else:
                # last-iteration value: if T at t=0 formula extends to v0, use it directly
                T0 = z3.simplify(z3.substitute(T, (k, z3.IntVal(-1))))
                if not contains(T0, k) and T0.eq(z3.simplify(v0)):
                    s.closed = lambda t: SNum(z3.simplify(z3.substitute(T, (k, t - 1)), som=True))
                else:
                    s.closed = lambda t: SNum(z3.simplify(z3.If(t == 0, v0, z3.substitute(T, (k, t - 1)))))
            return True
        D = z3.simplify(T - s.hv, som=True)
        if contains(D, s.hv):
            a, b = C.raw("a", s.hv.sort()), C.raw("b", s.hv.sort())
            if valid(z3.substitute(D, (s.hv, a)) == z3.substitute(D, (s.hv, b))):
                D = z3.simplify(z3.substitute(D, (s.hv, (z3.IntVal(0) if s.hv.sort() == I else z3.RealVal(0)))))
            else:
                return False
        if s.hv.sort() == I:
            if not contains(D, k):
                s.closed = lambda t: SNum(z3.simplify(v0 + D * t, som=True))
                return True
            s.closed = lambda t: SNum(v0 + z3.ToInt(ssum_raw(z3.IntVal(0), t, lambda j: z3.substitute(D, (k, j)))))
            return True
        s.closed = lambda t: SNum(z3.simplify(v0 + ssum_raw(z3.IntVal(0), t, lambda j: z3.substitute(D, (k, j))), som=True))
        return True

    def _solve_extremum(self, unsolved, slots, k, paths):
        """m' = max(m, a(k)) (or min), optionally with index variables updated together."""
        for s in unsolved:
            if s.path is None or s.nxt is None or s.hv.sort() == B:
                continue
            T = num(s.nxt).e
            if T.sort() != s.hv.sort():
                continue
            T = z3.simplify(self._subst_solved(T, slots, k))
            if any(self._mentions(T, u) for u in unsolved if u is not s):
                continue
            cand = []
            st = [T]
            while st:
                x = st.pop()
                if z3.is_app_of(x, z3.Z3_OP_ITE):
                    st.extend(x.children()[1:])
                elif not contains(x, s.hv):
                    cand.append(x)
            for a in cand:
                for kind in ("max", "min"):
                    better = (lambda p, q: p > q) if kind == "max" else (lambda p, q: p < q)
                    if valid(T == z3.If(better(a, s.hv), a, s.hv)):
                        return self._make_extremum(s, a, better, kind, unsolved, slots, k)
        return False

    def _solve_rec(self, unsolved, slots, k):
        """Scalars with no closed form: the sequence they follow, as uninterpreted functions of
        the iteration with their recurrence as axiom."""
        cells = [u for u in unsolved if u.path is None]
        grp = [u for u in unsolved if u.path is not None and u.nxt is not None and u.v0.nan is None if u.hv.sort() != B]
        Ts = {}
        for u in list(grp):
            nx = num(u.nxt)
            if nx.nan is not None or nx.e.sort() != u.hv.sort():
                grp.remove(u)
                continue
            Ts[id(u)] = z3.simplify(self._subst_solved(nx.e, slots, k), som=True)
        ch = True
        while ch:
            ch = False
            for u in list(grp):
                if any(self._mentions(Ts[id(u)], w) for w in unsolved if w not in grp):
                    grp.remove(u)
                    ch = True
        if not grp:
            return False
        fns = {id(u): C.fresh_fn("rec", I, u.hv.sort()) for u in grp}
        v0s = {id(u): (u.v0.e if u.v0.e.sort() == u.hv.sort() else rl(u.v0.e)) for u in grp}
        for u in grp:
            F = fns[id(u)]

            def facts(_, args, sk, u=u, F=F):
                t = args[0]
                p = z3.simplify(t - 1)
                return [z3.Implies(t == 0, F(t) == v0s[id(u)]),
                        z3.Implies(t > 0, F(t) == z3.substitute(Ts[id(u)], (k, p), *[(w.hv, fns[id(w)](p)) for w in grp]))]
            C.schema(facts, F)
            u.closed = lambda t, F=F: SNum(F(t))
            unsolved.remove(u)
        return True

    def _make_extremum(self, s, a, better, kind, unsolved, slots, k):
        M = C.fresh_fn("M", I, s.hv.sort())
        J = C.fresh_fn("Jm", I, I)          # which iteration attained it (-1: the initial value)
        v0 = s.v0.e if s.v0.e.sort() == s.hv.sort() else rl(s.v0.e)
        av = lambda j: z3.substitute(a, (k, j))
        # companions: idx' = If(a beats m, g(k), idx)  strict (first) or non-strict (last)
        comp = []
        strict = None
        for u in unsolved:
            if u is s or u.path is None or u.nxt is None or u.hv.sort() == B:
                continue
            T = z3.simplify(self._subst_solved(num(u.nxt).e, slots, k))
            if T.sort() != u.hv.sort():
                continue
            if any(self._mentions(T, w) for w in unsolved if w is not s and w is not u):
                continue
            # value in the "update" case
            g = None
            st = [T]
            leavesT = []
            while st:
                x = st.pop()
                if z3.is_app_of(x, z3.Z3_OP_ITE):
                    st.extend(x.children()[1:])
                elif not contains(x, u.hv):
                    leavesT.append(x)
            for g in leavesT:
                if contains(g, s.hv):
                    continue
                if valid(T == z3.If(better(a, s.hv), g, u.hv)):
                    comp.append((u, g, True))
                    break
                nonst = z3.Not(better(s.hv, a))
                if valid(T == z3.If(nonst, g, u.hv)):
                    comp.append((u, g, False))
                    break
        firsts = {c[2] for c in comp}
        if len(firsts) > 1:
            return False
        first = firsts.pop() if firsts else True
        le = (lambda p, q: p <= q) if kind == "max" else (lambda p, q: p >= q)
        lt = (lambda p, q: p < q) if kind == "max" else (lambda p, q: p > q)
        # the values compared may be looked up at k + c: instances at q - c are needed then
        offs = {}
        for x in core.apps_of([a]):
            for c in x.children():
                if c.sort() == I and contains(c, k):
                    d = z3.simplify(c - k, som=True)
                    if not contains(d, k):
                        offs[d.get_id()] = d

        def facts(_, args, sk):
            t = args[0]
            m, j = M(t), J(t)
            sk = list({y.get_id(): y for y in (z3.simplify(q - d) for q in sk for d in [z3.IntVal(0), *offs.values()])}.values())
            out = [z3.Implies(t >= 0, le(v0, m)),
                   z3.Implies(t == 0, z3.And(m == v0, j == -1)),
                   z3.Implies(t >= 0, z3.And(j >= -1, j < t)),
                   z3.Implies(z3.And(t >= 0, j == -1), m == v0),
                   z3.Implies(z3.And(t >= 0, j >= 0), z3.And(m == av(j), (lt(v0, m) if first else z3.BoolVal(True))))]
            for q in sk:
                out.append(z3.Implies(z3.And(q >= 0, q < t), le(av(q), m)))
                if first:
                    out.append(z3.Implies(z3.And(q >= 0, q < t, q < j), lt(av(q), m)))
                else:
                    out.append(z3.Implies(z3.And(q >= 0, q < t, q > j), lt(av(q), m)))
            return out

        C.schema(facts, M, J)
        s.closed = lambda t: SNum(M(t))
        unsolved.remove(s)
        for u, g, _ in comp:
            u0 = u.v0.e
            u.closed = lambda t, g=g, u0=u0: SNum(z3.If(J(t) == -1, u0, z3.substitute(g, (k, J(t)))))
            unsolved.remove(u)
        return True

    def _solve_cell(self, s, k, slots, unsolved, paths, heap0):
        cell = heap0.items[s.key[1]][0]
        nd = len(cell.shape)
        x = [C.raw(f"x{d}", I) for d in range(nd)]
        A0 = s.v0
        H = s.hv
        hx = H(*x)
        T = hx
        W = z3.BoolVal(False)
        inb = [z3.And(xi >= 0, xi < iv(sh)) for xi, sh in zip(x, cell.shape)]
        isb = H.range() == B
        for pc, (kind, payload, ch, hd, heap, l0) in paths:
            if kind != "ok" or s.key not in hd:
                continue
            fn, wfn = hd[s.key]
            g = z3.And(*pc) if pc else z3.BoolVal(True)
            with C.gen(k, *x):
                v = fn(tuple(x))
                wv = wfn(tuple(x))
            if isinstance(v, SNum) and v.nan is not None:
                raise Unsupported("NaN stored in a loop-built array")
            e = v.e if isinstance(v, (SNum, SBool)) else (tobool(v) if isb else ex(v))
            if not isb and e.sort() != H.range():
                e = rl(e)
            T = z3.If(g, e, T)
            W = z3.Or(W, z3.And(g, wv))
        T = self._subst_solved(z3.simplify(T), slots, k)
        W = z3.simplify(self._subst_solved(W, slots, k))
        if any(self._mentions(T, u) or self._mentions(W, u) for u in unsolved if u is not s):
            return False
        # reads of the array at other locations: must be this very location
        T = localise(T, H, x, inb)
        if T is None:
            raise Unsupported("loop iteration reads array elements that other iterations write")
        h = C.raw("hx", H.range())
        T = z3.simplify(z3.substitute(T, (hx, h)))
        if self._mentions(T, s):
            return False
        if self._mentions(W, s):
            return False
        a0 = lambda ix: (lambda v: v.e if isinstance(v, (SNum, SBool)) and v.e.sort() == H.range() else (tobool(v) if isb else rl(ex(v))))(A0(ix))
        mk = (lambda e: SBool(e)) if isb else (lambda e: SNum(e))
        back = lambda e, ix: z3.substitute(e, *list(zip(x, ix)))
        s.W = lambda kk, ix: back(z3.substitute(W, (k, kk)), ix)
        s.proj = self._projection(W, k, x, inb, back)
        ks = self._solve_for_k(W, k, x, inb)
        if ks is not None:
            def closed(t):
                def fn(ix):
                    kk = back(ks, ix)
                    cond = z3.And(kk >= 0, kk < t, back(z3.substitute(W, (k, ks)), ix))
                    return mk(z3.simplify(z3.If(cond, z3.substitute(back(z3.substitute(T, (k, ks)), ix), (h, a0(ix))), a0(ix))))
                return fn
            s.closed = closed
            return True
        if not isb and H.range() == R:
            with C.under(*inb):
                D = z3.simplify(prune(distribute(T, h)), som=True)
            if not contains(D, h) or self._free_sem(D, h, inb):
                if contains(D, h):
                    D = z3.simplify(z3.substitute(D, (h, z3.RealVal(0))))
                s.kind = "acc"

                def closed(t):
                    return lambda ix: mk(a0(ix) + ssum_raw(z3.IntVal(0), t, lambda j: back(z3.substitute(D, (k, j)), ix)))
                s.closed = closed
                return True
        # at most one writer per location
        k1, k2 = C.raw("k1", I), C.raw("k2", I)
        rng = [k1 >= 0, k1 < k2]
        if self.n is not None:
            rng.append(k2 < iv(self.n))
        disj = z3.Not(z3.And(z3.substitute(W, (k, k1)), z3.substitute(W, (k, k2))))
        with C.under(*rng, *inb):
            q = C.quiet
            C.quiet = 0
            ok, be, dt, m = core.prove(disj)
            C.quiet = q
        s.kind = "uniq"
        s.disjoint = ok == "proved"
        if not s.disjoint:
            # the last writer wins; only usable if the value does not depend on k
            if not contains(T, k):
                s.closed = lambda t: (lambda ix: mk(z3.If(t > 0, back(z3.substitute(T, (h, a0(ix))), ix), a0(ix))))
                return True
            raise Unsupported("several iterations write the same array location")
        C.results.append(core.Obligation("loop iterations write disjoint locations", "proved", be, dt)) if not C.quiet else None
        # general: uninterpreted final contents with instantiable facts
        cache = {}

        def closed(t):
            key = t.sexpr()
            if key not in cache:
                A1 = C.fresh_fn("A", *([I] * nd), H.range())

                def schema(_, ix, sk, A1=A1):
                    out = []
                    for j in sk:
                        w = back(z3.substitute(W, (k, j)), ix)
                        out.append(z3.Implies(z3.And(j >= 0, j < t, w),
                                              A1(*ix) == z3.substitute(back(z3.substitute(T, (k, j)), ix), (h, a0(ix)))))
                    return out
                C.schema(schema, A1)
                # locations no iteration writes keep their contents
                cache[key] = A1
            A1 = cache[key]
            return lambda ix: mk(A1(*ix))
        s.closed = closed
        s.general = True
        return True

    def _projection(self, W, k, x, inb, back):
        """(t, ix) -> condition that covers every location written before iteration t"""
        ks = self._solve_for_k(W, k, x, inb)
        if ks is not None:
            wk = z3.substitute(W, (k, ks))
            return lambda t, ix: z3.And(back(ks, ix) >= 0, back(ks, ix) < t, back(wk, ix))
        free = [c for c in conjuncts(W) if not contains(c, k)]
        cov = z3.And(*free) if free else z3.BoolVal(True)
        return lambda t, ix: z3.And(t > 0, back(cov, ix))

    def _free_sem(self, D, h, inb):
        a, b = C.raw("a", h.sort()), C.raw("b", h.sort())
        with C.under(*inb):
            return valid(z3.substitute(D, (h, a)) == z3.substitute(D, (h, b)))

    def _solve_for_k(self, W, k, x, inb):
        """Term ks(x) with W(k,x) => k == ks(x)."""
        cands = []
        st = [W]
        seen = set()
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_eq(e) and e.children()[0].sort() == I:
                a, b = e.children()
                d = z3.simplify(a - b, som=True)
                for sg in (1, -1):
                    # sg*d = k*1 + rest
                    rest = z3.simplify(sg * d - k, som=True)
                    if not contains(rest, k):
                        cands.append(z3.simplify(-rest, som=True))
            st.extend(e.children())
        for c in cands:
            with C.under(*inb):
                if valid(z3.Implies(W, k == c)):
                    return c
        return None

    def _omp_checks(self, k, K, slots, paths, heap0):
        shared = self.omp.get("unprivate", [])
        oblige("parallel loop: every scalar written in the body is private: " + ",".join(shared) if shared
               else "parallel loop: every scalar written in the body is private", z3.BoolVal(not shared))
        k2 = C.skolem("k2")
        for s in slots:
            if s.path is not None:
                continue
            cell = heap0.items[s.key[1]][0]
            x = tuple(C.skolem("xo") for _ in cell.shape)
            with C.under(k2 >= 0, k2 < K, k2 != k, *[z3.And(xi >= 0, xi < iv(sh)) for xi, sh in zip(x, cell.shape)]):
                oblige("parallel loop: iterations write disjoint locations",
                       z3.Not(z3.And(s.W(k, x), s.W(k2, x))))

    def _value_at(self, key, v0, slots, t, heap0):
        if key[0] == "cell":
            for s in slots:
                if s.key == key:
                    if s.closed is None:
                        raise Unsupported("array recurrence not solved")
                    return s.closed(t)
            raise Unsupported("array recurrence not solved")
        if hasattr(v0, "_qm_frozen"):
            return v0._qm_frozen(key)
        if v0 is MISSING or leaves(v0) is None:
            return Poison(str(key))
        vals = {}
        for s in slots:
            if s.key == key:
                if s.closed is not None:
                    vals[s.path] = s.closed(t)
                else:
                    # unknown recurrence: an uninterpreted function of the iteration
                    f = s.__dict__.setdefault("uf", C.fresh_fn("rec", I, s.hv.sort()))
                    if not getattr(s, "uf_facts", False):
                        s.uf_facts = True
                        v = s.v0
                        C.define(f(z3.IntVal(0)) == (tobool(v) if s.hv.sort() == B else (v.e if v.e.sort() == s.hv.sort() else rl(v.e))), f)
                    vals[s.path] = SBool(f(t)) if s.hv.sort() == B else SNum(f(t))
        return rebuild(v0, vals)

    def _containers(self, k, T, paths, heap0):
        touched = {}
        for pc, (kind, payload, ch, hd, heap, l0) in paths:
            if kind != "ok":
                continue
            for key in hd:
                if key[0] in ("list", "dict") and key[1] in heap0.items:
                    touched.setdefault(key, []).append((z3.And(*pc) if pc else z3.BoolVal(True), hd[key]))
        for key, ents in touched.items():
            obj = heap0.items[key[1]][0]
            if key[0] == "list":
                width = max(len(v) for _, v in ents)
                for w in range(width):
                    gs = [(g, v[w]) for g, v in ents if len(v) > w]
                    guard = z3.simplify(z3.Or(*[g for g, _ in gs]))
                    if any(isinstance(v, Comp) for _, v in gs):
                        raise Unsupported("nested summarised append")
                    list.append(obj, mk_comp(k, T, guard, gs))
                if width > 1:
                    # interleaved: keep as separate parts only when order does not matter
                    obj.interleaved = True
            else:
                if not isinstance(obj, QDict):
                    raise Unsupported("loop fills a dictionary not created by the verified code")
                width = max(len(v) for _, v in ents)
                if width > 1:
                    raise Unsupported("loop inserts several keys per iteration")
                guard = z3.simplify(z3.Or(*[g for g, _ in ents]))
                c1 = mk_comp(k, T, guard, [(g, v[0][0]) for g, v in ents])
                c2 = mk_comp(k, T, guard, [(g, v[0][1]) for g, v in ents])
                obj.segs.append(DSeg(dim(T), c1.guard, c1.elem, c2.elem))

    def _grown(self, key, v0, k, T, paths, final):
        """A table that each iteration replaces by itself plus one row: the rows are a comprehension.
        Iterations that find it still empty may start a new table, provided its row is the same."""
        gs, h = [], None
        for pc, (kind, payload, ch, hd, heap, l0) in paths:
            if kind != "ok":
                continue
            fz = l0[key[1]]
            nv = ch.get(key, fz)
            h = fz.flag
            g = z3.And(*pc) if pc else z3.BoolVal(True)
            row = nv._qm_added(fz) if hasattr(nv, "_qm_added") else None
            if nv is fz:
                continue
            if row is None:
                raise Unsupported("a table is changed by the loop other than by appending a row")
            row, onto = row
            if not onto and not valid(z3.Implies(g, h)):
                raise Unsupported("a table is replaced inside the loop")
            gs.append((g, row))
        if not gs:
            return
        guard = z3.Or(*[g for g, _ in gs])
        yes, no = [(h, z3.BoolVal(True))], [(h, z3.BoolVal(False))]
        if not valid(z3.substitute(guard, *yes) == z3.substitute(guard, *no)):
            raise Unsupported("whether a row is appended depends on the table")
        cs = []
        for pr in (yes, no):
            sel = [(z3.simplify(z3.substitute(g, *pr)), subst(v, pr)) for g, v in gs]
            sel = [(g, v) for g, v in sel if not z3.is_false(g)]
            cs.append(mk_comp(k, T, z3.simplify(z3.substitute(guard, *pr)), sel))
        with C.under(cs[0].guard(k)):
            if not v0._qm_same(cs[0].elem(k), cs[1].elem(k)):
                raise Unsupported("the first row of a table is made differently")
        self.setv({key[1]: v0._qm_extend(cs[1])})

    def _temps(self, k, K, paths, locs0, changed):
        names = set()
        for pc, (kind, payload, ch, hd, heap, l0) in paths:
            for key in ch:
                if key in changed and hasattr(changed[key], "_qm_frozen"):
                    continue
                if key[1] not in locs0 or (key in changed and leaves(changed[key]) is None):
                    names.add(key[1])
        ok = [(z3.And(*pc) if pc else z3.BoolVal(True), r) for pc, r in paths if r[0] == "ok"]
        pos = valid(K > 0)
        for nm in names:
            vals = [(g, r[2].get(("loc", nm), MISSING)) for g, r in ok]
            v = Poison(nm)
            if pos and vals and all(x is not MISSING for _, x in vals):
                try:
                    acc = vals[-1][1]
                    for g, x in vals[:-1]:
                        acc = ite(g, x, acc)
                    v = subst(acc, [(k, K - 1)])
                except Unsupported:
                    v = Poison(nm)
            self.setv({nm: v})


def distribute(T, h):
    """T - h with the subtraction pushed into conditionals"""
    if z3.is_app_of(T, z3.Z3_OP_ITE):
        c, a, b = T.children()
        return z3.If(c, distribute(a, h), distribute(b, h))
    return z3.simplify(T - h, som=True)


def prune(e):
    """Drop conjuncts of conditions that hold anyway at this point."""
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, a, b = e.children()
        if contains_ite(c):
            return e
        keep = [x for x in conjuncts(c) if not valid(x)]
        c2 = z3.And(*keep) if len(keep) > 1 else keep[0] if keep else z3.BoolVal(True)
        c2 = z3.simplify(c2)
        if z3.is_true(c2):
            return prune(a)
        with C.under(z3.Not(c2)):
            b2 = prune(b)
        with C.under(c2):
            a2 = prune(a)
        return a2 if a2.eq(b2) else z3.If(c2, a2, b2)
    return e


def contains_ite(e):
    return any(z3.is_app_of(x, z3.Z3_OP_ITE) for x in e.children())


def conjuncts(e):
    e = z3.simplify(e)
    out, st = [], [e]
    while st:
        x = st.pop()
        if z3.is_and(x):
            st.extend(x.children())
        elif z3.is_or(x) and x.num_args() == 1:
            st.extend(x.children())
        else:
            out.append(x)
    return out


def mk_comp(k, T, guard, gs):
    def elem(j):
        vals = [(g, subst(v, [(k, j)])) for g, v in gs]
        if len(vals) == 1:
            return vals[0][1]
        acc = vals[-1][1]
        for g, v in vals[:-1]:
            try:
                acc = ite(z3.substitute(g, (k, j)), v, acc)
            except Unsupported:
                acc = _Alt(z3.substitute(g, (k, j)), v, acc)
        return acc
    return Comp(dim(T), lambda j: z3.substitute(guard, (k, j)), elem)


class _Alt:
    """Either a (under cond) or b: resolved by branching when used."""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def get(self):
        v = self.a if C.decide(self.c) else self.b
        return v.get() if isinstance(v, _Alt) else v


def subst_exc(e, pairs):
    try:
        for k, v in list(e.__dict__.items()):
            e.__dict__[k] = subst(v, pairs)
    except Exception:
        pass
    return e


def localise(T, H, x, inb):
    """Rewrite H(y) to H(x) where the enclosing conditions imply y == x; None if impossible."""
    hn = H.name()
    hx = H(*x)
    bad = []

    def walk(e, guards):
        if not any(a.decl().name() == hn for a in core.apps_of([e])):
            return e
        if z3.is_app(e) and e.decl().name() == hn:
            if e.eq(hx):
                return e
            with C.under(*inb, *guards):
                if valid(z3.And(*[a == b for a, b in zip(e.children(), x)])):
                    return hx
            bad.append(e)
            return e
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            c, a, b = e.children()
            c2 = walk(c, guards)
            return z3.If(c2, walk(a, guards + [c]), walk(b, guards + [z3.Not(c)]))
        ch = [walk(c, guards) for c in e.children()]
        return rebuild_app(e, ch)
    r = walk(T, [])
    return None if bad else r


def rebuild_app(e, ch):
    kd = e.decl().kind()
    if kd == z3.Z3_OP_ADD:
        return z3.Sum(ch)
    if kd == z3.Z3_OP_MUL:
        return z3.Product(ch)
    if kd == z3.Z3_OP_AND:
        return z3.And(*ch)
    if kd == z3.Z3_OP_OR:
        return z3.Or(*ch)
    return e.decl()(*ch)


# ------------------------------------------------------------------ entry points (called from
# transformed code)
def is_symbolic(it):
    if isinstance(it, QList):
        return it.symbolic()
    if isinstance(it, SRange):
        return not isinstance(it.sym_len(), int)
    if isinstance(it, (QSeq, Arr)):
        return not isinstance(it.sym_len(), int)
    if hasattr(it, "_qm_symbolic"):
        return it._qm_symbolic()
    return False


def run_for(it, body, get, setv, omp=None):
    parts = it.parts() if isinstance(it, QList) else [it]
    for p in parts:
        if isinstance(p, Comp):
            g = p.guard

            def body2(e, p=p):
                body(e)

            def elem(kk, p=p):
                # filtered parts: the element exists only under its guard
                return p.elem(kk)
            if p.total():
                r = Loop(body, get, setv, n=p.n, elem=elem).run()
            else:
                r = FilteredLoop(body, get, setv, p).run()
        elif isinstance(it, QList):
            body(p)
            r = None
        else:
            n = p.sym_len()
            r = Loop(body, get, setv, n=n, elem=lambda kk, p=p: p.sym_get(kk), omp=omp).run()
        if r == "break":
            return True
    return False


def FilteredLoop(body, get, setv, p):
    def b(e):
        k, val = e
        if C.decide(p.guard(k)):
            body(val)
    # keep closure roots of the original body visible
    lp = Loop(b, get, setv, n=p.n, elem=lambda kk: (kk, p.elem(kk)))
    lp.roots += Loop(body, get, setv, n=p.n).roots
    return lp


def run_while(cond, body, get, setv, omp=None):
    """True when left by break."""
    for _ in range(100000):
        c = cond()
        if isinstance(c, SBool):
            cs = z3.simplify(c.e)
            if z3.is_true(cs):
                c = True
            elif z3.is_false(cs):
                c = False
        elif isinstance(c, SNum):
            c = SBool(c.e != 0)
        if isinstance(c, SBool) and C.unroll:          # a contract on a fixed number of iterations
            c = C.decide(c.e)
        if isinstance(c, SBool):
            r = Loop(body, get, setv, cond=cond, omp=omp).run()
            return r == "break"
        if not c:
            return False
        try:
            body()
        except Break:
            return True
    raise Unsupported("loop does not terminate concretely")


def comp(f, it, kind):
    """List/set/dict comprehension or generator expression; f maps an iterable of elements."""
    if not is_symbolic(it):
        r = f(it)
        if kind == "list":
            return QList(r)
        if kind == "dict":
            return QDict(r)
        if kind == "set":
            r = list(r)
            if any(isinstance(x, (SNum, SBool)) for x in r):
                raise Unsupported("set of symbolic numbers")
            return set(r)
        return r
    parts = it.parts() if isinstance(it, QList) else [it]
    out = QList()
    for p in parts:
        if isinstance(p, Comp):
            n, src, g0 = p.n, p.elem, p.guard
        elif isinstance(it, QList):
            for v in f([p]):
                list.append(out, v)
            continue
        else:
            n, src, g0 = p.sym_len(), (lambda j, p=p: p.sym_get(j)), (lambda j: z3.BoolVal(True))
        k = C.raw("k", I)
        C.skolems.append(k)

        def once():
            r = f([src(k)])
            r = list(r.items()) if isinstance(r, dict) else list(r)
            return r
        with C.under(k >= 0, k < iv(n), g0(k)), C.gen(k):
            paths = sub_explore(once)
        C.skolems[:] = [x for x in C.skolems if not x.eq(k)]
        gs = [(z3.And(*pc) if pc else z3.BoolVal(True), r[0]) for pc, r in paths if r]
        if any(len(r) > 1 for _, r in paths):
            raise Unsupported("nested generators over symbolic sequences")
        if not gs:
            continue
        full = all(r for _, r in paths)
        guard = z3.simplify(z3.And(g0(k), z3.BoolVal(True) if full else z3.Or(*[g for g, _ in gs])))
        list.append(out, mk_comp(k, iv(n), guard, gs))
    if kind == "set":
        if not out.parts() or not all(isinstance(p, Comp) for p in out.parts()):
            raise Unsupported("set of a symbolic sequence")
        return SymSet(out.parts())
    if kind == "dict":
        d = QDict()
        for p in out.parts():
            if isinstance(p, Comp):
                d.segs.append(DSeg(p.n, p.guard, lambda j, p=p: p.elem(j)[0], lambda j, p=p: p.elem(j)[1]))
            else:
                d[p[0]] = p[1]
        return d
    return out
