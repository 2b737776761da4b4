"""qmv.arr -- symbolic numpy arrays: symbolic shape, elements given by a function of the
index, views share their base (writes go through)."""
from __future__ import annotations

import math

import z3

from . import core
from .core import (C, B, I, R, SBool, SNum, Unsupported, contains, ex, exists_flag, frac, is_pynum,
                   isnumlike, ite, nanof, num, oblige, pyval, rl, ssum, tobool, valid,
                   cast_, psum)


def iv(x):
    """z3 Int expression of an index/length."""
    if isinstance(x, z3.ArithRef):
        e = x
    elif isinstance(x, int) and not isinstance(x, bool):
        return z3.IntVal(x)
    else:
        e = ex(x)
    if e.sort() != I:
        e = z3.ToInt(e)
    return e


def dim(e):
    """int when the term is a numeral, else SNum."""
    if isinstance(e, int):
        return e
    v = z3.simplify(iv(e))
    if z3.is_int_value(v):
        return v.as_long()
    return SNum(v)


def same(a, b):
    a, b = iv(a), iv(b)
    d = z3.simplify(a - b, som=True)
    if z3.is_int_value(d):
        return d.as_long() == 0
    return valid(a == b)


class Cell:
    _ids = 0

    def __init__(self, fn, shape, dtype="float64"):
        self.fn = fn
        self.shape = tuple(shape)
        self.dtype = dtype
        Cell._ids += 1
        self.id = Cell._ids
        self.readonly = False
        self.name = None
        self.wfn = None            # write condition since the last reset (loop summariser)

    # heap protocol used by the loop summariser
    def _qm_get(self):
        return self.fn

    def _qm_set(self, fn):
        self.fn = fn


class Arr:
    """view: list, one entry per base dim: ('fix', e) | ('aff', viewdim, start, step)"""
    __array_ufunc__ = None

    def __init__(self, cell, shape=None, view=None):
        self.cell = cell
        self._shape = tuple(dim(s) for s in (cell.shape if shape is None else shape))
        self.view = view if view is not None else [
            ("aff", d, z3.IntVal(0), 1) for d in range(len(cell.shape))]
        self.isview = view is not None

    # ------------------------------------------------------------------ construction
    @staticmethod
    def make(shape, fn, dtype="float64"):
        if not isinstance(shape, tuple):
            shape = (shape,)
        return Arr(Cell(fn, tuple(dim(s) for s in shape), dtype))

    @staticmethod
    def symbol(name, shape, sort=R, dtype=None, nan=False):
        if not isinstance(shape, tuple):
            shape = (shape,)
        f = z3.Function(name, *([I] * len(shape)), sort)
        if nan:
            g = z3.Function(name + "_nan", *([I] * len(shape)), B)
            fn = lambda ix: SNum(f(*ix), g(*ix))
        elif sort == B:
            fn = lambda ix: SBool(f(*ix))
        else:
            fn = lambda ix: SNum(f(*ix))
        a = Arr.make(shape, fn, dtype or ("int64" if sort == I else "bool" if sort == B else "float64"))
        a.cell.name = name
        a.sym = f
        return a

    @staticmethod
    def from_list(lst, dtype=None):
        lst = list(lst)
        if lst and isinstance(lst[0], (list, tuple, Arr)) or any(isinstance(v, Arr) for v in lst):
            rows = [v if isinstance(v, Arr) else Arr.from_list(v) for v in lst]
            sh = rows[0].shape
            rd = [r.reader() for r in rows]

            def fn(ix):
                v = z3.simplify(ix[0])
                if z3.is_int_value(v) and 0 <= v.as_long() < len(rd):
                    return rd[v.as_long()](ix[1:])
                out = rd[-1](ix[1:])
                for j in range(len(rd) - 2, -1, -1):
                    out = ite(ix[0] == j, rd[j](ix[1:]), out)
                return out
            return Arr.make((len(rows),) + tuple(sh), fn, rows[0].dtype)
        vals = [v if not isnumlike(v) else (v if isinstance(v, SBool) else num(v)) for v in lst]

        def fn(ix):
            v = z3.simplify(ix[0])
            if z3.is_int_value(v) and 0 <= v.as_long() < len(vals):
                return vals[v.as_long()]
            if not vals:
                raise Unsupported("element of an empty array")
            out = vals[-1]
            for j in range(len(vals) - 2, -1, -1):
                out = ite(ix[0] == j, vals[j], out)
            return out
        dt = dtype
        if dt is None:
            dt = "object"
            if vals and all(isinstance(v, SBool) for v in vals):
                dt = "bool"
            elif all(isinstance(v, SNum) for v in vals):
                dt = "int64" if vals and all(v.isint for v in vals) else "float64"
        return Arr.make((len(vals),), fn, dt)

    # ------------------------------------------------------------------ access
    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for s in self._shape:
            r = r * s if not isinstance(r, int) or not isinstance(s, int) else r * s
        return r

    @property
    def dtype(self):
        return self.cell.dtype

    def reader(self):
        """Element function with the current contents (later writes do not affect it)."""
        f, view = self.cell.fn, self.view

        def rd(ix):
            b = []
            for v in view:
                if v[0] == "fix":
                    b.append(v[1])
                else:
                    _, d, st, sp = v
                    e = ix[d]
                    if isinstance(sp, int):
                        e = e if sp == 1 else sp * e
                    else:
                        e = sp * e
                    b.append(z3.simplify(st + e, som=True) if not (z3.is_int_value(st) and st.as_long() == 0) else e)
            return f(tuple(b))
        return rd

    def at(self, *ix):
        return self.reader()(tuple(iv(i) for i in ix))

    def sym_len(self):
        return self._shape[0]

    def sym_get(self, k):
        return self[num(k)] if isinstance(k, z3.ExprRef) else self[k]

    def __len__(self):
        n = self._shape[0]
        if isinstance(n, int):
            return n
        return n.__index__()

    def __contains__(self, x):
        return bool((self == x).any())

    def __iter__(self):
        n = self._shape[0]
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported("native iteration over a symbolic array")

    # ------------------------------------------------------------------ indexing
    def _norm(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            n = self.ndim - sum(1 for k in key if k is not None and k is not Ellipsis)
            key[p:p + 1] = [slice(None)] * n
        n = self.ndim - sum(1 for k in key if k is not None)
        if n < 0:
            raise IndexError("too many indices for array")
        return key + [slice(None)] * n

    def _index(self, k, n, what="index"):
        k = iv(k)
        ks = z3.simplify(k)
        ne = iv(n)
        if z3.is_int_value(ks):
            e = ks if ks.as_long() >= 0 else ne + ks
        elif valid(k >= 0):
            e = k
        elif valid(k < 0):
            e = ne + k
        else:
            e = z3.If(k < 0, ne + k, k)
        oblige("array index in bounds", z3.And(e >= 0, e < ne))
        return e

    @staticmethod
    def _slice(s, n):
        """(start, length, step) of a Python slice on an axis of length n."""
        ne = iv(n)
        step = 1 if s.step is None else s.step
        if isinstance(step, SNum):
            v = z3.simplify(step.e)
            step = v.as_long() if z3.is_int_value(v) else step
        if isinstance(step, int) and step < 0:
            if s.start is None and s.stop is None and step == -1:
                return ne - 1, ne, -1
            raise Unsupported("negative slice step")

        def clamp(v, default):
            if v is None:
                return default
            e = iv(v)
            es = z3.simplify(e)
            if z3.is_int_value(es) and es.as_long() == 0:
                return es
            if not (z3.is_int_value(es) and es.as_long() >= 0 or valid(e >= 0)):
                if z3.is_int_value(es) or valid(e < 0):
                    e = ne + e
                    if not valid(e >= 0):
                        e = z3.If(e < 0, z3.IntVal(0), e)
                    return e
                e = z3.If(e < 0, z3.If(ne + e < 0, z3.IntVal(0), ne + e), e)
            if not valid(e <= ne):
                e = z3.If(e > ne, ne, e)
            return e
        st = clamp(s.start, z3.IntVal(0))
        en = clamp(s.stop, ne)
        ln = en - st
        if not valid(ln >= 0):
            ln = z3.If(ln < 0, z3.IntVal(0), ln)
        if isinstance(step, int) and step == 1:
            return st, z3.simplify(ln, som=True), 1
        se = iv(step)
        return st, z3.simplify((ln + se - 1) / se), step

    def _resolve(self, key):
        """basic indexing -> (view, shape)"""
        key = self._norm(key)
        view = list(self.view)
        shape = []
        newdim = {}
        d = 0
        subst = {}
        for k in key:
            if k is None:
                shape.append(1)
                continue
            n = self._shape[d]
            if isinstance(k, slice):
                st, ln, sp = self._slice(k, n)
                subst[d] = ("aff", len(shape), st, sp)
                shape.append(dim(ln))
            elif isinstance(k, (int, SNum, z3.ArithRef)) or is_pynum(k):
                subst[d] = ("fix", self._index(pyval(k) if is_pynum(k) else k, n))
            else:
                raise Unsupported(f"index of type {type(k).__name__}")
            d += 1
        out = []
        for v in view:
            if v[0] == "fix":
                out.append(v)
            else:
                _, vd, st, sp = v
                s = subst[vd]
                if s[0] == "fix":
                    out.append(("fix", st + sp * s[1]))
                else:
                    sp2 = sp * s[3] if isinstance(sp, int) and isinstance(s[3], int) else iv(sp) * iv(s[3])
                    out.append(("aff", s[1], z3.simplify(st + sp * s[2], som=True), sp2))
        return out, tuple(shape)

    @staticmethod
    def _basic(key):
        ks = key if isinstance(key, tuple) else (key,)
        return all(k is None or k is Ellipsis or isinstance(k, (slice, int, SNum, z3.ArithRef)) or
                   (is_pynum(k) and not isinstance(k, bool)) for k in ks)

    def __getitem__(self, key):
        if hasattr(key, "_qm_arr"):
            key = key._qm_arr()
        if isinstance(key, list):
            key = Arr.from_list(key)
        if self._basic(key):
            view, shape = self._resolve(key)
            if len(shape) == 0:
                return Arr(self.cell, (), view).reader()(())
            return Arr(self.cell, shape, view)
        if isinstance(key, Arr) and key.dtype == "bool":
            if key.ndim == self.ndim == 1:
                return filtered(self, key)
            raise Unsupported("boolean indexing of an n-d array")
        if isinstance(key, Arr) and key.ndim >= 1:
            rk, rs = key.reader(), self.reader()
            n0 = self._shape[0]
            nd = key.ndim
            js = tuple(C.raw("ki", I) for _ in range(nd))
            with C.under(*[z3.And(j >= 0, j < iv(s)) for j, s in zip(js, key.shape)]), C.gen(*js):
                C.skolems += js
                counted = valid(ex(rk(js)) >= 0)
                del C.skolems[len(C.skolems) - nd:]

            def fn(ix):
                e = ex(rk(ix[:nd]))
                if not counted and (not z3.is_int_value(z3.simplify(e)) or z3.simplify(e).as_long() < 0):
                    e = z3.If(e < 0, iv(n0) + e, e)
                return rs((e,) + tuple(ix[nd:]))
            return Arr.make(tuple(key.shape) + tuple(self._shape[1:]), fn, self.dtype)
        if isinstance(key, tuple) and any(isinstance(k, Arr) for k in key):
            # mix of slices and one index array
            pos = [i for i, k in enumerate(key) if isinstance(k, Arr)]
            if len(pos) == 1 and all(isinstance(k, slice) and k == slice(None) for i, k in enumerate(key) if i != pos[0]) \
                    and key[pos[0]].dtype != "bool":
                p = pos[0]
                rk, rs = key[p].reader(), self.reader()
                sh = list(self._shape)
                sh[p] = key[p].shape[0]
                return Arr.make(tuple(sh), lambda ix: rs(tuple(ix[:p]) + (ex(rk((ix[p],))),) + tuple(ix[p + 1:])), self.dtype)
            if len(pos) == len(key) == self.ndim:
                rks = [k.reader() for k in key]
                rs = self.reader()
                return Arr.make(key[0].shape, lambda ix: rs(tuple(ex(r(ix)) for r in rks)), self.dtype)
        raise Unsupported(f"array index {type(key).__name__}")

    def __setitem__(self, key, val):
        if hasattr(key, "_qm_arr"):
            key = key._qm_arr()
        if self._basic(key):
            view, shape = self._resolve(key)
            self._store(view, shape, val)
            return
        if isinstance(key, Arr) and key.dtype == "bool":
            rk = key.reader()
            if isinstance(val, Arr):
                raise Unsupported("masked store of an array")
            view = self.view
            full = Arr(self.cell, self._shape, view)
            v = val if isinstance(val, (SBool, bool)) else (num(val) if isnumlike(val) or nanof(val) is not None else val)
            rs = full.reader()
            new = Arr.make(self._shape, lambda ix: ite(rk(ix[:key.ndim]), v, rs(ix)), self.dtype)
            self._store(view, self._shape, new)
            return
        if isinstance(key, Arr) and self.ndim == 1 and key.ndim == 1 and isinstance(key.shape[0], int):
            for j in range(key.shape[0]):
                self[key[j]] = val[j] if isinstance(val, Arr) else val
            return
        raise Unsupported(f"store with index {type(key).__name__}")

    def _store(self, view, shape, val):
        cell = self.cell
        if cell.readonly:
            oblige("input array not modified", z3.BoolVal(False))
        old = cell.fn
        if isinstance(val, (list, tuple)):
            val = Arr.from_list(val)
        if hasattr(val, "_qm_arr"):
            val = val._qm_arr()
        if isinstance(val, Arr):
            rv = bcast_reader(val, shape)
        else:
            v = val
            rv = lambda ix: v
        isint = "int" in cell.dtype

        oldw = cell.wfn

        # index map: base index -> (condition, view index)
        def fn(bx, want_cond=False):
            conds, ix = [], [None] * len(shape)
            for b, v in zip(bx, view):
                if v[0] == "fix":
                    conds.append(b == v[1])
                else:
                    _, d, st, sp = v
                    rel = z3.simplify(b - st, som=True)
                    if isinstance(sp, int) and sp == 1:
                        j = rel
                    elif isinstance(sp, int) and sp == -1:
                        j = z3.simplify(-rel)
                    else:
                        conds.append(rel % iv(sp) == 0)
                        j = rel / iv(sp)
                    conds.append(j >= 0)
                    conds.append(j < iv(shape[d]))
                    ix[d] = j
            for d in range(len(shape)):
                if ix[d] is None:
                    ix[d] = z3.IntVal(0)
            c = z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True)
            if want_cond:
                return c
            if z3.is_false(c):
                return old(bx)
            new = rv(tuple(ix))
            if cell.dtype == "bool" and isnumlike(new):
                new = new if isinstance(new, SBool) else SBool(z3.BoolVal(new)) if isinstance(new, bool) else SBool(num(new).e != 0)
            elif isnumlike(new) and not isinstance(new, SBool):
                new = num(new)
                if isint and not new.isint:
                    new = cast_(new, "int")
                elif not isint and cell.dtype.startswith("float") and new.isint:
                    new = SNum(rl(new.e), new.nan)
            if z3.is_true(c):
                return new
            return ite(c, new, old(bx))
        cell.fn = fn
        if oldw is not None:
            cell.wfn = lambda bx: z3.Or(fn(bx, True), oldw(bx))

    # ------------------------------------------------------------------ elementwise
    def map(self, f, dtype=None):
        r = self.reader()
        return Arr.make(self._shape, lambda ix: f(r(ix)), dtype or self.dtype)

    def _bin(self, o, f, rev=False, dtype=None):
        if hasattr(o, "_qm_arr"):
            return NotImplemented
        if isinstance(o, (list, tuple)):
            o = Arr.from_list(o)
        if isinstance(o, Arr):
            sh = bshape(self._shape, o._shape)
            a, b = bcast_reader(self, sh), bcast_reader(o, sh)
            if rev:
                a, b = b, a
            return Arr.make(sh, lambda ix: f(a(ix), b(ix)), dtype or promote(self.dtype, o.dtype, f))
        a = self.reader()
        od = "bool" if isinstance(o, (bool, SBool)) else "int64" if isinstance(o, int) or (isinstance(o, SNum) and o.isint) else "float64"
        if not isnumlike(o) and not isinstance(o, float):
            od = "object"
        dt = dtype or promote(self.dtype, od, f)
        if rev:
            return Arr.make(self._shape, lambda ix: f(o, a(ix)), dt)
        return Arr.make(self._shape, lambda ix: f(a(ix), o), dt)

    def __add__(self, o): return self._bin(o, ADD)
    def __radd__(self, o): return self._bin(o, ADD, True)
    def __sub__(self, o): return self._bin(o, SUB)
    def __rsub__(self, o): return self._bin(o, SUB, True)
    def __mul__(self, o): return self._bin(o, MUL)
    def __rmul__(self, o): return self._bin(o, MUL, True)
    def __truediv__(self, o): return self._bin(o, DIV)
    def __rtruediv__(self, o): return self._bin(o, DIV, True)
    def __floordiv__(self, o): return self._bin(o, lambda a, b: num(a) // num(b))
    def __mod__(self, o): return self._bin(o, lambda a, b: num(a) % num(b))
    def __pow__(self, o): return self._bin(o, lambda a, b: num(a) ** b)
    def __rpow__(self, o): return self._bin(o, lambda a, b: num(a) ** b, True)
    def __neg__(self): return self.map(lambda a: -a)
    def __abs__(self): return self.map(lambda a: abs(num(a)))
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b, dtype="bool")
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b, dtype="bool")
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b, dtype="bool")
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b, dtype="bool")
    def __eq__(self, o): return self._bin(o, lambda a, b: a == b, dtype="bool")
    def __ne__(self, o): return self._bin(o, lambda a, b: a != b, dtype="bool")
    def __and__(self, o): return self._bin(o, lambda a, b: a & b, dtype="bool")
    def __or__(self, o): return self._bin(o, lambda a, b: a | b, dtype="bool")
    def __invert__(self): return self.map(lambda a: ~a, "bool")
    __hash__ = None

    def _inplace(self, o, f):
        o = o._qm_arr() if hasattr(o, "_qm_arr") else o
        self._store(self.view, self._shape, self._bin(o, f))
        return self

    def __iadd__(self, o): return self._inplace(o, ADD)
    def __isub__(self, o): return self._inplace(o, SUB)
    def __imul__(self, o): return self._inplace(o, MUL)
    def __itruediv__(self, o): return self._inplace(o, DIV)

    # ------------------------------------------------------------------ shape ops
    @property
    def T(self):
        n = self.ndim
        if n < 2:
            return self
        # transpose is a view
        view = []
        for v in self.view:
            view.append(v if v[0] == "fix" else ("aff", n - 1 - v[1], v[2], v[3]))
        return Arr(self.cell, tuple(reversed(self._shape)), view)

    def copy(self):
        return Arr.make(self._shape, self.reader(), self.dtype)

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, t):
        n = getattr(t, "__name__", str(t))
        dt = "int64" if "int" in n else "float64" if "float" in n or "double" in n else "bool" if "bool" in n else "object"
        if dt == "object":
            return self.copy()
        return self.map(lambda a: cast_(a if isinstance(a, (SNum, SBool)) else num(a), n), dt)

    def tolist(self):
        return [x for x in self]

    def item(self):
        return self.at(*[0] * self.ndim)

    def ravel(self):
        return self.flatten()

    def diagonal(self):
        if self.ndim != 2 or not same(self._shape[0], self._shape[1]):
            raise Unsupported("diagonal of a matrix that is not square")
        r = self.reader()
        return Arr.make((self._shape[0],), lambda ix: r((ix[0], ix[0])), self.dtype)

    def flatten(self):
        if self.ndim == 1:
            return self.copy()
        r, sh = self.reader(), self._shape
        if self.ndim == 2 and all(isinstance(s, int) for s in sh):
            return Arr.from_list([r((z3.IntVal(i), z3.IntVal(j))) for i in range(sh[0]) for j in range(sh[1])])

        def fn(ix):
            return r(unravel_expr(ix[0], sh))
        return Arr.make((self.size,), fn, self.dtype)

    def reshape(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list, Arr)):
            sh = tuple(sh[0][i] for i in range(len(sh[0])))
        whole = [q for q, d in enumerate(sh) if isinstance(d, int) and d == -1]
        if whole:
            rest = [d for q, d in enumerate(sh) if q != whole[0]]
            if len(whole) > 1:
                raise core.real(ValueError("can only specify one unknown dimension"))
            n = self.size
            if rest:
                mine = list(self._shape)
                for d in rest:      # dimensions that both shapes have cancel
                    hit = [q for q, s in enumerate(mine) if same(s, d)]
                    if not hit:
                        break
                    mine.pop(hit[0])
                else:
                    rest = None
                if rest is None:
                    n = 1
                    for s in mine:
                        n = n * s
                else:
                    p = 1
                    for d in rest:
                        p = p * d
                    n = n // p
            sh = tuple(n if q == whole[0] else d for q, d in enumerate(sh))
        if len(sh) == self.ndim and all(same(a, b) for a, b in zip(sh, self._shape)):
            return self
        if self.ndim == 1:
            r = self.reader()
            return Arr.make(sh, lambda ix: r((ravel_expr(ix, sh),)), self.dtype)
        return self.flatten().reshape(*sh)

    def squeeze(self):
        keep = [i for i, s in enumerate(self._shape) if not (isinstance(s, int) and s == 1)]
        return self[tuple(slice(None) if i in keep else 0 for i in range(self.ndim))]

    # ------------------------------------------------------------------ reductions
    def sum(self, axis=None):
        r, sh, n = self.reader(), self._shape, self.ndim
        if axis is None:
            def rec(d, ix):
                if d == n:
                    return r(tuple(ix))
                return ssum(0, sh[d], lambda k: rec(d + 1, ix + [ex(k)]))
            v = rec(0, [])
            return SNum(z3.ToInt(v.e)) if "int" in self.dtype or self.dtype == "bool" else v
        if isinstance(axis, tuple):
            axes = sorted(a % n for a in axis)
            out = self
            for a in reversed(axes):
                out = out.sum(axis=a)
            return out
        axis = axis % n
        rest = sh[:axis] + sh[axis + 1:]

        def fn(ix):
            return ssum(0, sh[axis], lambda k: r(tuple(ix[:axis]) + (ex(k),) + tuple(ix[axis:])))
        if not rest:
            v = fn(())
            return v
        return Arr.make(rest, fn, self.dtype)

    def mean(self, axis=None):
        if axis is None:
            return self.sum() / self.size
        return self.sum(axis) / self._shape[axis]

    def _ext(self, kind):
        from .models.numpy_m import extremum
        return extremum(self, kind)

    def max(self, axis=None):
        if axis is not None:
            raise Unsupported("max over an axis")
        return self._ext("max")[0]

    def min(self, axis=None):
        if axis is not None:
            raise Unsupported("min over an axis")
        return self._ext("min")[0]

    def argmax(self, axis=None):
        return self._ext("max")[1]

    def argmin(self, axis=None):
        return self._ext("min")[1]

    def any(self):
        return arr_exists(self)

    def all(self):
        r = arr_exists(self.map(lambda a: ~a if isinstance(a, SBool) else SBool(num(a).e == 0), "bool"))
        return (not r) if isinstance(r, bool) else ~r

    def __bool__(self):
        if all(isinstance(s, int) and s == 1 for s in self._shape):
            return bool(self.item())
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __format__(self, spec):
        return "<array>"

    def __repr__(self):
        return f"Arr(shape={self._shape}, dtype={self.dtype})"


ADD = lambda a, b: a + b
SUB = lambda a, b: a - b
MUL = lambda a, b: (num(a) if isinstance(a, SBool) else a) * (num(b) if isinstance(b, SBool) else b)
DIV = lambda a, b: (num(a) if isnumlike(a) else a) / (b if not isnumlike(b) else num(b))


def promote(a, b, f):
    if f is DIV and a != "object" and b != "object":
        return "float64"
    if "object" in (a, b):
        return "object"
    if a.startswith("float") or b.startswith("float"):
        return "float64"
    return "int64"


def bshape(a, b):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        else:
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    raise ValueError("operands could not be broadcast together")
            elif not same(x, y):
                oblige("operand shapes agree", iv(x) == iv(y))
            out.append(x if isinstance(x, int) else y if isinstance(y, int) else x)
    return tuple(out)


def bcast_reader(a, shape):
    r = a.reader()
    n, m = len(shape), a.ndim
    if m > n:
        # leading 1-dims may be dropped on assignment
        if all(isinstance(s, int) and s == 1 for s in a.shape[:m - n]):
            pad = (z3.IntVal(0),) * (m - n)
            return lambda ix: r(pad + tuple(ix))
        raise ValueError("could not broadcast")
    ones = [isinstance(s, int) and s == 1 and not (isinstance(t, int) and t == 1)
            for s, t in zip(a.shape, shape[n - m:])]
    for s, t, o in zip(a.shape, shape[n - m:], ones):
        if not o and not same(s, t):
            oblige("operand shapes agree", iv(s) == iv(t))

    def rd(ix):
        ix = ix[n - m:]
        return r(tuple(z3.IntVal(0) if o else i for i, o in zip(ix, ones)))
    return rd


def ravel_expr(ix, sh):
    e = iv(ix[0])
    for i, s in zip(ix[1:], sh[1:]):
        e = e * iv(s) + iv(i)
    if len(ix) > 1:
        # remembered: unravelling this flat index to the same shape gives the same index back
        C.extra_state.setdefault("ravelled", {})[z3.simplify(e, som=True).sexpr()] = (tuple(iv(i) for i in ix), tuple(iv(s) for s in sh))
    return e


def unravel_expr(f, sh):
    """C-order unravel: fresh digits with their defining facts."""
    f = iv(f)
    n = len(sh)
    if n == 1:
        return (f,)
    m = C.extra_state.get("ravelled", {}).get(z3.simplify(f, som=True).sexpr())
    if m and len(m[1]) == n and all(same(a, b) for a, b in zip(m[1][1:], sh[1:])):
        return m[0]
    out = []
    rem = f
    for d in range(n - 1, 0, -1):
        s = iv(sh[d])
        out.append(rem % s)
        rem = rem / s
    out.append(rem)
    return tuple(reversed(out))


def arr_exists(a):
    """exists an element that is true"""
    r, sh = a.reader(), a.shape
    if all(isinstance(s, int) and s <= 8 for s in sh):
        acc = z3.BoolVal(False)

        def rec(d, ix):
            nonlocal acc
            if d == len(sh):
                v = r(tuple(ix))
                acc = z3.Or(acc, v.e if isinstance(v, SBool) else num(v).e != 0)
                return
            for k in range(sh[d]):
                rec(d + 1, ix + [z3.IntVal(k)])
        rec(0, [])
        acc = z3.simplify(acc)
        if z3.is_true(acc):
            return True
        if z3.is_false(acc):
            return False
        return SBool(acc)
    if a.ndim != 1:
        a = a.flatten()
        r = a.reader()
    k = C.raw("kq", I)
    with C.gen(k):
        v = r((k,))
    cond = v.e if isinstance(v, SBool) else num(v).e != 0
    return SBool(exists_flag(z3.IntVal(0), iv(a.shape[0]), k, cond))


def filtered(a, mask):
    """a[mask]: order-preserving subsequence; returns Arr with .embed"""
    emb = embedding(mask)
    r = a.reader()
    out = Arr.make((SNum(emb.m),), lambda ix: r((emb.e(ix[0]),)), a.dtype)
    out.embed = emb
    out.parent = a
    if hasattr(a, "unique"):
        out.unique = a.unique
    return out


class Embedding:
    pass


def embedding(mask):
    """Strictly increasing enumeration of the indices where mask holds."""
    rm = mask.reader()
    n = iv(mask.shape[0])
    k = z3.Const("kk!emb", I)
    with C.gen(k):
        probe = rm((k,)).e
    key = ("emb", tuple(g.sexpr() for g in C.generic), z3.simplify(probe).sexpr(), z3.simplify(n).sexpr())
    cache = C.extra_state.setdefault("emb", {})
    if key in cache:
        return cache[key]
    em = Embedding()
    e = C.fresh_fn("emb", I, I)
    rk = C.fresh_fn("rank", I, I)
    m = C.fresh("m", I)
    em.e, em.rank, em.m, em.n = e, rk, m, n
    em.mask = lambda i: tobool(rm((i,)))
    C.define(z3.And(m >= 0, m <= n), m)
    en = e.name()

    def schema(nm, a, sk):
        if nm == en:
            j = a[0]
            return [z3.Implies(z3.And(j >= 0, j < m), z3.And(e(j) >= 0, e(j) < n, em.mask(e(j)), rk(e(j)) == j)),
                    z3.Implies(z3.And(j >= 0, j + 1 < m), e(j + 1) > e(j)),
                    z3.Implies(z3.And(j >= 1, j < m), e(j - 1) < e(j))]
        i = a[0]
        return [z3.Implies(z3.And(i >= 0, i < n, em.mask(i)), z3.And(rk(i) >= 0, rk(i) < m, e(rk(i)) == i)),
                z3.Implies(z3.And(i >= 0, i < n, em.mask(i)), rk(i) <= i)]
    C.schema(schema, e, rk)
    # coverage at skolems, monotonicity over pairs of skolems
    C.define_forall(lambda i: z3.Implies(z3.And(i >= 0, i < n, em.mask(i)),
                                         z3.And(rk(i) >= 0, rk(i) < m, e(rk(i)) == i)), rk, e, m)

    def mono(i):
        fs = []
        for j in list(C.skolems)[-8:]:
            if not j.eq(i):
                fs.append(z3.Implies(z3.And(i >= 0, i < j, j < m), e(i) < e(j)))
        return z3.And(*fs) if fs else None
    C.define_forall(mono, e)
    em.increasing = lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < m), e(i) < e(j))
    em.inrange = lambda j: z3.Implies(z3.And(j >= 0, j < m), z3.And(e(j) >= 0, e(j) < n, em.mask(e(j)), rk(e(j)) == j))
    em.covers = lambda i: z3.Implies(z3.And(i >= 0, i < n, em.mask(i)), z3.And(rk(i) >= 0, rk(i) < m, e(rk(i)) == i))
    cache[key] = em
    return em


def contiguous(em, hint=None):
    """A mask that holds between any two places where it holds selects consecutive indices: e(j) = e(0) + j.
    Convexity is an obligation (hint(a, c, b) may add lemma instances); the rest is by induction on j."""
    a, c, b = (C.skolem(x) for x in "acb")
    order = z3.And(a >= 0, a <= c, c <= b, b < em.n)
    convex = lambda a, c, b: z3.Implies(z3.And(a >= 0, a <= c, c <= b, b < em.n, em.mask(a), em.mask(b)), em.mask(c))
    with C.under(order):
        if hint:
            hint(a, c, b)
        oblige("the selected samples are those between two times (no sample left out in between)",
               z3.Implies(z3.And(em.mask(a), em.mask(b)), em.mask(c)))
    _contiguous_lemma()
    def fact(nm, args, sk):
        i = args[-1]
        own = z3.BoolVal(True) if len(args) == 1 else args[0] == em.g
        return [z3.Implies(z3.And(own, i >= 0, i < em.m), em.e(i) == em.e(z3.IntVal(0)) + i)]
    C.schema(fact, em.gb.E if hasattr(em, "gb") else em.e)
    return lambda i: z3.Implies(z3.And(i >= 0, i < em.m), em.e(i) == em.e(z3.IntVal(0)) + i)


def _contiguous_lemma():
    """induction step, for any strictly increasing enumeration of any convex mask"""
    e, rk, mk = z3.Function("le", I, I), z3.Function("lrk", I, I), z3.Function("lmk", I, B)
    inc = lambda i, j, m: z3.Implies(z3.And(i >= 0, i < j, j < m), e(i) < e(j))

    def body(j, m, n):
        x, y = e(j) + 1, e(j + 1)
        q = rk(x)
        rng = lambda t: z3.And(e(t) >= 0, e(t) < n, mk(e(t)))
        hyp = z3.And(j >= 0, j + 1 < m, rng(j), rng(j + 1), inc(j, j + 1, m), inc(j + 1, q, m), inc(q, j, m),
                     z3.Implies(z3.And(e(j) <= x, x <= y, y < n, mk(e(j)), mk(y)), mk(x)),
                     z3.Implies(z3.And(x >= 0, x < n, mk(x)), z3.And(q >= 0, q < m, e(q) == x)))
        return z3.Implies(hyp, y == x)
    core.lemma("a gapless selection is contiguous (induction step)", [I, I, I], body)


def enumerated(em, f, count, idx, hint=None):
    """The selection enumerates f(0) < f(1) < ... < f(count - 1): the e(j) are the f(j), for when these are all the
    selected places (idx(i) is the number of a selected place i).  The induction is a lemma; its premises are obligations."""
    j, j2, i = C.skolem("j"), C.skolem("j2"), C.skolem("i")
    with C.under(j >= 0, j < j2, j2 < count):
        if hint:
            hint(j, j2, i)
        oblige("the places are ascending", f(j) < f(j2))
    with C.under(j >= 0, j < count):
        if hint:
            hint(j, j2, i)
        oblige("every such place is selected", z3.And(f(j) >= 0, f(j) < em.n, em.mask(f(j))))
    with C.under(i >= 0, i < em.n, em.mask(i)):
        if hint:
            hint(j, j2, i)
        oblige("every selected place is one of them", z3.And(idx(i) >= 0, idx(i) < count, f(idx(i)) == i))
    oblige("their number is not negative", count >= 0)
    _enumerated_lemma()
    C.define(em.m == count, em.m)
    C.schema(lambda nm, a, sk: [z3.Implies(z3.And(a[0] >= 0, a[0] < em.m), em.e(a[0]) == f(a[0]))], em.e)


def _enumerated_lemma():
    e, f, rk, ix, mk = (z3.Function(n, I, I) for n in ("le", "lf", "lrk", "lix", "lmk"))
    sel = lambda i, n: z3.And(i >= 0, i < n, mk(i) != 0)
    re = lambda t, m, n: z3.Implies(z3.And(t >= 0, t < m), z3.And(sel(e(t), n), rk(e(t)) == t))
    rf = lambda t, c, n: z3.Implies(z3.And(t >= 0, t < c), sel(f(t), n))
    ce = lambda i, m, n: z3.Implies(sel(i, n), z3.And(rk(i) >= 0, rk(i) < m, e(rk(i)) == i))
    cf = lambda i, c, n: z3.Implies(sel(i, n), z3.And(ix(i) >= 0, ix(i) < c, f(ix(i)) == i))
    inc = lambda g, a, b, m: z3.Implies(z3.And(a >= 0, a < b, b < m), g(a) < g(b))

    def first_differs(j, m, c, n):
        """e and f agree below j; both have a j-th place: it is the same"""
        x, y = e(j), f(j)
        p, q = ix(x), rk(y)
        agree = lambda t: z3.Implies(z3.And(t >= 0, t < j), e(t) == f(t))
        hyp = z3.And(j >= 0, j < m, j < c, re(j, m, n), rf(j, c, n), ce(y, m, n), cf(x, c, n), agree(p), agree(q),
                     inc(e, p, j, m), inc(e, j, q, m), inc(f, q, j, c), inc(f, j, p, c))
        return z3.Implies(hyp, x == y)

    def same_number(m, c, n):
        """they agree as far as both go: neither goes further"""
        x, y = e(c), f(m)
        p, q = ix(x), rk(y)
        agree = lambda t: z3.Implies(z3.And(t >= 0, t < m, t < c), e(t) == f(t))
        hyp = z3.And(m >= 0, c >= 0, re(c, m, n), rf(m, c, n), ce(y, m, n), cf(x, c, n), agree(p), agree(q), inc(e, p, c, m), inc(f, q, m, c))
        return z3.Implies(hyp, m == c)
    core.lemma("two ascending enumerations of the same places agree (induction step)", [I, I, I, I], first_differs)
    core.lemma("two ascending enumerations of the same places are as long", [I, I, I], same_number)
