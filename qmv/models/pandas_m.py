"""pandas over symbolic columns: a frame is named columns over the same rows, each with an index array."""
from __future__ import annotations

import types

import z3

from ..arr import Arr, Embedding, embedding, filtered, iv
from ..loops import Poison, QList, QSeq, is_symbolic
from ..core import B, C, I, R, SBool, SNum, Unsupported, ex, isnumlike, ite, num, oblige, rl, tobool
from . import numpy_m


def arange(n):
    a = Arr.make((SNum(iv(n)),), lambda ix: SNum(ix[0]), "int64")
    a.unique = True            # labels are pairwise different; kept by selections
    return a


class Label(SNum):
    """an index label whose row is known"""
    __slots__ = ("src", "pos")

    def __init__(self, v, src=None, pos=None):
        v = num(v)
        super().__init__(v.e)
        self.src, self.pos = src, pos

    def _wrap(self, e):
        return SNum(e)


class GroupRows(Embedding):
    """The rows of one group: E(g, 0) < ... < E(g, m(g) - 1)."""

    def __init__(self, gb, g):
        self.gb, self.g, self.n = gb, g, gb.n

    @property
    def m(self):
        return self.gb.m(self.g)

    def e(self, j):
        return self.gb.E(self.g, j)

    def rank(self, i):
        return self.gb.rk(i)

    def mask(self, i):
        return self.gb.key(i) == self.gb.K(self.g)

    def inrange(self, j):
        return self.gb.inrange(self.g, j)

    def covers(self, i):
        return self.gb.covers(i)

    def _qm_subst(self, f):
        return GroupRows(self.gb, f(self.g))


class GroupBy:
    """df.groupby(numeric key): keys ascending, every row in exactly one group, rows in their order."""

    def __init__(self, frame, key):
        rd = key.reader()
        self.frame, self.key = frame, (lambda i: num(rd((i,))).e)
        probe = num(rd((z3.Const("gk!", I),)))
        if probe.nan is not None:
            raise Unsupported("groupby of keys that may be missing")
        srt = probe.e.sort()
        self.n = n = iv(frame.idx.shape[0])
        oblige("one key per row", iv(key.shape[0]) == n)
        self.G = C.fresh("groups", I)
        self.K, self.m = C.fresh_fn("gkey", I, srt), C.fresh_fn("gsize", I, I)
        self.E, self.grp, self.rk = C.fresh_fn("grow", I, I, I), C.fresh_fn("gof", I, I), C.fresh_fn("gpos", I, I)
        G, K, m, E, grp, rk = self.G, self.K, self.m, self.E, self.grp, self.rk
        C.define(z3.And(G >= 0, G <= n, z3.Implies(n > 0, G >= 1)), G)
        self.ing = lambda g: z3.And(g >= 0, g < G)
        self.inrange = lambda g, j: z3.Implies(z3.And(self.ing(g), j >= 0, j < m(g)), z3.And(
            E(g, j) >= 0, E(g, j) < n, self.key(E(g, j)) == K(g), grp(E(g, j)) == g, rk(E(g, j)) == j))
        self.covers = lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(
            self.ing(grp(i)), rk(i) >= 0, rk(i) < m(grp(i)), E(grp(i), rk(i)) == i, self.key(i) == K(grp(i))))
        self.ordered = lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < G), K(a) < K(b))
        self.increasing = lambda g, i, j: z3.Implies(z3.And(self.ing(g), i >= 0, i < j, j < m(g)), E(g, i) < E(g, j))
        names = [f.name() for f in (K, m, E, grp, rk)]

        def schema(nm, a, sk):
            if nm == names[0]:
                return [self.ordered(a[0], a[0] + 1), self.ordered(a[0] - 1, a[0])]
            if nm == names[1]:
                return [z3.Implies(self.ing(a[0]), z3.And(m(a[0]) >= 1, m(a[0]) <= n))]
            if nm == names[2]:
                g, j = a
                return [self.inrange(g, j), self.increasing(g, j, j + 1), self.increasing(g, j - 1, j)]
            return [self.covers(a[0])]
        C.schema(schema, K, m, E, grp, rk)

    def group(self, g):
        em = GroupRows(self, g)

        def pick(a):
            r = a.reader()
            out = Arr.make((SNum(em.m),), lambda ix: r((em.e(ix[0]),)), a.dtype)
            out.embed = em
            out.parent = a
            if hasattr(a, "unique"):
                out.unique = a.unique
            return out
        f = self.frame
        return f._new({c: pick(a) for c, a in f.cols.items()}, pick(f.idx))

    def sym_len(self):
        return SNum(self.G)

    def sym_get(self, g):
        g = iv(g)
        return SNum(self.K(g)), self.group(g)

    def _qm_symbolic(self):
        return True

    def __iter__(self):
        raise Unsupported("native iteration over groups")


class Stamp(SNum):
    """pd.Timestamp: seconds since the epoch"""
    __slots__ = ()

    def _wrap(self, e):
        return Stamp(e)

    def __hash__(self):
        return SNum.__hash__(self)

    def _day(self):
        from .obspy_m import UTC
        return UTC(self.e).day_

    def date(self):
        from .obspy_m import Date
        return Date(self._day())

    @property
    def year(self):
        from .obspy_m import UTC
        return UTC(self.e).year

    @property
    def dayofyear(self):
        from .obspy_m import UTC
        return UTC(self.e).julday

    day_of_year = dayofyear

    def strftime(self, fmt):
        from .obspy_m import UTC
        return UTC(self.e).strftime(fmt)


def to_datetime(x, **k):
    """times from texts (or times), none missing"""
    if k:
        raise Unsupported("pd.to_datetime options")
    from .. import core
    a = raw(x)
    if not isinstance(a, Arr):
        raise Unsupported("pd.to_datetime of this kind of value")
    r = a.copy().reader()

    def f(ix):
        v = r(ix)
        if not isinstance(v, (SNum, str)) or isinstance(v, str):
            v = core.unmark(v)
            v = v[0] if isinstance(v, tuple) else v
        from .obspy_m import UTC
        if not isinstance(v, (UTC, Stamp)):
            raise Unsupported("pd.to_datetime of this kind of value")
        return Stamp(rl(v.e))
    out = Arr.make(a.shape, f, "object")
    return Index(out) if isinstance(x, Index) else Series(out, x.idx if isinstance(x, Series) else None)


class Index:
    def __init__(self, arr):
        self.arr = arr

    def _qm_arr(self):
        return self.arr

    def __getitem__(self, k):
        r = self.arr[k]
        return Index(r) if isinstance(r, Arr) and r.ndim else r

    def __len__(self):
        return len(self.arr)

    def sym_len(self):
        return self.arr.sym_len()

    def sym_get(self, k):
        return self.arr.sym_get(k)

    def _qm_symbolic(self):
        return not isinstance(self.arr.sym_len(), int)

    def __iter__(self):
        return iter(self.arr)

    @property
    def date(self):
        """the day of every time"""
        r = self.arr.copy().reader()
        return Arr.make(self.arr.shape, lambda ix: r(ix).date(), "object")

    @property
    def empty(self):
        return SBool(iv(self.arr.shape[0]) == 0)

    @property
    def str(self):
        return _Str(self)

    @property
    def shape(self):
        return self.arr.shape

    @property
    def values(self):
        return self.arr

    def __sub__(self, o):
        return Index(self.arr - (o.arr if isinstance(o, (Index, Series)) else o))

    def __add__(self, o):
        return Index(self.arr + (o.arr if isinstance(o, (Index, Series)) else o))

    def isin(self, o):
        raise Unsupported("Index.isin")


class _Str:
    """.str of an index of numbered texts: whether one contains a pattern is known by its number only"""

    def __init__(self, ix):
        self.ix = ix

    def contains(self, pat, case=True, flags=0, na=None, regex=True):
        if case is not True or flags or not isinstance(pat, str):
            raise Unsupported("str.contains options")
        f = contains_fn(pat, regex)
        return self.ix.arr.map(lambda v: SBool(f(num(v).e)), "bool")


def contains_fn(pat, regex):
    return z3.Function(f"contains:{pat}:{'regex' if regex else 'text'}", I, B)


def raw(o):
    if isinstance(o, (Series, Index)):
        return o.arr
    return o


class Series:
    def __new__(cls, data=None, index=None, name=None, **k):
        if isinstance(data, (list, tuple)) and isinstance(index, (list, tuple)) and not k and all(isinstance(x, str) for x in index):
            if len(data) != len(index):
                raise ValueError("Length of values does not match length of index")
            return Row(dict(zip(index, data)), name)
        return object.__new__(cls)

    def __init__(self, data, index=None, name=None, **k):
        if isinstance(data, (list, tuple)):
            data = Arr.from_list(list(data))
        if isinstance(data, Series):
            data, index = data.arr, data.idx
        if not isinstance(data, Arr) or k:
            raise Unsupported("pd.Series")
        self.arr = data
        self.idx = index if index is not None else arange(data.shape[0])

    def _qm_arr(self):
        return self.arr

    def _new(self, a):
        return Series(a, self.idx)

    @property
    def values(self):
        return self.arr

    def to_numpy(self, *a, **k):
        return self.arr

    @property
    def index(self):
        return Index(self.idx)

    @property
    def shape(self):
        return self.arr.shape

    @property
    def size(self):
        return self.arr.size

    @property
    def dtype(self):
        return self.arr.dtype

    @property
    def empty(self):
        return SBool(iv(self.arr.shape[0]) == 0)

    def sym_len(self):
        return self.arr.sym_len()

    def sym_get(self, k):
        return self.arr.sym_get(k)

    def _qm_symbolic(self):
        return not isinstance(self.arr.sym_len(), int)

    def __len__(self):
        return len(self.arr)

    def __iter__(self):
        return iter(self.arr)

    def astype(self, t):
        if t in ("str", "string", "object") or getattr(t, "__name__", "") in ("str", "_str"):
            if self.arr.dtype != "object":
                raise Unsupported("numbers as text")
            return self._new(self.arr.copy())
        return self._new(self.arr.astype(t))

    def apply(self, f, *a, **k):
        if a or k:
            raise Unsupported("Series.apply options")
        return self.map(f)

    def map(self, f, na_action=None):
        """f of every value"""
        if not callable(f):
            raise Unsupported("Series.map of a table")
        r = self.arr.copy().reader()
        probe = C.raw("row", I)
        with C.under(probe >= 0, probe < iv(self.arr.shape[0])), C.gen(probe):
            v = f(r((probe,)))
        dt = "object" if isinstance(v, str) or not isnumlike(v) or type(v).__name__ == "UTC" else "bool" if isinstance(v, (bool, SBool)) else "int64" if num(v).isint else "float64"
        a = Arr.make(self.arr.shape, lambda ix: f(r(ix)), dt)
        return self._new(a)

    def copy(self, *a, **k):
        return Series(self.arr.copy(), self.idx)

    def max(self):
        return self.arr.max()

    def min(self):
        return self.arr.min()

    def sum(self):
        return self.arr.sum()

    def mean(self):
        return self.arr.mean()

    def any(self):
        return self.arr.any()

    def all(self):
        return self.arr.all()

    def idxmax(self):
        p = self.arr.argmax()
        return Label(self.idx[p], self.idx, p)

    def idxmin(self):
        p = self.arr.argmin()
        return Label(self.idx[p], self.idx, p)

    def to_list(self):
        return self.arr.tolist()

    tolist = to_list

    def between(self, left, right, inclusive="both"):
        if inclusive not in ("both", "left", "right", "neither"):
            raise Unsupported("Series.between")
        a = (self >= left) if inclusive in ("both", "left") else (self > left)
        return a & ((self <= right) if inclusive in ("both", "right") else (self < right))

    def isin(self, vals):
        def f(x):
            r = SBool(z3.BoolVal(False))
            for v in vals:
                r = r | SBool(tobool(x == v))
            return r
        return self._new(self.arr.map(f, "bool"))

    def isnull(self):
        return self._new(self.arr.map(lambda x: SBool(x.nan if x.nan is not None else z3.BoolVal(False)), "bool"))

    isna = isnull

    def notnull(self):
        return ~self.isnull()

    notna = notnull

    def __getitem__(self, k):
        if isinstance(k, (Series, Arr)):
            k = raw(k)
            return Series(filtered(self.arr, k), filtered(self.idx, k))
        raise Unsupported("Series[label]")

    @property
    def iloc(self):
        return _SILoc(self)

    def _b(self, o, f):
        r = f(self.arr, raw(o))
        return self._new(r)

    def __lt__(self, o): return self._b(o, lambda a, b: a < b)
    def __le__(self, o): return self._b(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._b(o, lambda a, b: a > b)
    def __ge__(self, o): return self._b(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._b(o, lambda a, b: a == b)
    def __ne__(self, o): return self._b(o, lambda a, b: a != b)
    def __and__(self, o): return self._b(o, lambda a, b: a & b)
    def __or__(self, o): return self._b(o, lambda a, b: a | b)
    __rand__, __ror__ = __and__, __or__
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: b / a)
    def __pow__(self, o): return self._b(o, lambda a, b: a ** b)
    def __neg__(self): return self._new(-self.arr)
    def __abs__(self): return self._new(abs(self.arr))
    def __invert__(self): return self._new(~self.arr)

    abs = __abs__

    __hash__ = None


class _SILoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Series(self.s.arr[k], self.s.idx[k])
        return self.s.arr[k]


class Row:
    """one row of a frame (or a labelled record)"""

    def __init__(self, cols, name=None):
        self.cols = dict(cols)
        self.name = name

    def __getitem__(self, k):
        if isinstance(k, (list, tuple)):
            return Row({c: self.cols[c] for c in k}, self.name)
        if isinstance(k, str):
            return self.cols[k]
        raise Unsupported("Row[...]")

    def __setitem__(self, k, v):
        self.cols[k] = v

    def __getattr__(self, k):
        if k in ("cols", "name") or k.startswith("__"):
            raise AttributeError(k)
        try:
            return self.__dict__["cols"][k]
        except KeyError:
            raise AttributeError(k)

    def copy(self, *a, **k):
        return Row(self.cols, self.name)

    def to_frame(self, name=None):
        return ColFrame(self)

    def _qm_ite(self, c, a, b):
        if not isinstance(a, Row) or not isinstance(b, Row) or list(a.cols) != list(b.cols):
            raise Unsupported("cannot merge records")
        return Row({q: ite(c, a.cols[q], b.cols[q]) for q in a.cols})

    @property
    def values(self):
        return list(self.cols.values())

    def items(self):
        return list(self.cols.items())

    def keys(self):
        return list(self.cols)

    def __iter__(self):
        return iter(self.cols.values())

    def __contains__(self, k):
        return k in self.cols


class ColFrame:
    """a record as a one-column frame"""

    def __init__(self, row):
        self.row = row

    @property
    def T(self):
        return OneRow(self.row)

    transpose = lambda self: OneRow(self.row)


class OneRow:
    """a frame of one row"""

    def __init__(self, row):
        self.row = row.copy()

    def convert_dtypes(self, *a, **k):
        return self                     # values unchanged, column types tightened

    def infer_objects(self, *a, **k):
        return self

    def _qm_added(self, base):
        return self.row, False

    def __getattr__(self, k):
        raise AttributeError(k) if k.startswith("_") else Unsupported(f"one-row DataFrame.{k}")


class Grown:
    """a frame with one row appended"""

    def __init__(self, base, row):
        self.base, self.row = base, row

    def _qm_added(self, base):
        return (self.row, True) if self.base is base else None

    def __getattr__(self, k):
        raise AttributeError(k) if k.startswith("_") else Unsupported(f"DataFrame.{k} inside the loop that builds it")


class Frozen:
    """the frame under construction inside the loop that builds it: only whether it has rows yet can be asked"""

    def __init__(self, flag):
        self.flag = flag

    @property
    def empty(self):
        return SBool(self.flag)

    def __getattr__(self, k):
        raise AttributeError(k) if k.startswith("_") else Unsupported(f"DataFrame.{k} inside the loop that builds it")


def snapshot(a):
    b = a.copy()
    if hasattr(a, "embed"):
        b.embed = a.embed
    if hasattr(a, "parent"):
        b.parent = a.parent
    return b


class Columns(list):
    """the names of a frame's columns"""

    def tolist(self):
        return list(self)

    to_list = tolist

    def isin(self, xs):
        return numpy_m.as_arr([c in list(xs) for c in self])

    def difference(self, xs):
        return Columns(sorted(set(self) - set(xs)))

    def intersection(self, xs):
        return Columns(c for c in self if c in list(xs))

    @property
    def values(self):
        return list(self)


class DataFrame:
    def __new__(cls, data=None, index=None, columns=None, **k):
        if cls is DataFrame and data is None and index is None and isinstance(columns, (list, tuple)) and not k:
            return object.__new__(EmptyFrame)
        return object.__new__(cls)

    def __init__(self, data=None, index=None, columns=None, **k):
        if k:
            raise Unsupported("pd.DataFrame options")
        if isinstance(data, DataFrame):
            data, index = data.cols, data.idx
        if data is None and index is None and columns is None:
            data = {}
        if not isinstance(data, dict) or columns is not None:
            raise Unsupported("pd.DataFrame of this kind of data")
        cols = {}
        n = None
        for c, v in data.items():
            v = raw(v)
            if isinstance(v, (list, tuple)):
                v = numpy_m.as_arr(list(v))
            if not isinstance(v, Arr):
                raise Unsupported("DataFrame column")
            if v.ndim != 1:
                raise ValueError("Per-column arrays must each be 1-dimensional")
            if n is not None:
                oblige("columns of a frame have the same length", iv(v.shape[0]) == iv(n))
            n = v.shape[0] if n is None else n
            cols[c] = v
        self.__dict__["cols"] = cols
        self.__dict__["idx"] = index if index is not None else arange(0 if n is None else n)

    @property
    def values(self):
        return self.to_numpy()

    def to_numpy(self, *a, **k):
        """the table as an array: one column after another (numbers only)"""
        cols = [raw(v) for v in self.cols.values()]
        if a or k or not cols or any(v.ndim != 1 for v in cols):
            raise Unsupported("DataFrame.to_numpy of this kind of table")
        return numpy_m.np.stack(cols, axis=-1)

    def _new(self, cols, idx):
        d = object.__new__(DataFrame)
        d.__dict__["cols"], d.__dict__["idx"] = cols, idx
        return d

    @property
    def columns(self):
        return Columns(self.cols)

    def astype(self, t):
        if not isinstance(t, dict):
            t = {c: t for c in self.cols}
        cols = dict(self.cols)
        for c, v in t.items():
            if c not in cols:
                raise KeyError(c)
            cols[c] = self[c].astype(v).arr
        return self._new(cols, self.idx)

    def assign(self, **k):
        r = self._new(dict(self.cols), self.idx)
        for c, v in k.items():
            r[c] = v(r) if callable(v) else v
        return r

    def drop(self, columns=None, **k):
        if k or columns is None:
            raise Unsupported("DataFrame.drop of rows")
        cs = [columns] if isinstance(columns, str) else list(columns)
        if any(c not in self.cols for c in cs):
            raise KeyError(cs)
        return self._new({c: a for c, a in self.cols.items() if c not in cs}, self.idx)

    def to_csv(self, path=None, index=True, **k):
        if C.csv is None or k:
            raise Unsupported("DataFrame.to_csv")
        C.csv.append((path, self._new({c: snapshot(a) for c, a in self.cols.items()}, self.idx), index))

    @property
    def index(self):
        return Index(self.idx)

    @property
    def shape(self):
        return (self.idx.shape[0], len(self.cols))

    @property
    def empty(self):
        return SBool(iv(self.idx.shape[0]) == 0)

    def sym_len(self):
        return self.idx.sym_len()

    def __len__(self):
        return len(self.idx)

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise KeyError(k)
            return Series(self.cols[k], self.idx)
        if isinstance(k, (Series, Arr)):
            return self._mask(raw(k))
        if isinstance(k, (list, tuple)):
            return self._new({c: self.cols[c] for c in k}, self.idx)
        raise Unsupported("DataFrame[...]")

    def _mask(self, m):
        # views are copied, as pandas does for boolean masks
        cols = {c: filtered(snapshot(a), m) for c, a in self.cols.items()}
        return self._new(cols, filtered(self.idx, m))

    def __setitem__(self, k, v):
        v = raw(v)
        n = self.idx.shape[0]
        if isinstance(v, (list, tuple)):
            v = numpy_m.as_arr(v)
        if not self.cols and isinstance(n, int) and n == 0 and isinstance(v, Arr) and v.ndim == 1:      # the first column gives the rows
            n = v.shape[0]
            self.idx = DataFrame({k: v}).idx
        if isinstance(v, (bool, SBool)):
            v0 = SBool(tobool(v))
            v = Arr.make((n,), lambda ix: v0, "bool")
        elif isnumlike(v):
            v0 = v
            v = Arr.make((n,), lambda ix: v0, "float64")
        if not isinstance(v, Arr):
            raise Unsupported("DataFrame column assignment")
        oblige("assigned column has one value per row", iv(v.shape[0]) == iv(n))
        self.cols[k] = v

    @index.setter
    def index(self, v):
        v = raw(v)
        if isinstance(v, (list, tuple)):
            v = numpy_m.as_arr(v)
        if not isinstance(v, Arr) or v.ndim != 1:
            raise Unsupported("index of this kind")
        oblige("one label per row", iv(v.shape[0]) == iv(self.idx.shape[0]))
        self.__dict__["idx"] = v

    def __getattr__(self, k):
        c = self.__dict__.get("cols", {})
        if k in c:
            return self[k]
        raise AttributeError(k) if k.startswith("_") else Unsupported(f"DataFrame.{k}")

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def loc(self):
        return _Loc(self)

    def copy(self, *a, **k):
        return self._new({c: v.copy() for c, v in self.cols.items()}, self.idx)

    __deepcopy__ = lambda self, memo: self.copy()

    def reset_index(self, drop=False, inplace=False):
        n = self.idx.shape[0]
        if not drop:
            if "index" in self.cols:
                raise ValueError("cannot insert index, already exists")
            cols = {"index": self.idx, **self.cols}
            if inplace:
                self.__dict__["cols"], self.__dict__["idx"] = cols, arange(n)
                return None
            return self._new(cols, arange(n))
        if inplace:
            self.__dict__["idx"] = arange(n)
            return None
        return self._new(dict(self.cols), arange(n))

    def dropna(self, subset=None, inplace=False, **k):
        """the rows in which none of the named columns is missing"""
        if k:
            raise Unsupported("dropna options")
        names = [subset] if isinstance(subset, str) else list(subset) if subset is not None else list(self.cols)
        keep = None
        for c in names:
            if c not in self.cols:
                raise KeyError([c])
            m = self[c].notnull().arr
            keep = m if keep is None else keep & m
        r = self._mask(keep)
        if not inplace:
            return r
        self.__dict__["cols"], self.__dict__["idx"] = r.cols, r.idx
        return None

    def groupby(self, key, sort=True, **k):
        if k or sort is not True:
            raise Unsupported("groupby options")
        return GroupBy(self, raw(self[key] if isinstance(key, str) else key))

    def iterrows(self):
        return QSeq(SNum(iv(self.idx.shape[0])), lambda k: (Label(self.idx[SNum(k)], self.idx, SNum(k)), self.row(SNum(k))))

    def convert_dtypes(self, *a, **k):
        return self.copy()

    def row(self, p):
        """p-th row"""
        return Row({c: a[p] for c, a in self.cols.items()}, self.idx[p])


class EmptyFrame(DataFrame):
    """named columns, no rows yet"""

    def __init__(self, data=None, index=None, columns=None, **k):
        z = lambda: Arr.make((0,), lambda ix: SNum(z3.RealVal(0)), "object")
        self.__dict__["cols"], self.__dict__["idx"] = {c: z() for c in columns}, arange(0)

    @property
    def empty(self):
        return True

    def _qm_frozen(self, key):
        return Frozen(C.raw("norowsyet", B))

    def _qm_same(self, a, b):
        from ..loops import valid_same
        return list(a.cols) == list(b.cols) and all(
            x == y if isinstance(x, str) or isinstance(y, str) else valid_same(x, y) for x, y in ((a.cols[q], b.cols[q]) for q in a.cols))

    def _qm_extend(self, comp):
        """the rows of a comprehension; a filtered one keeps its order"""
        k = C.raw("row", I)
        with C.under(k >= 0, k < iv(comp.n)), C.gen(k):
            tmpl = comp.elem(k)
        names = list(tmpl.cols)
        if set(names) != set(self.cols):
            names_all = names
        out = {}
        mask = None
        if not comp.total():
            mask = Arr.make((SNum(iv(comp.n)),), lambda ix: SBool(comp.guard(ix[0])), "bool")
        for c in names:
            v = tmpl.cols[c]
            dt = "object" if isinstance(v, str) or type(v) is not SNum and not isinstance(v, (int, float, Label)) else "int64" if num(v).isint else "float64"
            a = Arr.make((SNum(iv(comp.n)),), lambda ix, c=c: comp.elem(ix[0]).cols[c], dt)
            out[c] = filtered(a, mask) if mask is not None else a
        n = next(iter(out.values())).shape[0]
        return DataFrame._new(self, out, arange(n))


class _ILoc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.f._new({c: a[k] for c, a in self.f.cols.items()}, self.f.idx[k])
        return self.f.row(k)


class _Loc:
    """label access; rows are found by label when the index enumerates rows (0, 1, 2, ...) or is strictly increasing"""

    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        f = self.f
        col = None
        if isinstance(k, tuple):
            k, col = k
            if isinstance(col, slice) and col == slice(None):
                col = None
        if isinstance(k, (Series, Arr)):
            r = f._mask(raw(k))
            return r if col is None else r[col]
        if isinstance(k, slice) and k == slice(None):
            return f if col is None else f[col]
        if isinstance(k, Label) and k.src is f.idx and getattr(f.idx, "unique", False):
            row = f.row(k.pos)
            return row if col is None else row[col]
        if isnumlike(k):
            p = self.pos(num(k).e)
            row = f.row(SNum(p))
            return row if col is None else row[col]
        raise Unsupported("DataFrame.loc[...]")

    def __setitem__(self, k, v):
        f = self.f
        if isinstance(k, tuple) and isinstance(k[0], slice) and k[0] == slice(None) and isinstance(k[1], str):
            f[k[1]] = v
            return
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], (Series, Arr)) and isinstance(k[1], str):
            mask = raw(k[0])
            if k[1] not in f.cols or not isinstance(v, (bool, SBool)) and not isnumlike(v):
                raise Unsupported("DataFrame.loc[mask, column] = ... of this kind")
            oblige("a mask has one value per row", iv(mask.shape[0]) == iv(f.idx.shape[0]))
            old = f.cols[k[1]]
            ro, rm = old.copy().reader(), mask.copy().reader()
            new = SBool(tobool(v)) if isinstance(v, (bool, SBool)) else v
            f.cols[k[1]] = Arr.make(old.shape, lambda ix: ite(rm(ix).e, new, ro(ix)), old.dtype)
            return
        if isinstance(k, tuple) and isinstance(k[0], Label) and k[0].src is f.idx and isinstance(k[1], str) and getattr(f.idx, "unique", False):
            if k[1] not in f.cols:
                raise Unsupported("DataFrame.loc[...] = ... with a new column")
            f.cols[k[1]][k[0].pos] = v
            return
        raise Unsupported("DataFrame.loc[...] = ...")

    def pos(self, lab):
        idx = self.f.idx
        n = iv(idx.shape[0])
        p = C.fresh("pos", I)
        rd = idx.reader()
        oblige("the row label exists", self._exists(lab))
        C.define(z3.And(p >= 0, p < n, num(rd((p,))).e == lab), p)
        return p

    def _exists(self, lab):
        idx = self.f.idx
        n = iv(idx.shape[0])
        emb = getattr(idx, "embed", None)
        rd = idx.reader()
        if emb is not None:
            return z3.And(emb.rank(lab) >= 0, emb.rank(lab) < n, num(rd((emb.rank(lab),))).e == lab)
        return z3.And(lab >= 0, lab < n, num(rd((lab,))).e == lab)


def concat(parts, ignore_index=False, **k):
    if k:
        raise Unsupported("pd.concat options")
    if isinstance(parts, QList) and is_symbolic(parts):
        raise Unsupported("pd.concat of any number of frames")
    ps = [p for p in parts if p is not None]
    if not ps:
        raise ValueError("All objects passed were None")
    if ignore_index is not True and not all(isinstance(p, DataFrame) for p in ps):
        raise Unsupported("pd.concat keeping labels")
    if len(ps) == 1:
        if isinstance(ps[0], OneRow):
            return ps[0]
        if isinstance(ps[0], DataFrame):
            return ps[0].reset_index(drop=True).copy() if ignore_index else ps[0].copy()
    if all(type(p) is DataFrame for p in ps) and not any(isinstance(p, EmptyFrame) for p in ps):
        if any(list(p.cols) != list(ps[0].cols) for p in ps):
            raise Unsupported("pd.concat of frames with other columns")
        idx = None if ignore_index else numpy_m.np.concatenate([p.idx for p in ps])
        cols = {c: numpy_m.np.concatenate([p.cols[c] for p in ps]) for c in ps[0].cols}
        return DataFrame._new(ps[0], cols, arange(next(iter(cols.values())).shape[0]) if idx is None else idx)
    if len(ps) == 2 and isinstance(ps[1], OneRow):
        if isinstance(ps[0], Frozen):
            return Grown(ps[0], ps[1].row)
        if isinstance(ps[0], EmptyFrame):
            return ps[1]
    raise Unsupported("pd.concat")


def read_csv(*a, **k):
    raise Unsupported("pd.read_csv")


def isnull(x):
    if isinstance(x, SNum):
        return SBool(x.nan if x.nan is not None else z3.BoolVal(False))
    if isinstance(x, Series):
        return x.isnull()
    return x is None or x != x


mod = types.ModuleType("pandas")
mod.DataFrame, mod.Series, mod.Index, mod.concat, mod.read_csv = DataFrame, Series, Index, concat, read_csv
mod.to_datetime, mod.Timestamp = to_datetime, Stamp
mod.isnull = mod.isna = isnull
mod.notnull = mod.notna = lambda x: ~isnull(x) if isinstance(isnull(x), (SBool, Series)) else not isnull(x)
