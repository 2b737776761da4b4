"""numpy.ctypeslib / ctypes: pointers are the arrays themselves, integers keep their width."""
from __future__ import annotations

import types

from ..core import Unsupported, num, isnumlike


class CInt:
    def __init__(self, bits, v):
        if not isnumlike(v):
            raise TypeError("an integer is required")
        v = num(v)
        if not v.isint:
            raise TypeError("an integer is required (got type float)")
        self.bits, self.value = bits, v


def cint(bits, name):
    def f(v=0):
        return CInt(bits, v)
    f.__name__ = name
    f.bits = bits
    return f


class NdPtr:
    def __init__(self, dtype=None, ndim=None, shape=None, flags=None):
        self.dtype, self.flags = dtype, flags


ctypes = types.ModuleType("ctypes")
for b in (32, 64):
    setattr(ctypes, f"c_int{b}", cint(b, f"c_int{b}"))
ctypes.c_int = ctypes.c_int32
ctypes.c_long = ctypes.c_longlong = ctypes.c_int64

mod = types.ModuleType("numpy.ctypeslib")
mod.ctypes = ctypes
mod.ndpointer = NdPtr


class StructDType:
    def __init__(self, fields):
        self.fields = [(n, t) for n, t in fields]


class StructArr:
    """np.empty(1, dtype=struct)"""

    def __init__(self, dtype, n):
        if not (isinstance(n, int) and n == 1):
            raise Unsupported("array of structs")
        self.dtype = dtype
        self.f = {}

    def __setitem__(self, k, v):
        if isinstance(k, str):
            self.f[k] = v if not isinstance(v, (tuple, list)) else v[0]
            return
        if isinstance(v, list):
            v = v[0]
        if isinstance(v, tuple) and len(v) == len(self.dtype.fields):
            for (n, t), x in zip(self.dtype.fields, v):
                self.f[n] = x
            return
        raise Unsupported("struct array assignment")

    def __getitem__(self, k):
        if isinstance(k, str):
            return [self.f[k]]
        raise Unsupported("struct array read")
