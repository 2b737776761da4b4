import math as _m
import types
from .. import core
from ..core import SNum, num

mod = types.ModuleType("math")
mod.__dict__.update({k: v for k, v in _m.__dict__.items() if not k.startswith("__")})


def _w(sym, real):
    def f(x, *a):
        if isinstance(x, SNum):
            return sym(x)
        return real(x, *a)
    return f


mod.ceil = _w(lambda x: SNum(core.ceil_(x.e)), _m.ceil)
mod.floor = _w(lambda x: SNum(core.floor_(x.e)), _m.floor)
mod.trunc = _w(lambda x: SNum(core.trunc_(x.e)), _m.trunc)
mod.sqrt = _w(core.sqrt_, _m.sqrt)
mod.exp = _w(core.exp_, _m.exp)
mod.log10 = _w(core.log10_, _m.log10)
mod.log = _w(core.log_, _m.log)
mod.fabs = _w(abs, _m.fabs)
mod.isnan = _w(lambda x: core.SBool(x.nan) if x.nan is not None else False, _m.isnan)
