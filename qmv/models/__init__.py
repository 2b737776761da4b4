"""Library models."""


def find(name):
    if name == "numpy":
        from . import numpy_m
        return numpy_m.np
    if name == "numpy.ctypeslib":
        from . import ctypes_m
        return ctypes_m.mod
    if name == "ctypes":
        from . import ctypes_m
        return ctypes_m.ctypes
    if name == "math":
        from . import math_m
        return math_m.mod
    if name == "obspy":
        from . import obspy_m
        return obspy_m.mod
    if name == "datetime":
        from . import datetime_m
        return datetime_m.mod
    if name == "pandas":
        from . import pandas_m
        return pandas_m.mod
    if name == "itertools":
        from . import builtins_m
        return builtins_m.itertools_mod
    return None
