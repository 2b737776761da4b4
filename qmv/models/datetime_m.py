"""datetime: only times of day given as plain numbers."""
from __future__ import annotations

import datetime as _dt
import types

from ..core import Unsupported


class time:
    min, max = _dt.time.min, _dt.time.max

    def __new__(cls, *a, **k):
        if not all(isinstance(x, int) for x in (*a, *k.values())):
            raise Unsupported("datetime.time of unknown fields")
        return _dt.time(*a, **k)


mod = types.SimpleNamespace(time=time)
mod.__name__ = "datetime"
