"""Terms over the text of a record line evaluated for one given text of that line.

A component a reader decodes is a term over slices of the line; evaluating the term for every value its
format field can hold decides whether the component is taken from the right columns."""
from __future__ import annotations
import math
from datetime import datetime, timedelta
from .terms import *
from .gridval import Unknown


class Raises(Exception):
    """the term cannot be computed for this text: the decoder refuses the line"""


class Text:
    own = ()
    def __init__(self, subject):
        self.subject = subject  # term -> text or None
        self.memo = {}

    def ev(self, v):
        if v in self.memo:
            r = self.memo[v]
        else:
            try:
                r = self._ev(v)
            except (Unknown, Raises) as e:
                r = e
            except (ValueError, IndexError, TypeError, OverflowError, ZeroDivisionError) as e:
                r = Raises(f"{type(e).__name__}: {e}")
            self.memo[v] = r
        if isinstance(r, Exception):
            raise r
        return r

    def bound(self, b):
        return None if b is NONE or b is None else self.ev(b)

    def _ev(self, v):
        s = self.subject(v)
        if s is not None:
            return s
        if isc(v):
            return cv(v)
        if v.k == "tup":
            return tuple(self.ev(x) for x in v.a)
        if v.k == "poly":
            t = None
            if len(v.a) == 2 and sorted(c for m, c in v.a) == [-1, 1] and all(len(m) == 1 and m[0].t == "datetime" for m, c in v.a):  # seconds between two instants
                x = {c: self.ev(m[0]) for m, c in v.a}
                return (x[1] - x[-1]).total_seconds()
            if any(len(m) == 1 and m[0].t == "datetime" and c < 0 for m, c in v.a) and all(len(m) == 1 and (m[0].t == "datetime" or isop(m[0], "td")) for m, c in v.a) and sum(c for m, c in v.a if m[0].t == "datetime") == 0:
                z = datetime(2000, 1, 1)
                return sum(c * (x - z if isinstance(x, datetime) else x).total_seconds() for c, x in ((c, self.ev(m[0])) for m, c in v.a))
            for m, c in v.a:
                p = c
                for f in m:
                    x = self.ev(f)
                    if isinstance(x, (datetime, str)) and (c != 1 or len(m) != 1):
                        raise Unknown(show(v))
                    p = x if isinstance(x, (datetime, str)) else x * p
                if t is None:
                    t = p
                elif isinstance(p, (timedelta, datetime)) or isinstance(t, (timedelta, datetime)):
                    t = p + t if isinstance(p, datetime) else t + p
                else:
                    t = t + p
            return t
        if v.k != "op":
            raise Unknown(show(v))
        n, a = v.a[0], v.a[1:]
        if n == "slice":
            x = self.ev(a[0])
            if not isinstance(x, (str, list, tuple)):
                raise Unknown(show(v))
            return x[self.bound(a[1]) : self.bound(a[2])]
        if n in ("item", "index", "idx"):
            x = self.ev(a[0])
            if not isinstance(x, (str, list, tuple)):
                raise Unknown(show(v))
            if isop(a[1], "sl"):
                return x[slice(*(self.bound(y) for y in a[1].a[1:]))]
            return x[self.ev(a[1])]
        m = n[2:] if n.startswith("m:") else n
        if m in ("strip", "lstrip", "rstrip", "replace", "split", "upper", "lower", "zfill", "ljust", "rjust", "isspace", "isdigit", "startswith", "endswith", "partition"):
            x = self.ev(a[0])
            if isinstance(x, str) and not any(isinstance(y, tuple) for y in a[1:]):
                return getattr(x, m)(*(self.ev(y) for y in a[1:]))
            if isinstance(x, datetime) and m == "replace" and len(a) == 2 and isinstance(a[1], tuple):
                return x.replace(**{k: (self.ev(y) if isinstance(y, V) else y) for k, y in a[1]})
            raise Unknown(show(v))
        if n in ("int", "float", "abs", "round", "len", "bool", "str", "max", "min"):
            return {"int": int, "float": float, "abs": abs, "round": round, "len": len, "bool": bool, "str": str, "max": max, "min": min}[n](*(self.ev(y) for y in a))
        if n in ("mod", "Mod"):
            return self.ev(a[0]) % self.ev(a[1])
        if n in ("floordiv", "FloorDiv"):
            return self.ev(a[0]) // self.ev(a[1])
        if n == "ceildiv":
            return -(-self.ev(a[0]) // self.ev(a[1]))
        if n in ("div", "Div", "truediv"):
            return self.ev(a[0]) / self.ev(a[1])
        if n == "td":
            return timedelta(seconds=self.ev(a[0]))
        if n == "datetime":
            return datetime(*(self.ev(y) for y in a))
        if n == "concat" and "concat" not in self.own:
            xs = [self.ev(y) for y in a]
            if not all(isinstance(x, str) for x in xs):
                raise Unknown(show(v))
            return "".join(xs)
        if n == "format" and len(a) == 2 and isc(a[1]):
            x = self.ev(a[0])
            if not isinstance(x, (str, int, float)) or isinstance(x, bool):
                raise Unknown(show(v))
            return format(x, cv(a[1]))
        if n == "phi":
            got = []
            for y in a:
                r = self.ev(y)
                if all(r != g for g in got):
                    got.append(r)
            if len(got) == 1:
                return got[0]
            raise Unknown(show(v))
        raise Unknown(show(v))

    def atom(self, a):
        """truth of a fact's atom for this text, or None"""
        try:
            if a.a[0] == "lt0":
                return self.ev(a.a[1]) < 0
            if a.a[0] == "eq":
                return self.ev(a.a[1]) == self.ev(a.a[2])
            if a.a[0] == "in":
                return self.ev(a.a[1]) in self.ev(a.a[2])
            if a.a[0] == "truth":
                return bool(self.ev(a.a[1]))
            if a.a[0] == "raises":
                try:
                    self.ev(a.a[2])
                    return False
                except Raises:
                    return True
        except (Unknown, Raises, TypeError):
            return None
        return None
