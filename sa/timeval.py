"""Terms over datetimes and timedeltas evaluated at sample instants (seconds)."""
from __future__ import annotations
import math
from .terms import *
from .gridval import Unknown

EPOCH = 1577880000.25  # 2020-01-01 12:00:00.25


class Times:
    def __init__(self, env, guess):
        self.env, self.guess = env, guess
        self.memo = {}

    def ev(self, v):
        r = self.memo.get(v)
        if r is None:
            r = self.memo[v] = self._ev(v)
        return r

    def _ev(self, v):
        if v in self.env:
            return self.env[v]
        if isc(v):
            x = cv(v)
            if isinstance(x, (int, float)):
                return x
            raise Unknown(show(v))
        g = self.guess(v)
        if g is not None:
            return g
        if v.k == "poly":
            t = 0
            for m, c in v.a:
                p = c
                for f in m:
                    p *= self.ev(f)
                t += p
            return t
        if v.k != "op":
            raise Unknown(show(v))
        n, a = v.a[0], v.a[1:]
        if n in ("tsec", "td"):
            return self.ev(a[0])
        if n == "attr" and isinstance(a[1], (str, V)):
            x = self.ev(a[0])
            r = {"seconds": lambda: math.floor(x) % 86400, "days": lambda: x // 86400, "microseconds": lambda: round((x % 1) * 1e6)}.get(a[1] if isinstance(a[1], str) else cv(a[1]) if isc(a[1]) else None)
            if r is None or a[0].t == "datetime":
                raise Unknown(show(v))
            return r()
        if n == "m:replace" and a[1:] and show(a[1]) == "(('microsecond', 0),)":
            return math.floor(self.ev(a[0]))
        if n == "div":
            return self.ev(a[0]) / self.ev(a[1])
        if n in ("floordiv", "FloorDiv"):
            return self.ev(a[0]) // self.ev(a[1])
        if n in ("mod", "Mod"):
            return self.ev(a[0]) % self.ev(a[1])
        if n in ("abs", "round", "int"):
            x = self.ev(a[0])
            return {"abs": abs, "round": round, "int": int}[n](x)
        if n in ("max", "min"):
            return {"max": max, "min": min}[n](self.ev(x) for x in a)
        raise Unknown(show(v))

    def atom(self, a):
        if a.a[0] == "lt0":
            return self.ev(a.a[1]) < 0
        if a.a[0] == "eq":
            return self.ev(a.a[1]) == self.ev(a.a[2])
        raise Unknown(show(a))
