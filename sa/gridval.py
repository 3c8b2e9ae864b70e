"""Numeric terms of the readers evaluated at sample points of the quantities a record declares.

Two closed forms over (number of satellites, number of observables) that agree on the grid are taken as
equal; a difference at one point is a definite difference."""
from __future__ import annotations
from .terms import *
from .scen import NOBS

NSV = [0, 1, 2, 7, 11, 12, 13, 23, 24, 25, 36, 37, 48, 64, 112]
NOB = [1, 4, 5, 6, 9, 10, 11, 18, 20, 23, 26]


class Unknown(Exception):
    pass


class Point:
    """col0: first column of the I3 field that holds the count on the epoch line"""

    def __init__(self, nsv, nobs, col0):
        self.nsv, self.nobs, self.col0 = nsv, nobs, col0
        self.memo = {}

    def ev(self, v):
        r = self.memo.get(v)
        if r is None:
            r = self.memo[v] = self._ev(v)
        return r

    def text(self, v):
        """text of a slice of the epoch line inside the count field"""
        while v.k == "op" and v.a[0] in ("strip", "rstrip", "lstrip"):
            return getattr(self.text(v.a[1]), v.a[0])()
        if isop(v, "slice") and isop(v.a[1], "line") and isc(v.a[2]) and isc(v.a[3]):
            a, b = cv(v.a[2]), cv(v.a[3])
            if isinstance(a, int) and isinstance(b, int) and self.col0 <= a < b <= self.col0 + 3:
                return f"{self.nsv:3d}"[a - self.col0 : b - self.col0]
        raise Unknown(show(v))

    def _ev(self, v):
        if isc(v):
            x = cv(v)
            if isinstance(x, (int, float)):
                return x
            raise Unknown(show(v))
        if v is NOBS:
            return self.nobs
        if v.k == "poly":
            t = 0
            for m, c in v.a:
                p = c
                for f in m:
                    p *= self.ev(f)
                t += p
            return t
        if v.k == "op":
            n = v.a[0]
            if n == "int" and len(v.a) == 2:
                t = self.text(v.a[1])
                if not t.strip():
                    raise Unknown("blank")
                return int(t)
            if n == "ceildiv":
                a, b = self.ev(v.a[1]), self.ev(v.a[2])
                r = -((-a) // b)
                return max(0, r)  # only ever a number of trips or lines
            if n in ("FloorDiv", "floordiv"):
                return self.ev(v.a[1]) // self.ev(v.a[2])
            if n in ("Mod", "mod"):
                return self.ev(v.a[1]) % self.ev(v.a[2])
            if n in ("Div", "div", "truediv"):
                return self.ev(v.a[1]) / self.ev(v.a[2])
            if n in ("min", "max"):
                return {"min": min, "max": max}[n](self.ev(x) for x in v.a[1:])
            if n in ("ceil", "floor", "math.ceil", "math.floor"):
                import math

                return getattr(math, n.split(".")[-1])(self.ev(v.a[1]))
            if n == "abs":
                return abs(self.ev(v.a[1]))
            if n == "pos0":
                return max(0, self.ev(v.a[1]))
        raise Unknown(show(v))

    def atom(self, a):
        """truth of a fact's atom, or None"""
        try:
            if a.a[0] == "lt0":
                return self.ev(a.a[1]) < 0
            if a.a[0] == "eq":
                return self.ev(a.a[1]) == self.ev(a.a[2])
        except Unknown:
            return None
        return None


def compare(term, want, facts, col0):
    """is term equal to want(nsv, nobs) wherever the facts may hold?
    -> (True|False|None, point, value)"""
    seen = 0
    for nsv in NSV:
        for nobs in NOB:
            p = Point(nsv, nobs, col0)
            if any(p.atom(a) is (not v) for a, v in facts):
                continue
            try:
                got = p.ev(term)
            except Unknown as e:
                return None, (nsv, nobs), str(e)
            seen += 1
            if got != want(nsv, nobs):
                return False, (nsv, nobs), got
    return (True if seen else None), None, None
