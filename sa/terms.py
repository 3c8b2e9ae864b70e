"""Hash-consed abstract values.  Equality is identity (interned)."""
from __future__ import annotations
import math

_tab: dict = {}


class V:
    __slots__ = ("k", "a", "t", "n")

    def __init__(self, k, a, t, n):
        self.k, self.a, self.t, self.n = k, a, t, n

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


def mk(k, a, t=None) -> V:
    key = (k, a, t)
    v = _tab.get(key)
    if v is None:
        v = _tab[key] = V(k, a, t, len(_tab))
    return v


# ------------------------------------------------------------------ constructors
def C(x) -> V:
    if isinstance(x, float) and math.isnan(x):
        return mk("c", ("float", "nan"), "float")
    return mk("c", (type(x).__name__, x), type(x).__name__)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def isc(v):
    return isinstance(v, V) and v.k == "c"


def cv(v):
    x = v.a[1]
    if v.a[0] == "float" and x == "nan":
        return float("nan")
    return x


def SYM(name, t="any") -> V:
    return mk("sym", name, t)


def OP(name, *args, t="any") -> V:
    return mk("op", (name,) + args, t)


def isop(v, name=None):
    return v.k == "op" and (name is None or v.a[0] == name)


def TUP(items) -> V:
    items = tuple(items)
    return mk("tup", items, "tuple")


def REF(oid, t="any") -> V:
    return mk("ref", oid, t)


def EXT(name) -> V:
    return mk("ext", name, "ext")


def FUNC(fid) -> V:
    return mk("func", fid, "function")


def CLS(cid) -> V:
    return mk("cls", cid, "class")


def MOD(name) -> V:
    return mk("mod", name, "module")


def BOUND(self, name) -> V:
    return mk("bound", (self, name), "function")


def EXC(tname, args=()) -> V:
    return mk("exc", (tname, tuple(args)), "exc")


NUMT = {"int", "float", "num", "bool", "any", "ndarray"}


def isnum(v):
    return v.t in NUMT and v.k in ("c", "sym", "op", "poly", "ref") and not (v.k == "c" and v.a[0] == "NoneType")


# ------------------------------------------------------------------ polynomials
def poly_of(v) -> dict:
    if v.k == "poly":
        return dict(v.a)
    if v.k == "c" and v.a[0] in ("int", "float", "bool") and v.a[1] != "nan":
        x = v.a[1]
        return {(): x} if x else {}
    return {(v,): 1}


def mkpoly(d: dict, t) -> V:
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return C(0) if t == "int" else C(0)
    if len(d) == 1:
        ((m, c),) = d.items()
        if m == ():
            if isinstance(c, float) and c.is_integer() and t == "int":
                c = int(c)
            return C(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: (tuple(x.n for x in mc[0]))))
    return mk("poly", items, t)


def _nt(a, b):
    ta, tb = a.t, b.t
    ta = "int" if ta == "bool" else ta
    tb = "int" if tb == "bool" else tb
    if ta == tb == "int":
        return "int"
    if "ndarray" in (ta, tb):
        return "ndarray"
    if "any" in (ta, tb):
        return "any"
    return "num"


def padd(a, b):
    d = poly_of(a)
    for m, c in poly_of(b).items():
        d[m] = d.get(m, 0) + c
    return mkpoly(d, _nt(a, b))


def pscale(a, k):
    return mkpoly({m: c * k for m, c in poly_of(a).items()}, a.t)


def pneg(a):
    return pscale(a, -1)


def psub(a, b):
    d = poly_of(a)
    for m, c in poly_of(b).items():
        d[m] = d.get(m, 0) - c
    return mkpoly(d, _nt(a, b))


def pmul(a, b):
    d: dict = {}
    for m1, c1 in poly_of(a).items():
        for m2, c2 in poly_of(b).items():
            m = tuple(sorted(m1 + m2))
            d[m] = d.get(m, 0) + c1 * c2
    return mkpoly(d, _nt(a, b))


def is_int(v):
    return v.t in ("int", "bool")


# ------------------------------------------------------------------ display
def show(v, depth=0) -> str:
    if not isinstance(v, V):
        return repr(v)
    if depth > 9:
        return "…"
    d = depth + 1
    k, a = v.k, v.a
    if k == "c":
        return repr(cv(v))
    if k == "sym":
        return showname(a, d)
    if k == "op":
        n = a[0]
        xs = a[1:]
        if n == "slice":
            return f"{show(xs[0], d)}[{_sn(xs[1], d)}:{_sn(xs[2], d)}]"
        if n == "idx":
            return f"{show(xs[0], d)}[{show(xs[1], d)}]"
        if n == "attr":
            return f"{show(xs[0], d)}.{xs[1]}"
        return f"{n}({', '.join(show(x, d) for x in xs)})"
    if k == "poly":
        out = []
        for m, c in a:
            s = "*".join(show(x, d) for x in m)
            out.append(f"{c}" if not m else (s if c == 1 else f"{c}*{s}"))
        return "(" + " + ".join(out) + ")"
    if k == "tup":
        return "(" + ", ".join(show(x, d) for x in a) + ")"
    if k == "ref":
        return f"@{showname(a, d)}"
    if k == "bound":
        return f"{show(a[0], d)}.{a[1]}"
    if k == "exc":
        return f"{a[0]}({', '.join(show(x, d) for x in a[1])})"
    return f"<{k} {a}>"


def _sn(x, d):
    return "" if isc(x) and cv(x) is None else show(x, d)


def showname(a, d=0):
    if isinstance(a, str):
        return a
    if isinstance(a, tuple):
        return ":".join(showname(x, d) for x in a)
    if isinstance(a, V):
        return show(a, d)
    return str(a)


# ------------------------------------------------------------------ traversal
def subterms(v, seen=None):
    """every V inside v (v included), through tuples of args"""
    if seen is None:
        seen = set()
    if isinstance(v, V):
        if v in seen:
            return
        seen.add(v)
        yield v
        if v.k in ("op", "tup", "bound", "exc", "poly", "sym"):
            yield from subterms(v.a, seen)
    elif isinstance(v, tuple):
        for x in v:
            yield from subterms(x, seen)


def args_sub(v):
    """subterms not descending into symbol names"""
    seen = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, V) and x not in seen:
            seen.add(x)
            yield x
            if x.k in ("op", "tup", "bound", "exc", "poly"):
                st.extend(x.a)


def contains(v, pred):
    return any(pred(x) for x in args_sub(v))


def subst(v, m, memo=None):
    """replace terms by a mapping (bottom-up structure, no re-simplification except poly)"""
    if memo is None:
        memo = {}
    if isinstance(v, tuple):
        return tuple(subst(x, m, memo) for x in v)
    if not isinstance(v, V):
        return v
    if v in m:
        return m[v]
    if v in memo:
        return memo[v]
    if v.k == "poly":
        r = C(0)
        for mono, c in v.a:
            t = C(c)
            for x in mono:
                t = pmul(t, subst(x, m, memo))
            r = padd(r, t)
        if r.k == "poly":
            r = mk("poly", r.a, v.t)
    elif v.k in ("op", "tup", "bound", "exc"):
        r = mk(v.k, subst(v.a, m, memo), v.t)
    else:
        r = v
    memo[v] = r
    return r
