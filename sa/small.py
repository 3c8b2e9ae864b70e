"""Contents of small arrays of known shape (policies with shapes=True).

el(st, v, idx) gives the term stored in one cell of an array, list or view, following the stores in program
order backwards; known(st, v) gives all cells of a one-dimensional one. None means not known."""
from __future__ import annotations
from .terms import *


def size(st, v):
    if v.k == "tup":
        return len(v.a)
    if v.k == "ref":
        o = st.heap.get(v.a)
        if o is None:
            return None
        if o.kind in ("list", "set"):
            return len(o.f["items"]) if o.f["items"] is not None else None
        if o.kind == "array":
            if o.f.get("items") is not None:
                return len(o.f["items"])
            sh = o.f.get("shape")
            if isinstance(sh, V):
                if sh.k == "tup" and sh.a and isc(sh.a[0]):
                    return cv(sh.a[0])
                if isc(sh) and isinstance(cv(sh), int):
                    return cv(sh)
            src, i = o.f.get("src"), o.f.get("idx")
            if isinstance(src, V):
                if i is None or isc(i):  # copies and casts
                    return size(st, src)
                p = i.a[0] if i.k == "tup" else i
                n = size(st, src)
                r = positions(st, p, n)
                return len(r) if isinstance(r, list) else None
    return None


def shape(st, v):
    """extents of an array, None when one of them is not known"""
    if v.k != "ref" or st.heap[v.a].kind != "array":
        return None
    o = st.heap[v.a]
    sh, src = o.f.get("shape"), o.f.get("src")
    if isinstance(sh, V):
        if sh.k == "tup" and all(intc(x) for x in sh.a):
            return tuple(cv(x) for x in sh.a)
        if intc(sh):
            return (cv(sh),)
        return None
    if isinstance(src, V) and (o.f.get("idx") is None or isc(o.f["idx"])):
        return shape(st, src)
    n = size(st, v)
    if n is not None and (o.f.get("items") is not None or isinstance(src, V) and o.f["idx"].k != "tup" and vector(st, src)):
        return (n,)
    return None


def vector(st, v):
    """one-dimensional for certain"""
    if v.k == "tup":
        return True
    if v.k != "ref":
        return False
    o = st.heap[v.a]
    if o.kind == "list":
        return True
    if o.kind != "array":
        return False
    if o.f.get("items") is not None:
        return True
    s = shape(st, v)
    return s is not None and len(s) == 1


BUSY = set()


def known(st, v):
    """all cells of a one-dimensional sequence"""
    if v in BUSY:  # an array whose cells are chosen by its own cells
        return None
    BUSY.add(v)
    try:
        return cells(st, v)
    finally:
        BUSY.discard(v)


def cells(st, v):
    n = size(st, v)
    if n is None or n > 400:
        return None
    out = []
    for k in range(n):
        x = el(st, v, (C(k),))
        if x is None:
            return None
        out.append(x)
    return out


def intc(x):
    return isc(x) and isinstance(cv(x), int) and not isinstance(cv(x), bool)


def positions(st, p, n):
    """the positions an index selects: a term for a scalar index, a list, ('from', lo) for an open slice, or None"""
    if isop(p, "sl"):
        lo, hi, sp = p.a[1:]
        if sp not in (NONE, C(1)):
            if n is not None and all(x is NONE or intc(x) for x in (lo, hi, sp)):
                return [C(k) for k in range(n)[slice(*[None if x is NONE else cv(x) for x in (lo, hi, sp)])]]
            return None
        if lo is NONE or (intc(lo) and cv(lo) >= 0):
            if hi is NONE and n is None:
                return ("from", 0 if lo is NONE else cv(lo))
            if n is not None and (hi is NONE or intc(hi)):
                return [C(k) for k in range(n)[slice(None if lo is NONE else cv(lo), None if hi is NONE else cv(hi))]]
            if intc(hi) and cv(hi) >= 0:
                return [C(k) for k in range(0 if lo is NONE else cv(lo), cv(hi))]
            return ("from", 0 if lo is NONE else cv(lo))
        if n is not None and (lo is NONE or intc(lo)) and (hi is NONE or intc(hi)):
            return [C(k) for k in range(n)[slice(None if lo is NONE else cv(lo), None if hi is NONE else cv(hi))]]
        return None
    if p.k == "ref" or p.k == "tup":
        xs = known(st, p)
        if xs is None:
            return None
        if xs and all(isc(x) and isinstance(cv(x), bool) for x in xs):
            return [C(k) for k, x in enumerate(xs) if cv(x)]
        return xs
    return p


def same(a, b):
    """do two positions agree: True, False or None"""
    if a is b:
        return True
    if isc(a) and isc(b):
        return cv(a) == cv(b)
    d = psub(a, b)
    if isc(d) and isinstance(cv(d), (int, float)):
        return cv(d) == 0
    return None


def el(st, v, idx, upto=None):
    if v.k == "tup":
        if len(idx) == 1 and intc(idx[0]) and -len(v.a) <= cv(idx[0]) < len(v.a):
            return v.a[cv(idx[0])]
        return None
    if isop(v, "np:genfromtxt") and len(idx) == 2:
        return OP("cell", v, *idx, t="float")
    if isop(v, "np:atleast_2d"):
        if len(idx) == 2 and ndim(st, v.a[1]) == 1:
            return el(st, v.a[1], idx[1:]) if intc(idx[0]) and cv(idx[0]) == 0 else None
        return el(st, v.a[1], idx)
    if isop(v, "attr") and v.a[2] == "T" and len(idx) == 2:
        return el(st, v.a[1], (idx[1], idx[0]))
    if v.k == "op" and v.a[0] == "item" and len(v.a) == 3:
        r = through(st, v.a[2], idx, None)
        return el(st, v.a[1], r) if r is not None else None
    if v.k != "ref":
        return None
    o = st.heap.get(v.a)
    if o is None:
        return None
    if o.kind == "list":
        it = o.f["items"]
        if it is not None and len(idx) == 1 and intc(idx[0]) and -len(it) <= cv(idx[0]) < len(it):
            return it[cv(idx[0])]
        return None
    if o.kind != "array":
        return None
    f = o.f
    stores = f["stores"] if upto is None else f["stores"][:upto]
    for i, val in reversed(stores):
        r = hit(st, i, idx)
        if r is None:
            return None
        if r is False:
            continue
        if isop(val, "aug"):
            return None
        if r == ():
            return val if val.k != "ref" else (el(st, val, ()) if st.heap[val.a].kind == "array" else None)
        if val.k == "ref" or isop(val, "item") or isop(val, "np:genfromtxt") or val.k == "tup":
            return el(st, val, r)
        return val  # a scalar is broadcast
    src = f.get("src")
    if isinstance(src, V):
        i = f.get("idx")
        if i is None or isc(i):
            return el(st, src, idx, cv(f["srcver"]) if isinstance(f.get("srcver"), V) and isc(f["srcver"]) else None)
        r = through(st, i, idx, src)
        if r is None:
            return None
        return el(st, src, r, cv(f["srcver"]) if isinstance(f.get("srcver"), V) and isc(f["srcver"]) else None)
    it = f.get("items")
    if it is not None:
        if len(idx) == 1 and intc(idx[0]) and -len(it) <= cv(idx[0]) < len(it):
            return it[cv(idx[0])]
        return None
    if f.get("fillv") is not None and f["fillv"] is not NONE and f["init"] != "uninit":
        x = f["fillv"]
        return C(bool(cv(x))) if f.get("dtype") == "bool" and isc(x) else x
    return None


def ndim(st, v):
    """number of dimensions, None when not known"""
    if isop(v, "np:genfromtxt") or isop(v, "np:atleast_2d"):
        return 2
    if isop(v, "item") and len(v.a) == 3:
        n = ndim(st, v.a[1])
        if n is None:
            return None
        i = v.a[2]
        for p in i.a if i.k == "tup" else (i,):
            if isop(p, "sl") or p.k in ("ref", "tup"):
                continue
            if not intc(p) and p.t != "int":
                return None
            n -= 1
        return n
    if v.k in ("tup", "ref"):
        s = shape(st, v)
        if s is not None:
            return len(s)
        if vector(st, v):
            return 1
        o = st.heap.get(v.a) if v.k == "ref" else None
        if o is not None and o.kind == "array":
            if isinstance(o.f.get("shape"), V) and o.f["shape"].k == "tup":
                return len(o.f["shape"].a)
            if isinstance(o.f.get("src"), V) and o.f.get("idx") is not None:
                return ndim(st, OP("item", o.f["src"], o.f["idx"]))
    return None


def through(st, i, idx, src):
    """index of the source array that position idx of the view source[i] refers to"""
    parts = list(i.a) if i.k == "tup" else [i]
    out = []
    rest = list(idx)
    for d, p in enumerate(parts):
        n = size(st, src) if src is not None and d == 0 else None
        r = positions(st, p, n)
        if r is None:
            return None
        if isinstance(r, V):
            out.append(r)
            continue
        if not rest:
            return None
        k = rest.pop(0)
        if isinstance(r, tuple):
            out.append(padd(k, C(r[1])))
        elif intc(k) and -len(r) <= cv(k) < len(r):
            out.append(r[cv(k)])
        else:
            return None
    return tuple(out + rest)


def hit(st, i, idx):
    """does a store at index i reach cell idx: False, None, or the remaining index into the stored value"""
    parts = list(i.a) if i.k == "tup" else [i]
    rest = []
    sure = True
    k = 0
    for p in parts:
        if p.k == "c" and p.a and p.a[0] == "ellipsis":
            return () if len(parts) == 1 else None
        if k >= len(idx):
            return None
        r = positions(st, p, None)
        x = idx[k]
        k += 1
        if r is None:
            sure = False
        elif isinstance(r, V):
            s = same(r, x)
            if s is False:
                return False
            if s is None:
                sure = False
        elif isinstance(r, tuple):
            if r[1] and not (intc(x) and cv(x) >= r[1]):
                if intc(x):
                    return False
                sure = False
            rest.append(padd(x, C(-r[1])))
        else:
            ss = [same(y, x) for y in r]
            if all(s is False for s in ss):
                return False
            m = [j for j, s in enumerate(ss) if s is not False]
            if any(ss[j] is None for j in m):
                sure = False
            rest.append(C(m[-1]))
    if not sure:
        return None
    return tuple(rest) + tuple(idx[k:])
