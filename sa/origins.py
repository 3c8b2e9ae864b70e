"""Where one cell of an array comes from when the rows it is stored in are not known.

origins(st, v, idx) follows views and stores backwards and returns the set of (term, factor): the terms that may
have been stored in cell idx, and the constant the cell is multiplied by on the way. A position of idx is a
constant or a row symbol; an unknown row index of a store meets every row symbol. Lost: not understood."""
from __future__ import annotations
from .terms import *
from . import small
from .small import intc, positions


class Lost(Exception):
    pass


def row(name):
    return SYM(("row", name), "int")


def isrow(x):
    return x.k == "sym" and isinstance(x.a, tuple) and x.a and x.a[0] == "row"


def scaled(s, k):
    return {(t, f * k) for t, f in s}


def number(v):
    return isc(v) and isinstance(cv(v), (int, float)) and not isinstance(cv(v), bool)


def origins(st, v, idx, upto=None, depth=0):
    if depth > 60:
        raise Lost("depth")
    d = depth + 1
    if isop(v, "phi"):
        out = set()
        for a in v.a[1:]:
            out |= origins(st, a, idx, None, d)
        return out
    if isop(v, "davar"):
        return origins(st, v.a[1], idx, None, d)
    if v.k == "tup" and len(v.a) >= 2 and v.a[0].k == "tup" and v.a[0].a and all(isc(x) and isinstance(cv(x), str) for x in v.a[0].a):
        return origins(st, v.a[1], tuple(by_name(v.a[0], idx)), None, d)
    if v.k == "poly":
        p = poly_of(v)
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and c != 0 and m != ():
                return scaled(origins(st, m[0], idx, None, d), c)
        if not contains(v, lambda y: y.k == "ref"):
            return {(v, 1)}
        raise Lost(show(v)[:80])
    if isop(v, "m:astype") or isop(v, "m:copy") or isop(v, "np:asarray") or isop(v, "np:array") or isop(v, "np:ascontiguousarray"):
        return origins(st, v.a[1], idx, None, d)
    if isop(v, "attr") and v.a[2] == "T" and len(idx) == 2:
        return origins(st, v.a[1], idx[::-1], None, d)
    if isop(v, "attr") and v.a[2] in ("values", "data"):
        return origins(st, v.a[1], idx, None, d)
    if isop(v, "item") and len(v.a) == 3:
        return origins(st, v.a[1], through(st, v.a[2], idx, v.a[1]), None, d)
    if v.k == "tup":
        if len(idx) == 1 and intc(idx[0]) and -len(v.a) <= cv(idx[0]) < len(v.a):
            return leaf(st, v.a[cv(idx[0])], (), d)
        raise Lost(show(v)[:80])
    if v.k != "ref":
        if not idx:
            return {(v, 1)}
        raise Lost(show(v)[:80])
    o = st.heap.get(v.a)
    if o is None:
        raise Lost("object of an earlier pass")
    if o.kind == "list":
        it = o.f["items"]
        if it is not None and idx and intc(idx[0]) and -len(it) <= cv(idx[0]) < len(it):
            return leaf(st, it[cv(idx[0])], idx[1:], d)
        if it is not None and idx and isrow(idx[0]) and it:
            out = set()
            for x in it:
                out |= leaf(st, x, idx[1:], d)
            return out
        raise Lost("list of unknown length")
    if o.kind != "array":
        raise Lost(o.kind)
    f = o.f
    stores = f["stores"] if upto is None else f["stores"][:upto]
    sh = f.get("shape")
    sizes = tuple(cv(x) if intc(x) else None for x in sh.a) if isinstance(sh, V) and sh.k == "tup" else ()
    out = set()
    for k in range(len(stores) - 1, -1, -1):
        i, val = stores[k]
        r = hit(st, i, idx, sizes)
        if r is None:
            continue
        sure, rest = r
        if isop(val, "aug"):
            if not sure:
                if isinstance(i, V) and i.k == "tup" and all(intc(y) or isop(y, "sl") for y in i.a) and isop(val, "aug") and cv(val.a[1]) == "Mult" and number(val.a[2]):
                    prev = origins(st, v, idx, k, d)  # one of the rows
                    return out | prev | scaled(prev, cv(val.a[2]))
                raise Lost("scaling of some rows")
            op, x = val.a[1], val.a[2]
            op = cv(op) if isinstance(op, V) else op
            if (i, val) in f.get("may", ()):  # on some paths only
                if contains(i, lambda y: y.k == "ref") or not number(x) or op != "Mult":
                    raise Lost("scaling on some paths")
                prev = origins(st, v, idx, k, d)
                return out | prev | scaled(prev, cv(x))
            if op == "Mult" and number(x):
                return out | scaled(origins(st, v, idx, k, d), cv(x))
            if op == "Div" and number(x) and cv(x):
                return out | scaled(origins(st, v, idx, k, d), 1 / cv(x))
            raise Lost(f"{op} {show(x)[:40]}")
        out |= leaf(st, val, rest, d)
        if sure:
            return out
    src = f.get("src")
    if isinstance(src, V):
        i = f.get("idx")
        n = cv(f["srcver"]) if isinstance(f.get("srcver"), V) and isc(f["srcver"]) else None
        return out | origins(st, src, idx if i is None or isc(i) and i is not NONE else through(st, i, idx, src), n, d)
    it = f.get("items")
    if it is not None and idx and intc(idx[0]) and -len(it) <= cv(idx[0]) < len(it):
        return out | leaf(st, it[cv(idx[0])], idx[1:], d)
    if f.get("fillv") is not None and f["fillv"] is not NONE and f["init"] != "uninit":
        return out | {(f["fillv"], 1)}
    if f["init"] == "uninit":
        return out | {(OP("uninit", C(not out)), 1)}  # whether no store can reach the cell
    raise Lost("contents of an array")


def leaf(st, val, rest, d):
    if val.k in ("ref", "tup") or val.k == "op" and val.a[0] in ("item", "phi", "davar", "attr", "np:array", "np:asarray", "m:astype", "m:copy") and (rest or contains(val, lambda y: y.k == "ref")) or val.k == "poly" and contains(val, lambda y: y.k == "ref"):
        if val.k == "ref" and not rest and st.heap.get(val.a) is not None and st.heap[val.a].kind != "array":
            raise Lost("a list in a cell")
        try:
            return origins(st, val, rest, None, d)
        except Lost:
            if val.k == "op" and not rest:
                return {(val, 1)}
            raise
    if val.k == "poly":
        p = poly_of(val)
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1:
                return {(m[0], c)}
    return {(val, 1)}


def by_name(dims, idx):
    names = [cv(x) for x in dims.a]
    want = {x.a[1]: x for x in idx if isrow(x)}
    if set(names) != set(want):
        raise Lost(f"dimensions {names}")
    return [want[n] for n in names]


def through(st, i, idx, src):
    out, rest = [], list(idx)
    for dim, p in enumerate(i.a if i.k == "tup" else [i]):
        if p is NONE:
            if not rest:
                raise Lost("new axis")
            rest.pop(0)
            continue
        if p.k == "c" and isinstance(p.a, tuple) and p.a and p.a[0] == "ellipsis":
            raise Lost("ellipsis")
        n = small.size(st, src) if src is not None and dim == 0 else None
        r = positions(st, p, n)
        if isinstance(r, V) and not array(st, r):
            out.append(r)
            continue
        if not rest:
            raise Lost("too few dimensions")
        k = rest.pop(0)
        if r is None or isinstance(r, V):  # rows picked by an unknown index
            if not isrow(k):
                if isop(p, "sl") and p.a[1] in (NONE, C(0)) and p.a[3] in (NONE, C(1)):
                    out.append(k)  # a trimmed end
                    continue
                raise Lost("unknown index")
            out.append(k)
        elif isrow(k):
            out.append(k)
        elif isinstance(r, tuple):
            out.append(padd(k, C(r[1])))
        elif intc(k) and -len(r) <= cv(k) < len(r):
            out.append(r[cv(k)])
        else:
            raise Lost("index out of range")
    return tuple(out + rest)


def array(st, p):
    return p.t == "ndarray" or p.k == "ref" or p.k == "op" and p.a[0].startswith("np:")


def hit(st, i, idx, sizes=()):
    """(certain, position within the stored value) of a store that may reach the cell, None when it does not"""
    rest, sure, k = [], True, 0
    parts = list(i.a) if i.k == "tup" else [i]
    for j, p in enumerate(parts):
        if p.k == "c" and isinstance(p.a, tuple) and p.a and p.a[0] == "ellipsis":
            if len(parts) == 1:
                return True, idx
            n = len(idx) - (len(parts) - j - 1) - k  # the dimensions it stands for
            if n < 0:
                raise Lost("ellipsis")
            rest += idx[k : k + n]
            k += n
            continue
        if k >= len(idx):
            raise Lost("dimensions of a store")
        r = positions(st, p, sizes[k] if k < len(sizes) else None)
        x = idx[k]
        k += 1
        if isinstance(r, V) and not array(st, r):
            if intc(r) and intc(x):
                if cv(r) != cv(x):
                    return None
            else:
                s = small.same(r, x)
                if s is False:
                    return None
                sure = sure and s is True
        elif r is None or isinstance(r, V):
            if isop(p, "sl") and not isrow(x):
                lo, hi, sp = p.a[1:]
                if lo in (NONE, C(0)) and sp in (NONE, C(1)):
                    sure = False
                    rest.append(x)
                    continue
                raise Lost("slice of unknown extent")
            if not isrow(x):
                raise Lost(f"unknown index {show(p)[:60]}")
            sure = False
            rest.append(x)
        elif isinstance(r, tuple):
            if r[1] and intc(x):
                if cv(x) < r[1]:
                    return None
                x = C(cv(x) - r[1])
            elif r[1]:
                sure = False
            rest.append(x)
        else:
            if intc(x):
                m = [j for j, y in enumerate(r) if small.same(y, x) is not False]
                if not m:
                    return None
                sure = sure and small.same(r[m[-1]], x) is True
                rest.append(C(m[-1]))
            else:
                sure = False
                rest.append(x)
    return sure, tuple(rest) + tuple(idx[k:])
