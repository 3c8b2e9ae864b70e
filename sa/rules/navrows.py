"""Navigation records: what a pass of the record loop adds to the parallel lists, and how the rows of the result
are picked from them."""
from .records import run as records_run, paths as record_paths
from .navcells import *
from ..terms import *

EPOCH, NAME, BODY = "epoch", "satellite", "values"


def classes(st, v, seen=()):
    """what an appended element holds"""
    out = set()
    if v.k == "ref":
        o = st.heap.get(v.a)
        if o is None or v in seen or o.kind not in ("list", "dict", "inst"):
            return out
        parts = (o.f["items"] if o.f.get("items") is not None else o.f.get("elems", ())) if o.kind == "list" else tuple(o.f["d"].values())
        for x in parts:
            out |= classes(st, x, seen + (v,))
        if o.kind == "list" and o.f["items"] is None and not out:
            out.add(BODY)
        return out
    if v.k == "tup":
        for x in v.a:
            out |= classes(st, x, seen)
        return out
    if contains(v, lambda y: isop(y, "datetime")):
        return {EPOCH}
    lo, hi = 10**6, -1
    for y in subterms(v):
        if y.k == "sym" and isinstance(y.a, tuple) and y.a and y.a[0] == "mu" and y.t in ("str", "any"):
            return {BODY}
        r = span(y)
        if r:
            lo, hi = min(lo, r[0]), max(hi, r[1])
    if hi > 23:
        return {BODY}
    if lo <= 1 and 2 <= hi <= 3:
        return {NAME}
    return out


def span(y):
    """columns of a line a slice or index term picks"""
    if not (isop(y, "slice") or isop(y, "idx")) or not isop(y.a[1], "line"):
        return None
    num = lambda x, d: cv(x) if isc(x) and isinstance(cv(x), int) else d
    if isop(y, "idx"):
        return num(y.a[2], 0), num(y.a[2], 79) + 1
    return num(y.a[2], 0), num(y.a[3], 80)


def added(p):
    """[(classes of the element, list)] added by one pass to lists that exist before it; None when that is not known"""
    h = p.x.heads[p.i]
    out = []
    for oid, o in p.st.heap.items():
        if o.kind != "list" or oid not in h.heap:
            continue
        adds = [e[1] for e in o.f["log"] if e[0] == "add"]
        other = [e for e in o.f["log"] if e[0] not in ("add", "loop")]
        if other:
            if any(classes(p.st, x) for x in o.f["elems"]):
                return None
            continue
        for x in adds:
            c = classes(p.st, x)
            if c:
                out.append((c, oid))
    return out


def lockstep(R, prog, name, tlim, use):
    q = f"{name}" + (" with time limits" if tlim else "") + (" with a selection" if use is not None else "")
    where = f"{name.split(':')[0]}.rinex{name.split(':')[0]}"
    records_run(prog, name)
    r = records_run(prog, name, tlim=tlim, **({"use": use, "tag": None} if use is not None else {}))
    R.used(r.I)
    n, bad, lost, seen = 0, None, None, set()
    for x in r.rec:
        for p in record_paths(x):
            if p.kind == "raise":
                continue
            a = added(p)
            if a is None:
                lost = "a list of the records is changed other than by appending"
                continue
            count = {k: sum(k in c for c, _ in a) for k in (EPOCH, NAME, BODY)}
            if any(count.values()):
                n += 1
            held = {oid for _, oid in a}
            for o in p.st.heap.values():
                if o.kind == "dict" and any(y.k == "ref" and y.a in held for w in (*o.f["d"].values(), *(g[1] for g in o.f["gen"])) for y in (w.a[1:] if isop(w, "phi") else (w,))):
                    lost = "records are collected by key"
            seen |= {k for k in count if count[k]}
            if len(set(count.values())) != 1 or max(count.values()) > 1:
                bad = bad or f"one pass of the record loop ({p.kind}) adds {', '.join(f'{v} x {k}' for k, v in count.items())}"
    if lost:
        return R.ob("lockstep", q, None, where, lost)
    if not n:
        return R.ob("lockstep", q, None, where, "no pass adds to the lists of the records")
    if len(seen) != 3:
        return R.ob("lockstep", q, None, where, f"not collected in a list: {', '.join({EPOCH, NAME, BODY} - seen)}")
    R.ob("lockstep", q, not bad, where, bad or f"{n} passes add one epoch, one satellite and one set of values each")


# ------------------------------------------------------------------ rows
class Odd(Exception):
    pass


def full(p):
    return p is NONE or isop(p, "sl") and p.a[1] in (NONE, C(0)) and p.a[2] is NONE and p.a[3] in (NONE, C(1))


def chain(st, v, depth=0):
    """(base object, selections made of its first dimension)"""
    if depth > 40:
        raise Odd("depth")
    if v.k == "tup" and len(v.a) >= 2 and v.a[0].k == "tup":
        if not v.a[0].a or v.a[0].a[0] is not C("time"):
            raise Odd("the first dimension is not the time")
        return chain(st, v.a[1], depth + 1)
    if v.k == "op" and v.a[0] in ("davar", "m:astype", "np:asarray", "np:array", "m:copy"):
        return chain(st, v.a[1], depth + 1)
    if isop(v, "np:unique"):
        b, c = chain(st, v.a[1], depth + 1)
        return b, c + [OP("np:unique_index", v.a[1], t="ndarray")]
    if isop(v, "item") and len(v.a) == 3:
        b, c = chain(st, v.a[1], depth + 1)
        return b, c + picks(st, v.a[2], depth)
    if v.k == "poly":
        p = poly_of(v)
        if len(p) == 1:
            (m, k), = p.items()
            if len(m) == 1:
                return chain(st, m[0], depth + 1)
        raise Odd(show(v)[:60])
    if v.k != "ref":
        raise Odd(show(v)[:60])
    o = st.heap.get(v.a)
    if o is None or o.kind != "array":
        raise Odd("not an array")
    s = o.f.get("src")
    if isinstance(s, V):
        b, c = chain(st, s, depth + 1)
        i = o.f.get("idx")
        return b, c + (picks(st, i, depth) if isinstance(i, V) and i is not NONE else [])
    return v, []


def picks(st, i, depth):
    p = i.a[0] if i.k == "tup" else i
    if i.k == "tup" and p is NONE:
        raise Odd("a new first axis")
    if full(p):
        return []
    return flat(st, p, depth)


def flat(st, p, depth=0):
    """an index that is itself picked from an index: its own selections first"""
    if p.k == "ref" and st.heap.get(p.a) is not None and st.heap[p.a].kind == "array" and isinstance(st.heap[p.a].f.get("src"), V):
        b, c = chain(st, p, depth + 1)
        return [b] + c
    if isop(p, "item") and len(p.a) == 3:
        b, c = chain(st, p, depth + 1)
        return [b] + c
    if p.k == "ref" or isop(p, "np:unique_index") or isop(p, "sl"):
        return [p]
    raise Odd(show(p)[:60])


def stored(st, base):
    """the index array whose elements, in order, are the records the rows of an array are filled from"""
    o = st.heap[base.a]
    rows = set()
    for i, val in o.f["stores"]:
        p = i.a[0] if i.k == "tup" else i
        if full(p) or isop(val, "aug"):
            continue
        if p.k == "sym" and isinstance(p.a, tuple) and p.a[0] == "it":
            rows.add(p.a[1])
        else:
            raise Odd("rows are stored at " + show(p)[:60])
    if not rows:
        raise Odd("nothing is stored")
    return rows


def rows3(R, prog, t):
    from ..skel import skel_policy
    q, where = f"nav3 {t}", "nav3.rinexnav3"
    node = node_of(prog, 3, "M")
    pol = skel_policy(nav3("M"), navhead("3.04", "M"), node, "nav3", record(3, t, len(ORDER[t]), LINES.get(t, 7), 0), peel="for")
    seen = []

    def made(st, r):
        ds = st.heap[r.a]
        tc = next((x for k, x in ds.f["coords"].items() if k is C("time")), None)
        if not ds.f["vars"] or tc is None:
            return
        for k, x in ds.f["vars"].items():
            try:
                tb, a = chain(st, tc)
                db, b = chain(st, x)
                lb = None
                if isinstance(st.heap[db.a].f.get("stores"), tuple) and st.heap[db.a].f["stores"]:
                    stored(st, db)
                    first = a[:1]
                    # the array of a satellite has one row per record of that satellite
                    sh = st.heap[db.a].f.get("shape")
                    n = sh.a[0] if isinstance(sh, V) and sh.k == "tup" else None
                    if first and n is not None and contains(n, lambda y: y is first[0]):
                        lb = first
                    else:
                        raise Odd("rows of the array of a satellite")
                else:
                    raise Odd("no array of a satellite")
                ok = a == lb + b
                seen.append((ok if ok or all(known(x) for x in a + b) else None, f"{show(k)}: the times are picked by {say(a)}, the values by {say(lb + b)}"))
            except Odd as e:
                seen.append((None, f"{show(k)}: {e}"))
    pol.made = made
    r = Run(prog, "nav3", "rinexnav3", [PATH], {}, pol)
    R.used(r.I)
    bad = next((x for x in seen if x[0] is False), None) or next((x for x in seen if x[0] is None), None)
    if not seen:
        bad = (None, "no dataset is made")
    R.ob("rows", q, bad[0] if bad else True, where, bad[1] if bad else f"{len(seen)} fields")


def known(x):
    return x.k == "ref" or isop(x, "np:unique_index") or isop(x, "sl")


def say(c):
    return " then ".join(show(x)[-45:] for x in c) or "nothing"


def rows2(R, prog, t):
    from ..skel import skel_policy
    q, where = f"nav2 {t}", "nav2.rinexnav2"
    sysl = {"N": "G", "G": "R", "E": "E"}[t]
    node = node_of(prog, 2, t)
    pol = skel_policy(nav2(t), navhead("2.11", t), node, "nav2", record(2, t, len(ORDER[sysl]), LINES.get(sysl, 7), 0), peel="for")
    r = Run(prog, "nav2", "rinexnav2", [PATH], {}, pol)
    R.used(r.I)
    ok, why, n = True, "", 0
    for k, st, val in r.res:
        if k != "return" or val.k != "ref" or st.heap[val.a].kind != "ds" or not st.heap[val.a].f["vars"]:
            continue
        ds = st.heap[val.a]
        tc = next((x for c, x in ds.f["coords"].items() if c is C("time")), None)
        while tc is not None and tc.k == "op" and tc.a[0] in ("m:astype", "np:asarray", "np:array"):
            tc = tc.a[1]
        for name, x in ds.f["vars"].items():
            n += 1
            y, o = beneath(st, x)
            if o is None or o.kind != "array" or tc is None:
                ok, why = (None, f"{show(name)}: {show(x)[:60]}") if ok else (ok, why)
                continue
            got = 0
            for i, v in o.f["stores"]:
                if full(i) or isop(v, "aug"):
                    continue
                if i.k == "tup" and any(looked(p, tc) for p in i.a):
                    got += 1
                elif i.k == "tup" and any(elsewhere(st, p, tc) for p in i.a):
                    ok, why = False, f"{show(name)}: the row of a record is its place in other times than those of the result"
                elif ok and i.k == "tup" and all(not contains(p, lambda z: isop(z, "datetime")) for p in i.a):
                    ok, why = None, f"{show(name)}: a row is stored at {show(i)[:80]}"
            if not got and ok:
                ok, why = None, f"{show(name)}: no store is found by the time of the record"
    if not n:
        ok, why = None, "no dataset is returned"
    R.ob("rows", q, ok, where, why or f"{n} fields")


def beneath(st, y):
    """the array under views and scalings"""
    while True:
        if y.k == "poly" and len(poly_of(y)) == 1 and len(next(iter(poly_of(y)))) == 1:
            y = next(iter(poly_of(y)))[0]
        elif y.k == "tup" and len(y.a) >= 2 or isop(y, "davar"):
            y = y.a[1]
        elif y.k == "ref" and y.a in st.heap and st.heap[y.a].kind == "array" and isinstance(st.heap[y.a].f.get("src"), V):
            y = st.heap[y.a].f["src"]
        else:
            return y, st.heap.get(y.a) if y.k == "ref" else None


def lookup(p):
    """(array, time) of a search for a record's time"""
    if isop(p, "item"):
        return lookup(p.a[1])
    if isop(p, "np:nonzero") or isop(p, "np:where") or isop(p, "np:argwhere") or isop(p, "np:flatnonzero"):
        e = p.a[1]
        if isop(e, "eq") and any(isop(a, "datetime") for a in e.a[1:]):
            return next((a for a in e.a[1:] if not isop(a, "datetime")), None)
    if isop(p, "np:searchsorted") and isop(p.a[2], "datetime"):
        return p.a[1]
    return None


def elsewhere(st, p, tc):
    a = lookup(p)
    if a is None or a is tc:
        return False
    try:
        x, y = chain(st, a)[1], chain(st, tc)[1]
    except Odd:
        return False
    return len(x) > len(y)


def looked(p, tc):
    """index of the record's own time in the time coordinate"""
    return lookup(p) is tc


def tasks(prog):
    out = []
    for n in ("nav2:N", "nav2:G", "nav2:E") + tuple(f"nav3:{s}" for s in "GRECJIS"):
        for tl in (False, True):
            out.append(("lockstep", n, tl, None))
        if n.startswith("nav3"):
            out.append(("lockstep", n, False, {n[-1], "G"}))
    out += [("rows3", t) for t in "GRECJIS"] + [("rows2", t) for t in "NGE"]
    return out
