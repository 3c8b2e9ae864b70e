"""Abstract models of builtins, the standard library, numpy, xarray, used by the interpreter."""
from __future__ import annotations
import ast, builtins
from .terms import *
from .state import *
from .loader import AnalysisError, PKG
from . import small

STR_RET = {
    "strip": "str", "lstrip": "str", "rstrip": "str", "lower": "str", "upper": "str", "replace": "str", "ljust": "str",
    "rjust": "str", "zfill": "str", "format": "str", "title": "str", "removeprefix": "str", "removesuffix": "str",
    "expandtabs": "str", "center": "str", "translate": "str", "casefold": "str", "join": "str", "capitalize": "str", "swapcase": "str",
    "startswith": "bool", "endswith": "bool", "isdigit": "bool", "isspace": "bool", "isalpha": "bool", "isalnum": "bool",
    "isnumeric": "bool", "isdecimal": "bool", "isupper": "bool", "islower": "bool", "isascii": "bool",
    "split": "list", "rsplit": "list", "splitlines": "list", "partition": "tuple3", "rpartition": "tuple3",
    "find": "int", "rfind": "int", "count": "int", "index": "int", "encode": "bytes", "decode": "str",
}


# ---------------------------------------------------------------- small helpers
def concat(parts):
    flat = []
    for p in parts:
        if isop(p, "concat"):
            flat.extend(p.a[1:])
        else:
            flat.append(p)
    out = []
    for p in flat:
        if isc(p) and cv(p) == "":
            continue
        if out and isc(p) and isc(out[-1]) and type(cv(p)) is type(cv(out[-1])):
            out[-1] = C(cv(out[-1]) + cv(p))
        else:
            out.append(p)
    if not out:
        return C("")
    if len(out) == 1 and (out[0].t in ("str",)):
        return out[0]
    return OP("concat", *out, t="str")


def to_str(v):
    if isc(v) and not isinstance(cv(v), float):
        return C(str(cv(v)))
    if v.t == "str":
        return v
    return OP("str", v, t="str")


def fmt(v, spec):
    if isc(v) and isc(spec):
        try:
            return C(format(cv(v), cv(spec)))
        except (ValueError, TypeError):
            pass
    if isc(spec) and cv(spec) == "":
        return to_str(v)
    return OP("format", v, spec, t="str")


def ceildiv(a, b):
    if isc(a) and isc(b):
        return C(-((-cv(a)) // cv(b)))
    if isc(b) and cv(b) == 1:
        return a
    return OP("ceildiv", a, b, t="int")


def maxz(v):
    """max(0, v) for trip counts; symbolic counts are taken as non-negative"""
    if isc(v):
        return C(max(0, cv(v)))
    return v


def type_is(t, names):
    names = names if isinstance(names, tuple) else (names,)
    if t == "any":
        return None
    al = {"bool": ("bool", "int"), "datetime": ("datetime", "date"), "stream": ("stream",), "gen": ("gen",)}
    for n in names:
        if n in al.get(t, (t,)):
            return True
        if n == "object":
            return True
        if n in ("Iterable", "Sequence", "Collection") and t in ("list", "tuple", "set", "str", "dict"):
            return True
    return False


def vtype(I, st, v):
    if v in st.types:
        return st.types[v]
    if v.k == "ref":
        o = st.heap.get(v.a)
        if o is not None:
            return {"ds": "Dataset", "array": "ndarray", "inst": o.f.get("cls")}.get(o.kind, o.kind) if o.kind != "stream" else "stream:" + o.f["kind"]
    if v.k == "tup":
        return "tuple"
    if v.k == "exc":
        return "exc"
    if v.k == "c":
        return v.a[0]
    return v.t


def contains_ref(v):
    return any(x.k == "ref" for x in args_sub(v))


# ---------------------------------------------------------------- joins
def join2(I, a, b, lk, oid):
    """join two versions of one heap object"""
    if a.kind != b.kind:
        return Obj("unknown", dict(), a.origin)
    if a.key() == b.key():
        return a
    n = a.copy()
    k = a.kind
    if k in ("list", "set"):
        fa, fb = a.f, b.f
        el = tuple(dict.fromkeys(fa["elems"] + fb["elems"]))
        if len(el) > 24:
            el = el[:24]
        n.f["elems"] = el
        if fa.get("last") is not fb.get("last"):
            n.f.pop("last", None)
        if fa["items"] is None or fb["items"] is None or fa["items"] != fb["items"]:
            n.f["items"] = None
            if I.pol.shapes and k == "list" and fa["items"] and fb["items"] and len(fa["items"]) == len(fb["items"]):
                n.f["items"] = tuple(x if x is y else phi([x, y]) for x, y in zip(fa["items"], fb["items"]))
        n.f["len"] = fa["len"] if fa["len"] is fb["len"] else SYM(("len", lk, oid), "int")
        n.f["log"] = ()
        if fa.get("unord") or fb.get("unord"):
            n.f["unord"] = True
    elif k == "dict":
        d = {}
        maybe = set(a.f["maybe"]) | set(b.f["maybe"])
        for key in list(a.f["d"]) + [x for x in b.f["d"] if x not in a.f["d"]]:
            if key in a.f["d"] and key in b.f["d"]:
                x, y = a.f["d"][key], b.f["d"][key]
                d[key] = x if x is y else phi([x, y])
            else:
                d[key] = a.f["d"].get(key, b.f["d"].get(key))
                maybe.add(key)
        n.f["d"] = d
        n.f["maybe"] = frozenset(maybe)
        n.f["open"] = a.f["open"] or b.f["open"]
        n.f["gen"] = tuple(dict.fromkeys(a.f["gen"] + b.f["gen"]))[:24]
        n.f["log"] = ()
    elif k == "stream":
        for key in set(a.f) | set(b.f):
            x, y = a.f.get(key), b.f.get(key)
            if x != y:
                n.f[key] = SYM(("off", lk, oid), "int") if key == "off" else (False if key == "closed" else x)
    elif k == "array":
        n.f["stores"] = tuple(dict.fromkeys(a.f["stores"] + b.f["stores"]))[:200]
        if I.pol.shapes:
            one = set(a.f["stores"]) ^ set(b.f["stores"])
            n.f["may"] = frozenset(x for x in one if isop(x[1], "aug")) | a.f.get("may", frozenset()) | b.f.get("may", frozenset())
        if a.f["init"] != b.f["init"]:
            n.f["init"] = "uninit" if "uninit" in (a.f["init"], b.f["init"]) else "data"
        n.f["log"] = ()
        n.f["joined"] = True
        for key in ("src", "shape", "elems", "idx", "srcver"):
            if a.f.get(key) is not b.f.get(key) and a.f.get(key) != b.f.get(key):
                x, y = a.f.get(key), b.f.get(key)
                if isinstance(x, V) and isinstance(y, V):
                    n.f[key] = phi([x, y])
                elif isinstance(x, tuple) and isinstance(y, tuple):
                    n.f[key] = tuple(dict.fromkeys(x + y))
                else:
                    n.f[key] = x or y
    elif k == "ds":
        for fld in ("vars", "coords"):
            d = {}
            for key in list(a.f[fld]) + [x for x in b.f[fld] if x not in a.f[fld]]:
                if key in a.f[fld] and key in b.f[fld]:
                    x, y = a.f[fld][key], b.f[fld][key]
                    d[key] = x if x is y else phi([x, y])
                else:
                    d[key] = a.f[fld].get(key, b.f[fld].get(key))
            n.f[fld] = d
        n.f["open"] = True
        n.f["parents"] = tuple(dict.fromkeys(a.f["parents"] + b.f["parents"]))[:12]
        n.f["log"] = ()
        if a.f["attrs"] is not b.f["attrs"]:
            n.f["attrs"] = phi([a.f["attrs"], b.f["attrs"]])
    elif k == "inst":
        d = {}
        for key in set(a.f["d"]) | set(b.f["d"]):
            x, y = a.f["d"].get(key), b.f["d"].get(key)
            d[key] = x if x is y else (SYM(("mu", lk, (oid, key)), x.t if x is not None and y is not None and x.t == y.t else "any"))
        n.f["d"] = d
    return n


def phi(vals, cap=10):
    out = []
    for v in vals:
        if isop(v, "phi"):
            out.extend(v.a[1:])
        else:
            out.append(v)
    out = tuple(dict.fromkeys(out))
    if len(out) > cap:
        # an unboundedly growing alternative
        out = out[:cap]
    if len(out) == 1:
        return out[0]
    ts = {v.t for v in out}
    return OP("phi", *out, t=ts.pop() if len(ts) == 1 else "any")


def as_head(I, o, lk, oid, orig, joined):
    """adapt a joined object for use at a loop head"""
    n = o.copy()
    if o.kind in ("list", "set"):
        n.f["log"] = ()
        n.f.pop("last", None)
        if I.pol.shapes and o.kind == "list" and o.f["items"] and isc(o.f["len"]) and cv(o.f["len"]) == len(o.f["items"]):
            return n  # the same cells on every pass
        n.f["items"] = None
        n.f["len"] = SYM(("len", lk, oid), "int")
    elif o.kind == "stream":
        n.f["off"] = SYM(("off", lk, oid), "int")
    elif "log" in o.f:
        n.f["log"] = ()
    return n


def own_attrs(I, st, oid):
    """one dictionary for the attributes of a dataset that is the join of several"""
    a = st.heap[oid].f["attrs"]
    if not (I.pol.shapes and isinstance(a, V) and isop(a, "phi")):
        return
    ds = [st.heap.get(y.a) if y.k == "ref" else None for y in a.a[1:]]
    if any(d is None or d.kind != "dict" for d in ds):
        return
    j = ds[0]
    for d in ds[1:]:
        j = join2(I, j, d, ("attrs", oid), oid)
    st.mut(oid).f["attrs"] = REF(st.alloc(("attrs", oid), j.copy()), "dict")


# ---------------------------------------------------------------- iteration
class ItD:
    def __init__(self, next, trips=None, exhaust=None, key=None, unordered=False, stream=None):
        self.next, self.trips, self.key, self.unordered, self.stream = next, trips, key, unordered, stream
        self.exhaust = exhaust or (lambda st: [st])


def note_iter(I, st, it, node, ctx):
    if it.k == "ref":
        o = st.heap.get(it.a)
        if o is not None and (o.kind == "set" or o.f.get("unord")):
            I.emit(st, "unordered", (it,), node, ctx)


def concrete_items(I, st, v):
    if v.k == "tup":
        return list(v.a)
    if v.k == "c":
        x = cv(v)
        if isinstance(x, (str, tuple, bytes)):
            return [C(y) for y in x]
        return None
    if v.k == "ref":
        o = st.heap.get(v.a)
        if o is None:
            return None
        if o.kind in ("list", "set") and o.f["items"] is not None:
            items = list(o.f["items"])
            if o.kind == "set" and getattr(I.pol, "rev_sets", 0):
                items.sort(key=show, reverse=I.pol.rev_sets == 2)
            return items
        if o.kind == "dict" and o.f["open"] is None and not o.f["maybe"] and not o.f["gen"]:
            return list(o.f["d"])
        if o.kind == "array" and o.f.get("items") is not None and not o.f["stores"]:
            return list(o.f["items"])
        if o.kind == "array" and I.pol.shapes:
            return small.known(st, v)
        if o.kind == "inst" and o.f.get("tuple"):
            return list(o.f["d"].values())
        return None
    if v.k == "op":
        n = v.a[0]
        if n == "range":
            lo, hi, stp = v.a[1:4]
            if isc(lo) and isc(hi) and isc(stp):
                r = range(cv(lo), cv(hi), cv(stp))
                if len(r) <= (400 if I.pol.shapes else 64):
                    return [C(i) for i in r]
            return None
        if n == "enumerate":
            its = concrete_items(I, st, v.a[1])
            if its is None:
                return None
            return [TUP((padd(v.a[2], C(i)), x)) for i, x in enumerate(its)]
        if n == "zip":
            # a stream part makes the iteration abstract
            parts = [concrete_items(I, st, x) for x in v.a[1:]]
            if any(p is None for p in parts):
                return None
            return [TUP(x) for x in zip(*parts)]
        if n == "reversed":
            its = concrete_items(I, st, v.a[1])
            return None if its is None else its[::-1]
    return None


def make_iter(I, st, it, node, ctx):
    r = I.pol.elem(I, st, it, ctx)
    if r is not None:
        return [(st, r)]
    if it.k == "ref":
        o = st.heap[it.a]
        if o.kind == "stream":
            oid = it.a

            def nxt(s, lk):
                return [(s, read_line(I, s, oid, node, ctx))]

            return [(st, ItD(nxt, None, key=("stream", oid), stream=oid))]
        if o.kind in ("list", "set"):
            el = o.f["elems"]

            def nxt(s, lk):
                return alternatives(I, s, el, ("elem", lk))

            return [(st, ItD(nxt, o.f["len"], key=("l", it), unordered=o.kind == "set" or bool(o.f.get("unord"))))]
        if o.kind == "dict":
            ks = tuple(o.f["d"]) + tuple(k for k, _ in o.f["gen"])

            def nxt(s, lk):
                res = []
                if o.f["open"] is not None:
                    res.append((s.fork(), SYM(("elem", lk, "key"), "any")))
                for k in ks:
                    res.append((s.fork(), k))
                return res

            return [(st, ItD(nxt, OP("len", it, t="int"), key=("d", it)))]
        if o.kind == "array":

            def nxt(s, lk):
                return I.getitem(s, it, SYM(("it", lk), "int"), node, ctx)

            return [(st, ItD(nxt, OP("len", it, t="int"), key=("a", it)))]
        if o.kind == "inst":
            return [(st, R(EXC("AnalysisUnsupported")))]
    if it.k == "op":
        n = it.a[0]
        if n == "range":
            lo, hi, stp = it.a[1:4]
            trips = maxz(ceildiv(psub(hi, lo), stp))

            def nxt(s, lk):
                i = SYM(("it", lk), "int")
                s.facts[OP("lt0", i, t="bool")] = False
                return [(s, padd(lo, pmul(i, stp)))]

            return [(st, ItD(nxt, trips, key=("r", it)))]
        if n == "enumerate":
            out = []
            for s, d in make_iter(I, st, it.a[1], node, ctx):
                if isinstance(d, R):
                    out.append((s, d))
                    continue

                def nxt(s, lk, d=d):
                    return [
                        (s2, x if isinstance(x, R) else TUP((padd(it.a[2], SYM(("it", lk), "int")), x))) for s2, x in d.next(s, lk)
                    ]

                out.append((s, ItD(nxt, d.trips, d.exhaust, ("e", d.key), d.unordered, d.stream)))
            return out
        if n == "zip":
            parts = []
            for x in it.a[1:]:
                items = concrete_items(I, st, x)
                if items is not None:
                    parts.append(ItD(lambda s, lk, items=items: alternatives(I, s, tuple(dict.fromkeys(items)), ("elem", lk)), C(len(items)), key=("c", x)))
                else:
                    r = make_iter(I, st, x, node, ctx)
                    if isinstance(r[0][1], R):
                        return r
                    parts.append(r[0][1])

            def nxt(s, lk):
                cur = [(s, [])]
                for p in parts:
                    nx = []
                    for s2, acc in cur:
                        if isinstance(acc, R):
                            nx.append((s2, acc))
                            continue
                        for s3, x in p.next(s2, lk):
                            nx.append((s3, x if isinstance(x, R) else acc + [x]))
                    cur = nx
                return [(s2, acc if isinstance(acc, R) else TUP(acc)) for s2, acc in cur]

            finite = [(i, p) for i, p in enumerate(parts) if p.trips is not None]
            trips = None
            lim = None
            if finite:
                t0 = finite[0][1].trips
                if all(p.trips is t0 for _, p in finite):
                    trips = t0
                    lim = finite[0][0]
                elif all(isc(p.trips) for _, p in finite):
                    lim, pm = min(finite, key=lambda ip: cv(ip[1].trips))
                    trips = pm.trips
                else:
                    trips = OP("min", *sorted({p.trips for _, p in finite}), t="int")
                    lim = finite[0][0]

            def exhaust(s):
                # parts before the limiting one are advanced once more
                if lim is not None:
                    for p in parts[:lim]:
                        if p.stream is not None:
                            o = s.mut(p.stream)
                            o.f["off"] = padd(o.f["off"], C(1))
                return [s]

            stream = next((p.stream for p in parts if p.stream is not None), None)
            return [(st, ItD(nxt, trips, exhaust, ("z",) + tuple(p.key for p in parts), any(p.unordered for p in parts), stream))]
        if n == "reversed":
            return make_iter(I, st, it.a[1], node, ctx)
        if n == "islice":
            base, stop = it.a[1], it.a[2]
            r = make_iter(I, st, base, node, ctx)
            d = r[0][1]
            if isinstance(d, R):
                return r
            return [(r[0][0], ItD(d.next, stop if d.trips is None else OP("min", stop, d.trips, t="int"), None, ("is", d.key, stop), d.unordered, d.stream))]
        if n == "iter_sentinel":
            f = it.a[1]

            def nxt(s, lk):
                return I.call(s, f, [], {}, node, ctx)

            return [(st, ItD(nxt, None, key=("sent", f)))]
        if n == "phi":
            out = []
            alts = it.a[1:]
            for i, x in enumerate(alts):
                s = st.fork() if i < len(alts) - 1 else st
                items = concrete_items(I, s, x)
                if items is not None:
                    out.append((s, ItD(lambda s, lk, items=items: alternatives(I, s, tuple(dict.fromkeys(items)), ("elem", lk)), C(len(items)), key=("c", x))))
                else:
                    out.extend(make_iter(I, s, x, node, ctx))
            return out
    if it is NONE or (isc(it) and isinstance(cv(it), (int, float))):
        return [(st, R(EXC("TypeError", (C("not iterable"),)), I.loc(node, ctx)))]
    items = concrete_items(I, st, it)
    if items is not None:
        return [(st, ItD(lambda s, lk: alternatives(I, s, tuple(dict.fromkeys(items)), ("elem", lk)), C(len(items)), key=("c", it)))]

    def nxt(s, lk):
        i = SYM(("it", lk), "int")
        if it.t == "str":
            return [(s, OP("idx", it, i, t="str"))]
        return [(s, OP("elem", it, i, t="str" if (it.k == "op" and it.a[0] in ("m:split", "m:splitlines", "m:rsplit")) else ("Path" if isop(it, "m:glob") or isop(it, "m:rglob") or isop(it, "m:iterdir") else "any")))]

    return [(st, ItD(nxt, OP("len", it, t="int"), key=("v", it), unordered=isop(it, "m:glob") or it.t == "set"))]


def alternatives(I, st, el, nm):
    if len(el) == 0:
        return []
    if len(el) > 12:
        ts = {e.t for e in el}
        return [(st, SYM(nm, ts.pop() if len(ts) == 1 else "any"))]
    out = []
    for i, e in enumerate(el):
        s = st.fork() if i < len(el) - 1 else st
        out.append((s, e))
    return out


# ---------------------------------------------------------------- streams
def new_stream(I, st, node, ctx, kind, content, mode="r", src=None, owned=True, wraps=(), **k):
    f = dict(kind=kind, content=content, mode=mode, src=src, off=C(0), closed=False, owned=owned, wraps=tuple(wraps), reads=0)
    f.update(k)
    oid = st.alloc(I.site(node, ctx) if node is not None else ("stream",), Obj("stream", f))
    I.emit(st, "open", (oid, kind, src, mode), node, ctx)
    return REF(oid, "stream")


def read_line(I, st, oid, node, ctx, hint=None):
    o = st.mut(oid)
    off = o.f["off"]
    ln = OP("line", o.f["content"], off, t="str")
    o.f["off"] = padd(off, C(1))
    I.emit(st, "read", (oid, off), node, ctx)
    if I.pol.line is not None:
        r = I.pol.line(o.f["content"], off)
        if r is None and I.pol.whole and not I.pol.there(o.f["content"], off):
            return C("")
        return r or ln
    return ln


def preread(I, st, it, node, ctx):
    """zip, islice, enumerate over a stream whose next lines are known to exist: the same over the lines themselves"""
    if it.a[0] == "enumerate":
        if isop(it.a[1]) and it.a[1].a[0] in ("zip", "islice"):
            x = preread(I, st, it.a[1], node, ctx)
            return it if x is it.a[1] else OP("enumerate", x, *it.a[2:], t=it.t)
        return it
    if I.pol.there is None:
        return it

    def lines(s, n):
        o = st.heap[s.a]
        if n > 64 or any(not I.pol.there(o.f["content"], padd(o.f["off"], C(k))) for k in range(n)):
            return None
        return TUP([read_line(I, st, s.a, node, ctx) for _ in range(n)])

    isstream = lambda v: v.k == "ref" and st.heap[v.a].kind == "stream"
    if it.a[0] == "islice":
        if isstream(it.a[1]) and isc(it.a[2]) and isinstance(cv(it.a[2]), int):
            r = lines(it.a[1], cv(it.a[2]))
            return it if r is None else r
        return it
    parts = it.a[1:]
    if any(not isinstance(x, V) for x in parts):
        return it
    ss = [k for k, x in enumerate(parts) if isstream(x)]
    known = [None if k in ss else concrete_items(I, st, x) for k, x in enumerate(parts)]
    if len(ss) != 1 or len(parts) < 2 or any(x is None for k, x in enumerate(known) if k not in ss):
        return it
    n = min(len(x) for x in known if x is not None)
    first = min(k for k, x in enumerate(known) if x is not None and len(x) == n)
    r = lines(parts[ss[0]], n + (ss[0] < first))
    if r is None:
        return it
    return OP("zip", *[r if k in ss else TUP(list(known[k])) for k in range(len(parts))], t=it.t)


def close_stream(I, st, v, node, ctx):
    if v.k == "ref" and st.heap[v.a].kind in ("stream", "ds"):
        o = st.mut(v.a)
        o.f["closed"] = True
        I.emit(st, "close", (v.a,), node, ctx)
        if o.kind == "stream" and o.f["kind"] in ("textwrap", "gz", "bz2"):
            for w in o.f["wraps"]:
                if w in st.heap and not st.heap[w].f["closed"]:
                    st.mut(w).f["closed"] = True


def with_obj(I, st, v, body, node, ctx):
    """with <obj> as x: body"""
    outs = []
    if v.k == "ref" and st.heap[v.a].kind in ("stream", "ds"):
        for kind, s, w in body(st, v):
            close_stream(I, s, v, node, ctx)
            outs.append((kind, s, w))
        return outs
    if isop(v, "closing"):
        for kind, s, w in body(st, v.a[1]):
            close_stream(I, s, v.a[1], node, ctx)
            outs.append((kind, s, w))
        return outs
    if isop(v, "suppress"):
        I.handlers.append(v.a[1])
        try:
            res = body(st, NONE)
        finally:
            I.handlers.pop()
        for kind, s, w in res:
            if kind == "raise":
                from .interp import exc_mro

                if any(n in exc_mro(w.exc.a[0]) for n in v.a[1]):
                    outs.append(("next", s, None))
                    continue
            outs.append((kind, s, w))
        return outs
    if v.k == "ref" and st.heap[v.a].kind == "exitstack":
        for kind, s, w in body(st, v):
            for x in reversed(s.heap[v.a].f["cbs"]):
                close_stream(I, s, x, node, ctx)
            outs.append((kind, s, w))
        return outs
    if isop(v, "nullctx"):
        return body(st, v.a[1])
    if v is NONE:
        return [("raise", st, R(EXC("TypeError"), I.loc(node, ctx)))]
    if v.k == "ref" and st.heap[v.a].kind == "inst":
        ns = I.p.classes[st.heap[v.a].f["cls"]]["ns"]
        if "__enter__" in ns:
            for s, x in I.call(st, ns["__enter__"], [v], {}, node, ctx):
                if isinstance(x, R):
                    outs.append(("raise", s, x))
                    continue
                for kind, s2, w in body(s, x):
                    for s3, y in I.call(s2, ns["__exit__"], [v, NONE, NONE, NONE], {}, node, ctx):
                        outs.append((kind, s3, w) if not isinstance(y, R) else ("raise", s3, y))
            return outs
    return body(st, OP("enter", v))


# ---------------------------------------------------------------- attributes
def getattr_(I, st, b, name, node, ctx):
    if b.k == "mod":
        env = st.mods.get(b.a) or I.st0.mods.get(b.a)
        if env is None:
            env = I.module_env_safe(b.a)
        if name in env:
            return [(st, env[name])]
        sub = b.a + "." + name
        if sub in I.p.modules:
            I.ensure_mod(st, sub)
            return [(st, MOD(sub))]
        return [(st, R(EXC("AttributeError", (C(name),)), I.loc(node, ctx)))]
    if b.k == "ext":
        return [(st, EXT(b.a + "." + name))]
    if b.k == "cls":
        c = I.p.classes[b.a]
        if name in c["ns"]:
            return [(st, c["ns"][name])]
        if name == "__name__":
            return [(st, C(c["name"]))]
        return [(st, BOUND(b, name))]
    if b is NONE:
        return [(st, R(EXC("AttributeError", (C(name),)), I.loc(node, ctx)))]
    if b.k == "exc":
        if name == "args":
            return [(st, TUP(b.a[1]))]
        return [(st, OP("attr", b, name))]
    call = _is_callee(node)
    if b.k == "ref":
        o = st.heap.get(b.a)
        if o is None:
            return [(st, OP("attr", b, name))]
        if o.kind == "inst":
            if name in o.f["d"]:
                return [(st, o.f["d"][name])]
            c = I.p.classes[o.f["cls"]]
            if name in c["ns"]:
                v = c["ns"][name]
                if v.k == "func":
                    fi = I.p.funcs[v.a[0]]
                    if "property" in fi.decorators:
                        return I.call(st, v, [b], {}, node, ctx)
                    if "staticmethod" in fi.decorators:
                        return [(st, v)]
                    return [(st, OP("partial", v, TUP((b,)), ()))]
                return [(st, v)]
            return [(st, BOUND(b, name))]
        if o.kind == "ns":
            if name in ("add_argument", "parse_args", "parse_known_args", "add_argument_group", "add_mutually_exclusive_group", "error", "set_defaults"):
                return [(st, BOUND(b, name))]
            return [(st, o.f["d"].get(name, SYM(("arg", name), "any")))]
        if o.kind == "ds":
            if name == "attrs":
                own_attrs(I, st, b.a)
                return [(st, st.heap[b.a].f["attrs"])]
            if name in ("dims", "sizes", "data_vars", "variables", "coords"):
                return [(st, OP("attr", b, name, C(ds_version(o))))]
            if C(name) in o.f["vars"]:
                return [(st, OP("davar", o.f["vars"][C(name)], t="ndarray"))]
            if C(name) in o.f["coords"]:
                return [(st, OP("davar", o.f["coords"][C(name)], t="ndarray"))]
            if call:
                return [(st, BOUND(b, name))]
            return [(st, OP("attr", b, name))]
        if o.kind == "array":
            if call:
                return [(st, BOUND(b, name))]
            if name in ("size", "shape", "ndim", "T", "dtype"):
                if name == "size" and o.f.get("items") is not None:
                    return [(st, C(len(o.f["items"])))]
                if I.pol.shapes:
                    sh = small.shape(st, b)
                    if name == "shape" and sh is not None:
                        return [(st, TUP([C(x) for x in sh]))]
                    if name == "size" and sh is not None:
                        n = 1
                        for x in sh:
                            n *= x
                        return [(st, C(n))]
                    if name == "ndim" and sh is not None:
                        return [(st, C(len(sh)))]
                return [(st, OP("attr", b, name, t="int" if name in ("size", "ndim") else "any"))]
            return [(st, OP("attr", b, name))]
        if o.kind == "stream":
            if name in ("closed",):
                return [(st, C(bool(o.f["closed"])))]
            if name == "name" and not call:
                # only file objects have a name
                if o.f["kind"] in ("stringio", "crxio", "bz2raw", "bytesio"):
                    return [(st, R(EXC("AttributeError", (C(name),)), I.loc(node, ctx)))]
                return [(st, OP("attr", b, name, t="str"))]
            return [(st, BOUND(b, name))]
        return [(st, BOUND(b, name))]
    if call:
        return [(st, BOUND(b, name))]
    t = st.types.get(b, b.t)
    if t == "timedelta" and name in ("seconds", "days", "microseconds"):
        return [(st, OP("attr", b, name, t="int"))]
    if t == "Path" or t == "any":
        ty = {"name": "str", "suffix": "str", "stem": "str", "parent": "Path", "suffixes": "list"}.get(name, "any") if t == "Path" else "any"
        return [(st, OP("attr", b, name, t=ty))]
    if t in ("str", "int", "float", "tuple", "list") and name not in ("real", "imag"):
        return [(st, BOUND(b, name))]
    ty = {"year": "int", "month": "int", "day": "int", "hour": "int", "minute": "int", "second": "int", "microsecond": "int"}.get(name, "any")
    if name == "size":
        ty = "int"
    return [(st, OP("attr", b, name, t=ty))]


_callees = {}


def _is_callee(node):
    return getattr(node, "_callee", False)


def mark_callees(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            n.func._callee = True


def ds_version(o):
    return len(o.f["vars"])


def setattr_(I, st, b, name, v, node, ctx):
    if b.k == "ref":
        o = st.heap[b.a]
        if o.kind in ("inst", "ns"):
            I.mutated(st, b, "setattr", node, ctx)
            ob = st.mut(b.a)
            d = dict(ob.f["d"])
            d[name] = v
            ob.f["d"] = d
            return [("next", st, None)]
        if o.kind == "ds":
            I.mutated(st, b, "setattr " + name, node, ctx)
            ob = st.mut(b.a)
            if name == "attrs":
                ob.f["attrs"] = v
            return [("next", st, None)]
        I.mutated(st, b, "setattr " + name, node, ctx)
        return [("next", st, None)]
    if b.k == "mod":
        I.emit(st, "mutate", (("module", b.a, name), "setattr"), node, ctx)
        return [("next", st, None)]
    I.mutated(st, b, "setattr " + name, node, ctx)
    return [("next", st, None)]


# ---------------------------------------------------------------- items
def is_slice(i):
    return isop(i, "sl")


def nonneg(v):
    if isc(v):
        return isinstance(cv(v), int) and cv(v) >= 0
    if v.k == "poly":
        return all(c >= 0 for _, c in v.a)
    return v.t == "int"


def str_slice(s, lo, hi, step=NONE):
    if step is not NONE and not (isc(step) and cv(step) == 1):
        return OP("slice", s, lo, hi, step, t=s.t if s.t in ("str", "bytes", "list", "tuple") else "any")
    if lo is NONE:
        lo = C(0)
    if isc(s) and isc(lo) and isc(hi):
        return C(cv(s)[cv(lo) : cv(hi)])
    if isc(lo) and cv(lo) == 0 and hi is NONE and s.t == "str":
        return s
    if isop(s, "slice") and len(s.a) == 4 and nonneg(lo) and (hi is NONE or nonneg(hi)):
        base, a, b = s.a[1:]
        if nonneg(a) and (b is NONE or nonneg(b)):
            nlo = padd(a, lo)
            if hi is NONE:
                return OP("slice", base, nlo, b, t=s.t)
            nhi = padd(a, hi)
            if b is NONE:
                return OP("slice", base, nlo, nhi, t=s.t)
            if isc(nhi) and isc(b):
                return OP("slice", base, nlo, C(min(cv(nhi), cv(b))), t=s.t)
            d = psub(b, nhi)
            if isc(d):
                return OP("slice", base, nlo, nhi if cv(d) >= 0 else b, t=s.t)
    return OP("slice", s, lo, hi, t=s.t if s.t in ("str", "bytes", "list", "tuple") else "any")


def str_idx(s, i):
    if isc(s) and isc(i):
        try:
            return C(cv(s)[cv(i)])
        except IndexError:
            return None
    if isop(s, "slice") and len(s.a) == 4 and nonneg(i) and nonneg(s.a[2]):
        return str_slice(s, i, padd(i, C(1)))
    if nonneg(i) and (i.k != "op" or i.a[0] != "neg"):
        return str_slice(s, i, padd(i, C(1)))
    return OP("idx", s, i, t="str")


def getitem_term(I, st, b, i):
    if b.t == "str":
        r = str_idx(b, i)
        return r if r is not None else OP("idx", b, i, t="str")
    return OP("item", b, i)


def getitem(I, st, b, i, node, ctx):
    i = st.known.get(i, i)
    if b.k == "tup":
        if isc(i) and isinstance(cv(i), int):
            try:
                return [(st, b.a[cv(i)])]
            except IndexError:
                return [(st, R(EXC("IndexError"), I.loc(node, ctx)))]
        if is_slice(i) and all(isc(x) for x in i.a[1:]):
            return [(st, TUP(b.a[slice(*[cv(x) for x in i.a[1:]])]))]
        return [(st, OP("item", b, i))]
    if isop(b, "phi"):
        out = []
        al = b.a[1:]
        for n, x in enumerate(al):
            s = st.fork() if n < len(al) - 1 else st
            out.extend(getitem(I, s, x, i, node, ctx))
        return out
    t = st.types.get(b, b.t)
    if b.k != "ref" and t in ("str", "bytes"):
        if is_slice(i):
            return [(st, str_slice(b, *i.a[1:]))]
        if isc(b) and isc(i):
            r = str_idx(b, i)
            return [(st, r if r is not None else R(EXC("IndexError"), I.loc(node, ctx)))]
        v = str_idx(b, i)
        return [(s, r if r is not None else v) for s, r in I.may_raise(st, "IndexError", OP("idx", b, i), node, ctx)]
    if b.k == "ref":
        o = st.heap.get(b.a)
        if o is None:
            return [(st, OP("item", b, i))]
        if o.kind == "list":
            return list_getitem(I, st, b, o, i, node, ctx)
        if o.kind == "dict":
            return dict_getitem(I, st, b, o, i, node, ctx)
        if o.kind == "array":
            return array_getitem(I, st, b, o, i, node, ctx)
        if o.kind == "ds":
            if i in o.f["vars"]:
                return [(st, OP("davar", o.f["vars"][i], t="ndarray"))]
            if i in o.f["coords"]:
                return [(st, OP("davar", o.f["coords"][i], t="ndarray"))]
            if o.f.get("open") is None or o.f.get("open") is False:
                if isc(i) and isinstance(cv(i), str) and not o.f.get("handle"):
                    if I.handled("KeyError"):
                        return [(st, R(EXC("KeyError", (i,)), I.loc(node, ctx)))]
            return [(st, OP("item", b, i))]
        if o.kind == "inst" and o.f.get("tuple") and isc(i):
            vals = list(o.f["d"].values())
            return [(st, vals[cv(i)])]
        return [(st, OP("item", b, i))]
    if b is NONE:
        return [(st, R(EXC("TypeError", (C("'NoneType' object is not subscriptable"),)), I.loc(node, ctx)))]
    if b.k == "ext":
        if b.a in ("numpy.s_", "numpy.index_exp"):
            return [(st, i)]
        return [(st, EXT(b.a + "[]"))]
    if is_slice(i) and t == "list":
        return [(st, OP("slice", b, *i.a[1:3], t="list"))]
    if t in ("any", "dict"):
        v = OP("item", b, i)
        out = []
        for s, r in I.may_raise(st, "KeyError", OP("item", b, i), node, ctx):
            if r is not None:
                out.append((s, r))
            else:
                for s2, r2 in I.may_raise(s, "IndexError", OP("item", b, i), node, ctx):
                    out.append((s2, r2 if r2 is not None else v))
        return out
    if t == "list":
        v = OP("item", b, i, t="str" if isop(b, "m:split") else "any")
        return [(s, r if r is not None else v) for s, r in I.may_raise(st, "IndexError", OP("item", b, i), node, ctx)]
    return [(st, OP("item", b, i))]


def list_getitem(I, st, b, o, i, node, ctx):
    f = o.f
    if is_slice(i):
        lo, hi, sp = i.a[1:]
        if f["items"] is not None and isc(lo) and isc(hi) and isc(sp):
            return [(st, st.new_list(I.site(node, ctx), f["items"][slice(cv(lo), cv(hi), cv(sp))]))]
        r = st.new_list(I.site(node, ctx), ())
        ob = st.mut(r.a)
        ob.f["items"] = None
        ob.f["elems"] = f["elems"]
        ob.f["len"] = OP("slicelen", f["len"], lo, hi, t="int")
        if not (lo in (NONE, C(0)) and hi is NONE):
            ob.f["part"] = OP("sl", lo, hi, sp, t="slice")
        return [(st, r)]
    if f["items"] is not None and isc(i) and isinstance(cv(i), int):
        try:
            return [(st, f["items"][cv(i)])]
        except IndexError:
            return [(st, R(EXC("IndexError"), I.loc(node, ctx)))]
    el = f["elems"]
    out = []
    for s, r in I.may_raise(st, "IndexError", OP("item", b, i), node, ctx):
        if r is not None:
            out.append((s, r))
            continue
        if not el:
            out.append((s, R(EXC("IndexError"), I.loc(node, ctx))))
            continue
        if f["items"] is not None and len(el) > 1:
            out.append((s, OP("item", TUP(f["items"]), i, t=el[0].t if len({x.t for x in el}) == 1 else "any")))
            continue
        if len(el) > 4:
            out.append((s, OP("item", OP("phi", *el), i, t=el[0].t if len({x.t for x in el}) == 1 else "any")))
            continue
        end = I.pol.shapes and i is C(-1)
        if end and f.get("last") is not None:
            out.append((s, f["last"]))
            continue
        alts = alternatives(I, s, el, ("elem", b))
        if end and b.k == "ref":
            for s, x in alts:
                s.mut(b.a).f["last"] = x
        out.extend(alts)
    return out


def dict_getitem(I, st, b, o, i, node, ctx):
    f = o.f
    if i in f["d"]:
        v = f["d"][i]
        if i in f["maybe"]:
            return [(s, r if r is not None else v) for s, r in key_raise(I, st, b, o, i, node, ctx)]
        return [(st, v)]
    if isc(i) or True:
        if not isc(i) and f["open"] is None and f["d"] and not f["gen"]:
            # symbolic key into a concrete table
            mem = contains_(I, st, i, TUP(tuple(f["d"])))
            v = OP("lookup", b, i, t=_common(f["d"].values()))
            out = []
            for s, r in key_raise(I, st, b, o, i, node, ctx):
                out.append((s, r if r is not None else v))
            return out
        if f["open"] is not None:
            v = I.pol_key(st, f["open"], i) if hasattr(I, "pol_key") else None
            v = v or OP("hkey", f["open"], i, t=key_type(I, f["open"], i))
            return [(s, r if r is not None else v) for s, r in key_raise(I, st, b, o, i, node, ctx)]
        if f["gen"]:
            for k, v in f["gen"]:
                if k is i:
                    return [(st, v)]
            vals = tuple(dict.fromkeys([v for _, v in f["gen"]] + list(f["d"].values())))
            out = []
            for s, r in key_raise(I, st, b, o, i, node, ctx):
                if r is not None:
                    out.append((s, r))
                else:
                    out.extend(alternatives(I, s, vals, ("elem", b)))
            return out
    return [(st, R(EXC("KeyError", (i,)), I.loc(node, ctx)))]


def key_type(I, tmpl, i):
    kt = getattr(I.pol, "key_types", None)
    if kt and isc(i):
        return kt.get(cv(i), "any")
    return "any"


def key_raise(I, st, b, o, i, node, ctx):
    """missing key: uses the same atom as `key in d`"""
    atom = haskey(st, b, o, i)
    if atom is TRUE:
        return [(st, None)]
    got = I.decide(st, atom) if atom is not FALSE else False
    if got is True:
        return [(st, None)]
    r = R(EXC("KeyError", (i,)), I.loc(node, ctx))
    if got is False:
        return [(st, r)]
    if not I.handled("KeyError"):
        st.facts[atom] = True
        return [(st, None)]
    s2 = st.fork()
    s2.facts[atom] = False
    st.facts[atom] = True
    return [(st, None), (s2, r)]


def haskey(st, b, o, i):
    f = o.f
    if i in f["d"] and i not in f["maybe"]:
        return TRUE
    if f["open"] is None and not f["gen"] and isc(i) and i not in f["d"]:
        if all(isc(k) for k in f["d"]):
            return FALSE
    if not isc(i) and f["open"] is None and not f["gen"] and f["d"] and not f["maybe"] and all(isc(k) for k in f["d"]):
        return OP("in", i, TUP(tuple(sorted(f["d"]))), t="bool")
    return OP("haskey", f["open"] if f["open"] is not None else b, i, t="bool")


def _common(vals):
    ts = {v.t for v in vals}
    return ts.pop() if len(ts) == 1 else "any"


def scalar_index(st, i):
    if i.k == "c":
        return isinstance(cv(i), int) and not isinstance(cv(i), bool)
    return i.k in ("sym", "poly", "op") and i.t == "int"


def settled(st, i):
    """index arrays as they are now: NumPy copies what they select"""

    def one(p):
        if p.k == "ref" and p.a in st.heap and st.heap[p.a].kind in ("array", "list"):
            xs = small.positions(st, p, None)
            if isinstance(xs, list) and all(isc(x) and isinstance(cv(x), int) and not isinstance(cv(x), bool) for x in xs):
                return TUP(xs)
        return p

    if i.k == "tup":
        return TUP([one(p) for p in i.a])
    r = one(i)
    return i if r is i else TUP([r])


def array_getitem(I, st, b, o, i, node, ctx):
    f = o.f
    if I.pol.shapes:
        i = settled(st, i)
    parts = i.a if i.k == "tup" else (i,)
    if f.get("items") is not None and not f["stores"] and len(parts) == 1 and isc(i) and isinstance(cv(i), int):
        try:
            return [(st, f["items"][cv(i)])]
        except IndexError:
            return [(st, R(EXC("IndexError"), I.loc(node, ctx)))]
    out = []
    if I.pol.shapes:
        if all(not is_slice(p) and p.k not in ("ref", "tup") for p in parts):
            x = small.el(st, b, tuple(parts))
            if x is not None:
                return [(st, x)]
        elif len(parts) == 1:
            n = small.size(st, b)
            ps = small.positions(st, parts[0], n) if n is not None else None
            if isinstance(ps, list):
                xs = [small.el(st, b, (q,)) for q in ps]
                if None not in xs:
                    oid = st.alloc(I.site(node, ctx), Obj("array", dict(init="data", src=None, srcver=None, idx=None, stores=(), log=(), shape=NONE, elems=tuple(dict.fromkeys(xs)), items=tuple(xs), uninit_src=None, ndim=1, fillv=None, cast=f.get("cast"), of=None)))
                    return [(st, REF(oid, "ndarray"))]
    for s, r in I.may_raise(st, "IndexError", OP("aread", b, C(len(f["stores"])), i), node, ctx):
        if r is not None:
            out.append((s, r))
            continue
        # a list/array with concrete content selected by a concrete list of positions
        if f.get("elems") and not f["stores"] and len(parts) == 1 and scalar_index(s, i):
            out.extend(alternatives(I, s, f["elems"], ("elem", b)))
            continue
        if all(scalar_index(s, p) for p in parts) and (len(parts) > 1 or f.get("ndim") == 1):
            out.append((s, OP("aread", b, C(len(f["stores"])), i, t="num")))
            continue
        oid = s.alloc(
            I.site(node, ctx),
            Obj("array", dict(init=f["init"] if f["init"] == "uninit" else "data", src=b, srcver=C(len(f["stores"])), idx=i, stores=(), log=(), shape=NONE, elems=f.get("elems") if len(parts) == 1 else None, uninit_src=f.get("uninit_src"))),
        )
        out.append((s, REF(oid, "ndarray")))
    return out


def setitem(I, st, b, i, v, node, ctx, aug=None):
    i = st.known.get(i, i)
    if isop(b, "phi"):
        outs = []
        al = b.a[1:]
        for n, x in enumerate(al):
            s = st.fork() if n < len(al) - 1 else st
            outs.extend(setitem(I, s, x, i, v, node, ctx, aug))
        return outs
    if b.k == "ref":
        o = st.heap.get(b.a)
        if o is None:
            return [("next", st, None)]
        I.mutated(st, b, "setitem", node, ctx)
        if o.kind == "list":
            ob = st.mut(b.a)
            f = ob.f
            if f["items"] is not None and isc(i) and isinstance(cv(i), int):
                items = list(f["items"])
                try:
                    items[cv(i)] = v
                except IndexError:
                    return [("raise", st, R(EXC("IndexError"), I.loc(node, ctx)))]
                f["items"] = tuple(items)
                f["elems"] = tuple(dict.fromkeys(items))
            else:
                f["items"] = None
                f["elems"] = tuple(dict.fromkeys(f["elems"] + (v,)))[:24]
            f["log"] = f["log"] + (("set", i, v),)
            return [("next", st, None)]
        if o.kind == "dict":
            ob = st.mut(b.a)
            f = ob.f
            if isc(i) or i in f["d"] or i.k in ("ext", "cls"):
                d = dict(f["d"])
                d[i] = v
                f["d"] = d
                f["maybe"] = f["maybe"] - {i}
            else:
                f["gen"] = tuple(kv for kv in f["gen"] if kv[0] is not i)[:23] + ((i, v),)
            f["log"] = f["log"] + (("set", i, v),)
            I.emit(st, "dictset", (b.a, i, v), node, ctx)
            return [("next", st, None)]
        if o.kind == "ds":
            ob = st.mut(b.a)
            d = dict(ob.f["vars"])
            d[i] = v
            ob.f["vars"] = d
            ob.f["log"] = ob.f["log"] + (("set", i, v),)
            return [("next", st, None)]
        if o.kind == "array":
            out = []
            if I.pol.shapes:
                i = settled(st, i)
            for s, r in I.may_raise(st, "IndexError", OP("astore", b, i), node, ctx):
                if r is not None:
                    out.append(("raise", s, r))
                    continue
                ob = s.mut(b.a)
                ent = (i, v if aug is None else OP("aug", C(aug[0]), aug[1]))
                ob.f["stores"] = ob.f["stores"] + (ent,)
                ob.f["log"] = ob.f["log"] + (ent,)
                if full_index(i) and aug is None and ob.f["init"] == "uninit":
                    ob.f["init"] = "filled"
                # a basic-slice view writes through
                I.emit(s, "astore", (b.a, i, v, aug), node, ctx)
                out.append(("next", s, None))
            return out
        return [("next", st, None)]
    if b is NONE:
        return [("raise", st, R(EXC("TypeError"), I.loc(node, ctx)))]
    I.mutated(st, b, "setitem", node, ctx)
    return [("next", st, None)]


def full_index(i):
    if i.k == "c" and i.a[0] == "ellipsis":
        return True
    if is_slice(i):
        return all(x is NONE for x in i.a[1:])
    if i.k == "tup":
        return all(full_index(x) for x in i.a)
    return False


# ---------------------------------------------------------------- membership / equality specials
def compare_special(I, st, op, a, b):
    return None


def contains_(I, st, a, b):
    a = st.known.get(a, a)
    if b.k == "ref":
        o = st.heap.get(b.a)
        if o is None:
            return OP("in", a, b, t="bool")
        if o.kind == "dict":
            return haskey(st, b, o, a)
        if o.kind in ("list", "set"):
            if o.f["items"] is not None:
                return contains_(I, st, a, TUP(o.f["items"]))
            return OP("in", a, b, t="bool")
        if o.kind == "ds":
            if a in o.f["vars"] or a in o.f["coords"]:
                return TRUE
            return OP("in", a, b, t="bool")
        return OP("in", a, b, t="bool")
    if b.k == "c" and isinstance(cv(b), str):
        if isc(a):
            return C(cv(a) in cv(b)) if isinstance(cv(a), str) else FALSE
        return OP("in", a, b, t="bool")
    if b.k == "c" and isinstance(cv(b), tuple):
        return contains_(I, st, a, TUP([C(x) for x in cv(b)]))
    if b.k == "tup":
        items = b.a
        if not items:
            return FALSE
        if a in items:
            return TRUE
        rest = []
        for x in items:
            e = I.compare(st, "Eq", a, x)
            if e is TRUE:
                return TRUE
            if e is FALSE:
                continue
            d = st.facts.get(e)
            if d is True:
                return TRUE
            if d is False:
                continue
            rest.append(x)
        if not rest:
            return FALSE
        if len(rest) == 1:
            return I.compare(st, "Eq", a, rest[0])
        return OP("in", a, TUP(tuple(sorted(set(rest)))), t="bool")
    return OP("in", a, b, t="bool")


# ---------------------------------------------------------------- operators
def binop(I, st, op, a, b, node, ctx):
    a = st.known.get(a, a)
    b = st.known.get(b, b)
    if isc(a) and isc(b):
        x, y = cv(a), cv(b)
        try:
            r = {
                "Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y, "Div": lambda: x / y, "FloorDiv": lambda: x // y,
                "Mod": lambda: x % y, "Pow": lambda: x**y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                "LShift": lambda: x << y, "RShift": lambda: x >> y,
            }[op]()
            return [(st, C(r))]
        except (TypeError, KeyError, ValueError):
            if op == "Mod" and isinstance(x, str):
                return [(st, OP("fmt%", a, b, t="str"))]
            return [(st, R(EXC("TypeError"), I.loc(node, ctx)))]
        except ZeroDivisionError:
            return [(st, R(EXC("ZeroDivisionError"), I.loc(node, ctx)))]
    if isop(a, "phi") and any(x.k == "ref" for x in a.a[1:]):
        out = []
        for n, x in enumerate(a.a[1:]):
            out.extend(binop(I, st.fork() if n < len(a.a) - 2 else st, op, x, b, node, ctx))
        return out
    ta, tb = st.types.get(a, a.t), st.types.get(b, b.t)
    if a.k == "ref":
        ta = vtype(I, st, a)
    if b.k == "ref":
        tb = vtype(I, st, b)
    if op == "Add":
        if ta in ("str", "bytes") or tb in ("str", "bytes"):
            return [(st, concat([a, b]))]
        if ta == "list" or tb == "list":
            return list_concat(I, st, a, b, node, ctx)
        if ta == "tuple" or tb == "tuple":
            if a.k == "tup" and b.k == "tup":
                return [(st, TUP(a.a + b.a))]
            return [(st, OP("tupcat", a, b, t="tuple"))]
        if ta in ("datetime", "timedelta") or tb in ("datetime", "timedelta"):
            r = padd(a, b)
            t = "datetime" if "datetime" in (ta, tb) else "timedelta"
            return [(st, retype(r, t))]
    if op == "Sub":
        if ta in ("datetime", "timedelta") or tb in ("datetime", "timedelta"):
            t = "timedelta" if (ta == tb or ta == "timedelta") else ("datetime" if tb == "timedelta" else "any")
            return [(st, retype(psub(a, b), t))]
        if ta == "set" or tb == "set":
            return set_binop(I, st, "difference", a, b, node, ctx)
    if op in ("BitAnd", "BitOr", "BitXor") and ("set" in (ta, tb) or "dict" in (ta, tb)):
        if ta == "dict":
            r = st.new_dict(I.site(node, ctx))
            for x in (a, b):
                dict_update(I, st, r, x, node, ctx)
            return [(st, r)]
        return set_binop(I, st, {"BitAnd": "intersection", "BitOr": "union", "BitXor": "symmetric_difference"}[op], a, b, node, ctx)
    if op in ("BitAnd", "BitOr") and ta == "bool" and tb == "bool":
        return [(st, OP("and" if op == "BitAnd" else "or", a, b, t="bool"))]
    if op == "Mod" and ta == "str":
        return [(st, OP("fmt%", a, b, t="str"))]
    if op == "Mult":
        if ta == "str" or tb == "str":
            return [(st, OP("repeat", *((a, b) if ta == "str" else (b, a)), t="str"))]
        for x, y in ((a, b), (b, a)):
            if x.k == "ref" and vtype(I, st, x) == "list":
                f = st.heap[x.a].f
                if f["items"] is not None and isc(y) and len(f["items"]) * max(0, cv(y)) <= (400 if I.pol.shapes else 64):
                    return [(st, st.new_list(I.site(node, ctx), f["items"] * cv(y)))]
                r = st.new_list(I.site(node, ctx))
                ob = st.mut(r.a)
                ob.f.update(items=None, elems=f["elems"], len=pmul(f["len"], y))
                return [(st, r)]
            if x.k == "tup":
                if isc(y):
                    return [(st, TUP(x.a * cv(y)))]
                return [(st, OP("tuprep", x, y, t="tuple"))]
        if isnum(a) and isnum(b) or "timedelta" in (ta, tb):
            return [(st, retype(pmul(a, b), "timedelta") if "timedelta" in (ta, tb) else pmul(a, b))]
    if op == "Add" and isnum(a) and isnum(b):
        return [(st, padd(a, b))]
    if op == "Sub" and isnum(a) and isnum(b):
        return [(st, psub(a, b))]
    if op == "Div":
        if ta == "Path":
            return [(st, OP("join", a, b, t="Path"))]
        if ta == "any" and tb == "str":
            return [(st, OP("join", a, b, t="Path"))]
        if isc(b) and isinstance(cv(b), (int, float)) and cv(b) != 0 and isnum(a) and a.k != "c":
            x = pscale(a, 1.0 / cv(b)) if a.t != "int" else OP("div", a, b, t="num")
            return [(st, x)]
        return [(st, OP("div", a, b, t="ndarray" if "ndarray" in (ta, tb) else "num" if isnum(a) else "any"))]
    if op == "Pow":
        if isc(b) and isinstance(cv(b), int) and 0 < cv(b) <= 6 and isnum(a):
            r = a
            for _ in range(cv(b) - 1):
                r = pmul(r, a)
            return [(st, r)]
        return [(st, OP("pow", a, b, t=a.t))]
    if op == "FloorDiv" and is_int(a) and isc(b):
        return [(st, OP("floordiv", a, b, t="int"))]
    t = "int" if ta == tb == "int" and op in ("Mod", "FloorDiv", "BitAnd", "BitOr") else ("num" if op in ("Mod", "FloorDiv") and isnum(a) else "any")
    return [(st, OP(op.lower(), a, b, t=t))]


def retype(v, t):
    if v.k == "poly":
        return mk("poly", v.a, t)
    return v


def inplace(I, st, cur, opn, rhs, node, ctx):
    """a += b on arrays / datasets (in place on the whole object)"""
    o = st.heap[cur.a]
    I.mutated(st, cur, "inplace", node, ctx)
    ob = st.mut(cur.a)
    ent = (OP("sl", NONE, NONE, NONE, t="slice"), OP("aug", C(opn), rhs))
    if o.kind == "array":
        ob.f["stores"] = ob.f["stores"] + (ent,)
        ob.f["log"] = ob.f["log"] + (ent,)
        I.emit(st, "astore", (cur.a, ent[0], rhs, (opn, rhs)), node, ctx)
    else:
        ob.f["vars"] = {k: OP("aug", C(opn), rhs, v) for k, v in ob.f["vars"].items()}
        ob.f["log"] = ob.f["log"] + (ent,)
    return [(st, cur)]


# ---------------------------------------------------------------- lists / sets / dicts
def list_append(I, st, acc, v, node, ctx):
    o = st.heap[acc.a]
    I.mutated(st, acc, "append", node, ctx)
    ob = st.mut(acc.a)
    f = ob.f
    if o.kind == "set":
        if f["items"] is not None and (v in f["items"]):
            return [(st, NONE)]
        if f["items"] is not None and not (isc(v) or v.k == "tup" and all(isc(x) for x in v.a)) and f["items"]:
            f["items"] = None
    if f["items"] is not None:
        f["items"] = f["items"] + (v,)
        if len(f["items"]) > 200:
            f["items"] = None
    if v not in f["elems"]:
        f["elems"] = (f["elems"] + (v,))[:40]
    if o.kind == "set" and f["items"] is None:
        f["len"] = SYM(("setlen", acc.a), "int")
    else:
        f["len"] = padd(f["len"], C(1))
    if I.pol.shapes and o.kind == "list" and f["items"] is None:
        f["last"] = v
    f["log"] = f["log"] + (("add", v),)
    return [(st, NONE)]


def list_extend(I, st, acc, x, node, ctx):
    I.mutated(st, acc, "extend", node, ctx)
    items = concrete_items(I, st, x)
    if items is not None:
        cur = [(st, NONE)]
        for v in items:
            cur = [y for s, _ in cur for y in list_append(I, s, acc, v, node, ctx)]
        return cur
    ob = st.mut(acc.a)
    f = ob.f
    f["items"] = None
    if x.k == "ref" and st.heap[x.a].kind in ("list", "set"):
        xo = st.heap[x.a]
        f["elems"] = tuple(dict.fromkeys(f["elems"] + xo.f["elems"]))[:40]
        f["len"] = padd(f["len"], xo.f["len"])
        f["log"] = f["log"] + (("ext", xo.f["elems"], xo.f["len"]),)
        if xo.kind == "set" or xo.f.get("unord"):
            f["unord"] = True
    else:
        e = OP("elem", x, SYM("any", "int"))
        f["elems"] = tuple(dict.fromkeys(f["elems"] + (e,)))[:40]
        f["len"] = padd(f["len"], OP("len", x, t="int"))
        f["log"] = f["log"] + (("ext", (e,), OP("len", x, t="int")),)
    return [(st, NONE)]


def list_concat(I, st, a, b, node, ctx):
    r = st.new_list(I.site(node, ctx))
    list_extend(I, st, r, a, node, ctx)
    list_extend(I, st, r, b, node, ctx)
    ob = st.mut(r.a)
    ob.f["log"] = ()
    return [(st, r)]


def set_update(I, st, acc, x, node, ctx):
    I.mutated(st, acc, "update", node, ctx)
    if st.heap[acc.a].kind == "dict":
        dict_update(I, st, acc, x, node, ctx)
        return [(st, NONE)]
    return list_extend(I, st, acc, x, node, ctx)


def dict_update(I, st, acc, x, node, ctx):
    ob = st.mut(acc.a)
    d = dict(ob.f["d"])
    if x.k == "ref" and st.heap[x.a].kind == "dict":
        xo = st.heap[x.a]
        for k, v in xo.f["d"].items():
            d[k] = v
        ob.f["open"] = ob.f["open"] or xo.f["open"]
        ob.f["gen"] = tuple(dict.fromkeys(ob.f["gen"] + xo.f["gen"]))
    else:
        ob.f["open"] = OP("merged", x)
    ob.f["d"] = d
    ob.f["log"] = ob.f["log"] + (("update", x),)
    I.emit(st, "dictset", (acc.a, OP("update", x), x), node, ctx)


def set_binop(I, st, name, a, b, node, ctx):
    xa, xb = concrete_items(I, st, a), concrete_items(I, st, b)
    if xa is not None and xb is not None and all(isc(x) for x in xa + xb):
        if name == "intersection":
            r = [x for x in xa if x in xb]
        elif name == "union":
            r = list(dict.fromkeys(xa + xb))
        elif name == "difference":
            r = [x for x in xa if x not in xb]
        else:
            r = [x for x in xa if x not in xb] + [x for x in xb if x not in xa]
        return [(st, st.new_list(I.site(node, ctx), r, kind="set"))]
    return [(st, OP(name, a, b, t="set"))]


# ---------------------------------------------------------------- instances
def instantiate(I, st, qual, args, kw, node, ctx):
    c = I.p.classes[qual]
    if any(b.split(".")[-1] in ("Exception", "ValueError", "LookupError", "RuntimeError", "OSError", "KeyError", "TypeError", "NotImplementedError") or b in [x["name"] for x in I.p.classes.values() if "Error" in x["name"]] for b in c["bases"]):
        return [(st, EXC(qual, tuple(args)))]
    d = {}
    names = [f for f, _ in c["fields"]]
    oid = st.alloc(I.site(node, ctx), Obj("inst", dict(cls=qual, d=d, tuple=any("NamedTuple" in b for b in c["bases"]))))
    self = REF(oid, "inst")
    if "__init__" in c["ns"]:
        out = []
        for s, v in I.call(st, c["ns"]["__init__"], [self] + args, kw, node, ctx):
            out.append((s, v if isinstance(v, R) else self))
        return out
    for n, v in zip(names, args):
        d[n] = v
    d.update({k: v for k, v in kw.items()})
    for n, dv in c["fields"]:
        if n not in d:
            d[n] = _field_default(I, st, dv, node, ctx) if dv is not None else SYM(("field", qual, n))
    st.heap[oid] = Obj("inst", dict(cls=qual, d=d, tuple=any("NamedTuple" in b for b in c["bases"])))
    if "__post_init__" in c["ns"]:
        out = []
        for s, v in I.call(st, c["ns"]["__post_init__"], [self], {}, node, ctx):
            out.append((s, v if isinstance(v, R) else self))
        return out
    return [(st, self)]


def _field_default(I, st, dv, node, ctx):
    if isop(dv, "x:dataclasses.field"):
        for k, v in dv.a[-1]:
            if k == "default_factory":
                return ext_or_call(I, st, v, node, ctx)
            if k == "default":
                return v
    return dv


def ext_or_call(I, st, f, node, ctx):
    r = I.call(st, f, [], {}, node, ctx)
    return r[0][1]


from .models_calls import method, ext_call  # noqa: E402
