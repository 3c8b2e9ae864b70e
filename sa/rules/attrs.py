"""The attributes of the datasets the readers return, for files whose header is known and whose values are not."""
from .navcells import *
from .cells import node_of as obs_node, SYS3
from ..skel import *
from ..skel import skel_policy
from ..models import phi
from ..state import Obj
from ..scen import obs2 as info2, obs3 as info3, PATH


def head(version, letter, types, tfo="GPS", extra=()):
    L = (head2 if version == 2 else head3)(types, letter, extra)
    out = []
    for x in L:
        if "TIME OF FIRST OBS" in x[60:]:
            if tfo is None:
                continue
            x = x[:48] + f"{tfo:3s}" + x[51:]
        out.append(x)
    return out


class Result:
    def __init__(self, st, attrs, maybe, n):
        self.st, self.attrs, self.maybe, self.n = st, attrs, maybe, n


def attrs_of(st, ds):
    a = ds.f["attrs"]
    if isinstance(a, V) and isop(a, "phi"):
        got = [attrs_of(st, Obj("ds", dict(attrs=y))) for y in alts(a)]
        keys = {k for d, _ in got for k in d}
        return {k: phi([d[k] for d, _ in got if k in d]) for k in keys}, {k for k in keys if any(k in m or k not in d for d, m in got)}
    if a is None or a is NONE:
        return {}, ()
    if not isinstance(a, V) or a.k != "ref" or st.heap[a.a].kind != "dict":
        raise AnalysisError("the attributes of a result are not known")
    d = st.heap[a.a]
    if d.f["open"] is not None or d.f["gen"]:
        raise AnalysisError("the attributes of a result are not known")
    return {(cv(k) if isc(k) else k): v for k, v in d.f["d"].items()}, {cv(k) for k in d.f["maybe"] if isc(k)}


def results(r, fn):
    out, exc = [], []
    for k, st, val in r.res:
        if k == "raise":
            exc.append((val.exc.a[0], val.loc))
            continue
        for y in alts(val):
            if k != "return" or y.k != "ref" or st.heap[y.a].kind != "ds":
                raise AnalysisError(f"{fn} returns {show(y)[:60]}")
            a, m = attrs_of(st, st.heap[y.a])
            out.append(Result(st, a, m, len(st.heap[y.a].f["vars"])))
    return out, exc


def obs(prog, R, version, letter, lines, names, types, kw=None, missing=(), fast=True, arg=PATH):
    """results and exceptions of reading a file with this header and records of these satellites"""
    rec = rec2(names, len(types))[0] if version == 2 else rec3(names, {k: len(v) for k, v in types.items()})[0]
    node = obs_node(prog, ("obs2:fast" if fast else "obs2:strict") if version == 2 else "obs3")
    pol = skel_policy((info2 if version == 2 else info3)(letter), lines, node, f"obs{version}", rec)
    pol.missing = frozenset(missing)
    kws = dict(kw or {})
    if version == 2:
        kws["fast"] = C(fast)
    r = Run(prog, f"obs{version}", f"rinexobs{version}", [arg], kws, pol)
    R.used(r.I)
    return results(r, f"rinexobs{version}")


def nav(prog, R, v, t, extra=(), arg=PATH):
    sysl = {"N": "G", "G": "R", "E": "E"}[t] if v == 2 else t
    node = node_of(prog, v, t if v == 2 else "M")
    info, h = (nav3("M"), navhead("3.04", "M")) if v == 3 else (nav2(t), navhead("2.11", t))
    h = h[:-1] + list(extra) + h[-1:]
    pol = skel_policy(info, h, node, f"nav{v}", record(v, t, len(ORDER[sysl]), LINES.get(sysl, 7), 0), peel="for")
    r = Run(prog, f"nav{v}", f"rinexnav{v}", [arg], {}, pol)
    R.used(r.I)
    return results(r, f"rinexnav{v}")


def alts(v):
    return [y for a in v.a[1:] for y in alts(a)] if isop(v, "phi") else [v]


def kind(st, v):
    """name of a type NetCDF cannot store, None when it can"""
    for y in alts(v):
        if isc(y) and (y is NONE or isinstance(cv(y), bool)):
            return "None" if y is NONE else "bool"
        if y.t == "bool" or y.t in ("dict", "set", "datetime", "timedelta"):
            return y.t
        if y.k == "op" and y.a[0] in ("datetime", "td", "timedelta"):
            return y.a[0]
        if y.k == "ref" and y.a in st.heap and st.heap[y.a].kind in ("dict", "set", "ds"):
            return st.heap[y.a].kind
    return None


def number(v, x):
    if any(y.k == "ext" or contains(y, lambda z: z is IV) for y in alts(v)):
        return False
    if not all(isc(y) for y in alts(v)):
        return None
    return all(isc(y) and isinstance(cv(y), (int, float)) and not isinstance(cv(y), bool) and cv(y) == x for y in alts(v))


def triple(st, v, want):
    if v.k == "ref" and st.heap[v.a].kind == "list":
        it = st.heap[v.a].f["items"]
    elif v.k == "tup":
        it = v.a
    else:
        it = small.known(st, v)
    if it is None:
        return None
    if not all(isc(x) for x in it):
        return None
    return [cv(x) for x in it] == want
