"""C13: results do not depend on the order of sets, the clock, random numbers, the environment or the process."""
import ast
from .attrs import *
from . import c24
from .c30 import data, build, PLAIN, types2, types3, corr, iono as iono_
from ..models_calls import NONDET
from ..scen import nav2 as info_nav2, nav3 as info_nav3


def moved(lines, base):
    """the marks of a record made those of lines further down"""
    return ["".join(chr(ord(c) + base * W) if ord(c) >= 0xF0000 else c for c in x) for x in lines]


def obs_text(version, epochs, types):
    out = []
    for m, names in epochs:
        rec = rec2(names, len(types))[0] if version == 2 else rec3(names, {k: len(v) for k, v in types.items()})[0]
        x = moved([rec[j] for j in sorted(rec)], len(out))
        x[0] = over(x[0], 13 if version == 2 else 16, f"{m:2d}" if version == 2 else f"{m:02d}")
        out += x
    return out


def nav_text(v, recs, t):
    out = []
    for m, s in recs:
        sysl = {"N": "G", "G": "R", "E": "E"}[t] if v == 2 else s[0]
        rec = record(v, s[0] if v == 3 else t, len(ORDER[sysl]), LINES.get(sysl, 7), 0)
        x = moved([rec[j] for j in sorted(rec)], len(out))
        x[0] = over(x[0], 0, s if v == 3 else f"{int(s[1:]):2d}")
        x[0] = over(x[0], 18, f"{m:02d}") if v == 3 else over(x[0], 15, f"{m:2d}")
        out += x
    return out


def policy(info, h, mod, text, **k):
    return skel_policy(info, h, None, mod, dict(enumerate(text)), whole=True, max_steps=4000000, oracle=usual, **k)


class Canon:
    """what a value is, independent of the identity of the objects it is made of"""

    def __init__(self, st, loose=False):
        self.st, self.seen, self.loose = st, {}, loose

    def of(self, v):
        if isinstance(v, V):
            if v.k == "ref":
                return self.obj(v.a)
            if v.k == "op" and v.a[0] == "phi":
                return ("phi", frozenset(self.of(x) for x in v.a[1:]))
            if v.k in ("op", "tup", "bound", "exc"):
                return (v.k,) + tuple(self.of(x) for x in v.a)
            if v.k == "poly":
                return ("poly", frozenset((tuple(self.of(y) for y in m), c) for m, c in poly_of(v).items()))
            return (v.k, v.a)
        if isinstance(v, (tuple, list)):
            return tuple(self.of(x) for x in v)
        if isinstance(v, (set, frozenset)):
            return frozenset(self.of(x) for x in v)
        if isinstance(v, dict):
            return tuple((self.of(a), self.of(b)) for a, b in v.items())
        return v

    def obj(self, oid):
        if oid in self.seen:
            return ("#", self.seen[oid])
        self.seen[oid] = len(self.seen)
        o = self.st.heap.get(oid)
        if o is None:
            return ("gone",)
        skip = {"log", "last", "reads", "srcver", "handle"}
        if o.kind == "ds":
            skip |= {"parents", "how", "varsrc", "coordsrc", "src"}  # the order datasets are merged in shows in the variables
        if o.kind == "set" and o.f["items"] is not None:
            return ("set", frozenset(self.of(x) for x in o.f["items"]))
        return (o.kind,) + tuple((n, self.of(x)) for n, x in sorted(o.f.items()) if n not in skip and not (self.loose and n in ("stores", "idx")))


def nondet(v):
    if v.k == "op" and isinstance(v.a[0], str) and v.a[0].startswith("x:"):
        d = v.a[0][2:]
        return any(d == p or p.endswith(".") and d.startswith(p) or d.startswith(p + ".") for p in NONDET)
    return isop(v, "id") or isop(v, "hash")


def tainted(st, val):
    """terms of the result that stand for the clock, the environment, random numbers or the process"""
    out = []

    def look(x):
        if isinstance(x, V):
            if contains(x, nondet):
                out.append(next(y for y in subterms(x) if nondet(y)))
        elif isinstance(x, (tuple, list, set, frozenset)):
            for y in x:
                look(y)
        elif isinstance(x, dict):
            for a, b in x.items():
                look(a), look(b)

    look(val)
    for oid in reach(st, [val]):
        o = st.heap.get(oid)
        if o is not None:
            for n, x in o.f.items():
                if n not in ("log", "reads"):
                    look(x)
    return out


def what(v):
    return v.a[0][2:] if v.a[0].startswith("x:") else v.a[0]


def outcomes(r, loose=False):
    return [(st, val, Canon(st, loose).of(val)) for k, st, val in r.res if k == "return"]


def usual(st, a):
    """enough memory; a dataset with variables is not empty"""
    if a.a[0] == "lt0" and contains(a, lambda y: isop(y) and isinstance(y.a[0], str) and "virtual_memory" in y.a[0]):
        return False
    if a.a[0] == "lt0" and contains(a, lambda y: isop(y, "len")):
        for y in subterms(a):
            if isop(y, "len") and isop(y.a[1], "attr") and y.a[1].a[2] in ("variables", "data_vars") and y.a[1].a[1].k == "ref" and st.heap[y.a[1].a[1].a].kind == "ds" and st.heap[y.a[1].a[1].a].f["vars"] and a.a[1] is padd(y, C(-1)):
                return False
    if a.a[0] == "in" and a.a[1] is C("time"):
        return True
    return None


def differ(a, b, path=""):
    """first place two canonical values differ in"""
    if type(a) is not type(b) or not isinstance(a, tuple):
        return None if a == b else path or "the value"
    if len(a) != len(b):
        return path or "the number of items"
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and x[0] == (y[0] if isinstance(y, tuple) and y else None):
                return differ(x[1], y[1], x[0])
            return differ(x, y, path)
    return None


def sources(R, q, where, r):
    bad, open_, n = [], [], 0
    outs = outcomes(r)
    for st, val, c in outs:
        v = val if isinstance(val, V) else None
        t = tainted(st, v) if v is not None else []
        if t:
            bad.append(what(t[0]))
    atoms = {}
    for st, val, c in outs:
        for a, b in st.facts.items():
            if contains(a, nondet):
                atoms.setdefault(a, {}).setdefault(b, set()).add(c)
        n += sum(1 for e in st.events() if e[0] == "nondet")
    for a, by in atoms.items():
        if len(by) == 2 and by[True] != by[False]:
            (bad if not by[True] & by[False] else open_).append(what(next(y for y in subterms(a) if nondet(y))) + " (by a decision)")
    R.ob("sources", q, False if bad else None if open_ or not outs else True, where, f"the result depends on {(bad or open_)[0]}" if bad or open_ else f"{len(outs)} outcomes")


def orders(R, q, where, runs):
    outs = [outcomes(r) for r in runs]
    if not all(outs):
        return R.ob("order", q, None, where, "nothing is returned")
    sets = [{c for st, v, c in o} for o in outs]
    if sets[0] == sets[1]:
        return R.ob("order", q, True, where, f"{len(sets[0])} outcomes")
    sets = [{c for st, v, c in outcomes(r, True)} for r in runs]
    a, b = [sorted(s - t, key=repr) for s, t in (sets, sets[::-1])]
    d = differ(a[0], b[0]) if a and b else "the outcomes"
    R.ob("order", q, None if sets[0] & sets[1] else False, where, f"{d} depends on the order a set is iterated in")


def case(R, prog, name, mod, fn, args, kw, mk):
    runs = []
    for rev in (1, 2):
        pol = mk()
        pol.rev_sets = rev
        r = Run(prog, mod, fn, args, dict(kw), pol)
        R.used(r.I)
        runs.append(r)
    where = f"{mod}.{fn}"
    R.guard("order", name, orders, R, name, where, runs)
    R.guard("sources", name, sources, R, name, where, runs[0])


def jobs():
    G = ["G05", "R03", "E11", "G07"]
    epochs = [(0, G), (1, ["R03", "G05"]), (2, ["E11", "G30", "R04"])]
    ty2 = ["C1", "L1", "S1"]
    ty3 = {"G": ["C1C", "L1C"], "R": ["C1C", "S1C", "L2P"], "E": ["C1X", "L5X"]}
    uses = [None, {"G", "R", "E"}, {"R", "E"}, ["R", "G"]]
    for fast in (True, False):
        for use in uses:
            for kw in ({}, dict(meas=["L", "C"]), dict(useindicators=TRUE)):
                if kw and use != uses[1]:
                    continue
                k = dict(kw, fast=C(fast), **({} if use is None else {"use": use}))
                yield f"OBS 2 {'fast' if fast else 'strict'}, use {sorted(use) if use else 'all'}{''.join(', ' + x for x in kw)}", "obs2", "rinexobs2", [PATH], k, lambda: policy(info2("M"), head(2, "M", ty2), "obs2", obs_text(2, epochs, ty2))
    for use in uses:
        for kw in ({}, dict(meas=["L", "C"]), dict(useindicators=TRUE)):
            k = dict(kw, **({} if use is None else {"use": use}))
            yield f"OBS 3, use {sorted(use) if use else 'all'}{''.join(', ' + x for x in kw)}", "obs3", "rinexobs3", [PATH], k, lambda: policy(info3("M"), head(3, "M", ty3), "obs3", obs_text(3, epochs, ty3))
    recs = [(0, "G05"), (0, "R03"), (1, "E11"), (1, "G07"), (2, "G05"), (2, "R03"), (2, "C20")]
    for use in (None, {"G", "R"}, {"E"}, ["G", "C"]):
        yield f"NAV 3, use {sorted(use) if use else 'all'}", "nav3", "rinexnav3", [PATH], ({} if use is None else {"use": use}), lambda: policy(info_nav3("M"), navhead("3.04", "M"), "nav3", nav_text(3, recs, None))
    for t in "NGE":
        yield f"NAV 2 {t}", "nav2", "rinexnav2", [PATH], {}, lambda t=t: policy(info_nav2(t), navhead("2.11", t), "nav2", nav_text(2, [(0, "G05"), (0, "G07"), (1, "G05"), (1, "G11"), (2, "G07")], t))
    for q in c24.SHAPES:

        def mk(q=q):
            names, recs = c24.SHAPES[q]
            rec, times, at = c24.lines(names, recs)
            return skel_policy({}, c24.header(names), None, "sp3", dict(enumerate(rec)), whole=True, oracle=usual)

        yield f"SP3 {q}", "sp3", "load_sp3", [PATH, NONE], {}, mk


def headers():
    no_nc = lambda st, a: False if isop(a, "eq") and C(".nc") in a.a[1:] else None
    t3 = {"G": ["C1C", "L1C"], "R": ["C1C", "S1C", "L2P"], "E": ["C1X", "L5X"]}
    iono = ["LEAP SECONDS", *(corr(k, "IONOSPHERIC CORR", iono_(k)) for k in ("GPSA", "GPSB", "GAL")), "MARKER NAME"]
    for kind, v, info, items in (("obs", 2, info2("M"), PLAIN + types2(12)), ("obs", 3, info3("M"), PLAIN + types3(t3)), ("nav", 2, info_nav2("N"), ["ION ALPHA", "ION BETA"]), ("nav", 3, info_nav3("M"), iono)):
        L = build(v, kind, items)
        text = L + data(len(L))
        for mod, fn in (("utils", "rinexheader"),) + ((("utils", "gettime"),) if kind == "nav" and v == 3 else ()):
            if fn == "gettime":
                text = L + nav_text(3, [(0, "G05"), (0, "R03"), (1, "E11"), (2, "G05")], None)
            yield f"{fn} {kind.upper()} {v}", mod, fn, [PATH], {}, lambda info=info, kind=kind, v=v, text=tuple(text): skel_policy(dict(info, version=C(float(v))), [], None, kind + str(v), dict(enumerate(text)), whole=True, oracle=no_nc)


def check(prog, R, tier):
    R.rule("order", "the result is the same whatever order sets are iterated in", 20)
    R.rule("sources", "neither the result nor a decision it depends on comes from the clock, random numbers, the environment or the process", 20)
    R.parallel([(lambda R, *j: R.guard("order", j[0], case, R, prog, *j), *j) for j in [*jobs(), *headers()]])
