"""Which columns of a record reach which cell of the result (C05, C25, C26).

Every column of the lines of a record carries its own label; the interpretation of the record loop's body says
for each cell of the result which columns it is parsed from. The header, the satellite list and which fields are
blank are fixed per shape; where the record stands in the file, what was read before it and what its fields hold
are not."""
from .records import *
from ..skel import *
from ..loader import AnalysisError
from datetime import datetime

WHEN = datetime(2020, 1, 1)


_found = {}


def node_of(prog, name):
    """the record loop of a reader"""
    k = (id(prog), name)
    if k not in _found:
        if name == "obs3":
            r = Run(prog, "obs3", "rinexobs3", [PATH], {}, skel_policy(obs3("M"), head3({"G": ["C1C"]}), None, "obs3"))
        else:
            r = Run(prog, "obs2", "rinexsystem2", [PATH, C("G")], dict(fast=C(name.endswith("fast"))), skel_policy(obs2("M"), head2(["C1"]), None, "obs2"))
        ns = [x.node for x in r.loops if stop_at_records(x)]
        if not ns:
            raise AnalysisError(f"record loop of {name} not found")
        _found[k] = ns[-1]
    return _found[k]


def sel(types, meas):
    """observables a selection asks for"""
    if isinstance(meas, str):
        meas = [meas]
    if not meas or not meas[0].strip():
        return list(types)
    return [t for t in types if any(t.startswith(m) for m in meas)]


def expected(fields, types, indicators, version):
    """variable -> (column of its first character behind the satellite's first, width)"""
    out = {}
    for f in fields:
        a = 16 * types.index(f)
        out[f] = (a, 14)
        if indicators and not (version == 2 and f.startswith("S")):
            if f.startswith("L"):
                out[f + "lli"] = (a + 14, 1)
            out[f + "ssi"] = (a + 15, 1)
    return out


class Shape:
    def __init__(self, name, types, names, meas=None, ind=False, fast=False, blank=(), interval=False, system="G", use=None, limits=False):
        self.name, self.types, self.names, self.meas, self.ind, self.fast = name, types, names, meas, ind, fast
        self.blank, self.interval, self.system, self.use, self.limits = blank, interval, system, use, limits

    def kw(self, **more):
        kw = dict(useindicators=C(self.ind), **more)
        if self.meas is not None:
            kw["meas"] = self.meas if isinstance(self.meas, list) else TUP([C(m) for m in self.meas]) if isinstance(self.meas, tuple) else C(self.meas)
        if self.interval:
            kw["interval"] = IV
        if self.limits:
            kw["tlim"] = TUP([LO, HI])
        return kw


class Keep:
    """what one path of the record loop stores"""

    def __init__(self, where):
        self.where = where
        self.cells = {}  # (variable, label) -> text it is parsed from | "nan" | None
        self.vars = set()
        self.labels = []
        self.time = None  # True: filed under the record's time; False; None: not known
        self.why = ""
        self.row = None  # (frame, variable) that holds the row of an OBS 2 record


def read(T, c):
    x = cellval(T, c)
    return x.text if isinstance(x, Cell) else x


# ------------------------------------------------------------------ RINEX 2
def obs2_keeps(prog, R, sh):
    """([Keep], variables of the result or None, reason)"""
    node = node_of(prog, "obs2:fast" if sh.fast else "obs2:strict")
    rec, first = rec2(sh.names, len(sh.types), sh.blank)
    pol = skel_policy(obs2("M"), head2(sh.types), node, "obs2", rec)
    r = Run(prog, "obs2", "rinexsystem2", [PATH, C(sh.system)], sh.kw(fast=C(sh.fast)), pol)
    R.used(r.I)
    outs = [(s, v) for k, s, v in r.res if k == "return" and v.k == "ref" and s.heap[v.a].kind == "ds" and s.heap[v.a].f["vars"]]
    if not outs:
        return [], None, "no returned dataset with known variables"
    names = {frozenset(map(show, s.heap[v.a].f["vars"])) for s, v in outs}
    if len(names) != 1 or any(s.heap[v.a].f.get("open") for s, v in outs):
        return [], None, "the variables of the result are not the same on every path"
    st, v = outs[-1]
    ds = st.heap[v.a]
    labels = small.known(st, ds.f["coords"].get(C("sv"), NONE))
    if labels is None or not all(isc(x) for x in labels):
        return [], None, "the satellite labels are not known"
    labels = [cv(x) for x in labels]
    arrays = {}
    for k, x in ds.f["vars"].items():
        if not isc(k):
            return [], None, "a variable's name is not known"
        if x.k != "tup" or len(x.a) < 2 or x.a[0].k != "tup":
            return [], set(map(cv, ds.f["vars"])), "no dimensions"
        dims = [cv(d) if isc(d) else None for d in x.a[0].a]
        if set(dims) != {"time", "sv"}:
            return [], None, f"dimensions {dims}"
        ro = root(st, x.a[1], tuple(TT if d == "time" else SS for d in dims))
        if ro is None or ro[0].k != "ref" or TT not in ro[1] or SS not in ro[1]:
            arrays[cv(k)] = None
        else:
            arrays[cv(k)] = ro
    tv = ds.f["coords"].get(C("time"), NONE)
    tbase = root(st, tv, (TT,)) if tv.k == "ref" else None
    keeps = []
    for x in r.loops:
        if x.node is not node:
            continue
        for i, k, s, val in x.paths:
            if k not in ("next", "continue") or s.tags:
                continue
            ks = keep2(pol, x, i, s, arrays, labels, tbase, sh)
            if ks is not None:
                keeps.append(ks)
    return keeps, set(arrays), "" if keeps else refused(r, node)


def refused(r, node):
    """why a record leaves nothing: every path over it raises, or not known"""
    ps = [(k, v) for x in r.loops if x.node is node for i, k, s, v in x.paths]
    if ps and all(k == "raise" for k, v in ps):
        return "raises " + ", ".join(sorted({f"{v.exc.a[0]} at {v.loc}" for k, v in ps}))
    return "no path stores anything"


def new_stores(x, i, s, oid):
    o = s.heap.get(oid)
    h = x.heads[i].heap.get(oid)
    if o is None:
        return None
    n = len(h.f["stores"]) if h is not None else 0
    return list(o.f["stores"][n:])


def keep2(pol, x, i, s, arrays, labels, tbase, sh):
    kp = Keep(pol.mod)
    kp.vars = set(arrays)
    kp.labels = labels
    rows = set()
    for f, ro in arrays.items():
        if ro is None:
            continue
        base, idx = ro
        for a, b in new_stores(x, i, s, base.a) or ():
            parts = list(a.a) if a.k == "tup" else [a]
            d = idx.index(TT)
            if d < len(parts):
                rows.add(parts[d])
    if not rows:
        return None
    if len(rows) > 1:
        kp.why = "values of one record are stored in rows " + ", ".join(sorted(show(y) for y in rows))
        ds = {cv(psub(y, next(iter(rows)))) if isc(psub(y, next(iter(rows)))) else None for y in rows}
        kp.time = None if None in ds else False
        return kp
    J = rows.pop()
    for f, ro in arrays.items():
        for n, lab in enumerate(labels):
            c = None
            if ro is not None:
                base, idx = ro
                c = small.el(s, base, tuple(J if y is TT else C(n) if y is SS else y for y in idx))
            kp.cells[(f, lab)] = read(pol.text, c)
    row2(pol, x, i, s, J, tbase, kp, sh)
    return kp


def row2(pol, x, i, s, J, tbase, kp, sh):
    """the row is a new one for every record, and the time stored with it is the record's"""
    if isc(J):
        if cv(J) != 0:
            kp.time, kp.why = None, f"row {show(J)}"
            return
    else:
        d = poly_of(J)
        c = d.pop((), 0)
        (m, k), = d.items() if len(d) == 1 else ((None, 0),)
        if k != 1 or len(m) != 1:
            kp.why = f"row {show(J)}"
            return
        mu = m[0]
        h = x.heads[i]
        var = [(fi, n) for fi, fr in enumerate(h.frames) for n, y in fr.items() if y is mu]
        if not var:
            kp.why = f"row {show(J)} is not held in a variable"
            return
        fi, n = kp.row = var[0]
        start = x.pre.frames[fi].get(n) if x.pre is not None else None
        if start is not None and not sh.fast and not sh.interval:
            b = padd(start, C(c))
            if b is not C(0):
                kp.time, kp.why = (False if isc(b) else None), f"the first record is stored in row {show(b)}"
                return
        step = psub(s.frames[fi].get(n, NONE), mu) if s.frames[fi].get(n) is not None else None
        if step is None or not isc(step):
            kp.why = f"the row advances by {show(step) if step is not None else '?'}"
            return
        if cv(step) != 1:
            kp.time, kp.why = False, f"the row of the values advances by {cv(step)} for one record"
            return
    times = []
    if tbase is not None and tbase[0].k == "ref":
        for a, b in new_stores(x, i, s, tbase[0].a) or ():
            times.append((a, b))
    if not times:
        if sh.fast or sh.interval:
            kp.time, kp.why = (False, "values are stored and their time is not") if tbase is not None else (None, "the times are not an array")
        else:
            kp.time = True  # the times come from the scan, row by row (C28)
        return
    for a, b in times:
        p = a.a[0] if a.k == "tup" and len(a.a) == 1 else a
        same = small.same(p, J)
        if same is not True:
            kp.time, kp.why = (False if same is False else None), f"the values are stored in row {show(J)}, their time in row {show(p)}"
            return
        try:
            w = pol.text.ev(b)
        except (Unknown, Raises):
            kp.why = f"time {show(b)[:80]}"
            return
        if w != WHEN:
            kp.time, kp.why = False, f"the time stored is {show(b)[:80]}"
            return
    kp.time = True


def empty2(prog, R, sh, row):
    """(holds, why) for an epoch without a satellite of the system: it takes a row when the times are scanned beforehand"""
    node = node_of(prog, "obs2:strict")
    other = [n for n in ("R03", "R07", "R11")] if sh.system != "R" else ["G03", "G07", "G11"]
    rec, first = rec2(other, len(sh.types), ())
    pol = skel_policy(obs2("M"), head2(sh.types), node, "obs2", rec)
    r = Run(prog, "obs2", "rinexsystem2", [PATH, C(sh.system)], sh.kw(fast=C(False)), pol)
    R.used(r.I)
    fi, n = row
    seen = 0
    for x in r.loops:
        if x.node is not node:
            continue
        for i, k, s, val in x.paths:
            if k not in ("next", "continue") or s.tags:
                continue
            a, b = x.heads[i].frames[fi].get(n), s.frames[fi].get(n)
            d = psub(b, a) if a is not None and b is not None else None
            if d is None or not isc(d):
                return None, f"the row advances by {show(d) if d is not None else '?'} over an epoch without satellites of the system"
            if cv(d) != 1:
                return False, f"the row advances by {cv(d)} over an epoch without satellites of the system, the scanned times by 1"
            seen += 1
    return (True, "") if seen else (None, refused(r, node))


# ------------------------------------------------------------------ RINEX 3
def obs3_keeps(prog, R, sh):
    node = node_of(prog, "obs3")
    nobs = {k: len(v) for k, v in sh.types.items()}
    rec, first = rec3(sh.names, nobs, sh.blank)
    pol = skel_policy(obs3("M"), head3(sh.types), node, "obs3", rec)
    kw = sh.kw()
    if sh.use:
        kw["use"] = sh.use if isinstance(sh.use, list) else C(sh.use)
    r = Run(prog, "obs3", "rinexobs3", [PATH], kw, pol)
    R.used(r.I)
    keeps = []
    for x in r.loops:
        if x.node is not node:
            continue
        for i, k, s, val in x.paths:
            if k not in ("next", "continue") or any("ValueError" in t for t in s.tags if isinstance(t, tuple)) and not s.heap:
                continue
            kp = keep3(pol, x, i, s)
            if kp is not None:
                keeps.append(kp)
    return keeps, "" if keeps else refused(r, node)


def ancestors(s, oid, seen):
    o = s.heap.get(oid)
    if oid in seen or o is None or o.kind != "ds":
        return
    seen.add(oid)
    for p in o.f["parents"]:
        for q in vrefs(p):
            ancestors(s, q, seen)


def keep3(pol, x, i, s):
    old = x.heads[i].heap
    new = {oid: o for oid, o in s.heap.items() if o.kind == "ds" and oid not in old and o.f.get("how") == ("Dataset",) and C("sv") in o.f["coords"]}
    if not new:
        return None
    live = set()
    for fr, fh in zip(s.frames, x.heads[i].frames):
        for n, v in fr.items():
            if isinstance(v, V) and v.k == "ref" and fh.get(n) is not v:
                ancestors(s, v.a, live)
    kp = Keep(pol.mod)
    ok = True
    for oid in live:
        o = s.heap[oid]
        how = o.f.get("how")
        if oid in old or not how or how[0] not in ("concat", "merge", "combine_by_coords", "align", "combine_first", "update"):
            continue
        kws = dict(next((y for y in reversed(how) if isinstance(y, tuple) and y and isinstance(y[0], tuple)), ()))
        j = kws.get("join", C("outer"))
        if j is not C("outer"):
            kp.why, ok = f"epochs are combined by {how[0]} with join={show(j)}: their satellites are not aligned by label", False if isc(j) else None
    for oid, o in new.items():
        sv = o.f["coords"][C("sv")]
        tm = o.f["coords"].get(C("time"))
        names = small.known(s, sv) if sv.k in ("ref", "tup") else None
        tt = small.known(s, tm) if tm is not None and tm.k in ("ref", "tup") else None
        if names is None or not all(isc(n) for n in names):
            if ok is not False:
                kp.why, ok = "the satellite labels of an epoch are not known", None
            continue
        if oid not in live:
            if ok is not False:
                kp.why, ok = "values of an epoch do not reach the result", None
            continue
        if tt is None or len(tt) != 1:
            if ok is not False:
                kp.why, ok = "the time of an epoch is not known", None
        else:
            try:
                w = pol.text.ev(tt[0])
                if w != WHEN and ok is not None:
                    kp.why, ok = f"the time of the values is {show(tt[0])[:80]}", False
            except (Unknown, Raises):
                if ok is not False:
                    kp.why, ok = f"time {show(tt[0])[:80]}", None
        names = [cv(n) for n in names]
        kp.labels += [n for n in names if n not in kp.labels]
        for k, v in o.f["vars"].items():
            if not isc(k):
                if ok is not False:
                    kp.why, ok = "a variable's name is not known", None
                continue
            kp.vars.add(cv(k))
            dims = [cv(d) if isc(d) else None for d in v.a[0].a] if v.k == "tup" and len(v.a) >= 2 and v.a[0].k == "tup" else None
            for n, lab in enumerate(names):
                c = None
                if dims is not None and set(dims) == {"time", "sv"}:
                    c = small.el(s, v.a[1], tuple(C(0) if d == "time" else C(n) for d in dims))
                elif dims == ["sv"]:
                    c = small.el(s, v.a[1], (C(n),))
                got = read(pol.text, c)
                key = (cv(k), lab)
                if kp.cells.get(key, "nan") == "nan":
                    kp.cells[key] = got
    kp.time = ok
    return kp


# ------------------------------------------------------------------ judging
def keeps(prog, R, version, sh):
    if version == 2:
        ks, names, why = obs2_keeps(prog, R, sh)
    else:
        ks, why = obs3_keeps(prog, R, sh)
    return ks, why


def lines_of(version, sh, i):
    """lines of the record that hold satellite i"""
    if version == 3:
        return [i + 1]
    n = -(-len(sh.types) // 5)
    first = -(-len(sh.names) // 12) + i * n
    return list(range(first, first + n))


def place(version, sh, i, a, w):
    """the labelled columns of a field of satellite i: [(line, from, to)], or 'nan' when it is blank"""
    for q, x, y in sh.blank:
        if q == i and x <= a and a + w <= y:
            return "nan"
    if version == 3:
        return [(i + 1, 3 + a, 3 + a + w)]
    return [(lines_of(2, sh, i)[0] + a // 80, a % 80, a % 80 + w)]


def label(version, name, system):
    """label of a satellite as the record writes it"""
    return ("G" + name[1:] if name[0] == " " else name).replace(" ", "0")


def types_for(sh, lab):
    return sh.types if isinstance(sh.types, list) else sh.types.get(lab[0], [])


def used(version, sh):
    """(number of the satellite in the record, label) of the satellites the read keeps"""
    out = []
    for i, n in enumerate(sh.names):
        lab = label(version, n, sh.system)
        if version == 2 and lab[0] != sh.system or version == 3 and (lab[0] not in sh.types or sh.use and lab[0] not in sh.use):
            continue
        out.append((i, lab))
    return out


def is_indicator(v, sh):
    ts = sh.types if isinstance(sh.types, list) else [t for x in sh.types.values() for t in x]
    return v not in ts and v[:-3] in ts and v[-3:] in ("lli", "ssi")


def cell_text(x):
    if x is None or x == "nan":
        return x
    w = where_from(x)
    return w if w is not None else "nan" if not x.strip() else None


def said(w):
    if w == "nan":
        return "nothing"
    return " and ".join(f"line {j} columns {a}-{b - 1}" for j, a, b in w)


def columns(version, sh, kp, indicators):
    """(holds, why, cells compared): the selected variables and the columns their cells come from"""
    want = {}
    for i, lab in used(version, sh):
        ts = types_for(sh, lab)
        for v, (a, w) in expected(sel(ts, sh.meas), ts, sh.ind, version).items():
            if is_indicator(v, sh) == indicators:
                want[(v, lab)] = place(version, sh, i, a, w)
    wv = {v for v, _ in want}
    if version == 2:
        wv = {v for v in expected(sel(sh.types, sh.meas), sh.types, sh.ind, 2) if is_indicator(v, sh) == indicators}
    gv = {v for v in kp.vars if is_indicator(v, sh) == indicators}
    if gv - wv:
        return False, f"{', '.join(sorted(gv - wv))} is returned", 0
    if wv - gv:
        return (False, f"{', '.join(sorted(wv - gv))} is missing", 0) if not kp.why else (None, kp.why, 0)
    unknown = ""
    for (v, lab), w in want.items():
        if (v, lab) not in kp.cells:
            unknown = unknown or f"no cell {v}, {lab}"
            continue
        g = cell_text(kp.cells[(v, lab)])
        if g is None:
            unknown = unknown or f"{v} of {lab} is not decided"
        elif g != w:
            return False, f"{v} of {lab} comes from {said(g)} of the record, its own place is {said(w)}", 0
    return (None, unknown, 0) if unknown else (True, "", len(want) or 1)


def filing(version, sh, kp):
    """values under a satellite's label come from that satellite's lines, other satellites get nothing"""
    mine = {lab: lines_of(version, sh, i) for i, lab in used(version, sh)}
    n, unknown = 0, ""
    if kp.time is False:
        return False, kp.why, 0
    for (v, lab), x in kp.cells.items():
        g = cell_text(x)
        if g is None:
            unknown = unknown or f"{v} of {lab} is not decided"
            continue
        n += 1
        if lab not in mine:
            if g != "nan":
                return False, f"{v} of {lab}, which is not in the record, is {said(g)}", 0
        elif g != "nan" and any(j not in mine[lab] for j, _, _ in g):
            return False, f"{v} of {lab} comes from {said(g)} of the record, which belongs to another satellite", 0
    for lab in mine:
        if lab not in kp.labels:
            return (False, f"values of {lab} are filed under none of {', '.join(kp.labels[:6])}", 0) if kp.labels and not kp.why else (None, kp.why, 0)
    if kp.time is None:
        unknown = unknown or kp.why or "the time is not decided"
    return (None, unknown, 0) if unknown else (True, "", n)


FN = {2: "obs2.rinexsystem2 record loop", 3: "obs3.rinexobs3 record loop"}


def judge(prog, R, rule, version, sh, fn):
    """one obligation per shape"""
    q = f"obs{version} {sh.name}"
    ks, why = keeps(prog, R, version, sh)
    ok, det, n = None, why, 0
    if not ks and why.startswith("raises "):
        ok, det = False, f"reading a well-formed record {why}"
    for kp in ks:
        o, d, m = fn(version, sh, kp)
        if o is False:
            ok, det = False, d
            break
        if o is None:
            ok, det = None, d
            n = -1
        elif n >= 0:
            ok, det, n = True, "", n + m
    if ok and rule == "filing" and version == 2 and not (sh.fast or sh.interval or sh.limits):
        rows = {kp.row for kp in ks if kp.row is not None}
        o, d = empty2(prog, R, sh, rows.pop()) if len(rows) == 1 else (None, "the row of a record is not known")
        if o is not True:
            ok, det = o, d
    R.ob(rule, q, ok, FN[version], det if ok is not True else f"{n} cells")


# ------------------------------------------------------------------ shapes
def names2(n, every="GR"):
    return [f"{every[i % len(every)]}{(7 * i) % 36 + 1:02d}" for i in range(n)]


MANY2 = ["C1", "L1", "S1", "L2", "P2", "C2", "L5", "S2", "D1", "C5", "S5", "L8"]
SYS3 = {"G": ["C1C", "L1C", "S1C", "C2W", "L2W", "D1C"], "R": ["C1P", "L1P"], "E": ["S5X", "C1X", "L1X", "L5X", "C5X", "D5X", "L7X", "S7X"]}
NAMES3 = ["G05", "R03", "G02", "E11", "R24", "G32"]
