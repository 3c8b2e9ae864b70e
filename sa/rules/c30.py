"""C30: headers are read up to END OF HEADER, every line's content and label from their own columns."""
import ast
from .attrs import *
from ..scen import obs2 as info2, obs3 as info3, nav2 as info_nav2, nav3 as info_nav3

END = "END OF HEADER"


def other(j, label, n=60):
    """a header line with content that is nothing but marks"""
    return f"{marked(j, n):<60s}{label}\n"


def build(version, kind, items):
    """header lines; an item is a complete line or the label of a line of marks"""
    first = {("obs", 2): "     2.11           OBSERVATION DATA    M", ("obs", 3): "     3.03           OBSERVATION DATA    M", ("nav", 2): "     2.11           N: GPS NAV DATA", ("nav", 3): "     3.04           N: GNSS NAV DATA    M"}[kind, version]
    L = [hl(first, "RINEX VERSION / TYPE")]
    for x in items:
        L.append(x(len(L)) if callable(x) else x if x.endswith("\n") else other(len(L), x))
    L.append(hl("", END))
    return L


def data(n, k=4):
    return [marked(n + i, 80) + "\n" for i in range(k)]


def analyse(prog, R, version, kind, L, fn=("utils", "rinexheader"), info=None):
    text = L + data(len(L))
    info = info or {("obs", 2): info2("M"), ("obs", 3): info3("M"), ("nav", 2): info_nav2("N"), ("nav", 3): info_nav3("M")}[kind, version]
    info = dict(info, version=C(float(version)))
    pol = skel_policy(info, [], None, kind + str(version), dict(enumerate(text)), whole=True, oracle=lambda st, a: False if isop(a, "eq") and C(".nc") in a.a[1:] else None)
    r = Run(prog, *fn, [PATH], {}, pol)
    R.used(r.I)
    return r, pol


def texts(pol, st, v):
    """strings a value holds, in order; None when one is not known"""
    if v.k == "ref":
        o = st.heap[v.a]
        if o.kind == "list" and o.f["items"] is not None:
            return [y for x in o.f["items"] for y in texts(pol, st, x)]
        if o.kind == "array":
            it = small.known(st, v)
            if it is not None:
                return [y for x in it for y in texts(pol, st, x)]
        raise Unknown(o.kind)
    if v.k == "tup":
        return [y for x in v.a for y in texts(pol, st, x)]
    x = pol.text.ev(v)
    if isinstance(x, Cell):
        x = x.text
    if isinstance(x, (tuple, list)):
        return list(x)
    return [x]


def columns_of(s):
    """[(line, from, to)] of the marks of a text"""
    out = []
    for ch in s:
        if ord(ch) >= 0xF0000:
            j, c = divmod(ord(ch) - 0xF0000, W)
            if out and out[-1][0] == j and out[-1][2] == c:
                out[-1][2] += 1
            else:
                out.append([j, c, c + 1])
    return [tuple(x) for x in out]


def entries(st, val):
    o = st.heap[val.a]
    if o.kind != "dict" or o.f["open"] is not None or o.f["gen"]:
        raise Unknown("the header is not a dictionary of known keys")
    return o.f["d"], o.f["maybe"]


def compare(R, rule, q, where, pol, res, n, want):
    """want: {label: [(line, from, to)] | list of plain texts | ("in", [...])}; n: number of header lines"""
    verdicts = []
    for k, st, val in res:
        if k == "raise":
            e = val.exc.a[0]
            verdicts.append((False if len(res) == 1 else None, f"reading raises {e} at {val.loc}"))
            continue
        if k != "return" or val.k != "ref":
            verdicts.append((None, k))
            continue
        v = (True, "")
        try:
            d, maybe = entries(st, val)
        except Unknown as e:
            verdicts.append((None, str(e)))
            continue
        got = {}
        for key, x in d.items():
            try:
                (name,) = texts(pol, st, key)
            except (Unknown, Raises, ValueError):
                v = (None, f"key {show(key)[:60]}")
                continue
            got[name] = x
            cs = columns_of(name) if isinstance(name, str) else []
            if cs:
                v = (False, f"a key is taken from columns {cs[0][1] + 1}-{cs[0][2]} of " + ("the data" if cs[0][0] >= n else f"header line {cs[0][0] + 1}"))
                break
            try:
                for s in texts(pol, st, x):
                    late = [c for c in columns_of(s) if c[0] >= n] if isinstance(s, str) else []
                    if late:
                        v = (False, f"{name} holds text of data line {late[0][0] - n + 1}")
            except (Unknown, Raises):
                pass
        if v[0] is not False:
            for name, w in want.items():
                x = got.get(name)
                if x is None or any(isc(m) and cv(m) == name for m in maybe):
                    v = (False, f"{name!r} is missing") if v[0] is True or x is not None else v
                    if v[0] is False:
                        break
                    continue
                try:
                    g = pick(pol, st, x, w)
                except (Unknown, Raises) as e:
                    v = (None, f"{name}: {show(x)[:60]}")
                    continue
                if g:
                    v = (False, f"{name!r} {g}")
                    break
        verdicts.append(v)
    bad = [w for s, w in verdicts if s is False]
    open_ = [w for s, w in verdicts if s is None]
    ok = None if not verdicts or open_ and not bad or bad and len(bad) < len(verdicts) else not bad
    R.ob(rule, q, ok, where, (bad or open_ or [""])[0])


def pick(pol, st, x, w):
    """reason a value is not the expected one, '' when it is"""
    if isinstance(w, dict):
        d, _ = entries(st, x)
        got = {cv(k): y for k, y in d.items() if isc(k)}
        for k, y in w.items():
            if k not in got:
                return f"lacks {k!r}"
            g = pick(pol, st, got[k], y)
            if g:
                return f"{k!r} {g}"
        more = set(got) - set(w)
        return f"also holds {sorted(more)}" if more else ""
    if isinstance(w, int):
        if isc(x):
            return "" if cv(x) == w else f"is {cv(x)}, not {w}"
        raise Unknown(show(x))
    got = texts(pol, st, x)
    if w and isinstance(w[0], tuple):
        g = [c for s in got if isinstance(s, str) for c in columns_of(s)]
        if g != w:
            odd = [c for c in g if c not in w] or [c for c in w if c not in g]
            a = [f"columns {c[1] + 1}-{c[2]} of line {c[0] + 1}" for c in odd[:1]]
            return ("is taken from " if odd[0] in g else "lacks ") + a[0] if odd else "is in another order"
        return ""
    return "" if [s.strip() if isinstance(s, str) else s for s in got] == list(w) else f"is {str(got)[:60]}"


def whole_line(j):
    return [(j, 0, 60)]


def obs_types(n, s=""):
    return [f"{c}{i}{s}" for i in range(1, 10) for c in "CLDSPX"][:n]


PLAIN = ["PGM / RUN BY / DATE", "MARKER NAME", "MARKER NUMBER", "OBSERVER / AGENCY", "ANT # / TYPE", "ANTENNA: DELTA H/E/N"]


def expect(L):
    """contents of the lines of marks, by label, in order"""
    w = {}
    for j, x in enumerate(L[1:-1], 1):
        if columns_of(x):
            w.setdefault(x[60:80].strip(), []).append((j, 0, 60))
    return w


def obs2_case(R, prog, name, items, types):
    L = build(2, "obs", items)
    r, pol = analyse(prog, R, 2, "obs", L)
    want = expect(L)
    want["fields"] = types
    want["# / TYPES OF OBSERV"] = types
    want["Nobs"] = len(types)
    compare(R, "labels", f"OBS 2, {name}", "obs2.obsheader2", pol, r.res, len(L), want)


def obs3_case(R, prog, name, items, types):
    L = build(3, "obs", items)
    r, pol = analyse(prog, R, 3, "obs", L)
    want = expect(L)
    want["fields"] = types
    want["Fmax"] = max(map(len, types.values()))
    compare(R, "labels", f"OBS 3, {name}", "obs3.obsheader3", pol, r.res, len(L), want)


def nav_case(R, prog, v, name, items, more=None):
    L = build(v, "nav", items)
    r, pol = analyse(prog, R, v, "nav", L)
    want = expect(L)
    for k in [k for k in want if k in ("IONOSPHERIC CORR", "TIME SYSTEM CORR") and v == 3]:
        del want[k]
    for k, (lab, parts) in (more or {}).items():
        j = next(i for i, x in enumerate(L) if x[60:80].strip() == lab and x[:4].strip() == k)
        want.setdefault(lab, {})[k] = [(j, a, b) for a, b in parts]
    compare(R, "labels", f"NAV {v}, {name}", f"nav{v}.navheader{v}", pol, r.res, len(L), want)


def types2(n):
    return [x for x in head2(obs_types(n))[1:] if "TYPES OF OBSERV" in x]


def types3(t):
    return [x for x in head3(t)[1:] if "OBS TYPES" in x]


def corr(kind, label, parts):
    def f(j):
        L = over(" " * 60, 0, f"{kind:<4s}")
        for a, b in parts:
            L = over(L, a, "".join(mark(j, c) for c in range(a, b)))
        return L + label + "\n"

    return f


def iono(kind):
    return [(5 + 12 * i, 17 + 12 * i) for i in range(3 if kind == "GAL" else 4)]


TIMECORR = [(5, 22), (22, 38), (38, 45), (45, 50)]


def length(R, prog, which, extra):
    """the data begin with the line behind END OF HEADER"""
    kind, v = which[:3], int(which[3])
    k2 = obs_types(12)
    t3 = {"G": ["C1C", "L1C", "S1C"]}
    L = build(v, kind, PLAIN[:2] + ["COMMENT"] * extra + (types2(12) if which.startswith("obs2") else types3(t3) if which == "obs3" else []))
    if kind == "obs":
        node = obs_node(prog, which)
        rec = rec2(["G05", "G07"], 12)[0] if v == 2 else rec3(["G05", "G07"], {"G": 3})[0]
        pol = skel_policy((info2 if v == 2 else info3)("M"), L, node, which[:4], rec)
        kw = dict(use=C("G"), fast=C(which == "obs2:fast")) if v == 2 else {}
    else:
        t = "N" if v == 2 else "G"
        node = node_of(prog, v, t if v == 2 else "M")
        pol = skel_policy((info_nav2("N") if v == 2 else info_nav3("M")), L, node, which, record(v, t, len(ORDER["G"]), LINES.get("G", 7)), peel="for")
        kw = {}
    r = Run(prog, which[:4], f"rinex{which[:4]}", [PATH], kw, pol)
    R.used(r.I)
    starts(R, f"rinex{which}, {len(L)} header lines", f"{which[:4]}.rinex{which[:4]}", r, node, len(L))


def starts(R, q, where, r, node, n):
    bad, open_, good = [], [], 0
    for summ in r.loops:
        if node is not None and summ.node is not node:
            continue
        for oid in streams_of(summ):
            pre = summ.pre
            o = pre.heap.get(oid) if pre is not None else None
            if o is None:
                open_.append("stream not known")
            elif isc(o.f["off"]):
                if cv(o.f["off"]) == n:
                    good += 1
                elif cv(o.f["off"]) > n or node is not None:  # a loop that begins further up may be one over the header
                    bad.append(f"the data are read from line {cv(o.f['off']) + 1}, the header has {n}")
            else:
                open_.append(f"position {show(o.f['off'])[:60]}")
    R.ob("data", q, False if bad else None if open_ or not good else True, where, (bad or open_ or [f"{good} loops"])[0])


def times_case(R, prog, which, extra):
    kind, v = which[:3], int(which[3])
    fn = {"obs2": "obstime2", "obs3": "obstime3", "nav2": "navtime2", "nav3": "navtime3"}[which]
    if fn not in {x.name for x in prog.modules[f"georinex.{which}"].tree.body if isinstance(x, ast.FunctionDef)}:
        return
    L = build(v, kind, PLAIN[:2] + ["COMMENT"] * extra + (types2(12) if which == "obs2" else types3({"G": ["C1C", "L1C", "S1C"]}) if which == "obs3" else []))
    info = {"obs2": info2("M"), "obs3": info3("M"), "nav2": info_nav2("N"), "nav3": info_nav3("M")}[which]
    pol = skel_policy(dict(info), L, None, which, None, scan_symbol=False, peel="for")
    r = Run(prog, which, fn, [PATH], {}, pol)
    R.used(r.I)
    starts(R, f"{fn}, {len(L)} header lines", f"{which}.{fn}", r, None, len(L))


def check(prog, R, tier):
    R.rule("labels", "every entry of a header is the text of its own line's columns 1-60 under the label of columns 61-80, lists are complete, no data line enters", 30)
    R.rule("data", "reading of the data begins with the line behind END OF HEADER", 10)
    jobs = []
    P = PLAIN
    for n in (1, 4, 5, 6, 9, 10, 18, 19, 27, 28):
        jobs.append((obs2_case, f"{n} observables", P[:2] + types2(n) + P[2:], obs_types(n)))
    jobs.append((obs2_case, "observables first", types2(12) + P, obs_types(12)))
    jobs.append((obs2_case, "observables last", P + types2(12), obs_types(12)))
    jobs.append((obs2_case, "a comment between the lines of observables", P[:1] + types2(20)[:1] + ["COMMENT"] + types2(20)[1:] + P[1:], obs_types(20)))
    jobs.append((obs2_case, "repeated labels", ["COMMENT", "COMMENT", *types2(5), "MARKER NAME", "COMMENT", "MARKER NAME", "WAVELENGTH FACT L1/2", "WAVELENGTH FACT L1/2"], obs_types(5)))
    jobs.append((obs2_case, "no other lines", types2(3), obs_types(3)))
    jobs.append((obs2_case, "a long header", types2(3) + ["COMMENT"] * 25 + P, obs_types(3)))
    G = lambda n: obs_types(n, "C")
    for n in (1, 12, 13, 14, 25, 26, 27, 39, 40):
        jobs.append((obs3_case, f"{n} observables", P[:2] + types3({"G": G(n)}) + P[2:], {"G": G(n)}))
    many = {"G": G(14), "R": G(4), "E": G(27), "C": G(13), "J": G(1)}
    jobs.append((obs3_case, "five systems", P[:2] + types3(many) + P[2:], many))
    jobs.append((obs3_case, "systems in another order", types3({k: many[k] for k in "JECRG"}) + P, many))
    jobs.append((obs3_case, "other lines between the systems", types3({"G": G(14)}) + ["COMMENT"] + types3({"R": G(15)}) + P, {"G": G(14), "R": G(15)}))
    jobs.append((obs3_case, "repeated labels", ["COMMENT", "COMMENT", *types3({"G": G(5)}), "SYS / PHASE SHIFT", "COMMENT", "SYS / PHASE SHIFT", "GLONASS SLOT / FRQ #", "GLONASS SLOT / FRQ #"], {"G": G(5)}))
    jobs.append((obs3_case, "a long header", types3({"G": G(3)}) + ["COMMENT"] * 25 + P, {"G": G(3)}))
    jobs.append((nav_case, 2, "plain labels", ["PGM / RUN BY / DATE", "ION ALPHA", "ION BETA", "DELTA-UTC: A0,A1,T,W", "LEAP SECONDS"]))
    jobs.append((nav_case, 2, "no other lines", []))
    jobs.append((nav_case, 2, "a long header", ["MARKER NAME", *(f"LABEL {i}" for i in range(20))]))
    jobs.append((nav_case, 3, "plain labels", ["PGM / RUN BY / DATE", "LEAP SECONDS", "MARKER NAME"]))
    for ks in (["GPSA", "GPSB"], ["GAL"], ["GPSA", "GAL", "BDSA", "BDSB", "QZSA", "QZSB", "IRNA", "IRNB"], ["GPSB", "GPSA"]):
        jobs.append((nav_case, 3, "ionosphere " + " ".join(ks), ["LEAP SECONDS", *(corr(k, "IONOSPHERIC CORR", iono(k)) for k in ks), "MARKER NAME"], {k: ("IONOSPHERIC CORR", iono(k)) for k in ks}))
    for ks in (["GPUT"], ["GPUT", "GLUT", "GAUT", "BDUT"]):
        jobs.append((nav_case, 3, "clock corrections " + " ".join(ks), [*(corr(k, "TIME SYSTEM CORR", TIMECORR) for k in ks), "LEAP SECONDS"], {k: ("TIME SYSTEM CORR", TIMECORR) for k in ks}))
    jobs.append((nav_case, 3, "both kinds of corrections", [corr("GPUT", "TIME SYSTEM CORR", TIMECORR), corr("GPSA", "IONOSPHERIC CORR", iono("GPSA")), "LEAP SECONDS"], {"GPUT": ("TIME SYSTEM CORR", TIMECORR), "GPSA": ("IONOSPHERIC CORR", iono("GPSA"))}))
    for n in (0, 3, 11):
        for w in ("obs2:fast", "obs2:strict", "obs3", "nav2", "nav3"):
            jobs.append((length, w, n))
        for w in ("obs2", "obs3", "nav2", "nav3"):
            jobs.append((times_case, w, n))
    R.parallel([(lambda R, f, *j: R.guard("labels" if f not in (length, times_case) else "data", f"{f.__name__} {str(j)[:60]}", f, R, prog, *j), *j) for j in jobs])
