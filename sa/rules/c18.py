"""C18: epoch times are decoded from the right columns."""
from .records import *
from .c02 import SCANS, scan_run
from ..texteval import Text, Raises
from ..gridval import Unknown
from datetime import datetime, timedelta

FRAC = {"nav2": ("0", "5"), "nav3": ("",), "obs2": ("0000000", "5000000", "2500000", "0156250", "9843750"), "obs3": ("0000000", "5000000", "2500000", "0156250", "9843750"), "sp3": ("00000000", "50000000", "25000000", "12500000", "98437500", "00000100")}
USEC = {"": 0, "0": 0, "5": 500000}
DIGITS2 = ("00", "01", "09", "10", "19", "20", "38", "49", "50", "69", "70", "78", "79", "80", "81", "89", "90", "94", "99")
YEARCOL = {"nav2": 3, "obs2": 1}


def usec(f):
    return int(f[:6].ljust(6, "0")) if f else 0


def text_of(nf, y, mo, d, h, mi, s, f, pad=" "):
    """an epoch line of the format, with other content in the other columns"""
    n = lambda x, w=2: f"{x:0{w}d}" if pad == "0" else f"{x:{w}d}"
    if nf == "nav2":
        return f"17 {y % 100:02d} {n(mo)} {n(d)} {n(h)} {n(mi)}{s:3d}.{f}-7.123456789012D-04-6.234567890123D-11 5.345678901234D-16\n"
    if nf == "nav3":
        return f"G17 {y:4d} {n(mo)} {n(d)} {n(h)} {n(mi)} {n(s)}-7.123456789012E-04-6.234567890123E-11 5.345678901234E-16\n"
    if nf == "obs2":
        return f" {y % 100:02d} {n(mo)} {n(d)} {n(h)} {n(mi)} {n(s)}.{f}  0  7G13G15G17G19G21G23G25\n"
    if nf == "obs3":
        return f"> {y:4d} {n(mo)} {n(d)} {n(h)} {n(mi)} {n(s)}.{f}  0 17       0.723456789012\n"
    return f"*  {y:4d} {n(mo)} {n(d)} {n(h)} {n(mi)} {n(s)}.{f}\n"


def first_sp3(nf, *a):
    """the first line of an SP3 file holds the first epoch"""
    return "#c" + "P" + text_of("sp3", *a)[3:].rstrip("\n") + "      97 ORBIT IGS14 HLM  IGS\n"


def hdr_text(nf, y, mo, d, h, mi, s, f, pad=" "):
    """TIME OF FIRST OBS"""
    return f"  {y:4d}    {mo:2d}    {d:2d}    {h:2d}    {mi:2d}   {s:2d}.{f}     GPS         "


def samples(nf, years, fixed=False):
    """every value of each field, one field at a time around several bases, zero- and blank-padded"""
    out = []
    for y in years:
        for base in ((1, 2, 3, 4, 5), (11, 28, 21, 43, 37), (6, 15, 0, 0, 0), (12, 31, 23, 59, 59)):
            out.append((y,) + base)
    y = years[len(years) // 2]
    if fixed:
        yield from ((t[:5] + (30, "2500000", " ")) for t in out)
        return
    b = (7, 19, 13, 46, 28)
    for i, r in enumerate((range(1, 13), range(1, 32), range(24), range(60), range(60))):
        for x in r:
            c = list(b)
            c[i] = x
            out.append((y,) + tuple(c))
    for t in out:
        for pad in " 0":
            for f in FRAC[nf]:
                yield t + (f, pad)


def want(t):
    return datetime(*t[:6], usec(t[6]))


def maximal(v, pred):
    """outermost subterms satisfying pred"""
    if pred(v):
        return {v}
    out = set()
    for x in kids(v):
        out |= maximal(x, pred)
    return out


def kids(v):
    def go(a):
        if isinstance(a, V):
            yield a
        elif isinstance(a, (tuple, list, frozenset)):
            for y in a:
                yield from go(y)

    if v.k == "poly":
        for m, c in v.a:
            yield from m
    elif v.k in ("op", "tup", "exc", "bound"):
        yield from go(v.a)


def isdt(v):
    return v.t == "datetime" and contains(v, lambda y: isop(y, "datetime"))


def stored(p):
    """datetime terms a pass files in objects or variables that outlive it"""
    out = set()
    seen = set()

    def scan(y):
        if isinstance(y, V):
            if y.k == "ref":
                if y.a not in seen and y.a not in p.x.heads[p.i].heap and y.a in p.st.heap:
                    seen.add(y.a)
                    for f, z in p.st.heap[y.a].f.items():
                        scan(z)
            else:
                for m in maximal(y, isdt):
                    if not any(isop(d, "datetime") and contains(d, lambda z: isop(z, "line")) for d in args_sub(m)):
                        continue
                    out.add(m)
                for z in args_sub(y):
                    if z.k == "ref":
                        scan(z)
        elif isinstance(y, (tuple, list, frozenset, set)):
            for z in y:
                scan(z)
        elif isinstance(y, dict):
            for a, b in y.items():
                scan(a)
                scan(b)

    for k, v in p.eff.items():
        scan(p.change(k, v))
    return out


def lines_in(v):
    return {y for y in args_sub(v) if isop(y, "line")}


def check(prog, R, tier):
    R.rule("record", "each component of a record's time comes from its own columns, for every value of its field", 13)
    R.rule("scan", "the time scan decodes the same columns", 10)
    R.rule("pivot", "two-digit years 80-99 are 1980-1999 and 00-79 are 2000-2079", 8)
    R.rule("sp3", "SP3 times come from their columns", 2)
    R.rule("carry", "SP3 hour 24, minute 60 and second 60 carry over", 19)
    R.rule("header", "the time of first observation comes from its columns", 2)
    t = []
    for n in READERS:
        k = 4 if n.startswith("obs2") else 1
        for i in range(k):
            t.append((lambda R, n, i, k: R.guard("record", n, record, prog, R, n, tier, (i, k)), n, i, k))
    for n in ("nav2:N", "nav2:G", "nav2:E", "obs2:strict", "obs3") + tuple(f"nav3:{c}" for c in "GRECJIS"):
        t.append((lambda R, n: R.guard("scan", n, scan, prog, R, n, tier), n))
    t.append((lambda R: R.guard("sp3", "load_sp3", sp3, prog, R),))
    t.append((lambda R: R.guard("header", "headers", header, prog, R),))
    R.parallel(sorted(t, key=lambda x: not (len(x) > 1 and x[1].startswith("obs2"))))


def judge(terms, st, cases, mk, nf, subject=None):
    """(ok, why): every term gives the time of every sample the path's facts allow"""
    facts = [(a, b) for a, b in st.facts.items() if contains(a, lambda y: isop(y, "line"))] if st is not None else []
    n = 0
    for c in cases:
        L = mk(nf, *c)
        T = Text(subject or (lambda v: L if isop(v, "line") else None))
        if any(T.atom(a) is (not b) for a, b in facts):
            continue
        for t in terms:
            try:
                got = T.ev(t)
            except Unknown as e:
                return None, f"not evaluated: {e}"[:200], n
            except Raises as e:
                return False, f"{L.strip()[:40]!r} is refused: {e}"[:200], n
            if got != want(c):
                return False, f"{L.rstrip()[:36]!r} is decoded as {got}", n
            n += 1
    return True, "", n


def years_for(nf, tier):
    if nf in YEARCOL:
        return DIGITS2 if tier == "quick" else [f"{i:02d}" for i in range(100)]
    return [None]


def full(yy):
    return (1900 if int(yy) >= 80 else 2000) + int(yy)


def batches(nf, tier):
    """(label, value hook, years) — two-digit years are analysed one by one"""
    if nf in YEARCOL:
        c = YEARCOL[nf]
        for yy in years_for(nf, tier):
            d = {c: yy[0], c + 1: yy[1]}
            if nf == "obs2" and yy != "20":  # seconds as well: fewer paths
                d.update(zip(range(15, 28), " 30.2500000  "))
            yield yy, text_value(d), [full(yy)]
    else:
        yield None, None, [1980, 1994, 1999, 2000, 2005, 2019, 2020, 2079]


def walk_paths(prog, R, name, tier, rule, get, construct, part=(0, 1)):
    nf = name.split(":")[0]
    bad = pend = None
    n = 0
    w = ""
    piv = []
    for j, (yy, hook, years) in enumerate(batches(nf, tier)):
        if j % part[1] != part[0]:
            continue
        r, ps, w = get(hook)
        R.used(r.I)
        ok, k = True, 0
        for p in ps:
            ts = stored(p)
            ts = {t for t in ts if len(lines_in(t)) == 1}
            if not ts:
                continue
            g, why, m = judge(ts, p.st, samples(nf, years, yy not in (None, "20") and nf == "obs2"), text_of, nf)
            k += m
            if g is False:
                ok = False
                if yy is None or yy in ("20", "99"):
                    bad = bad or f"{why}"
                else:
                    pend = pend or f"{why}"
                break
            if g is None:
                ok = None
                pend = pend or why
                break
        none = ok and not k
        if none:
            ok, pend = None, pend or "no record's time was found"
        n += k
        if yy is not None:
            piv.append((yy, ok, w, "" if ok else (bad or pend), none))
        elif ok is None:
            R.ob(rule, construct, None, w, pend or "")
            return
    for y, ok, w, why, none in piv:
        if none and n:
            ok, why = False, "records of this year are refused, those of other years are not"
        R.ob("pivot", f"{construct} year {y}", ok, w, why)
    if yy is not None and not part[0] == [y for y, h, z in batches(nf, tier)].index("20") % part[1]:
        return
    R.ob(rule, construct, False if bad else True if n else None, w, bad or ("" if n else pend or ""))


def record(prog, R, name, tier, part=(0, 1)):
    nf = name.split(":")[0]
    run(prog, name)
    fl = text_value({FLAGCOL[nf] - 2: " ", FLAGCOL[nf] - 1: " ", FLAGCOL[nf]: "0"}) if nf in FLAGCOL else None

    def get(hook):
        hooks = [h for h in (fl, hook) if h]
        # in strict mode the reader stores times of its own only when it decimates
        kw = dict(interval=IV) if name == "obs2:strict" else {}
        r = run(prog, name, value=first_of(*hooks) if hooks else None, tag=None, lines="any", **kw)
        return r, [p for x in r.rec for p in paths(x) if not p.tags], where(r.rec[0])

    walk_paths(prog, R, name, tier, "record", get, f"{outer_name(name)}[{name}]", part)


def scan(prog, R, name, tier):
    nf = name.split(":")[0]
    mod, fn = SCANS[nf]
    fl = text_value({FLAGCOL[nf] - 2: " ", FLAGCOL[nf] - 1: " ", FLAGCOL[nf]: "0"}) if nf in FLAGCOL else None

    def get(hook):
        pol = RecPolicy(READERS[name][2]())
        pol.scan_symbol = False
        hooks = [h for h in (fl, hook, letter_value(name[-1]) if nf == "nav3" else None) if h]
        if hooks:
            pol.value = first_of(*hooks)
        r = Run(prog, mod, fn, [PATH], {}, pol)
        loops = [x for x in r.loops if stop_at_records(x)]
        if not loops:
            raise AnalysisError("no loop that records times was found")
        return r, [p for x in loops if x.node is loops[-1].node for p in paths(x)], where(loops[-1])

    walk_paths(prog, R, name, tier, "scan", get, f"{mod}.{fn}[{name}]")


# ------------------------------------------------------------------ SP3
def sp3(prog, R):
    """times of epoch lines, and of the first line"""
    for h, mi, s in [(None, None, None)] + [(a, b, c) for a in ("00", "23", "24") for b in ("00", "59", "60") for c in ("00", "59", "60") if (a, b, c) != ("00", "00", "00")]:
        pol = RecPolicy({})
        pol.max_outs = 6000
        if h is None:
            pol.value = text_value({14: " ", 15: "7", 17: "1", 18: "3", 20: "4", 21: "9"})
        else:
            pol.value = text_value({14: h[0], 15: h[1], 17: mi[0], 18: mi[1], 20: s[0], 21: s[1]})
        r = Run(prog, "sp3", "load_sp3", [PATH, NONE], {}, pol)
        R.used(r.I)
        rec = [x for x in r.loops if streams_of(x)]
        ts = {}
        for x in rec:
            for p in paths(x):
                for t in stored(p):
                    ts.setdefault(t, ("epoch line", where(x), text_of))
        for k, st, v in r.res:
            if k == "return" and v.k == "ref" and st.heap[v.a].kind == "ds":
                for n, t in st.heap[v.a].f["vars"].items():
                    if isc(n) and cv(n) == "t0":
                        for m in maximal(t, isdt):
                            ts.setdefault(m, ("first line", "sp3.load_sp3", first_sp3))
        kinds = {k[0] for k in ts.values()}
        yield_ = [(y, mo, d) for y in (1994, 2004, 2020, 2023) for mo, d in ((1, 1), (2, 28), (12, 31), (6, 30), (11, 9))]
        hh, mm, ss = (7, 13, 49) if h is None else (int(h), int(mi), int(s))
        ok = {}
        for t, (kind, w, mk) in ts.items():
            for y, mo, d in yield_:
                for f in FRAC["sp3"]:
                    L = mk("sp3", y, mo, d, hh, mm, ss, f)
                    exp = datetime(y, mo, d) + timedelta(hours=hh, minutes=mm, seconds=ss, microseconds=usec(f))
                    T = Text(lambda v: L if isop(v, "line") else None)
                    try:
                        got = T.ev(t)
                    except Unknown as e:
                        ok.setdefault(kind, (None, f"not evaluated: {e}"[:200], w))
                        continue
                    except Raises as e:
                        got = f"refused: {e}"
                    if got != exp and (kind not in ok or ok[kind][0] is not False):
                        ok[kind] = (False, f"{L.rstrip()[:31]!r} is decoded as {got}", w)
        for kind in ("epoch line", "first line"):
            o, why, w = ok.get(kind, (True if kind in kinds else None, "" if kind in kinds else "no such time was found", "sp3.load_sp3"))
            R.ob("sp3" if h is None else "carry", kind if h is None else f"{kind} {h}:{mi}:{s}", o, w, why)


# ------------------------------------------------------------------ header
def header(prog, R):
    for mod, fn, info, y0 in (("obs2", "obsheader2", obs2, 0), ("obs3", "obsheader3", obs3, 0)):
        pol = RecPolicy(info("M"))
        pol.contract = False
        r = Run(prog, mod, fn, [PATH], {}, pol)
        R.used(r.I)
        ts = {}
        for k, st, v in r.res:
            if k == "return" and v.k == "ref" and st.heap[v.a].kind == "dict":
                t = st.heap[v.a].f["d"].get(C("t0"))
                if t is not None and t is not NONE:
                    alts = t.a[1:] if isop(t, "phi") else (t,)
                    for a in alts:
                        ts[a] = st
        ok, why = True, ""
        n = 0
        for t in ts:
            base = {y for y in args_sub(t) if y.k == "sym"}
            for c in samples("obs3", [1994, 2020]):
                if c[-1] == "0":
                    continue
                L = hdr_text("", *c)
                T = Text(lambda v: L if v.k == "sym" and v.t in ("str", "any", None) else None)
                try:
                    got = T.ev(t)
                    n += 1
                except Unknown as e:
                    ok, why = (None, f"not evaluated: {e}"[:200]) if ok else (ok, why)
                    break
                except Raises as e:
                    got = None
                if got is not None and got != want(c) and not (got.replace(microsecond=0) == want(c).replace(microsecond=0) and got.microsecond == 0 and isop(t, "datetime") and t.a[7] is C(0)):
                    # an alternative that replaces a second it could not read
                    if isop(t, "datetime") and t.a[6] is C(0) and got == want(c).replace(second=0, microsecond=got.microsecond):
                        continue
                    ok, why = False, f"{L[:43]!r} is decoded as {got}"
                    break
            if ok is False:
                break
        R.ob("header", f"{mod}.{fn} t0", ok if n else None, f"{mod}.{fn}", why or ("" if n else "no header time was found"))
