"""Reading with a filter gives what reading the file without the filtered records gives.

Two files whose every character is labelled are interpreted from end to end: a file with the filter, and the same
file without the records the filter refuses. The labels of the records in both files are the same, so the two
results are compared as terms: which columns of which record reach which cell."""
from .c13 import *


class Rec:
    def __init__(self, lines, when, sats):
        self.lines, self.when, self.sats = lines, when, sats


def obs_recs(version, epochs, types, keep=None):
    """records of a file, each with marks of its own; keep: the satellites that stay in the file"""
    out, base = [], 0
    for m, names in epochs:
        if version == 2:
            rec, first = rec2(names, len(types))
            nl = -(-len(types) // 5)
        else:
            rec, first = rec3(names, {k: len(v) for k, v in types.items()})
            nl = 1
        x = moved([rec[j] for j in sorted(rec)], base)
        base += len(x)
        x[0] = over(x[0], 13 if version == 2 else 16, f"{m:2d}" if version == 2 else f"{m:02d}")
        if keep is not None:
            stay = [i for i, s in enumerate(names) if keep(s)]
            body = [l for i in stay for l in x[first[i] : first[i] + nl]]
            ns = [names[i] for i in stay]
            if version == 2:
                h = rec2(ns, len(types))[0]
                top = [h[j] for j in sorted(h) if j <= max(0, -(-(len(ns) - 12) // 12))]
                top = moved(top, base - len(x))
                top[0] = over(top[0], 13, f"{m:2d}")
            else:
                top = [over(x[0], 32, f"{len(ns):3d}")]  # its body keeps its marks
            x = top + body
            names = ns
        out.append(Rec(x, m, names))
    return out


def nav_recs(v, recs, t):
    out, base = [], 0
    for m, s in recs:
        sysl = {"N": "G", "G": "R", "E": "E"}[t] if v == 2 else s[0]
        rec = record(v, s[0] if v == 3 else t, len(ORDER[sysl]), LINES.get(sysl, 7), 0)
        x = moved([rec[j] for j in sorted(rec)], base)
        base += len(x)
        x[0] = over(x[0], 0, s if v == 3 else f"{int(s[1:]):2d}")
        x[0] = over(x[0], 18, f"{m:02d}") if v == 3 else over(x[0], 15, f"{m:2d}")
        out.append(Rec(x, m, [s]))
    return out


def text(recs):
    return [l for r in recs for l in r.lines]


def at(m):
    return OP("datetime", *(C(x) for x in (2020, 1, 1, 0, m, 0)), t="datetime")


N = SYM("Ntimes", "int")


class Cells(Canon):
    """what a result is, the text of the file told by its labels instead of by where it stands"""

    def __init__(self, st, pol):
        super().__init__(st)
        self.pol, self.lost = pol, set()

    def scanned(self, oid):
        o = self.st.heap.get(oid)
        while o is not None and o.kind == "array":
            if o.f["shape"] is TUP([N]):
                return True
            s = o.f["src"]
            o = self.st.heap.get(s.a) if isinstance(s, V) and s.k == "ref" else None
        return False

    def of(self, v):
        if isinstance(v, V) and v.k in ("op", "poly") and contains(v, lambda y: isop(y, "line")):
            x = cellval(self.pol.text, v)
            if x is None:
                try:
                    x = self.pol.text.ev(v)
                except (Unknown, Raises):
                    x = None
            if x is not None:
                return ("text", x.text if isinstance(x, Cell) else x)
            if v.k == "op" and not v.a[0] == "line":
                return (v.a[0],) + tuple(self.of(y) for y in v.a[1:])
            self.lost.add(show(v)[:80])
            return ("lost", v)
        return super().of(v)

    def obj(self, oid):
        if self.scanned(oid):
            return ("the epochs of the scan",)  # C01 mask, C02 scan
        x = super().obj(oid)
        return tuple(y for y in x if not (isinstance(y, tuple) and y and y[0] in ("shape", "size", "len", "elems", "last"))) if len(x) > 2 else x


def same(R, rule, q, where, a, b):
    """the result of reading file a with the filter against that of file b, which has the records it keeps"""
    ra, rb = ([val.exc.a[0] for k, st, val in r.res if k == "raise"] for r in (a, b))
    ca, cb = [], []
    for r, c in ((a, ca), (b, cb)):
        for k, st, val in r.res:
            if k == "return":
                x = Cells(st, r.pol)
                c.append((x.of(val), x.lost))
    if not cb or rb or any(l for _, l in ca + cb):
        return R.ob(rule, q, None, where, f"raises {rb[0]} without the records" if rb else "nothing is returned" if not cb else f"{sorted([*l][0] for _, l in ca + cb if l)[0]} is not known")
    if not ca:
        return R.ob(rule, q, False if ra else None, where, f"raises {', '.join(sorted(set(ra)))}" if ra else "nothing is returned")
    sa, sb = {c for c, _ in ca}, {c for c, _ in cb}
    if sa == sb and not ra:
        return R.ob(rule, q, True, where, f"{len(sa)} outcomes")
    if len(sb) != 1:
        return R.ob(rule, q, None, where, f"{len(ca)} outcomes against {len(cb)}")
    y = Content(sb.pop())
    ds = [apart(Content(x), y) for x in sorted(sa, key=repr)]
    if all(ds):  # whatever is not known turns out how it may
        return R.ob(rule, q, False, where, ds[0])
    R.ob(rule, q, None, where, f"{len(ca)} outcomes and {len(ra)} exceptions against {len(cb)}")


def apart(x, y):
    """a difference in what two results hold"""
    if x.how != y.how:
        return None
    if y.rows - x.rows:
        return f"{said(min(y.rows - x.rows))} missing"
    for a, b in ((x.held, y.held), (x.names, y.names)):
        if a != b:
            return f"{said(min(a - b, key=str))} there" if a - b else f"{said(min(b - a, key=str))} missing"
    return None


def said(x):
    w = where_from(x) if isinstance(x, str) else None
    if w:
        return ", ".join(f"line {a} of the file's records, columns {b}-{c - 1}," for a, b, c in w[:2])
    return str(x).replace("\n", " ")[:60]


def kinds(c):
    """what an index is made of"""
    if isinstance(c, (tuple, frozenset)):
        own = {c[1]} if isinstance(c, tuple) and len(c) > 1 and c[0] == "op" and isinstance(c[1], str) else {"list"} if isinstance(c, tuple) and c and c[0] in ("list", "array") else set()
        return own.union(*map(kinds, c)) if c else own
    return set()


class Content:
    """what a canonical result holds: cells, epochs, satellites, rows of text parsed as a block"""

    def __init__(self, c):
        self.held, self.names, self.rows, self.how = set(), set(), set(), set()
        self.walk(c, False)

    def walk(self, c, block):
        if isinstance(c, frozenset):
            for x in c:
                self.walk(x, block)
        elif isinstance(c, tuple):
            if len(c) == 2 and c[0] == "idx" and c[1] is not None:
                self.how.add("selection by " + ", ".join(sorted(kinds(c[1]))))
            if len(c) == 2 and c[0] == "text":
                if block:
                    self.rows |= set(str(c[1]).split("\n"))
                else:
                    self.held.add(c[1])
            elif len(c) > 1 and c[0] == "op" and isinstance(c[1], str):
                if c[1] == "datetime":
                    self.names.add(c)
                elif c[1].startswith(("m:", "x:", "np:")):
                    self.how.add(c[1])
                for x in c[2:]:
                    self.walk(x, block or "genfromtxt" in c[1] or "loadtxt" in c[1])
            elif len(c) == 2 and c[0] == "c" and isinstance(c[1], tuple) and c[1][0] == "str" and len(c[1][1]) == 3 and c[1][1][1:].isdigit():
                self.names.add(c[1][1])
            else:
                b = block or bool(c) and isinstance(c[0], str) and ("genfromtxt" in c[0] or "loadtxt" in c[0])
                for x in c:
                    self.walk(x, b)


def case(R, prog, rule, name, mod, fn, info, ha, ra, ka, hb, rb, kb):
    runs = []
    for h, recs, kw in ((ha, ra, ka), (hb, rb, kb)):
        pol = policy(info, h, mod, text(recs))
        r = Run(prog, mod, fn, [PATH], dict(kw), pol)
        r.pol = pol
        R.used(r.I)
        runs.append(r)
    same(R, rule, name, f"{mod}.{fn}", *runs)


G = ["G05", "R03", "E11", "G07"]
EPOCHS = [(0, G), (1, ["R03", "G05"]), (2, ["E11", "G30", "R04"]), (3, ["G05"]), (5, ["G07", "G05", "E01"]), (6, ["G05"])]
T2 = ["C1", "L1", "S1"]
T3 = {"G": ["C1C", "L1C"], "R": ["C1C", "S1C", "L2P"], "E": ["C1X", "L5X"]}
NAV = {
    "N": [(0, "G05"), (0, "G07"), (1, "G05"), (1, "G11"), (2, "G07"), (3, "G05"), (4, "G11")],
    None: [(0, "G05"), (0, "R03"), (1, "E11"), (1, "S20"), (2, "G05"), (2, "C20"), (3, "J02"), (3, "R03"), (4, "I02"), (4, "E11"), (5, "S20"), (5, "G05")],
}
NAV["G"] = NAV["E"] = NAV["N"]


def readers(big=False):
    """(name, module, function, information, header, records by their satellites, keywords)"""
    shapes = [("", T2, EPOCHS)]
    if big:
        shapes = []
        for ns, nt in ((1, 1), (1, 5), (2, 6), (12, 5), (13, 6), (24, 10), (25, 11), (37, 3)):
            ep = [(m, [f"G{1 + (i + m) % 36:02d}" if i else "G09" for i in range(n)]) for m, n in ((0, ns), (1, ns), (2, 2), (3, 1))]
            shapes.append((f" {ns} satellites {nt} types", [a + str(n) for a in "CLSDP" for n in (1, 2, 5)][:nt], [(m, list(dict.fromkeys(s))) for m, s in ep]))
    for q, ty, ep in shapes:
        for fast in (True, False):
            yield f"OBS 2 {'fast' if fast else 'strict'}{q}", "obs2", "rinexobs2", info2("M"), head(2, "M", ty), lambda keep=None, ep=ep, ty=ty: obs_recs(2, ep, ty, keep), dict(fast=C(fast), **(dict(use={"G"}) if big else {}))
        t3 = T3 if not big else {"G": [x + "C" for x in ty]}
        yield f"OBS 3{q}", "obs3", "rinexobs3", info3("M"), head(3, "M", t3), lambda keep=None, ep=ep, t3=t3: obs_recs(3, ep, t3, keep), {}


def navs():
    for t in ("N", "G", "E"):
        yield f"NAV 2 {t}", "nav2", "rinexnav2", info_nav2(t), navhead("2.11", t), lambda keep=None, t=t: nav_recs(2, NAV[t], t), {}
    yield "NAV 3", "nav3", "rinexnav3", info_nav3("M"), navhead("3.04", "M"), lambda keep=None: nav_recs(3, NAV[None], None), {}


def window(big=False):
    for name, mod, fn, info, h, recs, kw in [*readers(big), *navs()]:
        if big and mod.startswith("nav"):
            continue
        rs = recs()
        for a, b in [(1, 2), (2, 2), (0, 3), (3, 9), (4, 5)] if not big else [(1, 2), (2, 3)]:
            for more in [{}] if big or mod.startswith("nav") else [{}, dict(meas=["L", "C"]), dict(useindicators=TRUE)]:
                if more and (a, b) != (1, 2):
                    continue
                k = dict(kw, **more)
                yield f"{name}{''.join(', ' + x for x in more)}, minutes {a} to {b}", mod, fn, info, h, rs, dict(k, tlim=TUP([at(a), at(b)])), h, [r for r in rs if a <= r.when <= b], k
        if mod == "nav3":
            rs = rs[4:] + rs[:4]
            yield f"{name} out of order, minutes 1 to 3", mod, fn, info, h, rs, dict(kw, tlim=TUP([at(1), at(3)])), h, [r for r in rs if 1 <= r.when <= 3], kw


def decimated(recs, iv, window=None):
    out, tick = [], None
    for r in recs:
        if window and not window[0] <= r.when <= window[1]:
            continue
        if tick is None:
            tick = r.when
        elif r.when - tick < iv:
            continue
        else:
            tick += iv
        out.append(r)
    return out


def interval(big=False):
    for name, mod, fn, info, h, recs, kw in readers(big):
        rs = recs()
        for iv in (1.5, 2, 3, 1) if not big else (2,):
            for more in [{}] if big else [{}, dict(meas=["L", "C"]), dict(useindicators=TRUE), dict(tlim=(1, 5))]:
                if more and iv != 2:
                    continue
                k, w = dict(kw, **more), more.get("tlim")
                if w:
                    k["tlim"] = TUP([at(x) for x in w])
                ks = {x: y for x, y in k.items() if x != "tlim"}
                yield f"{name}{''.join(', ' + x for x in more)}, every {iv} minutes", mod, fn, info, h, rs, dict(k, interval=C(iv * 60)), h, decimated(rs, iv, w), ks


def use():
    for name, mod, fn, info, h, recs, kw in [*readers(), *navs()]:
        if mod in ("nav2", "obs3"):
            continue  # OBS 3: rules "record" and "header"
        for u in ("G", {"G", "E"}, {"R"}, ["S", "J"], {"C", "I", "E"}):
            keep = lambda s, u=u: s[0] in u
            if mod == "nav3":
                rs = recs()
                k = dict(kw, use=C(u) if isinstance(u, str) else u)
                n = f"{name}, use {u if isinstance(u, str) else sorted(u)}"
                yield n, mod, fn, info, h, rs, k, h, [r for r in rs if keep(r.sats[0])], kw
                if len(u) > 1:
                    yield n + ", minutes 1 to 4", mod, fn, info, h, rs, dict(k, tlim=TUP([at(1), at(4)])), h, [r for r in rs if keep(r.sats[0]) and 1 <= r.when <= 4], kw
                continue
            if "G" not in u:
                continue  # an epoch without any of the satellites is the business of rule "record"
            k = dict(kw, use=C(u) if isinstance(u, str) else u)
            yield f"{name}, use {u if isinstance(u, str) else sorted(u)}", mod, fn, info, h, recs(), k, h, recs(keep), k


def unwanted():
    """a record of satellites of other systems only is passed over, however many they are"""
    for ns, nt in ((1, 6), (12, 5), (13, 6), (14, 1), (24, 5), (25, 6), (37, 3)):
        ty = [a + str(n) for a in "CLSDP" for n in (1, 2, 5)][:nt]
        ep = [(0, ["G05", "G07"]), (1, [f"{'RE'[i // 36]}{1 + i % 36:02d}" for i in range(ns)]), (2, ["G07", "G05"]), (3, ["G05"])]
        keep = lambda s: s[0] == "G" or s == "R01"
        for fast in (True, False):
            k = dict(fast=C(fast), use={"G"})
            yield f"OBS 2 {'fast' if fast else 'strict'} {ns} satellites {nt} types, none wanted", "obs2", "rinexobs2", info2("M"), head(2, "M", ty), obs_recs(2, ep, ty), k, head(2, "M", ty), obs_recs(2, ep, ty, keep), k


JOBS = {"C01": lambda: window(), "C02": lambda: [*window(True), *interval(True), *unwanted(), *(j for j in [*window(), *use()] if j[1].startswith("nav"))], "C03": lambda: interval(), "C04": lambda: use()}


def tasks(prog, prop, rule):
    """for R.parallel"""
    return [(lambda R, *j: R.guard(rule, j[0], case, R, prog, rule, *j), *j) for j in JOBS[prop]()]
