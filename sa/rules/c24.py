"""C24: SP3 samples belong to the satellite and epoch their record names."""
from datetime import datetime
from .attrs import *
from .navcells import where

COMPONENTS = {"position": ("P", 3), "velocity": ("V", 3), "clock": ("P", None), "dclock": ("V", None)}
DIMS = {"position": ("time", "sv", "ECEF"), "velocity": ("time", "sv", "ECEF"), "clock": ("time", "sv"), "dclock": ("time", "sv")}
LETTERS = "GREJCIL"


def header(names):
    L = [f"#cP2020  1  1  0  0  0.00000000{9:8d} ORBIT IGS14 HLM  IGS\n", "## 2086 259200.00000000   900.00000000 58849 0.0000000000000\n"]
    rows = [names[i : i + 17] for i in range(0, len(names), 17)]
    for i, r in enumerate(rows + [[]] * (5 - len(rows))):
        L.append((f"+  {len(names):3d}   " if i == 0 else "+        ") + "".join(r) + "  0" * (17 - len(r)) + "\n")
    for i in range(max(len(rows), 5)):
        L.append("++       " + "  5" * 17 + "\n")
    L += ["%c G  cc GPS ccc cccc cccc cccc cccc ccccc ccccc ccccc ccccc\n", "%f  1.2500000  1.025000000  0.00000000000  0.000000000000000\n", "%i    0    0    0    0      0      0      0      0         0\n", "/* * comment\n"]
    return L


def epoch(n):
    return f"*  2020  1  1 {n // 4:2d} {n % 4 * 15:2d}  0.00000000\n"


def sample(j, kind, name, width=80):
    return over(marked(j, width), 0, kind + name) + "\n"


def many(n):
    return [f"{LETTERS[i // 36]}{i % 36 + 1:02d}" for i in range(n)]


# satellites of the header, then the records: a number is an epoch, "P"/"V" + index of the satellite, anything else a line as it is
SHAPES = {
    "in header order": (["G05", "G07"], [0, "P0", "P1", 1, "P0", "P1"]),
    "positions and velocities": (["G05", "G07"], [0, "P0", "V0", "P1", "V1", 1, "P0", "V0", "P1", "V1"]),
    "reversed order": (["G05", "G07", "R01"], [0, "P2", "P1", "P0", 1, "P1", "P0", "P2"]),
    "velocities after positions": (["G05", "G07"], [0, "P0", "P1", "V0", "V1"]),
    "velocities in another order": (["G05", "G07"], [0, "P0", "P1", "V1", "V0", 1, "V0", "P0"]),
    "absent records": (["G05", "G07", "E11"], [0, "P0", "P1", "P2", 1, "P2", 2, "P0", "P2", 3]),
    "absent from the first epoch": (["G05", "G07", "E11"], [0, "P1", 1, "P0", "P2"]),
    "velocity of some": (["G05", "G07"], [0, "P0", "V0", "P1", 1, "P0", "P1", "V1", 2, "P0"]),
    "velocity without position": (["G05", "G07"], [0, "V1", 1, "P0", "V0"]),
    "unlisted satellite": (["G05", "G07"], [0, "P0", "PG06", "P1", 1, "PR05", "VR05", "P1"]),
    "correlation records": (["G05", "G07"], [0, "P0", "EP", "V0", "EV", "P1", 1, "P0", "EP"]),
    "epochs out of order": (["G05", "G07"], [4, "P0", 1, "P1", 2, "P0", "P1"]),
    "one satellite": (["G05"], [0, "P0", 1, "P0", 2, "P0"]),
    "one epoch": (["G05", "G07"], [0, "P0", "P1"]),
    "no end line": (["G05", "G07"], [0, "P0", "P1", 1, "P1", "noEOF"]),
    "blank letters": (["  1", " 12", "  2"], [0, "P1", "P0", 1, "P2"]),
    "blank digits": (["G 5", "E 5", "R12"], [0, "P2", "P1", "P0", 1, "P1"]),
    "17 satellites": (many(17), [0, "P16", "P0", 1, "P8"]),
    "18 satellites": (many(18), [0, "P17", "P0", "V17", 1, "P16"]),
    "34 satellites": (many(34), [0, "P33", "P17", "P0", 1, "P18"]),
    "40 satellites": (many(40), [0, "P39", "P34", "P0", 1, "P38"]),
    "85 satellites": (many(85), [0, "P84", "P0", 1, "P68", "V51"]),
    "120 satellites": (many(120), [0, "P119", "P99", "P9", 1, "P100", "V119"]),
}


def lines(names, recs):
    """text of the records, epochs, and (epoch, satellite, kind) -> line"""
    out, times, at = [], [], {}
    for x in recs:
        j = len(out)
        if isinstance(x, int):
            out.append(epoch(x))
            times.append(x)
        elif x == "EP":
            out.append(sample(j, "EP", "  55"))
        elif x == "EV":
            out.append(sample(j, "EV", "  22"))
        elif x[0] in "PV" and x[1:].isdigit():
            out.append(sample(j, x[0], names[int(x[1:])]))
            at[len(times) - 1, int(x[1:]), x[0]] = j
        elif x[0] in "PV":
            out.append(sample(j, x[0], x[1:]))
    if recs[-1] != "noEOF":
        out.append("EOF\n")
    return out, times, at


def known_list(st, v):
    if v.k == "ref" and st.heap[v.a].kind == "list":
        it = st.heap[v.a].f["items"]
    elif v.k == "tup":
        it = v.a
    else:
        it = small.known(st, v)
    return None if it is None else list(it)


def variables(ds):
    out = {}
    for n, x in ds.f["vars"].items():
        if isc(n) and cv(n) in COMPONENTS:
            out[cv(n)] = x
    return out


def array_of(x, name):
    if x.k == "tup" and len(x.a) >= 2 and x.a[0].k == "tup":
        if tuple(cv(y) if isc(y) else None for y in x.a[0].a) != DIMS[name]:
            raise Lost(f"dimensions {show(x.a[0])}")
        return x.a[1]
    raise Lost(show(x)[:60])


def cell(pol, st, x, name, idx):
    """{(place, factor)} of a cell; None when not known"""
    try:
        s = {(where(pol, a), f) for a, f in origins(st, array_of(x, name), idx)}
    except Lost as e:
        return None, str(e)
    return (None, "a value that is not understood") if any(w is None for w, f in s) else (s, "")


def place(j, kind, name, k):
    c = 4 + 14 * k if DIMS[name][-1] == "ECEF" else 46
    return (j, c, 14)


def tell(w, base=0):
    return "nothing" if w == "nan" else "uninitialised memory" if w == "uninit" else f"columns {w[1]}-{w[1] + w[2]} of line {w[0] + base}" if w[0] != "several" else w[1]


def spot(got, want):
    """compare {(place, factor)} with the expected place"""
    for w, f in got:
        if w == want and f == 1:
            continue
        if w == "nan" or want == "nan" or w == "uninit" or w != want:
            return False, f"holds {tell(w)}, not {tell(want)}"
        return False, f"is multiplied by {f}"
    return True, ""


def whole(R, prog, q):
    names, recs = SHAPES[q]
    rec, times, at = lines(names, recs)
    pol = skel_policy({}, header(names), None, "sp3", dict(enumerate(rec)), whole=True)
    r = Run(prog, "sp3", "load_sp3", [PATH, NONE], {}, pol)
    R.used(r.I)
    ok = [(st, val) for k, st, val in r.res if k == "return"]
    W = "sp3.load_sp3"
    if not ok:
        e = [val for k, st, val in r.res if k == "raise"]
        one = len(r.res) == 1 and e and e[0].exc.a[0] not in ("RecursionError",)
        return R.ob("whole", q, False if one else None, W, f"reading raises {e[0].exc.a[0]} at {e[0].loc}" if e else "nothing is returned")
    verdicts, n = [], 0

    def put(v, w):
        if verdicts[-1][0] is not False and (v is False or verdicts[-1][0] is True):
            verdicts[-1] = v, w

    for st, val in ok:
        verdicts.append((True, ""))
        if val.k != "ref" or st.heap[val.a].kind != "ds":
            put(None, show(val)[:60])
            continue
        ds = st.heap[val.a]
        co = {cv(k): v for k, v in ds.f["coords"].items() if isc(k)}
        sv = known_list(st, co["sv"]) if "sv" in co else None
        want = [s.replace(" ", "") for s in names]
        if sv is None or not all(isc(x) for x in sv):
            put(None, "the satellites are not known")
        elif [cv(x) for x in sv] != want:
            put(False, f"satellites {[cv(x) for x in sv][:30]}, the header lists {want[:30]}")
        tm = known_list(st, co["time"]) if "time" in co else None
        if tm is None:
            put(None, "the times are not known")
        elif len(tm) != len(times):
            put(False, f"{len(tm)} times for {len(times)} epoch lines")
        else:
            for x, y in zip(tm, times):
                w = datetime(2020, 1, 1, y // 4, y % 4 * 15)
                try:
                    g = pol.text.ev(x)
                except (Unknown, Raises):
                    g = None
                if not isinstance(g, datetime):
                    put(None, f"time {show(x)[:60]}")
                elif g != w:
                    put(False, f"epoch {w} is labelled {g}")
        vs = variables(ds)
        for name, (kind, m) in COMPONENTS.items():
            if name not in vs:
                put(None, f"{name} is not returned")
                continue
            for e in range(len(times)):
                for s in range(len(names)):
                    for k in range(m or 1):
                        idx = (C(e), C(s)) + ((C(k),) if m else ())
                        got, note = cell(pol, st, vs[name], name, idx)
                        n += 1
                        if got is None:
                            put(None, f"{name}: {note}")
                            continue
                        j = at.get((e, s, kind))
                        v, w = spot(got, place(j, kind, name, k) if j is not None else "nan")
                        if v is False:
                            put(False, f"{name} of satellite {s} at epoch {e}, component {k}, {w}")
    worst = [w for v, w in verdicts if v is not True]
    good = True if not worst else False if all(v is False for v, w in verdicts) else None  # one path is taken, which one may not be known
    R.ob("whole", q, good, W, worst[0] if worst else f"{n} cells")


def generic(R, prog, node, kind, names, s):
    """the records of an epoch: any number of records of one satellite"""
    q = f"{kind} record of satellite {s} of {len(names)}" if s is not None else f"{kind} record of a satellite that is not listed"
    pol = skel_policy({}, header(names) + [epoch(0)], node, "sp3", {0: sample(0, kind, names[s] if s is not None else "X99")})
    r = Run(prog, "sp3", "load_sp3", [PATH, NONE], {}, pol)
    R.used(r.I)
    good, why, n = True, "", 0
    for k0, st, val in r.res:
        if k0 == "raise":
            continue
        for name, (kd, m) in COMPONENTS.items():
            x = variables(st.heap[val.a]).get(name)
            if x is None:
                good, why = None, f"{name} is not returned"
                continue
            for i in range(len(names)):
                for k in range(m or 1):
                    got, note = cell(pol, st, x, name, (C(-1), C(i)) + ((C(k),) if m else ()))
                    n += 1
                    if got is None:
                        if good:
                            good, why = None, f"{name}: {note}"
                        continue
                    want = place(0, kd, name, k) if i == s and kd == kind else "nan"
                    v, w = spot({y for y in got if y[0] != "nan"}, want)
                    if v is False:
                        good, why = False, f"{name} of satellite {i}, component {k}, {w}"
    R.ob("record", q, good if n else None, "sp3.load_sp3 record loop", why or f"{n} cells")


def record_loop(prog, R):
    pol = skel_policy({}, header(["G05", "G07"]) + [epoch(0)], None, "sp3", None, peel="for")
    r = Run(prog, "sp3", "load_sp3", [PATH, NONE], {}, pol)
    R.used(r.I)
    L = [x for x in r.I.summaries if x.itd is not None and x.itd.stream is not None]
    return L[-1].node if L else None


def check(prog, R, tier):
    R.rule("whole", "files of known lines: every cell of the result comes from the record of its epoch and satellite or is NaN, the satellites are those of the header in order, the times those of the epoch lines", 20)
    R.rule("record", "record loop: a record reaches the cells of its satellite in the current epoch only", 15)
    jobs = [(whole, q) for q in SHAPES]
    node = R.guard("record", "loop", lambda: record_loop(prog, R))
    if node is not None:
        for n in (1, 2, 18, 40):
            for kind in "PV":
                for s in sorted({0, n // 2, n - 1}) + [None]:
                    jobs.append((generic, node, kind, many(n), s))
    R.parallel([(lambda R, f, *j: R.guard("whole" if f is whole else "record", f"{j[0] if f is whole else j[1:]}"[:60], f, R, prog, *j), *j) for j in jobs])
