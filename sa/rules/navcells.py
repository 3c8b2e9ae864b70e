"""Which columns of a navigation record reach which field of the result, and scaled by what (C16, C17).

The header, the system, the satellite's name and the number of values of a record are fixed per shape; every
record of the file has that shape. Where records stand, how many there are and what they hold is not."""
from .records import *
from ..skel import *
from ..loader import AnalysisError
from ..origins import origins, row, Lost

_found = {}
T, S = row("time"), row("sv")


def navhead(version, t):
    return [hl(f"     {version}           NAVIGATION DATA     {t}", "RINEX VERSION / TYPE"), hl("", "END OF HEADER")]


def node_of(prog, v, t):
    k = (id(prog), v, t)
    if k not in _found:
        mod, fn = f"nav{v}", f"rinexnav{v}"
        info, head = (nav3("M"), navhead("3.04", "M")) if v == 3 else (nav2(t), navhead("2.11", t))
        r = Run(prog, mod, fn, [PATH], {}, skel_policy(info, head, None, mod, stop_loop=stop_at_records))
        ns = [x.node for x in r.loops if stop_at_records(x)]
        if not ns:
            raise AnalysisError(f"record loop of {fn} not found")
        _found[k] = ns[0]
    return _found[k]


def place(v, k):
    """(line, column) of value k of a record"""
    a, b = (23, 4) if v == 3 else (22, 3)
    return (0, a + 19 * k) if k < 3 else (1 + (k - 3) // 4, b + 19 * ((k - 3) % 4))


def concrete(v, t, N):
    """a record whose text is known in full"""
    return ["".join(c if ord(c) < 0xF0000 else "1" for c in L) for j, L in sorted(record(v, t, N, LINES.get(t, 7)).items())]


def record(v, t, N, lines, short=0):
    head = f"{t}05 2020 01 01 00 00 00" if v == 3 else " 5 20  1  1  0  0  0.0"
    out = {}
    for j in range(lines + 1):
        n = min(3 if j == 0 else 4, max(0, N - (0 if j == 0 else 4 * j - 1)))
        s = (23 if j == 0 else 4) if v == 3 else (22 if j == 0 else 3)
        out[j] = over(marked(j), 0, head if j == 0 else " " * s)[: s + 19 * n - (short if n and (j == lines or N <= 4 * j + 3) else 0)] + "\n"
    return out


LINES = {"R": 3, "S": 3}


class Got:
    def __init__(self):
        self.fields = {}  # name -> {(place | 'nan' | None, factor)}
        self.why = {}


def shape(prog, R, v, t, N, first="", short=0):
    """([Got] per returned dataset, exceptions raised); t: letter of the system (the file type for RINEX 2);
    first: system of the first record of the file, short: characters missing at the end of the last value"""
    mod, fn = f"nav{v}", f"rinexnav{v}"
    sysl = {"N": "G", "G": "R", "E": "E"}[t] if v == 2 else t
    node = node_of(prog, v, t if v == 2 else "M")
    info, head = (nav3("M"), navhead("3.04", "M")) if v == 3 else (nav2(t), navhead("2.11", t))
    if first:
        head = head + concrete(v, first, len(ORDER[first]))
    pol = skel_policy(info, head, node, mod, record(v, t, N, LINES.get(sysl, 7), short), peel="for")
    r = Run(prog, mod, fn, [PATH], {}, pol)
    R.used(r.I)
    gots, exc = [], []
    for k, st, val in r.res:
        if k == "raise":
            exc.append((val.exc.a[0], val.loc))
            continue
        if k != "return" or val.k != "ref" or st.heap[val.a].kind != "ds":
            raise AnalysisError(f"{fn} returns {show(val)[:60]}")
        ds = st.heap[val.a]
        if not ds.f["vars"]:
            continue  # no records
        g = Got()
        for name, x in ds.f["vars"].items():
            if not isc(name):
                raise AnalysisError("the name of a field is not known " + show(name)[:300])
            try:
                g.fields[cv(name)] = {(where(pol, a), f) for a, f in origins(st, x, (T, S))}
            except Lost as e:
                g.fields[cv(name)] = None
                g.why[cv(name)] = str(e)
        gots.append(g)
    return gots, exc


def where(pol, a):
    if isnan(a):
        return "nan"
    if isop(a, "uninit"):
        return "uninit"
    if isc(a) or isop(a, "float") and isc(a.a[1]):
        return "nan"  # a filler
    x = cellval(pol.text, a)
    if x is None:
        return None
    if x == "nan":
        return x
    w = where_from(x.text)
    return (w[0][0], w[0][1], w[0][2] - w[0][1]) if w is not None and len(w) == 1 else None if w is None else ("several", str(w), 0)


# ------------------------------------------------------------------ the broadcast order (RINEX 3.04, tables A6-A14; RINEX 2.11, tables A4, A11)
_orbit = "Crs DeltaN M0 Cuc Eccentricity Cus sqrtA Toe Cic Omega0 Cis Io Crc omega OmegaDot IDOT".split()
_clock = "SVclockBias SVclockDrift SVclockDriftRate".split()
_gps = _clock + ["IODE"] + _orbit + "CodesL2 GPSWeek L2Pflag SVacc health TGD IODC TransTime FitIntvl spare0 spare1".split()
_state = "SVclockBias SVrelFreqBias MessageFrameTime X dX dX2 health Y dY dY2 {} Z dZ dZ2 {}"
ORDER = {
    "G": _gps,
    "J": _gps,
    "C": _clock + ["AODE"] + _orbit + "spare0 BDTWeek spare1 SVacc SatH1 TGD1 TGD2 TransTime AODC spare2 spare3".split(),
    "E": _clock + ["IODnav"] + _orbit + "DataSrc GALWeek spare0 SISA health BGDe5a BGDe5b TransTime spare1 spare2 spare3".split(),
    "I": _clock + ["IODEC"] + _orbit + "spare0 BDTWeek spare1 URA health TGD spare2 TransTime spare3 spare4 spare5".split(),
    "R": _state.format("FreqNum", "AgeOpInfo").split(),
    "S": _state.format("URA", "IODN").split(),
}
ACCEPTED = {"G": range(28, 32), "C": range(27, 32), "J": range(28, 32), "E": (27, 28, 29, 31), "I": (28, 31), "R": (15,), "S": (15,)}
SCALED = set("X Y Z dX dY dZ dX2 dY2 dZ2".split())
SYSTEM2 = {"N": "G", "G": "R", "E": "E"}
SIZE2 = {"N": 29, "G": 15, "E": 27}


def optional(name):
    return name.startswith("spare") or name == "FitIntvl"


def feeds(g, name):
    """columns that may reach the field, None when not known"""
    c = g.fields[name]
    if c is None or any(w is None for w, f in c):
        return None
    return {w for w, f in c if w not in ("nan", "uninit")}


def mapping(v, t, N, g, first="", short=0):
    """(holds, why): values in file order under distinct fields of the broadcast order"""
    sysl = SYSTEM2[t] if v == 2 else t
    order = ORDER[sysl]
    extra = [n for n in g.fields if n not in order and n not in ORDER.get(first, ())]
    if extra:
        return False, f"{', '.join(extra)} is no field of system {sysl}"
    n = min(N, SIZE2[t]) if v == 2 else N
    at, unknown = {}, ""
    for name in g.fields:
        w = feeds(g, name)
        if w is None:
            unknown = unknown or f"{name}: {g.why.get(name, 'not decided')}"
            continue
        if len(w) > 1:
            return False, f"{name} comes from {said(w)}"
        if w:
            at[name] = next(iter(w))
            if name not in order:
                return False, f"a value of system {sysl} is stored as {name}, a field of system {first}"
    by = {}
    for name, w in at.items():
        if w in by:
            return False, f"{by[w]} and {name} both come from {said([w])}"
        by[w] = name
    last = -1
    for k in range(n):
        w = place(v, k) + (19 - (short if k == n - 1 else 0),)
        if w not in by:
            if unknown:
                return None, unknown
            over = [f"{nm} comes from {said([x])}" for x, nm in by.items() if x[0] == w[0] and x[1] < w[1] + w[2] and w[1] < x[1] + x[2]]
            return False, f"value {k + 1} of the record, {said([w])}, reaches no field" + (f"; {over[0]}" if over else "")
        p = order.index(by[w])
        if p <= last:
            return False, f"value {k + 1} of the record is stored as {by[w]}, which comes before {order[last]} in the broadcast order"
        skipped = [x for x in order[last + 1 : p] if not optional(x)]
        if skipped:
            return False, f"value {k + 1} of the record is stored as {by[w]}, {', '.join(skipped)} is left out"
        last = p
    left = [x for x in order[last + 1 :] if not optional(x)]
    if left and not (v == 2 and N < SIZE2[t]):
        return False, f"{', '.join(left)} is left out"
    more = [nm for w, nm in by.items() if w[:2] not in {place(v, k) for k in range(n)}]
    if more:
        return False, f"{more[0]} comes from {said([at[more[0]]])}, which holds no value"
    gone = [x for x in order if x not in g.fields and not optional(x)]
    if gone and not unknown:
        return False, f"{', '.join(gone)} is missing"
    return (None, unknown) if unknown else (True, f"{n} values")


def said(ws):
    return " and ".join(f"line {w[0]} columns {w[1]}-{w[1] + w[2] - 1}" if w[0] != "several" else f"{w[1]}" for w in sorted(ws, key=str))


def scaling(v, t, g):
    sysl = SYSTEM2[t] if v == 2 else t
    unknown, n = "", 0
    for name, c in g.fields.items():
        want = 1000 if sysl in "RS" and name in SCALED else 1
        if c is None:
            unknown = unknown or f"{name}: {g.why.get(name)}"
            continue
        fs = {f for w, f in c if w not in ("nan", "uninit")}
        bad = [f for f in fs if abs(f - want) > 1e-9 * want]
        if bad:
            return False, f"{name} is multiplied by {bad[0]:g}, not by {want}"
        n += len(fs)
    return (None, unknown) if unknown else (True, f"{n} fields")
