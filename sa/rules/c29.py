"""C29: satellite positions follow the broadcast user algorithm.

The formula keplerian2ecef computes is extracted as a term over the broadcast elements (assignments, helper
functions and loops folded in, no statement of /repo is executed) and compared with the user algorithm of the
interface specification. Terms of different form are compared at sample points of the elements."""
from __future__ import annotations
import math
from datetime import datetime, timedelta
from ..terms import *
from ..gridval import Unknown
from ..texteval import Text, Raises
from ..scen import ReaderPolicy
from ..loader import AnalysisError
from .glue import runfn

EPH = SYM("eph", "Dataset")
WRAP = ("np:array", "np:asarray", "np:atleast_1d", "np:ascontiguousarray", "m:astype", "m:copy", "np:copy", "np:float64", "float", "m:to_numpy", "m:squeeze", "m:ravel", "np:asanyarray", "m:flatten", "np:ravel")
VIEW = ("values", "data")
OMEGA = 7.2921151467e-5
GMS = (3.986004418e14, 3.986005e14)  # Galileo, GPS
FN = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "sqrt": math.sqrt, "arctan": math.atan, "arcsin": math.asin, "arccos": math.acos, "exp": math.exp, "abs": abs, "fabs": abs, "deg2rad": math.radians, "rad2deg": math.degrees, "square": lambda x: x * x, "round": round, "rint": round, "int": int, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "around": round}
FN2 = {"arctan2": math.atan2, "power": math.pow, "hypot": math.hypot, "multiply": lambda a, b: a * b, "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "divide": lambda a, b: a / b, "mod": math.fmod}


def element(v):
    """name of the broadcast element a term stands for"""
    if isop(v, "item") and v.a[1] is EPH and isc(v.a[2]) and isinstance(cv(v.a[2]), str):
        return cv(v.a[2])
    if isop(v, "attr") and v.a[1] is EPH and isinstance(v.a[2], str):
        return v.a[2]
    if isop(v, "item") and isop(v.a[1], "attr") and v.a[1].a[1] is EPH and v.a[1].a[2] in ("data_vars", "coords", "variables") and isc(v.a[2]):
        return cv(v.a[2])
    return None


def whole(v):
    """the array a term stands for, without views and conversions"""
    while v.k == "op" and (v.a[0] in WRAP or v.a[0] == "attr" and v.a[2] in VIEW) and len(v.a) > 1 and isinstance(v.a[1], V):
        v = v.a[1]
    return v


class Elementwise:
    """value of a term for one epoch: every array stands for its element at this epoch"""

    def __init__(self, st, values):
        self.st, self.values, self.memo = st, values, {}

    def ev(self, v):
        if v not in self.memo:
            self.memo[v] = Unknown("recursive")
            try:
                self.memo[v] = self._ev(v)
            except Unknown as e:
                self.memo[v] = e
        r = self.memo[v]
        if isinstance(r, Exception):
            raise r
        return r

    def _ev(self, v):
        if isc(v) and isinstance(cv(v), (int, float)):
            return cv(v)
        n = element(v)
        if n is not None:
            if n in self.values:
                return self.values[n]
            raise Unknown(n)
        if v.k == "poly":
            dates, t = 0, 0
            for m, c in v.a:
                fs = [self.ev(f) for f in m]
                p = c
                for x in fs:
                    if isinstance(x, datetime):
                        if len(fs) != 1 or c not in (1, -1):
                            raise Unknown(show(v)[:80])
                        dates += c
                        x = (x - datetime(1980, 1, 6)).total_seconds()
                    p *= x
                t += p
            if dates == 0:
                return t
            if dates == 1:
                return datetime(1980, 1, 6) + timedelta(seconds=t)
            raise Unknown(show(v)[:80])
        if v.k == "ref":
            o = self.st.heap.get(v.a)
            if o is None:
                raise Unknown("object")
            if o.kind == "list":
                el = o.f["elems"]
                if len(el) == 1:
                    return self.ev(el[0])
            if o.kind == "array":
                s = o.f["stores"]
                if len(s) == 1 and o.f.get("src") is None and (s[0][0].k == "sym" or isop(s[0][0], "sl") and s[0][0].a[1:] == (NONE, NONE, NONE)):
                    return self.ev(s[0][1])
                if not s and isinstance(o.f.get("src"), V) and o.f.get("idx") is None:
                    return self.ev(o.f["src"])
                if not s and isinstance(o.f.get("of"), V):
                    return self.ev(o.f["of"])
                el = o.f.get("elems")
                if not s and el is not None and len(el) == 1:
                    return self.ev(el[0])
                if not s and o.f.get("fillv") is not None and isc(o.f["fillv"]) and cv(o.f["fillv"]) is not None:
                    return cv(o.f["fillv"])
            raise Unknown(o.kind)
        if v.k != "op":
            raise Unknown(show(v)[:80])
        n, a = v.a[0], v.a[1:]
        if n == "elem" or n in WRAP or n == "attr" and a[1] in VIEW:
            return self.ev(a[0])
        if n == "item" and len(a) == 2 and (a[1].k == "sym" and isinstance(a[1].a, tuple) and a[1].a[0] == "it"):
            return self.ev(a[0])
        if n == "attr" and a[1] in ("seconds", "days", "microseconds") and isinstance(a[0], V) and a[0].t != "datetime":
            x = self.ev(a[0])
            return {"seconds": math.floor(x) % 86400, "days": x // 86400, "microseconds": round(x % 1 * 1e6)}[a[1]]
        if n in ("td", "tsec"):
            return self.ev(a[0])
        if n == "datetime":
            return datetime(*(int(self.ev(x)) for x in a))
        if n == "div":
            return self.ev(a[0]) / self.ev(a[1])
        if n in ("pow", "Pow"):
            return self.ev(a[0]) ** self.ev(a[1])
        if n in ("floordiv", "FloorDiv"):
            return self.ev(a[0]) // self.ev(a[1])
        if n in ("mod", "Mod"):
            return self.ev(a[0]) % self.ev(a[1])
        if n == "m:replace" and len(a) == 2 and show(a[1]) == "(('microsecond', 0),)":
            return self.ev(a[0]).replace(microsecond=0)
        if n == "round" and len(a) == 2 and isc(a[1]):
            return round(self.ev(a[0]), cv(a[1]))
        if n == "phi":
            r = [self.ev(x) for x in a]
            if all(x == r[0] for x in r):
                return r[0]
            raise Unknown("phi")
        f = n[3:] if n.startswith("np:") else n[5:] if n.startswith("math:") else n
        if f in FN and len(a) == 1:
            return FN[f](self.ev(a[0]))
        if f in FN2 and len(a) == 2:
            return FN2[f](self.ev(a[0]), self.ev(a[1]))
        raise Unknown(show(v)[:80])


class Letter(Text):
    """texts made of the satellite label and the svtype attribute"""

    def __init__(self, system, coord):
        super().__init__(lambda v: None)
        self.system, self.coord = system, coord

    def _ev(self, v):
        if v is EPH:
            return ("sv", "time") if self.coord else ("time",)
        n = element(v)
        if n == "sv" and self.coord:
            return (self.system + "05",)
        if n == "svtype" or isop(v, "item") and isop(v.a[1], "attr") and v.a[1].a[1] is EPH and v.a[1].a[2] == "attrs" and v.a[2] is C("svtype"):
            return (self.system,)
        if isop(v, "attr") and v.a[2] in ("coords", "variables", "dims") and v.a[1] is EPH:
            return ("sv", "time") if self.coord else ("time",)
        if v.k == "op" and (v.a[0] in WRAP or v.a[0] == "attr" and v.a[2] in VIEW or v.a[0] == "m:item"):
            x = self.ev(v.a[1])
            return x[0] if v.a[0] == "m:item" and isinstance(x, tuple) else x
        if isop(v, "item") and len(v.a) == 3 and isc(v.a[2]) and isinstance(cv(v.a[2]), int):
            x = self.ev(v.a[1])
            if isinstance(x, (tuple, str)) and -len(x) <= cv(v.a[2]) < len(x):
                return x[cv(v.a[2])]
        if isop(v, "str") and len(v.a) == 2:
            return self.ev(v.a[1])
        return super()._ev(v)


class Kepler(ReaderPolicy):
    def __init__(self, system, coord):
        super().__init__({})
        self.text = Letter(system, coord)

    def decide(self, st, atom):
        if atom.a[0] in ("eq", "in", "lt0", "truth") and contains(atom, lambda y: y is EPH):
            r = self.text.atom(atom)
            if r is not None:
                return r
        return super().decide(st, atom)


# elements as a receiver may get them, then with every correction large enough to be seen beside the others
BASE = dict(sqrtA=5153.6, DeltaN=4.3e-9, Toe=410400.0, Eccentricity=1e-5, M0=2.2, omega=-0.88, Cuc=-3.1e-3, Cus=2.7e-3, Cic=1.9e-3, Cis=-4.3e-3, Crc=28200.0, Crs=-13200.0, Io=0.97, IDOT=-4.2e-7, Omega0=2.29, OmegaDot=-8.0e-7)
SAMPLES = [
    (dict(BASE), 910, 403272.93),
    (dict(BASE, Toe=0.0, M0=-1.3, omega=1.9, Io=0.3, Omega0=-0.7), 2050, -3600.5),
    (dict(BASE, Eccentricity=0.1), 1849, 438000.0),
    (dict(BASE, Eccentricity=0.02, Toe=597600.0, DeltaN=-8e-6, IDOT=3e-6, M0=0.4, Io=1.7, omega=2.9), 1333, 604800.0 + 3600.25),
]


def anomalies(M, e):
    """approximations of the eccentric anomaly"""
    E, out = M, []
    for k in range(60):
        E = M + e * math.sin(E)
        out.append(E)
    for E in (M, M + e * math.sin(M)):
        for k in range(6):
            E -= (E - e * math.sin(E) - M) / (1 - e * math.cos(E))
            out.append(E)
    return out


def algorithm(v, tk, GM):
    """IS-GPS-200 table 20-IV, Galileo OS SIS ICD table 58: a result per approximation of the eccentric anomaly"""
    A = v["sqrtA"] ** 2
    n = math.sqrt(GM / A**3) + v["DeltaN"]
    e = v["Eccentricity"]
    for E in anomalies(v["M0"] + n * tk, e):
        nu = math.atan2(math.sqrt(1 - e * e) * math.sin(E), math.cos(E) - e)
        phi = nu + v["omega"]
        s, c = math.sin(2 * phi), math.cos(2 * phi)
        u = phi + v["Cus"] * s + v["Cuc"] * c
        r = A * (1 - e * math.cos(E)) + v["Crs"] * s + v["Crc"] * c
        i = v["Io"] + v["Cis"] * s + v["Cic"] * c + v["IDOT"] * tk
        x, y = r * math.cos(u), r * math.sin(u)
        O = v["Omega0"] + (v["OmegaDot"] - OMEGA) * tk - OMEGA * v["Toe"]
        yield x * math.cos(O) - y * math.cos(i) * math.sin(O), x * math.sin(O) + y * math.cos(i) * math.cos(O), y * math.sin(i)


def deviation(st, out, system, sample):
    """largest distance from the nearest admitted result in parts of the radius; the evaluated coordinates"""
    vals, week, sow = sample
    v = dict(vals)
    v["GPSWeek" if system == "G" else "GALWeek"] = week
    v["time"] = datetime(1980, 1, 6) + timedelta(weeks=week, seconds=sow)
    e = Elementwise(st, v)
    got = [e.ev(x) for x in out]
    tk = sow - vals["Toe"]
    ref = [w for GM in GMS for w in algorithm(vals, tk, GM)]
    R = math.sqrt(sum(x * x for x in ref[0]))
    best = min(ref, key=lambda w: max(abs(g - x) for g, x in zip(got, w)))
    return [abs(g - x) / R for g, x in zip(got, best)]


def one(R, prog, system, coord):
    q = f"{system}, " + ("the satellite is a coordinate" if coord else "the system is an attribute")
    W = "keplerian.keplerian2ecef"
    pol = Kepler(system, coord)
    I, res = runfn(prog, "keplerian", "keplerian2ecef", [EPH], {}, pol)
    R.used(I)
    outs = [(st, v) for k, st, v in res if k == "return"]
    if not outs:
        bad = [v for k, st, v in res if k == "raise"]
        return R.ob("position", q, False if len(res) == 1 and bad else None, W, f"raises {bad[0].exc.a[0]} at {bad[0].loc}" if bad else "nothing is returned")
    verdicts = []
    for st, v in outs:
        xs = list(v.a) if v.k == "tup" else list(st.heap[v.a].f["items"] or ()) if v.k == "ref" and st.heap[v.a].kind == "list" else None
        if xs is None or len(xs) != 3:
            verdicts.append((None, f"returns {show(v)[:60]}"))
            continue
        if system in "RS":
            names = [element(whole(x)) for x in xs]
            if names == ["X", "Y", "Z"]:
                verdicts.append((True, ""))
            else:
                verdicts.append((False if all(n in ("X", "Y", "Z") for n in names) or any(contains(x, lambda y: element(y) in ("sqrtA", "M0", "dX", "dY", "dZ")) for x in xs) else None, f"returns {show(v)[:80]}"))
            continue
        try:
            worst = (0, "", "")
            for k, s in enumerate(SAMPLES):
                d = deviation(st, xs, system, s)
                for x, name in zip(d, "XYZ"):
                    if not x <= worst[0]:
                        worst = (x, name, k)
        except Unknown as e:
            verdicts.append((None, f"not understood: {e}"))
            continue
        # half of the distance the two accepted gravitational constants make over the times of the samples
        verdicts.append((True, f"{len(SAMPLES)} points") if worst[0] <= 1e-9 else (False, f"{worst[1]} differs from the user algorithm by {worst[0]:.2g} of the radius at sample {worst[2]}"))
    bad = [w for v, w in verdicts if v is not True]
    R.ob("position", q, True if not bad else False if all(v is False for v, w in verdicts) else None, W, bad[0] if bad else verdicts[0][1])


def check(prog, R, tier):
    R.rule("position", "the coordinates as a formula over the broadcast elements are those of the user algorithm; GLONASS and SBAS coordinates are the broadcast ones", 8)
    for s in "GERS":
        for coord in (True, False):
            R.guard("position", f"{s} {coord}", one, R, prog, s, coord)
