"""C07: files are routed by the version and type their first line states, or refused."""
from .records import *
from .glue import *

OTHER = {f"georinex.{m}.{f}" for m, f in (
    ("obs2", "obstime2"), ("obs3", "obstime3"), ("nav2", "navtime2"), ("nav3", "navtime3"),
    ("obs2", "obsheader2"), ("obs3", "obsheader3"), ("nav2", "navheader2"), ("nav3", "navheader3"))}
SP3 = "georinex.sp3.load_sp3"
VERSIONS = (0.5, 1.0, 1.9, 2.0, 2.1, 2.11, 2.12, 2.6, 3.0, 3.03, 3.05, 3.7, 4.0, 4.01, 12.0)
# type field of the first line -> (type, systems letter given by it in RINEX 2)
TYPES = {
    "OBSERVATION DATA    ": ("obs", None), "O                   ": ("obs", None), "OBS DATA            ": ("obs", None),
    "COMPACT RINEX FORMAT": ("obs", None),
    "NAVIGATION DATA     ": ("nav", "G"), "N: GPS NAV DATA     ": ("nav", "G"), "N: GNSS NAV DATA    ": ("nav", "G"),
    "GLONASS NAV DATA    ": ("nav", "R"), "GALILEO NAV DATA    ": ("nav", "R"), "E: GALILEO NAV DATA ": ("nav", "E"),
    "METEOROLOGICAL DATA ": (None, None), "CLOCK DATA          ": (None, None), "C                   ": (None, None), "SUMMARY             ": (None, None),
    "IONOSPHERE MAPS     ": (None, None), "XYZ                 ": (None, None),
}


def check(prog, R, tier):
    R.rule("load", "load hands the file to the reader of its own major version and type, or raises", 20)
    R.rule("gettime", "gettime uses the time scan of the file's own major version and type, or raises", 20)
    R.rule("rinexheader", "rinexheader uses the header reader of the file's own major version and type, or raises", 20)
    R.rule("content", "version, type and system are decoded from their columns of the first line", 20)
    R.rule("direct", "rinexnav and rinexobs use the reader of the file's own major version, or raise", 10)
    R.rule("netcdf", "a NetCDF file is answered with the OBS and NAV data it holds, or refused", 8)
    t = [(lambda R: R.guard("netcdf", "load", netcdf, prog, R),)]
    t += [(lambda R: R.guard("load", "load", route, prog, R, "load"),), (lambda R: R.guard("gettime", "gettime", route, prog, R, "gettime"),)]
    t += [(lambda R: R.guard("rinexheader", "rinexheader", route, prog, R, "rinexheader"),)]
    t += [(lambda R: R.guard("content", "rinexinfo", content, prog, R),), (lambda R: R.guard("direct", "base", direct, prog, R),)]
    R.parallel(t)


def suffix_oracle(st, a):
    """the input is not a NetCDF file"""
    if a.a[0] == "eq" and isc(a.a[2]) and cv(a.a[2]) == ".nc":
        return False
    return None


def info_of(v, t):
    d = dict(version=C(v), rinextype=C(t))
    if t != "sp3":
        d.update(filetype=C({"obs": "O", "nav": "N"}.get(t, t)), systems=C("G"))
    return d


STREAM = SYM("text", "StringIO")


def route(prog, R, fn):
    mod = "base" if fn == "load" else "utils"
    stubs = set(READERS) if fn == "load" else {n for n in OTHER if ("time" in n) == (fn == "gettime")}
    for n in stubs:
        fdef(prog, n)
    for t in ("obs", "nav", "M", "C", "sp3", "S"):
        for v in VERSIONS if t != "sp3" else ("a", "c", "d"):
            pol = CallPolicy(info_of(v, t), stubs=stubs, prog=prog, oracle=suffix_oracle)
            I, res = runfn(prog, mod, fn, [PATH], {}, pol)
            R.used(I)
            judge(R, fn, f"{fn} {t} version {v}", t, v, res, stubs, mod + "." + fn, int(v) if t != "sp3" else v)


def direct(prog, R):
    for fn, t in (("rinexobs", "obs"), ("rinexnav", "nav")):
        for v in VERSIONS:
            pol = CallPolicy(info_of(v, t), stubs=set(READERS), prog=prog, oracle=suffix_oracle)
            I, res = runfn(prog, "base", fn, [PATH], {}, pol)
            R.used(I)
            judge(R, "direct", f"{fn} version {v}", t, v, res, set(READERS), "base." + fn, int(v))


def judge(R, rule, q, t, v, res, stubs, w, major):
    """allowed targets: the function of the own version and type; refusal where there is none"""
    if t == "sp3":
        want = {SP3} if rule == "load" else set()
        must = rule == "load"
    elif t in ("obs", "nav"):
        m = 2 if major == 1 else major
        want = {n for n in stubs if n.rsplit(".", 2)[1] == f"{t}{m}"} if m in (2, 3) else set()
        must = major in (2, 3) or (major == 1 and t == "obs")
    else:
        want, must = set(), False
    ok, why = True, ""
    n = 0
    for k, st, val in res:
        cs = {c[0] for c in calls(st, stubs)}
        bad = cs - want
        if bad:
            ok, why = False, f"{'/'.join(sorted(bad))} reads a {t} file of version {v}"
        elif k == "return":
            n += 1
            if not cs:
                ok, why = False, f"returns {show(val)[:80]} for a {t} file of version {v} without reading it"
        elif k == "raise" and not cs and must:
            e = val.exc.a[0] if isinstance(val.exc.a, tuple) else str(val.exc.a)
            # refusals of the arguments are not about the file
            ok, why = (False if only_file(st) else ok), why or f"a {t} file of version {v} is refused ({e})"
    if must and not n and ok:
        ok, why = False, f"a {t} file of version {v} is not read"
    R.ob(rule, q, ok, w, why)


def only_file(st):
    """nothing but constants decided the path"""
    return all(a.a[0] in ("is", "isinstance") or isc(a) or "suffix" in show(a) or a.a[0] == "raises" for a in st.facts) and not any(a.a[0] == "raises" and v for a, v in st.facts.items())


class FirstLine(ReaderPolicy):
    def intercept(self, I, st, name, selfv, args, kw, node, ctx):
        if name == INFO:
            return None
        return super().intercept(I, st, name, selfv, args, kw, node, ctx)


class NetCDF(CallPolicy):
    """a NetCDF file holding the groups `has`"""

    def intercept(self, I, st, name, selfv, args, kw, node, ctx):
        if name == INFO:
            return None
        return super().intercept(I, st, name, selfv, args, kw, node, ctx)

    def nc_attrs(self, path, group):
        if not isc(group) or cv(group) not in ("OBS", "NAV"):
            return None
        return {C("version"): C(3.03), C("rinextype"): C(cv(group).lower())}


def netcdf(prog, R):
    for has in ({"OBS"}, {"NAV"}, {"OBS", "NAV"}, set()):

        def oracle(st, a, has=has):
            if a.a[0] == "eq" and isc(a.a[2]) and cv(a.a[2]) == ".nc":
                return True
            if a.a[0] == "raises" and isinstance(a.a[2], V) and isop(a.a[2], "open_dataset"):
                g = a.a[2].a[2]
                return cv(g) not in has if isc(g) else None
            return None

        nm = "+".join(sorted(has)) or "neither"
        for fn, mod in (("load", "base"), ("rinexinfo", "rio"), ("rinexheader", "utils")):
            pol = NetCDF({}, stubs=set(READERS) | OTHER, prog=prog, oracle=oracle)
            I, res = runfn(prog, mod, fn, [PATH], {}, pol)
            R.used(I)
            ok, why, n = True, "", 0
            for k, st, v in res:
                if calls(st, set(READERS) | OTHER):
                    ok, why = False, f"a NetCDF file is read as text by {calls(st)[0][0]}"
                    continue
                if k == "raise":
                    e = v.exc.a[0]
                    if has and e != "$any":
                        ok, why = False, f"{fn} of a NetCDF file holding {nm} raises {e} (line {v.loc[1] if v.loc else '?'} of {v.loc[0] if v.loc else '?'})"
                    elif fn == "load" and e not in ("ValueError", "LookupError"):
                        ok, why = False, f"{fn} of a NetCDF file without groups raises {e}"
                    continue
                n += 1
                o = st.heap.get(v.a) if v.k == "ref" else None
                if fn == "load":
                    if o is not None and o.kind == "ds":
                        got = {cv(o.f["group"])} if isinstance(o.f.get("group"), V) and isc(o.f["group"]) else None
                    elif o is not None and o.kind == "dict" and not o.f["open"] and not o.f["maybe"]:
                        got = set()
                        for key, x in o.f["d"].items():
                            d = st.heap.get(x.a) if x.k == "ref" else None
                            g = d.f.get("group") if d is not None and d.kind == "ds" else None
                            if not (isinstance(g, V) and isc(g)) or not isc(key):
                                got = None
                                break
                            if cv(key) != cv(g).lower():
                                ok, why = False, f"the {cv(g)} data is filed under {cv(key)!r}"
                            got.add(cv(g))
                    else:
                        got = None
                    if got is None:
                        ok, why = (None, f"load returns {show(v)[:80]}") if ok else (ok, why)
                    elif got != has:
                        ok, why = False, f"load of a NetCDF file holding {nm} returns {sorted(got)}"
                elif o is not None and o.kind == "dict":
                    t = o.f["d"].get(C("rinextype"))
                    items = None
                    if t is not None and isc(t):
                        items = {cv(t)}
                    elif t is not None and t.k == "ref" and st.heap[t.a].kind in ("list", "set") and st.heap[t.a].f["items"] is not None and all(isc(x) for x in st.heap[t.a].f["items"]):
                        items = {cv(x) for x in st.heap[t.a].f["items"]}
                    if items is None:
                        ok, why = (None, f"{fn}: rinextype is {show(t) if t is not None else 'missing'}") if ok else (ok, why)
                    elif items != {g.lower() for g in has}:
                        ok, why = False, f"{fn} of a NetCDF file holding {nm} says {sorted(items)}"
            if has and not n and ok:
                ok, why = False, f"{fn} does not answer for a NetCDF file holding {nm}"
            R.ob("netcdf", f"{fn} {nm}", ok, f"{mod}.{fn}", why)


def content(prog, R):
    q0 = "rio.rinexinfo"
    for field, (typ, sys2) in TYPES.items():
        for ver in (2.11, 3.04):
            for letter in ("M", "G"):
                chars = dict(enumerate(f"{ver:9.2f}".ljust(60) + ("CRINEX VERS   / TYPE" if field.startswith("COMPACT") else "RINEX VERSION / TYPE")))
                chars.update({20 + i: c for i, c in enumerate(field)})
                chars[40] = letter
                pol = FirstLine({})
                pol.oracle = suffix_oracle
                pol.value = text_value(chars)
                I, res = runfn(prog, "rio", "rinexinfo", [PATH], {}, pol)
                R.used(I)
                ok, why, n = True, "", 0
                for k, st, v in res:
                    if k != "return" or v.k != "ref" or sp3(st, v):
                        continue
                    n += 1
                    d = st.heap[v.a].f["d"]
                    want = dict(version=ver)
                    if typ:
                        want["rinextype"] = typ
                    if typ != "nav" or ver >= 3:
                        want["systems"] = letter
                    elif sys2 is not None and field[0] in "NGE" and not field.startswith("GALILEO"):
                        want["systems"] = sys2
                    for key, x in want.items():
                        g = d.get(C(key))
                        if g is None or not isc(g):
                            ok, why = (None, why or f"{key} is {show(g) if g is not None else 'missing'}") if ok else (ok, why)
                        elif cv(g) != x:
                            ok, why = False, f"first line {field.strip()!r} {ver} {letter}: {key} is {cv(g)!r}, not {x!r}"
                    if typ is None:
                        g = d.get(C("rinextype"))
                        if g is not None and isc(g) and cv(g) in ("obs", "nav", "sp3"):
                            ok, why = False, f"first line {field.strip()!r} {ver}: type is {cv(g)!r}"
                if not n:
                    ok, why = (True, "") if typ is None else (False, f"first line {field.strip()!r} {ver} is refused")
                R.ob("content", f"{field.strip()} {ver} {letter}", ok, q0, why)


def sp3(st, v):
    d = st.heap[v.a].f["d"]
    if d.get(C("rinextype")) is C("sp3"):
        return True
    x = d.get(C("version"))
    return isinstance(x, V) and not isc(x) and contains(x, lambda y: y is C("sp3"))
