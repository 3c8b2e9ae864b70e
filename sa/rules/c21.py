"""C21: loaded data carries its provenance and survives NetCDF output."""
from .attrs import *

POS = [3370658.5419, 711877.138, 5349787.0]
INTERVAL = hl("    30.000", "INTERVAL")
XYZ = hl("  3370658.5419   711877.1380  5349787.0000", "APPROX POSITION XYZ")
OTHERS = [hl("RECEIVER            MODEL               V1", "REC # / TYPE / VERS"), hl("     0", "RCV CLOCK OFFS APPL"), hl("  2020     1     1     1     0    0.0000000     GPS", "TIME OF LAST OBS"), hl("     9", "# OF SATELLITES"), hl("    18", "LEAP SECONDS")]
ION2 = [hl("    1.0000D-08  0.0000D+00 -5.0000D-08  0.0000D+00", "ION ALPHA"), hl("    8.0000D+04  0.0000D+00 -1.0000D+05  0.0000D+00", "ION BETA")]
ION3 = [hl(f"{n}   1.0000D-08  0.0000D+00 -5.0000D-08  0.0000D+00", "IONOSPHERIC CORR") for n in ("GPSA", "GPSB", "GAL ", "QZSA", "QZSB", "BDSA", "BDSB", "IRNA", "IRNB")]
STREAM = SYM("stream", "TextIO")


def facts(R, q, where, outs, exc, rtype, path, interval, position):
    full = [x for x in outs if x.n]
    if not full:
        R.ob("states", q, None, where, f"{exc[0][0]} at {exc[0][1]}" if exc else "no dataset with values is returned")
    elif rtype:
        ok, why = True, ""
        for x in full:
            want = dict(version=lambda v: all(y is SYM("version", "float") for y in alts(v)), rinextype=lambda v: all(y is C(rtype) for y in alts(v)))
            if path:
                want["filename"] = lambda v: True if all(isop(y, "attr") and y.a[1] is PATH and y.a[2] == "name" for y in alts(v)) else False if all(isc(y) or y is PATH or isop(y, "str") and y.a[1] is PATH for y in alts(v)) else None
            if rtype == "obs":
                want["time_system"] = lambda v: True
            if interval is not None:
                want["interval"] = lambda v: number(v, interval)
            if position:
                want["position"] = lambda v: triple(x.st, v, position)
            for k, f in want.items():
                v = x.attrs.get(k)
                if v is None or k in x.maybe:
                    ok, why = False, f"{k} is not stated" + (" on every path" if v is not None else "")
                    break
                g = f(v)
                if g is not True:
                    ok, why = (g if ok else ok), f"{k} is {show(v)[:80]}"
                    if g is False:
                        ok = False
                        break
            if ok is False:
                break
        R.ob("states", q, ok, where, why if ok is not True else "")
    bad = [(k, kind(x.st, v)) for x in outs for k, v in x.attrs.items() if kind(x.st, v)]
    R.ob("types", q, False if bad else True if outs else None, where, f"attribute {bad[0][0]} is a {bad[0][1]}" if bad else f"{sum(len(x.attrs) for x in outs)} attributes")


def one_obs(R, prog, version, name, lines, kw, fast, missing, arg, interval, position, names, types):
    outs, exc = obs(prog, R, version, "M", lines, names, types, kw, missing, fast, arg)
    facts(R, f"obs{version} {name}", f"obs{version}.rinexobs{version}", outs, exc, "obs", arg is PATH, interval, position)


def one_nav(R, prog, v, t, ion, arg):
    outs, exc = nav(prog, R, v, t, ion, arg)
    facts(R, f"nav{v} {t}" + (" with ionosphere" if ion else "") + (" from a stream" if arg is not PATH else ""), f"nav{v}.rinexnav{v}", outs, exc, "nav", arg is PATH, None, None)


def one_sp3(R, prog):
    from .glue import runfn
    I, res = runfn(prog, "sp3", "load_sp3", [PATH, NONE], {}, ReaderPolicy({}))
    R.used(I)
    outs = []
    for k, st, val in res:
        if k == "return" and val.k == "ref" and st.heap[val.a].kind == "ds":
            a, m = attrs_of(st, st.heap[val.a])
            outs.append(Result(st, a, m, 1))
    bad = [(k, kind(x.st, v)) for x in outs for k, v in x.attrs.items() if kind(x.st, v)]
    R.ob("types", "sp3", False if bad else True if outs else None, "sp3.load_sp3", f"attribute {bad[0][0]} is a {bad[0][1]}" if bad else "")


def check(prog, R, tier):
    R.rule("states", "a dataset with values states version, kind, file name and, for OBS, time system and the interval and position of the header", 40)
    R.rule("types", "no attribute is a boolean, None, a dictionary, a set or a date", 40)
    jobs = []
    N = ["G05", "G07"]
    T2, T3 = ["C1", "L1"], {"G": ["C1C", "L1C"]}
    for version in (2, 3):
        types = T2 if version == 2 else T3
        for fast in (True, False) if version == 2 else (True,):
            f = "" if fast or version == 3 else ", strict"
            base = dict(use=C("G"))
            heads = {
                "no optional lines": ([], None, None),
                "interval": ([INTERVAL], 30.0, None),
                "position": ([XYZ], None, POS),
                "interval and position": ([INTERVAL, XYZ], 30.0, POS),
                "position stated twice": ([XYZ, XYZ], None, POS),
                "short interval": ([hl("     0.100", "INTERVAL")], 0.1, None),
                "long interval": ([hl("123456.125", "INTERVAL")], 123456.125, None),
                "all lines": (OTHERS + [INTERVAL, XYZ], 30.0, POS),
                "unreadable interval": ([hl("  A  ", "INTERVAL")], None, None),
            }
            for n, (ex, iv, pos) in heads.items():
                jobs.append((one_obs, version, n + f, head(version, "M", types, "GPS", ex), base, fast, (), PATH, iv, pos, N, types))
            full = head(version, "M", types, "GPS", [INTERVAL, XYZ])
            sels = {
                "meas": dict(base, meas=[C("C1") if version == 2 else C("C1C")]),
                "indicators": dict(base, useindicators=C(True)),
                "time limits": dict(base, tlim=TUP([LO, HI])),
                "an interval": dict(base, interval=IV),
            }
            for n, kw in sels.items():
                jobs.append((one_obs, version, n + f, full, kw, fast, (), PATH, 30.0, POS, N, types))
            jobs.append((one_obs, version, "without pymap3d" + f, full, base, fast, ("pymap3d",), PATH, 30.0, POS, N, types))
            if version == 3:
                jobs.append((one_obs, version, "from a stream", full, base, fast, (), STREAM, 30.0, POS, N, types))
    for t in "NGE":
        for ion in ([], ION2):
            jobs.append((one_nav, 2, t, ion, PATH))
        jobs.append((one_nav, 2, t, [], STREAM))
    for t in "GRECJIS":
        for ion in ([], ION3):
            jobs.append((one_nav, 3, t, ion, PATH))
        jobs.append((one_nav, 3, t, [], STREAM))
    R.parallel([(lambda R, f, *j: R.guard("states", f"{f.__name__} {j[0]} {j[1]}", f, R, prog, *j), *j) for j in jobs] + [(lambda R: R.guard("types", "sp3", one_sp3, R, prog),)])
