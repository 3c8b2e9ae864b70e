"""C15: no call changes its arguments, a module-level table or the process, and none keeps results for later calls."""
from .c13 import *
from . import c13, c29
from .records import RecPolicy, HDRQ
from .records import READERS as RECORDS
from .glue import CallPolicy, READERS as CALLEES
from ..interp import Limit, Interp
from ..rl import const, LO, HI
from ..scen import Contract
from .openscen import OpenPolicy, CONTAINERS, RIN, CRX, SP3, DRIVER

# what passes the elements of the array or mapping it is given on, not a copy
ALIAS = {"np:asarray", "np:atleast_1d", "np:atleast_2d", "np:asanyarray", "np:ascontiguousarray", "np:squeeze", "np:ravel", "np:reshape", "np:transpose", "np:moveaxis", "np:swapaxes", "m:squeeze", "m:ravel", "m:reshape", "m:transpose", "m:view", "m:swapaxes", "m:to_numpy", "m:sel", "m:isel", "m:get", "m:values", "m:items", "cast"}
FRESH_ATTR = {"shape", "size", "ndim", "dims", "dtype", "sizes", "nbytes", "name"}


def alias(v, views=None):
    """the argument a term is a part or a view of, None if it is a value of its own"""
    while isinstance(v, V):
        if v.k == "sym":
            return v
        if v.k == "ref" or v.k != "op":
            return v if v.k == "ref" else None
        if v.a[0] == "attr" and v.a[2] not in FRESH_ATTR or v.a[0] == "np:array" and views and views.get(v) == {True} or v.a[0] in ("item", "elem", "idx") or v.a[0] in ALIAS:
            v = v.a[1]
            continue
        return None
    return None


class Watched(Interp):
    """notes every change of an object that outlives the call, on whatever path"""

    def emit(self, st, kind, data, node, ctx):
        if kind in ("mutate", "augval", "memo"):
            self.noted.append((kind, data, self.loc(node, ctx), st))
        elif kind == "view":
            self.views.setdefault(data[0], set()).add(data[1])
        super().emit(st, kind, data, node, ctx)


def run(prog, mod, fn, args, kw, pol):
    I = Watched(prog, pol)
    I.noted, I.views = [], {}
    I.mine = {x for v in [*args, *kw.values()] for x in (v if isinstance(v, (list, tuple)) else [v]) if isinstance(x, V) and x.k == "sym"}
    st = I.fresh_state()
    before = set(st.heap)
    args = [const(st, a, i) for i, a in enumerate(args)]
    kw = {k: const(st, a, k) for k, a in kw.items()}
    names = {v.a: k for k, v in [*enumerate(args), *kw.items()] if isinstance(v, V) and v.k == "ref"}
    for oid in set(st.heap) - before:
        if st.heap[oid].origin is None and st.heap[oid].kind != "stream":
            st.heap[oid].origin = ("arg", names.get(oid, "?"), "")
    I.noted.clear()
    try:
        res = I.run(mod if mod == "drive" else "georinex." + mod, fn, args, kw, st)
    except Limit:
        res = None
    return I, res


def changes(I):
    """(definite, unclear): what was changed, where"""
    bad, open_ = [], []
    for kind, d, loc, st in I.noted:
        at = f"{loc[0].split('.')[-1]}.{str(loc[2]).split('.')[-1]} line {loc[1]}"
        if kind == "memo":
            q, files, obj = d
            if files:
                bad.append((f"{q.split('.')[-1]} keeps what it read from a file for later calls", at))
            elif obj:
                open_.append((f"{q.split('.')[-1]} hands the same object out on every call", at))
            continue
        what, how = d
        if kind == "augval":
            what = ("value", what)
        if what[0] == "value":
            a = alias(what[1], I.views)
            if a is None:
                continue
            if kind == "augval" and (a is what[1] or scalar(what[1])):
                continue
            if a.k == "ref":
                o = st.heap.get(a.a)
                if o is None or o.origin is None:
                    continue
                bad.append((name(o.origin), f"{how} at {at}"))
            elif a in I.mine:
                bad.append((f"the argument {show(a)}", f"{how} at {at}"))
        elif what[0] == "process":
            bad.append((f"{what[1]} of the process", f"{how} at {at}"))
        else:
            bad.append((name(what), f"{how} at {at}"))
    return bad, open_


def scalar(v):
    return v.t in ("int", "float", "str", "bool", "bytes", "datetime", "timedelta")


def name(o):
    return {"arg": f"the argument {o[1]}", "default": f"the default value of an argument of {str(o[1]).split('.')[-1]}"}.get(o[0], f"{str(o[1]).split('.')[-1]}.{o[2] if len(o) > 2 else ''}")


def judge(R, q, where, I, res, want=None):
    R.used(I)
    bad, open_ = changes(I)
    arg = [x for x in bad if "argument" in x[0]]
    rest = [x for x in bad if x not in arg]
    done = res is not None and any(k == "return" for k, *_ in res) or bool(I.summaries)
    for rule, l in (("arguments", arg), ("tables", rest)):
        R.ob(rule, q, False if l else None if not done or rule == "tables" and open_ else True, where, f"{l[0][0]}: {l[0][1]}" if l else f"{open_[0]}" if open_ and rule == "tables" else f"{len(I.noted)} changes of objects seen, none of these" if done else "nothing is returned")


def one(R, prog, q, mod, fn, args, kw, mk):
    pol = mk()
    if callable(args):
        args = args()
    import os, time
    t0 = time.time()
    I, res = run(prog, mod, fn, args, kw, pol)
    if os.environ.get("SA_TIME"):
        print("TIME", q, round(time.time() - t0, 1), len(I.noted), flush=True)
    judge(R, q, f"{mod}.{fn}", I, res)


def readers():
    """every reader on unconstrained files, its options passed as objects of the caller"""
    for n, (mod, fn, info) in RECORDS.items():
        if mod == "sp3" or n.startswith("nav3") and n[-1] not in "GRE":
            continue
        for how in ("plain", "selected", "any"):
            kw = {}
            args = [PATH]
            if mod == "obs2":
                args.append(C("G"))
                kw["fast"] = C(n.endswith("fast"))
                fn_ = "rinexsystem2"
            else:
                fn_ = fn
            if how == "selected":
                if mod != "obs2" and mod != "nav2":
                    kw["use"] = {"G", "R"}
                kw["tlim"] = [LO, HI]
                if mod.startswith("obs"):
                    kw["meas"] = ["C1", "L1", "S1", "D1", "C5", "L5"]
                    kw["interval"] = IVL
            if how == "any":
                if mod != "obs2" and mod != "nav2":
                    kw["use"] = SYM("use", "set")
                if mod.startswith("obs"):
                    kw["meas"] = SYM("meas", "list")

            def mk(n=n, info=info):
                pol = RecPolicy(info())
                pol.scan_symbol = True
                if n.startswith("nav3"):
                    from .records import letter_value
                    pol.value = letter_value(n[-1])
                return pol
            yield f"{n} reader, {how}", mod, fn_, args, kw, mk


IVL = SYM("interval", "float")


def glue(prog):
    o = SYM("out", "Path")
    opts = dict(use={"G", "R"}, tlim=[LO, HI], useindicators=SYM("useindicators", "bool"), meas=["C", "L1"], interval=IVL)
    stubs = set(CALLEES)
    for kind, d in (("obs2", dict(rinextype="obs", version=C(2.11), filetype="O", systems="G")), ("obs3", dict(rinextype="obs", version=C(3.04), filetype="O", systems="M")), ("nav2", dict(rinextype="nav", version=C(2.1), filetype="N", systems="G")), ("nav3", dict(rinextype="nav", version=C(3.04), filetype="N", systems="M")), ("sp3", dict(rinextype="sp3", version="c"))):
        for out in (NONE, o):
            yield f"load {kind}{' with output' if out is o else ''}", "base", "load", [PATH, out], opts, lambda d=d: CallPolicy(dict(d), stubs=stubs, prog=prog)
    b = {k: v for k, v in opts.items() if k != "interval"}
    yield "batch_convert", "base", "batch_convert", [SYM("path", "Path"), SYM("glob", "str"), o], b, lambda: CallPolicy({}, stubs={"georinex.base.load"}, prog=prog)
    yield "rinexobs", "base", "rinexobs", [PATH, o], dict(b, group=C("OBS")), lambda: CallPolicy(dict(rinextype="obs", version=C(3.04), filetype="O", systems="M"), stubs=stubs, prog=prog)
    yield "rinexnav", "base", "rinexnav", [PATH, o], dict(use={"G"}, tlim=[LO, HI]), lambda: CallPolicy(dict(rinextype="nav", version=C(3.04), filetype="N", systems="M"), stubs=stubs, prog=prog)


def tools(prog):
    for s in "GER":
        yield f"keplerian2ecef {s}", "keplerian", "keplerian2ecef", [c29.EPH], {}, lambda s=s: kepler(s)
    files = lambda: [[SYM("file1", "Path"), SYM("file2", "Path")]]
    yield "get_locations of a list", "geo", "get_locations", files(), {}, lambda: CallPolicy({}, stubs={"georinex.utils.rinexheader"}, prog=prog)
    yield "globber", "utils", "globber", [SYM("path", "Path"), ["*.rnx", "*.nc"]], {}, lambda: Contract({})
    hdr = SYM("header", "dict")
    yield "determine_time_system", "common", "determine_time_system", [hdr], {}, lambda: Contract({})
    yield "check_unique_times", "common", "check_unique_times", [SYM("times", "ndarray")], {}, lambda: Contract({})
    yield "check_time_interval", "common", "check_time_interval", [IVL], {}, lambda: Contract({})
    yield "to_datetime", "utils", "to_datetime", [SYM("times", "DataArray")], {}, lambda: Contract({})
    yield "rinex_string_to_float", "common", "rinex_string_to_float", [SYM("text", "str")], {}, lambda: Contract({})
    for box, (sfx, magic) in CONTAINERS.items():
        for what, text in (("RINEX", RIN), ("CRINEX", CRX), ("SP3", SP3)):
            mk = lambda sfx=sfx, magic=magic, text=text: OpenPolicy(sfx[0], magic, text)
            yield f"rinexinfo of {box} {what}", "rio", "rinexinfo", [SYM("fn", "Path")], {}, mk
            yield f"opener of {box} {what}", "drive", "probe", [SYM("fn", "Path"), FALSE], {}, mk


def kepler(s):
    pol = ReaderPolicy({})

    def value(v):
        if isop(v, "idx") and v.a[2] is C(0) and v.t == "str" and contains(v, lambda y: y is c29.EPH):
            return C(s)
        return None

    pol.value = value
    return pol


def whole():
    """whole files, selections as objects of the caller; every function of the readers with its real headers"""
    for q, mod, fn, args, kw, mk in [*jobs(), *headers()]:
        yield q + " (file)", mod, fn, args, kw, mk
        if "meas" in kw:
            yield q + " with names without a match (file)", mod, fn, args, dict(kw, meas=["S", "Z9", "L1C", "L1C", "Q"], useindicators=TRUE), mk
        if mod.startswith("obs") and "meas" not in kw and isinstance(kw.get("use"), set) and len(kw["use"]) == 3:
            yield q + " and another letter (file)", mod, fn, args, dict(kw, use=kw["use"] | {"J"}), mk
        if mod == "sp3":
            yield q + " (file, with output)", mod, fn, [PATH, SYM("out", "Path")], kw, mk


def check(prog, R, tier):
    R.rule("arguments", "no list, set, mapping, dataset or array of the caller is changed on any path", 60)
    R.rule("tables", "no module-level object, default argument value or process setting is changed, and no function keeps what it read", 60)
    if "drive" not in prog.modules:
        prog.driver("drive", DRIVER)
    js = [*whole(), *readers(), *glue(prog), *tools(prog)]
    R.parallel([(lambda R, *j: R.guard("arguments", j[0], one, R, prog, *j), *j) for j in js])
