"""C06: every reading option reaches the reader that must honour it."""
from .glue import *
from ..rl import LO, HI

OPTS = {
    "use": SYM("use", "set"), "tlim": None, "useindicators": SYM("useindicators", "bool"), "meas": SYM("meas", "list"),
    "verbose": SYM("verbose", "bool"), "fast": SYM("fast", "bool"), "interval": SYM("interval", "float"), "overwrite": SYM("overwrite", "bool"),
}
OBSOPTS = ("use", "tlim", "useindicators", "meas", "verbose", "fast", "interval")
# options each reader supports (documented behaviour of the format reader)
SUPPORTS = {"obs2": OBSOPTS, "obs3": OBSOPTS, "nav2": ("tlim",), "nav3": ("use", "tlim"), "sp3": ("overwrite",)}
KINDS = {
    "obs2": dict(rinextype="obs", version=C(2.11), filetype="O", systems="G"),
    "obs3": dict(rinextype="obs", version=C(3.04), filetype="O", systems="M"),
    "nav2": dict(rinextype="nav", version=C(2.1), filetype="N", systems="G"),
    "nav3": dict(rinextype="nav", version=C(3.04), filetype="N", systems="M"),
    "sp3": dict(rinextype="sp3", version="c"),
}
TS, TE = SYM("start", "str"), SYM("stop", "str")
OUT = SYM("out", "Path")


def check(prog, R, tier):
    R.rule("reader", "the value of the option at the reader is the caller's value", 20)
    R.rule("bounds", "textual bounds are converted bound by bound, datetime bounds are delivered as they are", 4)
    R.rule("batch", "batch_convert hands its option to load for every file", 8)
    R.rule("cli", "the command line option reaches the library call under its own meaning, given or not", 16)
    R.rule("output", "the requested output location and overwrite reach the writer", 5)
    R.rule("entry", "load hands every option the read and the output need to rinexobs and rinexnav", 4)
    for kind in KINDS:
        R.guard("reader", kind, one, prog, R, kind)
        if kind != "sp3":
            R.guard("entry", kind, entry_, prog, R, kind)
    R.guard("bounds", "_tlim", tlim_text, prog, R, "bounds")
    R.rule("split", "an OBS 2 read hands its options to the per-system reader, for every system", 10)
    R.guard("split", "obs2", split, prog, R)
    R.guard("batch", "batch_convert", batch, prog, R)
    for m, target, table in CLIS:
        R.guard("cli", m, cli, prog, R, m, target, table)


# ------------------------------------------------------------------ comparing a delivered value with the caller's
ALTER = {"int", "float", "round", "abs", "slice", "item", "neg", "lower", "upper", "total_seconds", "td", "BinOp", "concat", "getitem", "index"}


def same(v, want):
    """True delivered unaltered, False definitely something else, None unclear"""
    if v is want:
        return True
    if isinstance(v, tuple):  # a default took its place
        return False
    if isc(v):
        return False
    if v.k == "sym":
        return False
    if not contains(v, lambda y: y is want) and want.k == "sym":
        return False
    if v.k == "poly":
        return False
    if v.k == "op" and v.a[0] in ALTER:
        return False
    if want.k == "tup" and v.k == "tup":
        if len(v.a) != len(want.a):
            return False
        rs = [same(a, b) for a, b in zip(v.a, want.a)]
        return False if False in rs else (True if all(rs) else None)
    return None


def falsy(st, want):
    """the path has established that the option is empty/false/None, so a default may stand for it"""
    for a, val in st.facts.items():
        if a is want and val is False:
            return True
        if a.a[0] == "truth" and a.a[1] is want and val is False:
            return True
        if a.a[0] in ("is", "eq") and want in a.a[1:3] and val is True:
            return True
    return False


def val_text(v):
    return show(v) if isinstance(v, V) else f"the default {v[1]}"


def one(prog, R, kind):
    reader = next(n for n, k in READERS.items() if k == kind)
    opts = dict(OPTS)
    opts["tlim"] = TUP((LO, HI))
    pol = CallPolicy(KINDS[kind], stubs=set(READERS), prog=prog, events={"write"})
    I, res = runfn(prog, "base", "load", [PATH, OUT], opts, pol)
    R.used(I)
    # the two public entry points below load
    entry = {"o": "rinexobs", "n": "rinexnav"}.get(kind[0])
    judge(R, kind, reader, "load", res, opts, ok_paths=1)
    if entry:
        sup = [o for o in SUPPORTS[kind]]
        kw = {o: opts[o] for o in sup + ["overwrite"]}
        if kind.startswith("nav"):
            kw["use"] = opts["use"]
        I, res = runfn(prog, "base", entry, [PATH, OUT], kw, CallPolicy(KINDS[kind], stubs=set(READERS), prog=prog, events={"write"}))
        R.used(I)
        judge(R, kind, reader, entry, res, opts, ok_paths=1)


def entry_(prog, R, kind):
    """the options at the function that reads and writes, when load delegates to it"""
    fn = "georinex.base." + ("rinexobs" if kind[0] == "o" else "rinexnav")
    opts = dict(OPTS)
    opts["tlim"] = TUP((LO, HI))
    I, res = runfn(prog, "base", "load", [PATH, OUT], opts, CallPolicy(KINDS[kind], stubs={fn}, prog=prog, events={"write"}))
    R.used(I)
    for o in {"use", "tlim", "overwrite", *SUPPORTS[kind]}:
        ok, why = None, ("base.load", "load does not call it")
        for k, st, v in res:
            for name, b, loc in calls(st, {fn}):
                if o not in b:
                    continue
                r = same(b[o], opts[o])
                if r is not True and falsy(st, opts[o]) or isinstance(b[o], V) and isop(b[o], "phi") and opts[o] in b[o].a[1:]:
                    r = True
                if ok is not False:
                    ok = r if ok is None or r is not True else ok
                    why = (loc, "" if r else f"load delivers {val_text(b[o])} as {o} to {fn.rsplit('.', 1)[1]}")
        if any(calls(st, {fn}) for k, st, v in res):
            R.ob("entry", f"load->{kind}.{o}", ok, *why)


def judge(R, kind, reader, entry, res, opts, ok_paths):
    seen = 0
    verdict = {o: True for o in SUPPORTS[kind]}
    why = {}
    outs, outbad = 0, None
    for k, st, v in res:
        cs = calls(st, {reader})
        if not cs:
            continue
        for name, b, loc in cs:
            seen += 1
            fn = b.get("fn")
            if fn is not PATH:
                r = same(fn, PATH) if isinstance(fn, V) else False
                if r is not True:
                    R.ob("reader", f"{entry}->{kind}.file", r, loc, f"reader is given {val_text(fn) if fn is not None else 'nothing'} instead of the file")
            for o in SUPPORTS[kind]:
                if o == "overwrite":
                    pass
                got = b.get(o, ("default", "nothing"))
                r = same(got, opts[o])
                if r is not True and falsy(st, opts[o]):
                    r = True if isinstance(got, tuple) or isc(got) else r
                if r is not True and verdict[o] is not False:
                    verdict[o] = r
                    why[o] = (loc, f"{entry} delivers {val_text(got)} as {o} to {reader}")
            if kind == "sp3" and "outfn" in b:
                outs += 1
                got = b["outfn"]
                if isinstance(got, tuple) or not outok(got):
                    outbad = (loc, f"output location at {reader} is {val_text(got)}")
    if not seen:
        R.ob("reader", f"{entry}->{kind}", False, f"base.{entry}", f"no path of {entry} hands a {kind} file to {reader}")
        return
    for o, r in verdict.items():
        R.ob("reader", f"{entry}->{kind}.{o}", r, *(why.get(o) or (f"base.{entry}", "")))
    if kind == "sp3":
        R.ob("output", f"{entry}->{kind}", outbad is None if outs else False, *(outbad or (f"base.{entry}", "" if outs else "the output location never reaches the writer")))
    else:
        ws = [(k, st, d, loc) for k, st, v in res for e, d, loc in st.events() if e == "write"]
        bad = next(((loc, f"output written to {show(d[1])}") for k, st, d, loc in ws if not (isinstance(d[1], V) and outok(d[1]))), None)
        # a path that returns data without writing although output was asked for
        lost = [st for k, st, v in res if k == "return" and calls(st, {reader}) and not any(e == "write" for e, d, l in st.events())]
        if lost:
            bad = bad or (f"base.{entry}", "a call with an output location returns without writing")
        R.ob("output", f"{entry}->{kind}", bad is None if ws else False, *(bad or (f"base.{entry}", "" if ws else "output is never written")))


def outok(p):
    """the caller's location or <name>.nc inside it"""
    if p is OUT:
        return True
    return contains(p, lambda y: y is OUT)


def tlim_text(prog, R, rule):
    for kind in ("obs2", "obs3", "nav2", "nav3"):
        reader = next(n for n, k in READERS.items() if k == kind)
        for entry in ("load", "rinexobs" if kind[0] == "o" else "rinexnav"):
            for form, given, want in (("text", (TS, TE), TUP((OP("parse", TS, t="datetime"), OP("parse", TE, t="datetime")))), ("datetime", (LO, HI), TUP((LO, HI)))):
                pol = CallPolicy(KINDS[kind], stubs=set(READERS), prog=prog)
                I, res = runfn(prog, "base", entry, [PATH], dict(tlim=TUP(given)), pol)
                R.used(I)
                r, why, n = True, ("base." + entry, ""), 0
                for k, st, v in res:
                    for name, b, loc in calls(st, {reader}):
                        n += 1
                        got = b.get("tlim", ("default", "nothing"))
                        if isinstance(got, V) and got.k == "ref" and st.heap[got.a].f.get("items") is not None:
                            got = TUP(st.heap[got.a].f["items"])
                        x = sametl(got, want)
                        if x is not True and r is not False:
                            r, why = x, (loc, f"{form} limits (start, stop) arrive as {val_text(got)}")
                R.ob(rule, f"{entry}->{kind}.{form}", r if n else None, *why)


def sametl(got, want):
    if got is want:
        return True
    if isinstance(got, tuple) or isc(got):
        return False
    if got.k == "tup" and len(got.a) == len(want.a):
        out = []
        for g, w in zip(got.a, want.a):
            if g is w:
                out.append(True)
                continue
            src = [x for x in args_sub(g) if x in (TS, TE, LO, HI)]
            wsrc = [x for x in args_sub(w) if x in (TS, TE, LO, HI)]
            if not src or set(src) != set(wsrc) or g.k in ("poly",):
                out.append(False)
            elif g in (TS, TE):
                out.append(False)
            elif isop(g, "parse") and any(x.k == "tup" and x.a[0] is C("dayfirst") and x.a[1] is TRUE for x in g.a[2:]):
                out.append(False)
            else:
                out.append(None)
        return False if False in out else None
    return None


# ------------------------------------------------------------------ batch_convert and command lines
LOAD = "georinex.base.load"
BATCH = "georinex.base.batch_convert"


def batch(prog, R):
    opts = {o: v for o, v in OPTS.items() if o not in ("overwrite", "interval")}
    opts["tlim"] = TUP((LO, HI))
    pol = CallPolicy({}, stubs={LOAD}, prog=prog, events={"loop"})
    I, res = runfn(prog, "base", "batch_convert", [SYM("path", "Path"), SYM("glob", "str"), OUT], opts, pol)
    R.used(I)
    seen = []
    for x in I.summaries:
        for i, kind, st, v in x.paths:
            seen += [(st, c) for c in calls(st, {LOAD})]
    for k, st, v in res:
        seen += [(st, c) for c in calls(st, {LOAD})]
    if not seen:
        raise AnalysisError("batch_convert: no call of load was found")
    want = dict(opts, out=OUT)
    for o, w in want.items():
        r, why = True, ("base.batch_convert", "")
        for st, (name, b, loc) in seen:
            got = b.get(o, ("default", "nothing"))
            x = same(got, w)
            if x is not True and falsy(st, w) and (isinstance(got, tuple) or isc(got)):
                x = True
            if x is not True and r is not False:
                r, why = x, (loc, f"batch_convert delivers {val_text(got)} as {o}")
        R.ob("batch", o, r, *why)
    st, (name, b, loc) = seen[0]
    fn = b.get("rinexfn")
    R.ob("batch", "file", None if not isinstance(fn, V) else not isc(fn) and contains(fn, lambda y: True), loc, "")


READ = dict(rinexfn="rinexfn", out="-o", use="-u", tlim="-t", useindicators="-useindicators", meas="-m", verbose="-v", fast="-strict", interval="-interval")
CONV = dict(path="indir", glob="glob", out="-o", use="-u", tlim="-t", useindicators="-useindicators", meas="-m", verbose="-v", fast="-strict")
CLIS = (("georinex.read.__main__", LOAD, READ), ("georinex.rinex2hdf5.__main__", BATCH, CONV))
# what the library call must get when the flag is absent / present (None = the text given)
FLAGS = {"useindicators": (False, True), "verbose": (False, True), "fast": (True, False)}


def cli(prog, R, mod, target, table):
    pol = CallPolicy({}, stubs={LOAD, BATCH}, prog=prog)
    I = Interp(prog, pol)
    outs = I.run_module(mod)
    R.used(I)
    found = []
    for k, st, v in outs:
        for c in calls(st, {target}):
            decl = {}
            for oid, o in st.heap.items():
                if o.kind == "ns" and o.f.get("decl"):
                    for d, names, kw in o.f["decl"]:
                        for n in names:
                            decl[n] = (d, kwd(kw))
            found.append((st, c, decl))
    short = mod.split(".")[1]
    if not found:
        R.ob("cli", short, False, mod, f"no path calls {target}")
        return
    for par, flag in table.items():
        res, why = True, (mod, "")
        for st, (name, b, loc), decl in found:
            if flag not in decl:
                x, msg = None, f"option {flag} is not declared"
            else:
                dest, kw = decl[flag]
                x, msg = cli_one(st, b.get(par, ("default", "nothing")), par, dest, kw, decl)
            if x is not True and res is not False:
                res, why = x, (loc, f"{short} {flag}: {msg}")
        R.ob("cli", f"{short}.{par}", res, *why)


def kwd(kw):
    if isinstance(kw, V):
        return dict(kw.a[1]) if kw.k == "op" and len(kw.a) > 1 and isinstance(kw.a[1], tuple) else {}
    return dict(kw or ())


def cli_one(st, got, par, dest, kw, decl):
    sym = next((SYM(("cli", dest), t) for t in ("any", "bool") if True and isinstance(got, V) and contains(got, lambda y: y is SYM(("cli", dest), t))), None)
    if isinstance(got, tuple) or sym is None:
        f = [a for a in st.facts if contains(a, lambda y: y.k == "sym" and isinstance(y.a, tuple) and y.a[:1] == ("cli",) and y.a[1] == dest)]
        if f and not isinstance(got, tuple):
            return None, f"delivers {val_text(got)} depending on the option"
        return False, f"delivers {val_text(got)} as {par}"
    act = kw.get("action")
    act = cv(act) if isinstance(act, V) and isc(act) else act
    if par in FLAGS:
        if act not in ("store_true", "store_false"):
            return None, f"declared with action {act}"
        default = kw.get("default")
        absent = act == "store_false" if default is None else (cv(default) if isc(default) else None)
        given = act == "store_true"
        for what, val, want in (("absent", absent, FLAGS[par][0]), ("given", given, FLAGS[par][1])):
            r = boolval(got, sym, val)
            if r is None:
                return None, f"delivers {show(got)}"
            if r != want:
                return False, f"when {what}, {par} is {r}"
        return True, ""
    if act is not None and act not in ("store", "extend", "append"):
        return False, f"declared with action {act}"
    if par == "interval":
        t = kw.get("type")
        tn = show(t) if isinstance(t, V) else str(t)
        if t is None:
            return False, "the interval is delivered as text"
        if "float" not in tn:
            return (False if "int" in tn else None), f"the interval is converted with {tn}"
    if par == "tlim":
        n = kw.get("nargs")
        if not (isinstance(n, V) and isc(n) and cv(n) == 2):
            return None, "time limits do not take two values"
    if par in ("use", "meas", "tlim", "out", "interval") and kw.get("default") is not None and kw["default"] is not NONE:
        return False, f"has the default {val_text(kw['default'])}"
    return same(got, sym), f"delivers {val_text(got)} as {par}"


def boolval(v, sym, val):
    if v is sym:
        return val
    if isc(v):
        return cv(v)
    if isop(v, "not"):
        r = boolval(v.a[1], sym, val)
        return None if r is None else not r
    if isop(v, "truth") or isop(v, "bool"):
        return boolval(v.a[1], sym, val)
    return None


def split(prog, R):
    """an OBS 2 read of several systems hands the options to the per-system reader"""
    name = "georinex.obs2.rinexsystem2"
    try:
        fdef(prog, name)
    except AnalysisError:
        R.ob("split", "obs2", None, "obs2.rinexobs2", "no per-system reader rinexsystem2")
        return
    opts = {o: OPTS[o] for o in OBSOPTS if o not in ("use", "tlim")}
    opts["tlim"] = TUP((LO, HI))
    for form, use in (("one", C("G")), ("given", SYM("use", "set")), ("none", NONE)):
        pol = CallPolicy(KINDS["obs2"], stubs={name}, prog=prog, events={"loop"})
        I, res = runfn(prog, "obs2", "rinexobs2", [PATH], dict(opts, use=use), pol)
        R.used(I)
        seen = []
        for x in I.summaries:
            for i, kind, st, v in x.paths:
                seen += [(st, c) for c in calls(st, {name})]
        for k, st, v in res:
            seen += [(st, c) for c in calls(st, {name})]
        for o, w in dict(opts, fn=PATH).items():
            r, why = True if seen else None, ("obs2.rinexobs2", "")
            for st, (nm, b, loc) in seen:
                got = b.get(o, ("default", "nothing"))
                x = same(got, w)
                if x is not True and falsy(st, w) and (isinstance(got, tuple) or isc(got)):
                    x = True
                if x is not True and r is not False:
                    r, why = x, (loc, f"rinexobs2 delivers {val_text(got)} as {o}")
            R.ob("split", f"obs2.{form}.{o}", r, *why)
