"""C11: a caller's in-memory stream is read from its start, whatever its position, and never closed."""
from .openscen import *
from .glue import *
from .records import RecPolicy, streams_of, HDRQ, SCAN
from ..interp import Limit

POS = SYM("callerpos", "int")
CONTENT = SYM("callertext", "str")
NAV2 = "     2.11           N: GPS NAV DATA                         RINEX VERSION / TYPE"
OBS2 = "     2.11           OBSERVATION DATA    G (GPS)             RINEX VERSION / TYPE"
NAV3 = "     3.04           N: GNSS NAV DATA    M: MIXED            RINEX VERSION / TYPE"
TEXTS = {"obs3": RIN, "nav3": NAV3, "obs2": OBS2, "nav2": NAV2, "sp3": SP3}
READ = {
    "obs3": ("obs3", "rinexobs3", lambda: obs3("M"), [], {}),
    "obs2": ("obs2", "rinexsystem2", lambda: obs2("G"), [C("G")], dict(fast=TRUE)),
    "obs2 strict": ("obs2", "rinexsystem2", lambda: obs2("G"), [C("G")], dict(fast=FALSE)),
    "nav2": ("nav2", "rinexnav2", lambda: nav2("N"), [], {}),
    "nav3": ("nav3", "rinexnav3", lambda: nav3("M"), [], {}),
    "sp3": ("sp3", "load_sp3", dict, [NONE], {}),
    "obs2 count": ("obs2", "_num_times", lambda: obs2("G"), [SYM("Nextra", "int"), NONE, FALSE], {}),
    "obs2 alloc": ("obs2", "_fast_alloc", lambda: obs2("G"), [SYM("Nl_sv", "int")], {}),
    "obs3 times": ("obs3", "obstime3", lambda: obs3("M"), [], {}),
    "obs2 times": ("obs2", "obstime2", lambda: obs2("G"), [], {}),
    "nav2 times": ("nav2", "navtime2", lambda: nav2("N"), [], {}),
    "nav3 times": ("nav3", "navtime3", lambda: nav3("M"), [], {}),
}
HEADERFN = {"georinex.obs2.obsheader2", "georinex.obs3.obsheader3", "georinex.nav2.navheader2", "georinex.nav3.navheader3"}
TIMEFN = {f"georinex.{m}.{f}" for m, f in (("obs2", "obstime2"), ("obs3", "obstime3"), ("nav2", "navtime2"), ("nav3", "navtime3"))}


def check(prog, R, tier):
    R.rule("rewind", "every read of a caller's stream is made at a position counted from its start", 12)
    R.rule("open", "a caller's stream is not closed", 12)
    R.rule("header", "header functions rewind the stream they are given", 4)
    R.rule("opener", "the opener delivers a caller's stream itself, rewound, and leaves it open", 4)
    t = [(lambda R: R.guard("opener", "opener", direct, prog, R),)]
    for n in READ:
        t.append((lambda R, n=n: R.guard("rewind", n, reader, prog, R, n),))
    t.append((lambda R: R.guard("header", "headers", headers, prog, R),))
    t.append((lambda R: R.guard("rewind", "entry points", entries, prog, R),))
    R.parallel(t)


class WatchI(Interp):
    """notes reads and closes of the caller's stream as they happen"""

    def emit(self, st, kind, data, node, ctx):
        if kind in ("read", "close") and data[0] == self.watch:
            self.noted.add((kind, data[1] if kind == "read" else None, self.loc(node, ctx)))
        super().emit(st, kind, data, node, ctx)


class Watch(RecPolicy):
    text = None
    stubs = ()
    contract = True

    def value(self, v):
        return OpenPolicy.value(self, v) if self.text is not None else None

    blanks, suffix, magic, is_file, rel = 0, None, None, None, None
    lineno = OpenPolicy.lineno

    def decide(self, st, a):
        r = OpenPolicy.decide(self, st, a) if self.text is not None else None
        return r if r is not None else super().decide(st, a)

    def intercept(self, I, st, name, selfv, args, kw, node, ctx):
        if name in self.stubs:
            return [(st, SYM(("result", name), "Dataset"))]
        if name in HDRQ and not self.contract:
            return None
        if name in (OPENER, FIRST) or (name == INFO and not self.info):
            return None
        return super().intercept(I, st, name, selfv, args, kw, node, ctx)


def caller(st):
    return models.new_stream(None, st, None, None, "stringio", CONTENT, "r", src=NONE, owned=False) if False else _caller(st)


def _caller(st):
    f = dict(kind="stringio", content=CONTENT, mode="r", src=NONE, off=POS, closed=False, owned=False, wraps=(), reads=0)
    return REF(st.alloc(("caller",), Obj("stream", f)), "stream")


def run(prog, mod, fn, args, kw, pol, driver=None):
    I = WatchI(prog, pol)
    I.noted, I.watch = set(), None
    st = I.fresh_state()
    f = _caller(st)
    I.watch = f.a
    try:
        res = I.run(driver or "georinex." + mod, fn, [f] + list(args), dict(kw), st)
    except Limit:
        # what the reads up to there say still counts; a position once counted from the start stays so
        if not I.noted:
            raise
        res = []
    return I, res


def judge(R, q, I, res, w, rule="rewind"):
    ok, why = True, ""
    reads = [x for x in I.noted if x[0] == "read"]
    for k, off, l in reads:
        if isinstance(off, V) and contains(off, lambda y: y is POS):
            ok, why = False, f"read at line {l[1]} of {l[2]} starts where the caller's stream stood"
    if not reads:
        ok, why = None, "no read of the stream seen"
    R.ob(rule, q, ok, w, why)
    ok, why = True, ""
    for k, off, l in I.noted:
        if k == "close":
            ok, why = False, f"closed at line {l[1]} of {l[2]}"
    for k, s, v in res:
        o = s.heap.get(I.watch)
        if o is not None and o.f["closed"]:
            ok, why = False, why or "closed"
    R.ob("open", q, ok, w, why)


def reader(prog, R, n):
    mod, fn, info, args, kw = READ[n]
    fdef(prog, f"georinex.{mod}.{fn}")
    pol = Watch(info())
    pol.scan_symbol = "times" not in n and mod == "obs2" and fn == "rinexsystem2"
    tail = ""
    if n == "nav3":
        pol.stop_loop = lambda x: bool(streams_of(x))
        tail = ", to the end of its record loop"
    I, res = run(prog, mod, fn, args, kw, pol)
    R.used(I)
    res = res + [(k, s, v) for x in I.summaries for h, k, s, v in x.paths]
    judge(R, f"{mod}.{fn} ({n}){tail}", I, res, f"{mod}.{fn}")


def entries(prog, R):
    for t, text in TEXTS.items():
        for mod, fn in (("rio", "rinexinfo"), ("base", "load"), ("base", "rinexobs"), ("base", "rinexnav"), ("utils", "rinexheader"), ("utils", "gettime")):
            if fn in ("rinexobs", "rinexnav") and not t.startswith(fn[5:]):
                continue
            if t == "sp3" and fn in ("rinexheader", "gettime"):
                continue
            pol = Watch({})
            pol.text, pol.tv = text, text_value(dict(enumerate(text)))
            pol.stubs = set(READERS) | TIMEFN
            I, res = run(prog, mod, fn, [], {}, pol)
            R.used(I)
            judge(R, f"{fn} {t}", I, res, f"{mod}.{fn}")


def headers(prog, R):
    for q in sorted(HDRQ):
        _, mod, fn = q.split(".")
        pol = Watch({})
        pol.text = {"obsheader2": OBS2, "obsheader3": RIN, "navheader2": NAV2, "navheader3": NAV3}[fn]
        pol.tv = text_value(dict(enumerate(pol.text)))
        pol.contract = False
        I, res = run(prog, mod, fn, [], {}, pol)
        R.used(I)
        judge(R, q, I, res, f"{mod}.{fn}", "header")


def direct(prog, R):
    if "drive" not in prog.modules:
        prog.driver("drive", DRIVER)
    for fault in (False, True):
        for header in (FALSE, TRUE):
            pol = OpenPolicy(text=RIN, fault=fault)
            I, res = run(prog, "drive", "probe", [header], {}, pol, "drive")
            R.used(I)
            q = f"opener{' header' if header is TRUE else ''}{', body fails' if fault else ''}"
            ok, why = True, ""
            for k, st, v in res:
                ms = [d for e, d, l in st.events() if e == "mark"]
                if len(ms) != 1:
                    ok, why = False, f"the body of the with statement runs {len(ms)} times"
                    continue
                x, content, off, closed = ms[0]
                if content is not CONTENT:
                    ok, why = (False if content is not None and contains(content, lambda y: y is CONTENT) else None), f"delivers {show(content)[:80] if content is not None else show(x)[:80]}"
                if off is not C(0):
                    ok, why = (False if contains(off, lambda y: y is POS) or isc(off) else None), f"delivered at {show(off)[:60]}"
                if st.heap[I.watch].f["closed"]:
                    ok, why = False, "closed on leaving the with statement"
                if k == "raise" and not fault:
                    ok, why = False, f"refused with {v.exc.a[0]}"
            R.ob("opener", q, ok if res else None, "rio.opener", why)
