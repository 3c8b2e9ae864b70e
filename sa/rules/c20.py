"""C20: input that is not RINEX or SP3 is refused with ValueError, from every entry point and container."""
from .c11 import *
from .c11 import _caller
from .c07 import OTHER, info_of

ENTRY = (("base", "load"), ("utils", "rinexheader"), ("utils", "gettime"))
TEXTUAL = frozenset({"IndexError", "TypeError", "OverflowError", "KeyError", "AttributeError", "ValueError", "ZeroDivisionError", "AssertionError", "StopIteration"})
FN = SYM("fn", "Path")


def check(prog, R, tier):
    R.rule("escape", "recognising the first line raises nothing but ValueError", 8)
    R.rule("refuse", "text that does not begin with a RINEX or SP3 header is refused", 10)
    R.rule("entry", "an entry point hands on the refusal as ValueError and reads nothing", 6)
    R.rule("kind", "a file of a type that is not read is refused with ValueError", 20)
    t = [
        (lambda R: R.guard("escape", "rinexinfo", escape, prog, R),),
        (lambda R: R.guard("escape", "opener", through, prog, R),),
        (lambda R: R.guard("refuse", "rinexinfo", refuse, prog, R),),
        (lambda R: R.guard("entry", "entry points", entry, prog, R),),
        (lambda R: R.guard("kind", "entry points", kinds, prog, R),),
    ]
    R.parallel(t)


class Raw(RecPolicy):
    """nothing of the recognition layer is replaced"""

    stubs = ()
    hook = None
    prefixes = True

    def value(self, v):
        return self.hook(v) if self.hook is not None else None

    def intercept(self, I, st, name, selfv, args, kw, node, ctx):
        if name in self.stubs:
            st.ev = (st.ev, ("call", (name, ()), I.loc(node, ctx) if node is not None else None))
            return [(st, SYM(("result", name), "Dataset"))]
        if name in (OPENER, FIRST, INFO):
            return None
        return super().intercept(I, st, name, selfv, args, kw, node, ctx)


def is_value_error(e):
    from ..interp import exc_mro

    return "ValueError" in exc_mro(e)


def stream_run(prog, mod, fn, pol):
    I = WatchI(prog, pol)
    I.noted, I.watch = set(), None
    st = I.fresh_state()
    f = _caller(st)
    I.watch = f.a
    return I, I.run("georinex." + mod, fn, [f], {}, st)


def escape(prog, R):
    for fn, args in (("rinexinfo", None), ("rinex_version", SYM("line", "str")), ("first_nonblank_line", None)):
        pol = Raw({})
        pol.track = TEXTUAL
        if args is None:
            I, res = stream_run(prog, "rio", fn, pol)
        else:
            I, res = runfn(prog, "rio", fn, [args], {}, pol)
        R.used(I)
        bad = {}
        for k, s, v in res:
            if k == "raise" and not is_value_error(v.exc.a[0]) and v.exc.a[0] != "$any":
                bad[v.exc.a[0]] = v.loc
        R.ob("escape", f"rio.{fn} of any text", not bad if res else None, f"rio.{fn}", "; ".join(f"{e} from line {l[1] if l else '?'} of {l[2] if l else '?'}" for e, l in sorted(bad.items())))


def through(prog, R):
    """the same through every container"""
    for c, (sfx, magic) in CONTAINERS.items():
        for header in (False, True):
            pol = OpenPolicy(sfx[0], magic, None, track=TEXTUAL)
            pol.rel = lambda st, a: False if isinstance(a.a[2], V) and (isop(a.a[2], "unlzw") or isop(a.a[2], "decompress") or isop(a.a[2], "crx2rnx")) else None
            I, res = drive(prog, FN, header, pol)
            R.used(I)
            bad = {}
            for k, s, v in res:
                if k == "raise" and not is_value_error(v.exc.a[0]) and v.exc.a[0] != "$any":
                    bad[v.exc.a[0]] = v.loc
            R.ob("escape", f"opener of any text, {c}{' header' if header else ''}", not bad if res else None, "rio.opener", "; ".join(f"{e} from line {l[1] if l else '?'} of {l[2] if l else '?'}" for e, l in sorted(bad.items())))


# ------------------------------------------------------------------ classes of text
def stripped(x):
    while isop(x) and x.a[0] in ("m:strip", "m:rstrip", "m:lstrip") and len(x.a) == 2:
        x = x.a[1]
    return x


def truths(line, strip):
    def f(st, a):
        if a.a[0] == "truth" and isinstance(a.a[1], V):
            x = stripped(a.a[1])
            if isop(x, "line"):
                return line if x is a.a[1] else strip
        if a.a[0] == "eq" and isc(a.a[2]) and cv(a.a[2]) in ("", "\n") and isinstance(a.a[1], V):
            x = stripped(a.a[1])
            if isop(x, "line"):
                if x is a.a[1]:
                    return (not line) if cv(a.a[2]) == "" else None
                return not strip if cv(a.a[2]) == "" else None
        return None

    return f


def length(n):
    def f(v):
        if isop(v, "len") and isop(v.a[1], "line"):
            return C(n)
        if isop(v, "len") and isop(stripped(v.a[1]), "line") and n == 0:
            return C(0)
        return None

    return f


def short(n):
    """indexing beyond the end of a line of n characters fails"""

    def f(st, a):
        if a.a[0] == "raises" and a.a[1] == "IndexError" and isinstance(a.a[2], V) and a.a[2].k == "op" and isinstance(a.a[2].a[1], V) and isop(a.a[2].a[1], "line") and isc(a.a[2].a[2]):
            i = cv(a.a[2].a[2])
            return not (-n <= i < n) if isinstance(i, int) else None
        return None

    return f


def first(*fs):
    def f(*a):
        for g in fs:
            if g is not None:
                r = g(*a)
                if r is not None:
                    return r
        return None

    return f


def no_number(st, a):
    if a.a[0] == "raises" and a.a[1] == "ValueError" and isinstance(a.a[2], V) and a.a[2].k == "op" and a.a[2].a[0] in ("float", "int") and contains(a.a[2], lambda y: isop(y, "line")):
        return True
    return None


def foreign_label(st, a):
    if a.a[0] in ("eq", "in") and isinstance(a.a[1], V):
        x = stripped(a.a[1])
        if isop(x, "slice") and len(x.a) == 4 and isop(x.a[1], "line") and isc(x.a[2]) and cv(x.a[2]) == 60:
            return False
    return None


def fixed(chars):
    return text_value(chars)


def digits(v):
    """the version field holds a number"""
    return None


CLASSES = {
    "empty": (truths(False, False), length(0)),
    "blank lines only": (truths(True, False), None),
    "one character": (first(truths(True, True), short(1)), first(length(1))),
    "no version number": (first(truths(True, True), no_number), first(length(81), fixed({0: " ", 1: "x"}))),
    "no version number, short": (first(truths(True, True), no_number), first(length(30), fixed({0: "h", 1: "e"}))),
    "foreign label": (first(truths(True, True), foreign_label), first(length(81), fixed({0: " ", 1: " "}))),
    "foreign label, 80 columns": (first(truths(True, True), foreign_label), first(length(80), fixed({0: " ", 1: " "}))),
    "cut off after the version": (first(truths(True, True), short(20)), first(length(20), fixed({0: " ", 1: " "}))),
    "cut off after the type": (first(truths(True, True), short(40)), first(length(40), fixed({0: " ", 1: " ", 20: "O"}))),
    "SP3 of version b": (truths(True, True), first(length(61), fixed({0: "#", 1: "b"}))),
    "comment line": (truths(True, True), first(length(61), fixed({0: "#", 1: " "}))),
}


def refuse(prog, R):
    for q, (oracle, hook) in CLASSES.items():
        pol = Raw({})
        pol.track = TEXTUAL
        pol.oracle, pol.hook = oracle, hook
        I, res = stream_run(prog, "rio", "rinexinfo", pol)
        R.used(I)
        ok, why = True, ""
        for k, s, v in res:
            if k == "return":
                ok, why = False, f"accepted as {show_info(s, v)}"
            elif not is_value_error(v.exc.a[0]) and v.exc.a[0] != "$any":
                ok, why = False, f"refused with {v.exc.a[0]}"
        R.ob("refuse", q, ok if res else None, "rio.rinexinfo", why)


def show_info(s, v):
    if v.k == "ref" and s.heap[v.a].kind == "dict":
        return "{" + ", ".join(f"{show(k)}: {show(x)[:40]}" for k, x in s.heap[v.a].f["d"].items()) + "}"
    return show(v)[:80]


# ------------------------------------------------------------------ entry points
class Refused(CallPolicy):
    def intercept(self, I, st, name, selfv, args, kw, node, ctx):
        if name == INFO:
            return [(st, R_(EXC("ValueError", ()), I.loc(node, ctx) if node is not None else None))]
        return super().intercept(I, st, name, selfv, args, kw, node, ctx)


from ..interp import R as R_


def no_nc(st, a):
    if a.a[0] == "eq" and isc(a.a[2]) and cv(a.a[2]) == ".nc":
        return False
    return None


def entry(prog, R):
    stubs = set(READERS) | OTHER
    for mod, fn in ENTRY:
        fdef(prog, f"georinex.{mod}.{fn}")
        for q, arg in (("path", PATH), ("text stream", SYM("text", "StringIO"))):
            pol = Refused({}, stubs=stubs, prog=prog, oracle=no_nc)
            I, res = runfn(prog, mod, fn, [arg], {}, pol)
            R.used(I)
            ok, why = True, ""
            for k, s, v in res:
                if calls(s, stubs):
                    ok, why = False, f"{calls(s, stubs)[0][0]} is called for text that was refused"
                elif k == "return":
                    ok, why = False, f"returns {show(v)[:60]} for text that was refused"
                elif not is_value_error(v.exc.a[0]):
                    ok, why = False, f"raises {v.exc.a[0]} for text that was refused"
            R.ob("entry", f"{fn} of a {q}", ok if res else None, f"{mod}.{fn}", why)


def kinds(prog, R):
    stubs = set(READERS) | OTHER
    for mod, fn in ENTRY:
        for t in ("M", "C", "S", "H", "I", " ", "1"):
            for v in (2.11, 3.04):
                pol = CallPolicy(info_of(v, t), stubs=stubs, prog=prog, oracle=no_nc)
                I, res = runfn(prog, mod, fn, [PATH], {}, pol)
                R.used(I)
                ok, why = True, ""
                for k, s, x in res:
                    if k == "return" or calls(s, stubs):
                        ok, why = False, f"a file of type {t!r} is read"
                    elif not is_value_error(x.exc.a[0]):
                        ok, why = False, f"a file of type {t!r} is refused with {x.exc.a[0]}"
                R.ob("kind", f"{fn} type {t!r} version {v}", ok if res else None, f"{mod}.{fn}", why)
