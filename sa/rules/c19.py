"""C19: one bad file does not stop a batch conversion."""
from .c08 import *

LOAD = "georinex.base.load"
FAULTS = (
    "ValueError", "KeyError", "LookupError", "IndexError", "TypeError", "AttributeError", "OSError", "FileNotFoundError", "PermissionError", "EOFError", "UnicodeDecodeError",
    "ImportError", "NotImplementedError", "AssertionError", "MemoryError", "ZeroDivisionError", "OverflowError", "RuntimeError", "StopIteration", "zipfile.BadZipFile", "zlib.error", "gzip.BadGzipFile",
    "hatanaka.HatanakaException", "xarray.MergeError",
)  # fmt: skip
# other functions of the package that read the file: they fail on a bad one just as load does
TOUCH = {INFO, "georinex.utils.rinexheader", "georinex.utils.gettime", "georinex.base.rinexnav", "georinex.base.rinexobs", "georinex.sp3.load_sp3"}
FILE = ("m:is_file", "isfile", "path.isfile")


def check(prog, R, tier):
    R.rule("goes-on", "after load failed the next file is taken", 20)
    R.rule("logged", "the failure is logged with the name of the file", 20)
    R.rule("every", "every regular file that matches is handed to load", 1)
    for e in FAULTS:
        R.guard("goes-on", e, fault, prog, R, e)
    R.guard("every", "batch_convert", every, prog, R)


def scenario19(prog, exc):
    def sv(I, st, name, b, node, ctx):
        if exc is None:
            return None
        bad = [(st.fork() if name != LOAD else st, R_(EXC(exc, [SYM("message", "str")]), I.loc(node, ctx)))]
        return bad if name == LOAD else bad + [(st, SYM(("result", name), "dict"))]

    pol = CallPolicy({}, stubs={LOAD} | (TOUCH if exc else set()), prog=prog, events={"loop", "log", "write"})
    pol.stub_value = sv
    return runfn(prog, "base", "batch_convert", [SYM("path", "Path"), SYM("glob", "str"), OUT], {}, pol)


from ..interp import R as R_  # noqa: E402


def matched(v):
    """a term made from the path being converted"""
    return contains(v, lambda y: isop(y, "elem") or (isop(y, "attr") and y.a[2] in ("name", "stem")))


def fault(prog, R, exc):
    I, res = scenario19(prog, exc)
    R.used(I)
    loops = [(x, p) for x in I.summaries for p in x.paths if calls(p[2])]
    if not any(calls(p[2], {LOAD}) for x, p in loops):
        straight = [s for k, s, v in res if calls(s, {LOAD})]
        raise AnalysisError("load is not called from a loop" if straight else "no call of load found")
    ok, why, w = True, "", "base.batch_convert"
    lok, lwhy, lw = True, "", w
    for x, (i, kind, st, v) in loops:
        nm, _, loc = calls(st)[-1]
        nm = nm.split(".")[-1]
        if kind == "raise":
            if v.exc.a[0] == exc:
                ok, why, w = False, f"{exc} from {nm} leaves batch_convert", loc
            else:
                ok, why, w = False, f"{v.exc.a[0]} leaves batch_convert after {nm} raised {exc}", loc
        elif kind not in ("next", "continue", "yield"):
            ok, why, w = False, f"the loop ends ({kind}) after {nm} raised {exc}", loc
        logs = [d for k, d, l in st.events() if k == "log"]
        if kind != "raise" and lok is not False:
            if not logs:
                lok, lwhy, lw = False, f"nothing is logged after {nm} raised {exc}", loc
            else:
                named = [any(isinstance(a, V) and matched(a) for a in flat_args(d)) for d in logs]
                if not any(named):
                    lok, lwhy, lw = False if all(all(not isinstance(a, V) or isc(a) or not contains(a, lambda y: y.k == "op" and y.a[0] not in ("str", "concat")) for a in flat_args(d)) for d in logs) else None, "the log does not name the file", loc
    R.ob("goes-on", exc, ok, w, why)
    R.ob("logged", exc, lok, lw, lwhy)


def flat_args(d):
    out = []
    for a in d[1:]:
        if isinstance(a, V) and a.k == "tup":
            out += list(a.a)
        elif isinstance(a, (tuple, list)):
            out += [y for y in a]
        else:
            out.append(a)
    return out


def every(prog, R):
    I, res = scenario19(prog, None)
    R.used(I)
    ok, why, w = True, "", "base.batch_convert"
    got = False
    src = False
    for x in I.summaries:
        called = any(calls(p[2], {LOAD}) for p in x.paths)
        got |= called
        for i, kind, st, v in x.paths:
            src |= any(contains(a, lambda y: isop(y, "m:glob") or isop(y, "m:rglob")) for a in st.facts) or any(contains(b.get("rinexfn"), lambda y: isop(y, "m:glob")) for n, b, l in calls(st, {LOAD}) if isinstance(b.get("rinexfn"), V))
            fs = [(a, val) for a, val in items(st.facts) if contains(a, lambda y: isop(y, "elem") and contains(y, lambda z: isop(z, "m:glob") or isop(z, "m:rglob")))]
            if called and not calls(st, {LOAD}) or not called:
                for a, val in fs:
                    base = a.a[1] if a.a[0] == "truth" and isinstance(a.a[1], V) else a
                    if base.a[0] in FILE:
                        continue
                    if base.a[0] in ("m:is_dir", "m:exists", "isinstance", "raises", "m:is_symlink"):
                        if ok:
                            ok, why = None, f"files are selected by {show(base)}"
                        continue
                    ok, why, w = False, f"matching files are left out depending on {show(base)}", (x.ctx.module, x.node.lineno, x.ctx.func)
                if called and not fs and kind in ("next", "continue"):
                    ok, why = None if ok else ok, "some iterations do not call load"
            if called and not calls(st, {LOAD}) and kind not in ("next", "continue"):
                ok, why, w = False, f"the loop ends ({kind}) at a path that is not converted", (x.ctx.module, x.node.lineno, x.ctx.func)
            if called and calls(st, {LOAD}) and kind not in ("next", "continue"):
                ok, why, w = False, f"the loop ends ({kind}) after the first file", (x.ctx.module, x.node.lineno, x.ctx.func)
    if not got:
        raise AnalysisError("no call of load found")
    if ok and not src:
        ok, why = None, "the files are not taken from path.glob"
    R.ob("every", "batch_convert", ok, w, why)


def items(facts):
    return facts.items() if isinstance(facts, dict) else [(a, True) for a in facts]
