"""C12: what the library opens it closes, on every path."""
import ast
from .openscen import *
from .glue import *

FN = SYM("fn", "Path")
OPENING = {"open", "ZipFile", "open_dataset", "open_mfdataset", "GzipFile", "BZ2File", "TarFile", "FileIO", "TemporaryFile", "NamedTemporaryFile", "fdopen", "memmap"}
MEMORY = {"stringio", "bytesio"}
KINDS = {"plain": ".rnx", "gzip": ".gz", "bzip2": ".bz2", "zip": ".zip", "lzw": ".Z"}


def check(prog, R, tier):
    R.rule("opener", "the opener closes everything it opened when the body of its with statement is left", 40)
    R.rule("netcdf", "a NetCDF file that is looked into is closed, unless it is the result", 5)
    R.rule("sites", "every opening call is in a with statement, returned, or closed in a finally clause", 8)
    for c in CONTAINERS:
        R.guard("opener", c, container, prog, R, c)
    for mod, fn, args in (("rio", "rinexinfo", []), ("base", "load", []), ("base", "rinexnav", []), ("base", "rinexobs", []), ("utils", "rinexheader", []), ("base", "_groupexists", [C("OBS"), FALSE])):
        R.guard("netcdf", fn, netcdf, prog, R, mod, fn, args)
    R.guard("sites", "package", sites, prog, R)


def leaks(st):
    """files opened on this path and not closed on it"""
    live = {}
    for e, d, l in st.events():
        if e == "open":
            if d[1] not in MEMORY and "stringio" not in str(d[1]):
                live[d[0]] = (d[1], l)
        elif e == "close":
            live.pop(d[0], None)
    # closing the outermost wrapper closes what it wraps
    return live


def container(prog, R, c):
    sfx = KINDS[c]
    magic = CONTAINERS[c][1]
    for kind, text in (("RINEX", RIN), ("CRINEX", CRX), ("damaged", "hello, world" + " " * 70)):
        for header in (False, True):
            for fault in ("none", "body", "anything"):
                pol = OpenPolicy(sfx, magic, text, fault=fault == "body", track=("*",) if fault == "anything" else ())
                I, res = drive(prog, FN, header, pol)
                R.used(I)
                ok, why = True, ""
                for k, st, v in res:
                    for oid, (knd, l) in wrapped(st, leaks(st)).items():
                        ok = False
                        why = f"opened at line {l[1]} of {l[2]} and not closed when the call {'returns' if k == 'return' else 'raises ' + str(v.exc.a[0])}"
                R.ob("opener", f"{c} {kind}{' header' if header else ''}, fault: {fault}", ok if res else None, "rio.opener", why)


def wrapped(st, live):
    """leave out members and text layers over something that was closed: closing the archive or file ends them"""
    out = {}
    for oid, x in live.items():
        o = st.heap.get(oid)
        if o is not None and o.kind == "stream" and o.f["closed"]:
            continue
        if x[0] == "textwrap":
            w = [a.a if isinstance(a, V) else a for a in (o.f["wraps"] if o is not None else ())]
            if w and all(y not in live for y in w):
                continue
        out[oid] = x
    return out


class NcPolicy(CallPolicy):
    events = frozenset({"open", "close"})

    def intercept(self, I, st, name, selfv, args, kw, node, ctx):
        if name == INFO and self.real_info:
            return None
        return super().intercept(I, st, name, selfv, args, kw, node, ctx)


def netcdf(prog, R, mod, fn, args):
    fdef(prog, f"georinex.{mod}.{fn}")

    def oracle(st, a):
        if a.a[0] == "eq" and isc(a.a[2]) and cv(a.a[2]) == ".nc":
            return True
        return None

    pol = NcPolicy({"version": 3.03, "rinextype": "obs"}, stubs=set(READERS), prog=prog, oracle=oracle, events={"open", "close"})
    pol.real_info = True
    pol.track = frozenset({"OSError", "KeyError"})
    I, res = runfn(prog, mod, fn, [PATH] + args, {}, pol)
    R.used(I)
    ok, why, n = True, "", 0
    for k, st, v in res:
        live = {}
        for e, d, l in st.events():
            if e == "open" and d[1] not in MEMORY:
                n += 1
                live[d[0]] = (d[1], l)
            elif e == "close":
                live.pop(d[0], None)
        if k == "return" and isinstance(v, V):
            for oid in reached(st, v):
                live.pop(oid, None)
        for oid, (knd, l) in live.items():
            o = st.heap.get(oid)
            if o is not None and o.f.get("closed"):
                continue
            if knd == "file" and pol.is_opener(l):
                continue
            ok, why = False, f"opened at line {l[1]} of {l[2]} and left open when the call {'returns' if k == 'return' else 'raises ' + str(v.exc.a[0])}"
    R.ob("netcdf", f"{mod}.{fn}", ok if n else None, f"{mod}.{fn}", why or ("" if n else "no NetCDF file opened on any path"))


NcPolicy.is_opener = lambda self, l: False


def reached(st, v):
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        for r in vrefs(x) if isinstance(x, V) else [x]:
            r = r.a if isinstance(r, V) else r
            if r in seen or r not in st.heap:
                continue
            seen.add(r)
            todo.extend(st.heap[r].refs())
    return seen


# ------------------------------------------------------------------ opening calls
def callee(c):
    f = c.func
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


def opens(mod, c):
    n = callee(c)
    if n not in OPENING:
        return False
    if isinstance(c.func, ast.Name) and n not in ("open",) and n not in imported(mod):
        return False
    return True


def imported(mod):
    out = set()
    for x in ast.walk(mod.tree):
        if isinstance(x, ast.ImportFrom):
            out |= {a.asname or a.name for a in x.names}
    return out


def sites(prog, R):
    n = 0
    for name, mod in prog.modules.items():
        if name == "drive":
            continue
        par = {}
        for x in ast.walk(mod.tree):
            for y in ast.iter_child_nodes(x):
                par[y] = x
        for c in ast.walk(mod.tree):
            if not isinstance(c, ast.Call):
                continue
            opener = callee(c) == "opener"
            if not opener and not opens(mod, c):
                continue
            fn = enclosing(par, c)
            ok, why = site(par, c, fn, opener)
            n += 1
            q = f"{name.removeprefix('georinex.')}.{fn.name if fn is not None else '<module>'}: {ast.unparse(c.func)}({', '.join(ast.unparse(a) for a in c.args)})"
            R.ob("sites", q, ok, name, (why + f" (line {c.lineno})") if why else "")
    return n


def enclosing(par, x):
    while x in par:
        x = par[x]
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            return x
    return None


CLOSERS = {"closing", "enter_context", "push", "callback", "ExitStack"}


def site(par, c, fn, opener):
    p = par.get(c)
    if isinstance(p, ast.withitem):
        return True, ""
    if isinstance(p, ast.Attribute):
        if p.attr in ("close",) :
            return True, ""
        if p.attr in ("read", "readline", "readlines", "load", "attrs", "write", "namelist"):
            return False, f"{callee(c)}(...).{p.attr} leaves the file open"
        return None, f"{callee(c)}(...).{p.attr}"
    if isinstance(p, (ast.Return, ast.Yield)):
        return True, ""
    if isinstance(p, ast.IfExp) or isinstance(p, ast.NamedExpr) and isinstance(par.get(p), ast.withitem):
        return (True, "") if isinstance(p, ast.NamedExpr) or isinstance(par.get(p), (ast.withitem, ast.Return)) else named(par, par.get(p), p, fn, opener)
    if isinstance(p, ast.Call):
        k = callee(p)
        if k in CLOSERS:
            return True, ""
        if k in OPENING or k in ("StringIO", "BytesIO", "iter", "enumerate", "list", "next", "islice"):
            return (False, f"the file given to {k} is not closed") if not opener else (None, "")
        return None, f"given to {k}"
    if isinstance(p, ast.For):
        return False, "the file iterated over is not closed"
    return named(par, p, c, fn, opener)


def own(c, n):
    """a read from the handle itself"""
    return isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == n and c.func.attr in ("read", "seek", "tell", "readline")


def named(par, p, c, fn, opener):
    if not (isinstance(p, (ast.Assign, ast.AnnAssign)) and fn is not None):
        return None, f"opened in a {type(p).__name__}"
    t = p.targets[0] if isinstance(p, ast.Assign) else p.target
    if not isinstance(t, ast.Name):
        return None, "stored"
    uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load)]
    for u in uses:
        q = par.get(u)
        if isinstance(q, (ast.withitem, ast.Return, ast.Yield)):
            return True, ""
        if isinstance(q, ast.Call) and callee(q) in CLOSERS:
            return True, ""
        if isinstance(q, (ast.Dict, ast.List, ast.Tuple, ast.Assign)) or (isinstance(q, ast.keyword)):
            return None, f"{t.id} is passed on"
    closes = [u for u in uses if isinstance(par.get(u), ast.Attribute) and par[u].attr == "close"]
    if not closes:
        if any(isinstance(par.get(u), ast.Call) and u in par[u].args for u in uses):
            return None, f"{t.id} is passed on"
        return False, f"{t.id} is never closed"
    for u in closes:
        x = u
        while x in par:
            y = par[x]
            if isinstance(y, ast.Try) and x in y.finalbody:
                return True, ""
            x = y
    # closed in line: everything between must be unable to fail
    u = closes[0]
    x = u
    while x in par and not isinstance(x, ast.stmt):
        x = par[x]
    body = None
    for f in ("body", "orelse", "finalbody"):
        b = getattr(par.get(x), f, None)
        if isinstance(b, list) and x in b and p in b:
            body = b
    if body is not None:
        between = body[body.index(p) + 1 : body.index(x)]
        if not any(isinstance(y, (ast.Call, ast.Subscript, ast.Raise, ast.Return, ast.For, ast.While)) and not own(y, t.id) for z in between for y in ast.walk(z)):
            return True, ""
        return False, f"{t.id} stays open when a statement before its close fails"
    return None, f"{t.id} is closed on some paths"
