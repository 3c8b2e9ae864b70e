"""C14: uninitialised memory never reaches a result."""
import ast
from .attrs import *
from . import c24

RAW = {"empty", "empty_like", "ndarray"}


def raw_sites(prog):
    """calls that allocate memory without defining its contents: (module, line, node, enclosing function)"""
    out = []
    for name, m in prog.modules.items():
        alias, direct = set(), set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                alias |= {a.asname or a.name for a in n.names if a.name == "numpy"}
            if isinstance(n, ast.ImportFrom) and n.module == "numpy":
                direct |= {a.asname or a.name for a in n.names if a.name in RAW}
        for f in ast.walk(m.tree):
            if isinstance(f, ast.FunctionDef):
                for n in ast.walk(f):
                    if isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr in RAW and isinstance(n.func.value, ast.Name) and n.func.value.id in alias or isinstance(n.func, ast.Name) and n.func.id in direct):
                        out.append((name, n.lineno, n, f))
    seen = {}
    for x in out:
        k = x[2]
        if k not in seen or len(ast.dump(x[3])) < len(ast.dump(seen[k][3])):
            seen[k] = x
    return list(seen.values())


def judge(R, q, where, cells):
    """cells: [(name, set of (term, factor) | None, reason, raw arrays reachable)]"""
    bad = [n for n, s, w, r in cells if s is not None and any(isop(a, "uninit") and cv(a.a[1]) for a, f in s)]
    open_ = [(n, w) for n, s, w, r in cells if s is None and r or s is not None and any(isop(a, "uninit") for a, f in s)]
    ok = False if bad else None if open_ or not cells else True
    R.ob("cells", q, ok, where, f"{bad[0]} has a cell that nothing is stored in" if bad else f"{open_[0][0]}: {open_[0][1] or 'may be left without a value'}" if open_ else f"{len(cells)} cells" if cells else "no variables")


def collect(st, ds, rows):
    out = []
    for name, x in [(n, y) for n, x in ds.f["vars"].items() for y in alts(x)]:
        nm = cv(name) if isc(name) else show(name)
        raws = [a for a in reach(st, [x]) if a in st.heap and st.heap[a].kind == "array" and st.heap[a].f["init"] == "uninit"]
        for idx in rows(nm, x):
            if idx is None:
                continue
            y = x
            if any(not isrow(i) for i in idx) and x.k == "tup" and len(x.a) >= 2:
                y = x.a[1]
            try:
                out.append((nm, origins(st, y, idx), "", raws))
            except Lost as e:
                out.append((nm, None, str(e), raws))
    return out


def isrow(x):
    return x.k == "sym" and isinstance(x.a, tuple) and x.a[0] == "row"


def grid(nm, x):
    """an arbitrary cell, and for OBS 2 the cell of a satellite no record names"""
    if x.k == "tup" and x.a[0].k == "tup" and len(x.a[0].a) == 2:
        yield (T, S)


def obs_case(R, prog, version, fast, kw, names, types, blank):
    q = f"obs{version}" + ("" if version == 3 else " fast" if fast else " strict") + "".join(f", {k}" for k in kw if k != "use") + (", blank fields" if blank else "")
    rec = rec2(names, len(types), blank)[0] if version == 2 else rec3(names, {k: len(v) for k, v in types.items()}, blank)[0]
    node = obs_node(prog, ("obs2:fast" if fast else "obs2:strict") if version == 2 else "obs3")
    pol = skel_policy((info2 if version == 2 else info3)("M"), head(version, "M", types), node, f"obs{version}", rec)
    kws = dict(kw)
    if version == 2:
        kws["fast"] = C(fast)
    r = Run(prog, f"obs{version}", f"rinexobs{version}", [PATH], kws, pol)
    R.used(r.I)
    cells = []
    for k, st, val in r.res:
        if k != "return":
            continue
        for y in alts(val):
            if y.k == "ref" and st.heap[y.a].kind == "ds":

                def rows(nm, x):
                    yield from grid(nm, x)
                    if version == 2 and x.k == "tup" and x.a[0].k == "tup" and [cv(d) for d in x.a[0].a if isc(d)] == ["time", "sv"]:
                        for i in (4, 6, 10, 20, 35):  # satellites of the record, and others
                            yield (T, C(i))

                cells += collect(st, st.heap[y.a], rows)
    judge(R, q, f"obs{version}.rinexobs{version}", cells)


def nav_case(R, prog, v, t, N, lines=None):
    sysl = {"N": "G", "G": "R", "E": "E"}[t] if v == 2 else t
    node = node_of_nav(prog, v, t if v == 2 else "M")
    info, h = (nav3("M"), navhead("3.04", "M")) if v == 3 else (nav2(t), navhead("2.11", t))
    pol = skel_policy(info, h, node, f"nav{v}", record(v, t, N, LINES.get(sysl, 7)), peel="for")
    r = Run(prog, f"nav{v}", f"rinexnav{v}", [PATH], {}, pol)
    R.used(r.I)
    cells = []
    for k, st, val in r.res:
        if k == "return":
            for y in alts(val):
                if y.k == "ref" and st.heap[y.a].kind == "ds":
                    cells += collect(st, st.heap[y.a], grid)
    if v == 3 and not cells:
        return R.ob("cells", f"nav{v} {t} {N} values", True, f"nav{v}.rinexnav{v}", "the record is refused")
    judge(R, f"nav{v} {t} {N} values", f"nav{v}.rinexnav{v}", cells)


def sp3_case(R, prog, q):
    names, recs = c24.SHAPES[q]
    rec, times, at = c24.lines(names, recs)
    pol = skel_policy({}, c24.header(names), None, "sp3", dict(enumerate(rec)), whole=True)
    r = Run(prog, "sp3", "load_sp3", [PATH, NONE], {}, pol)
    R.used(r.I)
    cells = []
    for k, st, val in r.res:
        if k == "return" and val.k == "ref":
            ds = st.heap[val.a]

            def rows(nm, x):
                d = c24.DIMS.get(nm)
                if d is None:
                    return
                for e in range(len(times)):
                    for s in range(len(names)):
                        for c in range(3) if d[-1] == "ECEF" else [None]:
                            yield (C(e), C(s)) + (() if c is None else (C(c),))

            cells += collect(st, ds, rows)
    judge(R, f"sp3 {q}", "sp3.load_sp3", cells)


def filled_next(site):
    """is the array overwritten as a whole before it is used: the statement behind the allocation, on every path"""
    mod, line, call, fn = site
    for n in ast.walk(fn):
        for body in (getattr(n, "body", None), getattr(n, "orelse", None), getattr(n, "finalbody", None)):
            if not isinstance(body, list):
                continue
            for i, s in enumerate(body):
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is call:
                    t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                    if not isinstance(t, ast.Name):
                        return None, "not assigned to a variable"
                    return follow(t.id, body[i + 1 :], call)
    return None, "not a statement of its own"


def uses(n, name):
    return any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n))


def follow(name, rest, call):
    for s in rest:
        if not uses(s, name):
            if isinstance(s, (ast.Return, ast.Raise)):
                return True, "never used"
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "fill" and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == name:
            return True, "filled"
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == name and not uses(s.value, name):
            i = s.targets[0].slice
            if isinstance(i, ast.Constant) and i.value is Ellipsis or isinstance(i, ast.Slice) and i.lower is i.upper is i.step is None:
                return True, "overwritten"
        if isinstance(s, ast.For) and not uses(s.iter, name):
            return covered(name, s, call)
        return None, f"line {s.lineno} uses the array"
    return None, "no use found"


def covered(name, loop, call):
    """for i, … in enumerate(…): … a[i] = … stored on every pass"""
    t = loop.target
    i = None
    if isinstance(loop.iter, ast.Call) and isinstance(loop.iter.func, ast.Name):
        if loop.iter.func.id == "enumerate" and isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name):
            i = t.elts[0].id
        elif loop.iter.func.id == "range" and isinstance(t, ast.Name):
            i = t.id
    stores = [s for s in loop.body if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == name and isinstance(s.targets[0].slice, ast.Name) and s.targets[0].slice.id == i]
    leave = [x for s in loop.body for x in ast.walk(s) if isinstance(x, (ast.Break, ast.Continue, ast.Return))]
    if i is not None and stores and not leave:
        return True, "an element per pass"
    return None, f"line {loop.lineno} stores on some passes"


def sites(R, prog):
    for s in raw_sites(prog):
        mod, line, call, fn = s
        dt = [k.value for k in call.keywords if k.arg == "dtype"] + call.args[1:2]
        if dt and isinstance(dt[0], ast.Name) and dt[0].id in ("datetime", "object", "str"):
            ok, why = True, "object array: None"
        else:
            ok, why = filled_next(s)
        R.ob("sites", f"{mod.split('.')[-1]}.{fn.name}: {ast.unparse(call)}", ok, f"{mod}:{line}", why)


def node_of_nav(prog, v, t):
    from .navcells import node_of as f

    return f(prog, v, t)


def check(prog, R, tier):
    R.rule("cells", "no cell of a result is one that nothing was stored in", 60)
    R.rule("sites", "an array allocated without contents is overwritten as a whole before it is used", 0)
    R.guard("sites", "allocations", sites, R, prog)
    jobs = []
    names = ["G05", "G07", "R03", "G11"]
    for version in (2, 3):
        types = ["C1", "L1", "S1", "P2", "L2", "S2"] if version == 2 else {"G": ["C1C", "L1C", "S1C"], "R": ["C1C", "L1C"]}
        blanks = [(), ((0, 0, 16),), ((0, 0, 14), (1, 16, 32)), ((1, 0, 96),), ((0, 16, 96), (1, 0, 16), (3, 0, 96))]
        for fast in (True, False) if version == 2 else (True,):
            for kw in ({}, dict(useindicators=C(True)), dict(interval=IV), dict(meas=["L"]), dict(meas=["S"], useindicators=C(True)), dict(tlim=TUP([LO, HI]))):
                kw = {k: [C(y) for y in x] if isinstance(x, list) else x for k, x in kw.items()}
                for b in blanks if len(kw) < 2 else blanks[-1:]:
                    jobs.append((obs_case, version, fast, dict(kw, use=C("G")), names, types, b))
    for t, n in SIZE2.items():
        for N in sorted({n, n - 1, n - 3, n - 4, n // 2, 3}):
            jobs.append((nav_case, 2, t, N))
    for t in "GRECJIS":
        for N in sorted(ACCEPTED[t]):
            jobs.append((nav_case, 3, t, N))
    for q in c24.SHAPES:
        jobs.append((sp3_case, q))
    R.parallel([(lambda R, f, *j: R.guard("cells", f"{f.__name__} {j}"[:70], f, R, prog, *j), *j) for j in jobs])
