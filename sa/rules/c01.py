"""C01: the time window keeps exactly the epochs inside it."""
from .records import *


def check(prog, R, tier):
    R.rule("inside", "a record inside the closed window takes exactly the paths it takes without limits", 10)
    R.rule("outside", "a record outside the window changes nothing; only an OBS reader may stop, and only after the window", 10)
    R.rule("mask", "the strict preallocation scan keeps exactly the epochs of the closed window", 3)
    R.rule("bounds", "textual bounds are converted bound by bound", 2)
    R.rule("removal", "reading with time limits gives what reading a file of the records inside them gives", 20)
    R.rule("accepted", "a window of one instant is a window", 6)
    from .filter import tasks as removal

    tasks = []
    for name in READERS:
        tasks.append((lambda R, name: R.guard("inside", name, reader, prog, R, name), name))
    for i in OBS:
        tasks.append((lambda R, i: R.guard("outside", i + "+interval", with_interval, prog, R, i), i))
    tasks.append((lambda R: R.guard("mask", "obs2:strict", mask, prog, R),))
    from .c06 import tlim_text

    tasks.append((lambda R: R.guard("bounds", "_tlim", tlim_text, prog, R, "bounds"),))
    tasks.append((lambda R: R.guard("accepted", "base", accepted, prog, R),))
    R.parallel([*sorted(tasks, key=lambda t: not (len(t) > 1 and t[1] in OBS)), *removal(prog, "C01", "removal")])


def reader(prog, R, name):
    base = run(prog, name)
    R.used(base.I)
    free = {p.key for x in base.rec for p in paths(x)}
    for pos in ("at_start", "inside", "at_stop"):
        r = run(prog, name, tlim=True, oracle=order_oracle(ORDERS[pos]), tag=pos)
        got = {}
        for x in r.rec:
            for p in paths(x):
                got[p.key] = p
        extra = [p for k, p in got.items() if k not in free]
        lost = [k for k in free if k not in got]
        ok = not extra and not lost
        R.ob("inside", f"{outer_name(name)}[{name}].{pos}", ok, where(r.rec[0]), "" if ok else f"record {pos.replace('_', ' ')} of window: " + (describe(extra[0]) if extra else f"lost path {lost[0][:2]}"))
    for pos in ("before", "after"):
        outside(prog, R, name, pos, None)


def outside(prog, R, name, pos, interval, rule="outside"):
    r = run(prog, name, tlim=True, interval=interval, oracle=order_oracle(ORDERS[pos]), tag=pos)
    bad = None
    n = 0
    brk = False
    stopok = name.startswith("obs") and pos == "after"
    for x in r.rec:
        for p in paths(x):
            if p.kind == "raise" or (garbage(p) and not p.eff):
                continue
            if p.kind == "break" and not p.eff and sentinel(p):
                continue
            n += 1
            if p.eff:
                bad = bad or p
            elif p.kind == "return" or p.kind == "break":
                if not stopok:
                    brk = brk or p
    c = f"{outer_name(name)}[{name}].{pos}" + ("+interval" if interval is not None else "")
    if n == 0:
        R.ob(rule, c, None, where(r.rec[0]), "no path for a record outside the window was found")
        return
    R.ob(rule, c, bad is None, where(r.rec[0]), describe(bad) + " for a record outside the window" if bad else "")
    if name.startswith("nav") or pos == "before":
        R.ob(rule, c + ".goes-on", not brk, where(r.rec[0]), "reading stops at a record outside the window although later records may lie inside" if brk else "")


def sentinel(p):
    """the loop is left on an end-of-data test of the line, before any time is compared"""
    return p.off is C(1) and not any(contains(a, lambda y: isop(y, "datetime")) for a in p.st.facts if a not in p.x.heads[p.i].facts)


def with_interval(prog, R, name):
    for pos in ("before", "after"):
        outside(prog, R, name, pos, IV)


def mask(prog, R):
    """strict OBS 2: the times array kept for the result"""
    r = run(prog, "obs2:strict", tlim=True, tag="mask")
    src = None
    x = r.rec[0]
    st = x.heads[0]
    for f in st.frames:
        for n, v in f.items():
            if isinstance(v, V) and contains(v, lambda y: y is SCAN):
                for y in args_sub(v):
                    if isop(y, "item") and y.a[1] is SCAN:
                        src = y
            if v.k == "ref" and st.heap[v.a].kind == "array":
                s = st.heap[v.a].f.get("src")
                if isinstance(s, V) and contains(s, lambda y: y is SCAN):
                    for y in args_sub(s):
                        if y.k == "op" and y.a[0] in ("item", "index", "getitem") and y.a[1] is SCAN:
                            src = y
    if src is None:
        R.ob("mask", "obs2.rinexsystem2", None, where(x), "the preallocated time list is not a selection of the scanned times")
        return
    for pos, (a, b) in ORDERS.items():
        want = pos in ("at_start", "inside", "at_stop")
        got = ev(src.a[2], a, b)
        R.ob("mask", f"obs2 strict preallocation.{pos}", None if got is None else got == want, where(x), f"an epoch {pos.replace('_', ' ')} of the window is {'kept' if got else 'dropped'} by {show(src.a[2])}")


def ev(v, a, b):
    """truth of an elementwise condition on one scanned time at the given position"""
    n = v.a[0] if v.k == "op" else None
    if n in ("and", "BitAnd", "logical_and"):
        l, r = ev(v.a[1], a, b), ev(v.a[2], a, b)
        return None if l is None or r is None else l and r
    if n in ("or", "BitOr"):
        l, r = ev(v.a[1], a, b), ev(v.a[2], a, b)
        return None if l is None or r is None else l or r
    if n in ("not", "Invert"):
        l = ev(v.a[1], a, b)
        return None if l is None else not l
    if n == "lt0":
        s = sgn(v.a[1], a, b)
        return None if s is None else s < 0
    if n in ("lt", "le", "gt", "ge", "eq", "ne"):
        n = {"lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "eq": "Eq", "ne": "NotEq"}[n]
    elif n not in ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq"):
        return None
    s = sgn(psub(v.a[1], v.a[2]), a, b)
    if s is None:
        return None
    return {"Lt": s < 0, "LtE": s <= 0, "Gt": s > 0, "GtE": s >= 0, "Eq": s == 0, "NotEq": s != 0}[n]


def sgn(p, a, b):
    d = poly_of(p)
    c = d.pop((), 0)
    if c or len(d) != 2:
        return None
    one = {m[0]: k for m, k in d.items() if len(m) == 1}
    if len(one) != 2 or SCAN not in one:
        return None
    o = next(x for x in one if x is not SCAN)
    if one[SCAN] != -one[o] or abs(one[o]) != 1 or o not in (LO, HI):
        return None
    return one[SCAN] * (a if o is LO else b)


def accepted(prog, R):
    from .glue import READERS as STUBS, CallPolicy, calls, runfn
    from .c06 import KINDS
    from .filter import at

    for kind in ("obs2", "obs3", "nav2", "nav3"):
        reader = next(n for n, k in STUBS.items() if k == kind)
        for entry in ("load", "rinexobs" if kind[0] == "o" else "rinexnav"):
            pol = CallPolicy(KINDS[kind], stubs=set(STUBS), prog=prog, oracle=lambda st, a: False if isop(a, "eq") and C(".nc") in a.a[1:] else None)
            I, res = runfn(prog, "base", entry, [PATH], dict(tlim=TUP((at(1), at(1)))), pol)
            R.used(I)
            n = sum(1 for k, st, v in res if calls(st, {reader}))
            R.ob("accepted", f"{entry}->{kind}", True if n else False if res and all(k == "raise" for k, st, v in res) else None, f"base.{entry}", "" if n else "a window that starts and ends at the same instant is refused")
