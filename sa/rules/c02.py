"""C02: skipping a record consumes exactly the lines of the record."""
from .records import *
from .. import gridval

COL = {"obs2": 29, "obs3": 32}
SYSTEMS = "GRECJIS"


def expected(name):
    """lines of one record, from the format"""
    if name.startswith("nav2"):
        n = {"N": 8, "G": 4, "E": 8}[name[-1]]
        return lambda s, o: n
    if name.startswith("nav3"):
        n = 4 if name[-1] in "RS" else 8
        return lambda s, o: n
    if name.startswith("obs3"):
        return lambda s, o: 1 + s
    return lambda s, o: 1 + max(0, -(-(s - 12) // 12)) + s * -(-o // 5)


def check(prog, R, tier):
    R.rule("kept", "a kept record consumes the lines the format gives it", 10)
    R.rule("skipped", "a record skipped for a filter consumes the lines of a kept one", 20)
    R.rule("scan", "the time scan consumes the lines of a record", 10)
    R.rule("inner", "within a record every satellite consumes the same lines, wanted or not", 5)
    R.rule("removal", "reading with a filter gives what reading a file of the records kept gives", 20)
    from .filter import tasks as removal

    tasks = []
    for name in READERS:
        tasks.append((lambda R, n: R.guard("skipped", n, reader, prog, R, n), name))
    for name in [n for n in READERS if not n.endswith("fast")]:
        tasks.append((lambda R, n: R.guard("scan", n, scan, prog, R, n), name))
    R.parallel([*sorted(tasks, key=lambda t: not t[1].startswith("obs")), *removal(prog, "C02", "removal")])


def judged(p):
    """paths of complete records that go on with the next one"""
    if p.kind not in ("next", "continue") or p.tags:
        return False
    return True


def judge(R, rule, construct, name, ps, where_, want=None):
    want = want or expected(name)
    col0 = COL.get(name.split(":")[0], 0)
    n = 0
    for p in ps:
        n += 1
        facts = [(a, v) for a, v in p.st.facts.items()]
        ok, at, got = gridval.compare(p.off, want, facts, col0)
        if ok is False:
            R.ob(rule, construct, False, where_, f"{describe(p)} consumes {got} lines of a record of {want(*at)} ({at[0]} satellites, {at[1]} observables)")
            return
        if ok is None and at is not None:
            R.ob(rule, construct, None, where_, f"{describe(p)}: lines {show(p.off)} not comparable ({got})")
            return
    R.ob(rule, construct, True if n else None, where_, "" if n else "no such path")


def iskeep(p):
    return any(k[0] == "obj" for k in p.eff)


def reader(prog, R, name):
    base = run(prog, name, value=epoch0(name), tag="flag0")
    R.used(base.I)
    q = outer_name(name)
    nf = name.split(":")[0]
    allp = [p for x in base.rec for p in paths(x) if judged(p)]
    w = where(base.rec[0])
    keep = [p for p in allp if iskeep(p)]
    judge(R, "kept", f"{q}[{name}]", name, keep, w)
    rest = [p for p in allp if not iskeep(p)]
    if name == "obs2:strict":
        judge(R, "skipped", f"{q}[{name}].no-such-satellite", name, rest, w)
    # uneven satellite loops
    un = [uneven(s, oid) for s, oid in base.I.uneven.values()]
    bad = [u for u in un if u]
    R.ob("inner", f"{q}[{name}]", not bad, bad[0][0] if bad else w, bad[0][1] if bad else "")
    scen = [(pos, dict(tlim=True, oracle=order_oracle(ORDERS[pos]), tag=pos)) for pos in ("before", "after")]
    if nf.startswith("obs"):
        scen.append(("interval", dict(interval=IV, tag="iv")))
    if nf in ("nav3",):
        scen.append(("use", dict(use=C("G") if name[-1] != "G" else C("R"), tag="otheruse")))
    for sname, kw in scen:
        r = run(prog, name, value=epoch0(name), **dict(kw, tag=kw["tag"] + "flag0"))
        ps = [p for x in r.rec for p in paths(x) if judged(p)]
        if sname in ("before", "after", "use"):
            skip = [p for p in ps ]
        else:
            skip = [p for p in ps if not iskeep(p)]
        if not skip:
            if sname == "after" and (nf.startswith("obs") or nf == "nav2"):
                continue  # reading stops there
            R.ob("skipped", f"{q}[{name}].{sname}", None, where(r.rec[0]), "no path skips such a record")
            continue
        judge(R, "skipped", f"{q}[{name}].{sname}", name, skip, where(r.rec[0]))


def epoch0(name):
    """scenario: the records are observation epochs (flag 0), no events"""
    nf = name.split(":")[0]
    return flag_value(nf, "0") if nf in FLAGCOL else None


def uneven(summ, oid):
    """passes of one inner loop that differ only in the satellite's name but not in the lines they take"""
    if not summ.ctx.loops:
        return None
    ps = []
    for i, kind, s, v in summ.paths:
        if kind in ("next", "continue"):
            h = summ.heads[i]
            if oid not in h.heap:
                return None
            d = psub(s.heap[oid].f["off"], h.heap[oid].f["off"])
            new = {a: b for a, b in s.facts.items() if h.facts.get(a) is not b}
            ps.append((d, new))
    for d, new in ps:
        for d2, new2 in ps:
            if d is d2:
                continue
            diff = [a for a in set(new) | set(new2) if new.get(a) is not new2.get(a)]
            if diff and all(a.a[0] in ("eq", "in") for a in diff) and all(contains(a, lambda y: isop(y, "slice")) for a in diff):
                ok, at, got = gridval.compare(psub(d, d2), lambda s, o: 0, [], 29)
                if ok is False:
                    return f"{summ.ctx.module}:{summ.node.lineno} ({summ.ctx.func})", f"one satellite takes {show(d)} lines and another {show(d2)} depending on {show(diff[0])}"
    return None


SCANS = {"nav2": ("nav2", "navtime2"), "nav3": ("nav3", "navtime3"), "obs3": ("obs3", "obstime3"), "obs2": ("obs2", "obstime2")}


def scan_run(prog, name):
    nf = name.split(":")[0]
    mod, fn = SCANS[nf]
    pol = RecPolicy(READERS[name][2]())
    pol.scan_symbol = False
    if nf == "nav3":
        pol.value = letter_value(name[-1])
    return scan_loops(prog, name, pol, "record")


def kept_paths(loops):
    return [p for y in loops if y.node is loops[-1].node for p in paths(y) if judged(p) and iskeep(p)]


def line_by_line(name, loops):
    """an OBS 3 scan may go line by line: every epoch line carries its own mark"""
    ps = kept_paths(loops)
    return name == "obs3" and ps and all(p.off is C(1) for p in ps)


def scan_loops(prog, name, pol, kind):
    """the scan's record loop, on well-formed lines"""
    mod, fn = SCANS[name.split(":")[0]]
    r = Run(prog, mod, fn, [PATH], {}, pol)
    loops = [x for x in r.loops if stop_at_records(x)]
    if loops and kind != "any" and not line_by_line(name, loops):
        pol.wellformed = (name, kind, loops[-1].node, "georinex." + mod)
        r = Run(prog, mod, fn, [PATH], {}, pol)
        loops = [x for x in r.loops if stop_at_records(x)]
    return r, loops


def scan(prog, R, name):
    nf = name.split(":")[0]
    mod, fn = SCANS[nf]
    r, loops = scan_run(prog, name)
    R.used(r.I)
    if not loops:
        R.ob("scan", f"{mod}.{fn}[{name}]", None, "", "no loop that records times was found")
        return
    x = loops[-1]
    ps = kept_paths(loops)
    if line_by_line(name, loops):
        marked = all(any(a.a[0] in ("startswith", "eq", "truth") or "startswith" in show(a) for a, v in p.st.facts.items() if v is True) for p in ps)
        R.ob("scan", f"{mod}.{fn}[{name}]", True if marked else None, where(x), "")
        return
    judge(R, "scan", f"{mod}.{fn}[{name}]", name, ps, where(x))
