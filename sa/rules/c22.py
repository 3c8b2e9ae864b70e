"""C22: event records never become observations."""
from .records import *
from .c02 import SCANS

EVENTS = "234"
COUNT = {"obs2": 29, "obs3": 32}
COUNTS = ("  2", "  0", " 11", "112", "   ")
SETTINGS = {"plain": {}, "no date": {}, "limits and interval": dict(tlim=True, interval=IV)}
SECOND = {"obs2": (16, " 30.2500000"[:10]), "obs3": (19, "30.2500000")}
CHANGE = ("obj", "var")


def check(prog, R, tier):
    R.rule("event", "an epoch record with flag 2, 3 or 4 changes nothing and the reader goes on behind it", 36)
    R.rule("scan", "the time scan reports no such record and goes on behind it", 12)
    R.rule("epoch", "records with flag 0 and 1 are observations, and are treated alike", 3)
    R.rule("scanned", "records with flag 0 and 1 are reported by the time scan", 2)
    t = []
    for n in OBS:
        t += [(lambda R, n, f: R.guard("event", n, event, prog, R, n, f), n, f) for f in EVENTS]
        t += [(lambda R, n: R.guard("epoch", n, epoch, prog, R, n), n)]
    for n in ("obs2:strict", "obs3"):
        t += [(lambda R, n: R.guard("scan", n, scan, prog, R, n), n)]
    R.parallel(t)


def hook(nf, flag, count=None, blank=False):
    c = FLAGCOL[nf]
    d = dict.fromkeys(range(1, c - 2), " ") if blank else {}
    d.update({c - 2: " ", c - 1: " ", c: flag})
    if count is not None:
        d.update(zip(range(COUNT[nf], COUNT[nf] + 3), count))
    if nf == "obs3":
        d.update({0: ">", 1: " "})
    return text_value(d)


def verdict(nf, ps, count):
    """(holds, why) for the passes over an event record"""
    n = int(count.strip() or 0)
    seen = 0
    for p in ps:
        if p.kind == "raise":
            return False, f"{p.val.exc.a[0]} is raised"
        if p.eff:
            return False, f"{describe(p)} for such a record"
        if p.kind in ("break", "return"):
            return False, "reading ends at such a record"
        if p.off is C(1 + n) or (nf == "obs2" and p.off is C(1)):
            seen += 1
        elif isc(p.off):
            return False, f"{cv(p.off)} lines are consumed by an event with {n} further lines"
        else:
            return None, f"lines consumed: {show(p.off)}"
    return (True, "") if seen else (None, "no path")


def event(prog, R, name, flag):
    nf = name.split(":")[0]
    q = f"{outer_name(name)}[{name}]"
    run(prog, name)
    for sn, kw in SETTINGS.items():
        for cnt in COUNTS:
            r = run(prog, name, value=hook(nf, flag, cnt, sn == "no date"), prefixes=True, track=frozenset({"ValueError", "IndexError"}), tag=None, lines="event", **kw)
            R.used(r.I)
            ok, why = verdict(nf, [p for x in r.rec for p in paths(x)], cnt)
            R.ob("event", f"{q} flag {flag}, {cnt.strip() or 'blank'} lines, {sn}", ok, where(r.rec[0]), why)


def epoch(prog, R, name):
    nf = name.split(":")[0]
    q = f"{outer_name(name)}[{name}]"
    from .c03 import key

    got = {}
    for f in "01":
        r = run(prog, name, value=first_of(hook(nf, f), seconds(nf)), prefixes=True, tag=None)
        R.used(r.I)
        got[f] = {key(p): p for x in r.rec for p in paths(x) if not p.tags}
        w = where(r.rec[0])
        kept = [p for p in got[f].values() if any(k[0] == "obj" for k in p.eff)]
        if not kept:
            R.ob("epoch", q, False, w, f"a record with flag {f} never contributes an observation")
            return
    if set(got["0"]) == set(got["1"]):
        R.ob("epoch", q, True, w)
    else:
        one = next(got[f][k] for f in "01" for k in got[f] if k not in got["1" if f == "0" else "0"])
        # a path of one kind that the other cannot take at all
        shape = {f: {(k[0], k[1], len(k[2])) for k in got[f]} for f in "01"}
        R.ob("epoch", q, False if shape["0"] != shape["1"] else None, w, f"flags 0 and 1 are not treated alike: {describe(one)}")


def seconds(nf):
    if nf != "obs2":
        return lambda v: None
    return text_value({1: "2", 2: "0", **dict(zip(range(15, 26), " 30.2500000"))})


def scanrun(prog, nf, value, node=None):
    mod, fn = SCANS[nf]
    pol = RecPolicy((obs2 if nf == "obs2" else obs3)("M"))
    pol.scan_symbol = False
    pol.value = value
    pol.prefixes = True
    if node is not None:
        pol.wellformed = (nf, "event", node, "georinex." + mod)
    r = Run(prog, mod, fn, [PATH], {}, pol)
    loops = [x for x in r.loops if streams_of(x) and not x.ctx.loops]
    return r, loops


def scan(prog, R, name):
    nf = name.split(":")[0]
    mod, fn = SCANS[nf]
    q = f"{mod}.{fn}"
    for f in "01":
        r, loops = scanrun(prog, nf, first_of(hook(nf, f), seconds(nf)))
        loops = [x for x in loops if stop_at_records(x)]
        R.used(r.I)
        R.ob("scanned", f"{q} flag {f}", bool(loops), where(loops[0]) if loops else q, "" if loops else f"a record with flag {f} is never reported")
        if not loops:
            return
    node = loops[-1].node
    for f in EVENTS:
        for cnt in COUNTS:
            r, ls = scanrun(prog, nf, hook(nf, f, cnt), node)
            R.used(r.I)
            ls = [x for x in ls if x.node is node]
            ps = [p for x in ls for p in paths(x)]
            # a line-by-line scan looks at the following lines one by one
            ok, why = verdict("obs2", ps, cnt) if ls else (None, "the record loop was not reached")
            R.ob("scan", f"{q} flag {f}, {cnt.strip() or 'blank'} lines", ok, where(ls[0]) if ls else q, why)
