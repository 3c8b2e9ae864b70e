"""C28: gettime decodes the same epochs as the data readers."""
from .records import *
from .c02 import SCANS
from .c18 import stored, text_of, lines_in
from ..texteval import Text, Raises
from ..gridval import Unknown

NAMES = ("nav2:N", "nav2:G", "nav2:E", "obs2:fast", "obs2:strict", "obs3") + tuple(f"nav3:{c}" for c in "GRECJIS")
SAVE = ("datetime64[ms]", "datetime64[us]", "datetime64[ns]")


def check(prog, R, tier):
    R.rule("accept", "a record line is taken by the time scan exactly when the data reader takes it", 13)
    R.rule("decode", "both decode the same time from it", 13)
    R.rule("report", "every time the scan has taken is reported", 4)
    t = [(lambda R, n: R.guard("accept", n, both, prog, R, n, tier), n) for n in NAMES]
    t += [(lambda R, n: R.guard("report", n, report, prog, R, n), n) for n in ("nav2:N", "nav3:G", "obs2:strict", "obs3")]
    R.parallel(sorted(t, key=lambda x: not x[1].startswith("obs2")))


COLS = {
    "nav2": ((3, 5), (6, 8), (9, 11), (12, 14), (15, 17), (17, 22)),
    "nav3": ((4, 8), (9, 11), (12, 14), (15, 17), (18, 20), (21, 23)),
    "obs2": ((1, 3), (4, 6), (7, 9), (10, 12), (13, 15), (16, 26)),
    "obs3": ((2, 6), (7, 9), (10, 12), (13, 15), (16, 18), (19, 29)),
}
OVER = {1: ("0", "13"), 2: ("0", "32"), 3: ("24",), 4: ("60",), 5: ("60",)}


def put(L, a, b, s):
    return L[:a] + f"{s:>{b - a}}"[: b - a] + L[b:]


def lines(nf, name, years, fixed=False):
    """(label, line): well-formed record lines and lines damaged in one place"""
    sec = (30, "2500000") if fixed or nf in ("obs2", "obs3") else (30, {"nav2": "0", "nav3": ""}[nf])
    let = name[-1] if nf == "nav3" else "G"
    for y in years:
        L = text_of(nf, y, 7, 19, 13, 46, *sec)
        if nf == "nav3":
            L = let + L[1:]
        yield "plain", L
        yield "zero-padded", (let if nf == "nav3" else "") + text_of(nf, y, 7, 9, 3, 6, *sec, pad="0")[1 if nf == "nav3" else 0 :]
        for i, (a, b) in enumerate(COLS[nf]):
            if fixed and i in (0, 5):
                continue
            yield f"field {i} blank", put(L, a, b, "")
            yield f"field {i} letters", put(L, a, b, "x" * (b - a))
            for s in OVER.get(i, ()):
                if i == 5 and nf in ("obs2", "obs3"):
                    s += ".0000000"
                yield f"field {i} is {s}", put(L, a, b, s)
        yield "blank line", "\n"
        yield "blanks", "   \n"
        yield "other text", "some words\n"
        for d in ("02-30", "04-31"):
            m, dd = d.split("-")
            yield d, put(put(L, *COLS[nf][1], m), *COLS[nf][2], dd)
        if nf in FLAGCOL:
            c = FLAGCOL[nf]
            for f in "0123456 x":
                yield f"flag {f!r}", put(L, c, c + 1, f)
        if nf == "obs3":
            yield "no mark", " " + L[1:]
            yield "mark without blank", ">2" + L[2:]


def both(prog, R, name, tier):
    nf = name.split(":")[0]
    mod, fn = SCANS[nf]
    q = f"{outer_name(name)}[{name}]"
    run(prog, name)
    if nf == "obs2":
        batches = []
        for yy in ("79", "80", "20"):
            d = {1: yy[0], 2: yy[1], **dict(zip(range(15, 28), " 30.2500000  "))}
            batches.append((text_value(d), [(1900 if yy >= "80" else 2000) + int(yy)], True))
    elif nf == "nav2":
        batches = [(text_value({3: yy[0], 4: yy[1]}), [(1900 if yy >= "80" else 2000) + int(yy)], False) for yy in ("79", "80", "20", "99")]
    else:
        batches = [(None, [1999, 2020], False)]
    w = ""
    res = {"accept": [True, ""], "decode": [True, ""]}
    n = 0

    def say(rule, ok, why):
        if ok is False and res[rule][0] is not False:
            res[rule] = [False, why]
        elif ok is None and res[rule][0] is True:
            res[rule] = [None, why]

    for hook, years, fixed in batches:
        kw = dict(interval=IV) if name == "obs2:strict" else {}
        r = run(prog, name, value=hook, tag=None, lines="any", **kw)
        R.used(r.I)
        a = [p for x in r.rec for p in paths(x)]
        w = where(r.rec[0])
        pol = RecPolicy(READERS[name][2]())
        pol.scan_symbol = False
        hooks = [h for h in (hook, letter_value(name[-1]) if nf == "nav3" else None) if h]
        if hooks:
            pol.value = first_of(*hooks)
        s = Run(prog, mod, fn, [PATH], {}, pol)
        R.used(s.I)
        loops = [x for x in s.loops if stop_at_records(x)]
        if not loops:
            say("accept", None, "no loop that records times was found")
            continue
        b = [p for x in loops if x.node is loops[-1].node for p in paths(x)]
        for label, L in lines(nf, name, years, fixed):
            if label.startswith("field 0") and hook is not None:
                continue
            x, tx, sx, kx = takes(a, L)
            y, ty, sy, ky = takes(b, L)
            if label == "plain" and not x:
                say("accept", None, f"{L.rstrip()[:36]!r}: no reader path takes it")
                continue
            n += 1
            if x != y:
                if sx and sy:
                    say("accept", False, f"{label}: {L.rstrip()[:36]!r} is {'taken' if x else 'refused'} by the reader and {'taken' if y else 'refused'} by {mod}.{fn}")
                else:
                    say("accept", None, f"{label}: {L.rstrip()[:36]!r} not decided")
            elif not x and sy and kx == {"next"} and ky and "next" not in ky:
                say("accept", False, f"{label}: after {L.rstrip()[:36]!r} the reader goes on and {mod}.{fn} stops")
            elif not x and sx and ky == {"next"} and kx and "next" not in kx:
                say("accept", False, f"{label}: after {L.rstrip()[:36]!r} the reader stops ({'/'.join(sorted(kx))}) and {mod}.{fn} goes on")
            elif x and tx != ty:
                if tx and ty and None not in tx | ty:
                    say("decode", False, f"{label}: {L.rstrip()[:36]!r} is {sorted(map(str, tx))} for the reader and {sorted(map(str, ty))} for {mod}.{fn}")
                else:
                    say("decode", None, f"{label}: {L.rstrip()[:36]!r} not evaluated")
    for rule, (ok, why) in res.items():
        R.ob(rule, q, ok if n else None, w, why)


def takes(ps, L):
    """(some path consistent with the line files a time, the times filed, all line facts were decided, how the other paths end)"""
    T = Text(lambda v: L if isop(v, "line") else None)
    got, sure, any_ = set(), True, False
    kinds = set()
    for p in ps:
        known = True
        out = False
        for a, v in p.st.facts.items():
            if a in p.x.heads[p.i].facts or not contains(a, lambda y: isop(y, "line")):
                continue
            r = T.atom(a)
            if r is (not v):
                out = True
                break
            if r is None and epochline(a, p):
                known = False
        if out:
            continue
        ts = {t for t in stored(p) if len(lines_in(t)) == 1}
        if not ts:
            kinds.add("next" if p.kind in ("next", "continue") else p.kind)
            continue
        vals = set()
        refused = False
        for t in ts:
            try:
                vals.add(T.ev(t))
            except Raises:
                refused = True
            except Unknown:
                vals.add(None)
        if refused:
            continue
        any_ = True
        sure = sure and known
        got |= vals
    return any_, got, sure, kinds


def epochline(a, p):
    """the atom asks about the record's first line, before the satellite list and count"""
    off = p.x.heads[p.i].heap[next(iter(streams_of(p.x)))].f["off"]
    for y in args_sub(a):
        if isop(y, "slice") and isop(y.a[1], "line") and y.a[1].a[2] is off and isc(y.a[2]) and isc(y.a[3]) and (cv(y.a[3]) or 0) <= 30:
            return True
    return False


def report(prog, R, name):
    nf = name.split(":")[0]
    mod, fn = SCANS[nf]
    pol = RecPolicy(READERS[name][2]())
    pol.scan_symbol = False
    r = Run(prog, mod, fn, [PATH], {}, pol)
    R.used(r.I)
    loops = [x for x in r.loops if stop_at_records(x)]
    lists = set()
    for x in loops:
        if x.node is loops[-1].node:
            for p in paths(x):
                if stored(p):
                    lists |= {k[1] for k in p.eff if k[0] == "obj"}
    ok, why, n = True, "", 0
    for k, st, v in r.res:
        if k != "return":
            continue
        n += 1
        o, y = whole(st, v, lists)
        if o is not True and ok is not False:
            ok, why = o, y
    R.ob("report", f"{mod}.{fn}", ok if n and lists else None, f"{mod}.{fn}", why)


def whole(st, v, lists):
    """is v made of everything in the list of times?"""
    while True:
        if v.k == "op" and v.a[0] in ("np:unique", "np:sort", "np:asarray", "np:array", "np:sorted", "sorted", "m:tolist"):
            for x in v.a[1:]:
                if isinstance(x, tuple) and any(k == "dtype" and isc(y) and cv(y) not in SAVE + ("O", "object") for k, y in x if isinstance(y, V)):
                    return False, f"reported as {show(x)}"
            v = v.a[1]
        elif isop(v, "m:astype"):
            if len(v.a) > 2 and isinstance(v.a[2], V) and isc(v.a[2]) and cv(v.a[2]) not in SAVE:
                return False, f"reported as {show(v.a[2])}"
            v = v.a[1]
        elif v.k == "op" and v.a[0] in ("item", "slice"):
            return (False if isop(v.a[2], "sl") or v.a[0] == "slice" else None), f"only part of the times is reported: {show(v)[:80]}"
        elif v.k == "ref":
            o = st.heap[v.a]
            if v.a in lists:
                return True, ""
            if o.kind == "array":
                c = o.f.get("cast")
                c = cv(c) if isinstance(c, V) and isc(c) else c
                if isinstance(c, str) and c not in SAVE + ("O", "object"):
                    return False, f"reported as {c}"
                if o.f.get("idx") is not None:
                    i = o.f["idx"]
                    return (False if isop(i, "sl") else None), f"only part of the times is reported: {show(i)[:80]}"
                if o.f["stores"]:
                    return None, "times are changed before they are reported"
                v = o.f.get("of") or o.f.get("src")
                if not isinstance(v, V):
                    return None, "origin of the reported times unknown"
            elif o.f.get("part") is not None:
                return False, f"only part of the times is reported: {show(o.f['part'])}"
            else:
                return None, f"reported: {o.kind}"
        else:
            return None, f"reported: {show(v)[:80]}"
