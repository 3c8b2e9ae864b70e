"""C03: decimation keeps the first epoch and then one per reached tick."""
from .records import *
from .glue import *
from ..gridval import Unknown
from ..timeval import Times, EPOCH

STEPS = (30, 30.5, 0.5, 3600.25)
ELAPSED = {
    "less": lambda s: (0, 0.25, s - 1, s - 0.5, s - 0.25),
    "reached": lambda s: (s,),
    "more": lambda s: (s + 0.25, s + 1, 2 * s - 0.25, 2 * s, 3 * s + 1, s + 86400, s + 86410.5, 2 * s + 172805),
}
SAMPLES = {c: [(s, e) for s in STEPS for e in f(s) if e >= 0 and (c != "more" or e > s)] for c, f in ELAPSED.items()}


def check(prog, R, tier):
    R.rule("first", "the first epoch is kept and becomes the reference tick", 3)
    R.rule("drop", "an epoch less than the interval after the tick changes nothing", 3)
    R.rule("keep", "an epoch at least the interval after the tick is treated as without decimation", 6)
    R.rule("tick", "keeping an epoch moves the tick by exactly the interval", 3)
    R.rule("accept", "accepted and refused kinds of interval", 6)
    R.rule("window", "an epoch outside the time limits changes nothing, the reference tick included", 6)
    R.rule("number", "the rules above, with the interval given as a number of seconds", 2)
    R.rule("removal", "reading with an interval gives what reading a file of the decimated records gives", 20)
    from .filter import tasks as removal

    tasks = [(lambda R, n: R.guard("keep", n, reader, prog, R, n), n) for n in OBS]
    from .c01 import outside

    tasks += [(lambda R, n, pos: R.guard("window", n, outside, prog, R, n, pos, IV, "window"), n, pos) for n in OBS for pos in ("before", "after")]
    tasks.append((lambda R: R.guard("accept", "check_time_interval", accept, prog, R),))
    tasks += [(lambda R, n: R.guard("number", n, number, prog, R, n), n) for n in ("obs3", "obs2:strict")]
    R.parallel([*tasks, *removal(prog, "C03", "removal")])


def flag0(name):
    """observation epochs; in OBS 2 with a definite century and seconds, so that a path has one time term"""
    nf = name.split(":")[0]
    if nf == "obs2":
        return text_value({1: "2", 2: "0", **dict(zip(range(15, 26), " 30.2500000")), 26: " ", 27: " ", 28: "0"})
    return flag_value(nf, "0")


def dt_of_line(v):
    return isop(v, "datetime") and contains(v, lambda y: isop(y, "line"))


def base_keys(ps, ticks=()):
    out = {}
    for p in ps:
        e = tuple(x for k, x in zip(sorted(p.eff, key=lambda k: text(k)), sorted(p.efft)) if not (k[0] == "var" and k[1] in ticks))
        out[(("next" if p.kind == "continue" else p.kind), text(p.off), e)] = p
    return out


def effkeys(p, ticks):
    return tuple(sorted((text(k), text(p.change(k, v))) for k, v in p.eff.items() if not (k[0] == "var" and k[1] in ticks)))


def key(p, ticks=()):
    return (("next" if p.kind == "continue" else p.kind), text(p.off), effkeys(p, ticks))


def reader(prog, R, name):
    q = f"{outer_name(name)}[{name}]"
    base = run(prog, name, value=flag0(name), tag="c03")
    R.used(base.I)
    r = run(prog, name, interval=IV, value=flag0(name), tag="ivc03")
    w = where(r.rec[0])
    judge(R, name, q, base, r, IV, w)


def judge(R, name, q, base, r, iv, w, rules=("first", "drop", "keep", "tick")):
    free = {key(p) for x in base.rec for p in paths(x) if not p.tags}
    free_sent = {k for k in free}
    ps = [p for x in r.rec for p in paths(x) if not p.tags]
    basevars = {k[1] for x in base.rec for p in paths(x) for k in p.eff if k[0] == "var"}
    # the tick: variables changed only because of the interval
    ticks = {k[1] for p in ps for k in p.eff if k[0] == "var" and k[1] not in basevars}

    def head(p):
        return p.x.heads[p.i].frames[p.x.ctx.fr]

    first = [p for p in ps if all(head(p).get(t) is NONE for t in ticks)]
    later = [p for p in ps if p not in first]
    if len(ticks) != 1:
        R.ob("first", q, None, w, f"the reference tick was not identified: {sorted(ticks)}")
        return
    t = next(iter(ticks))
    # ---- first epoch
    shift = None
    bad = None
    got = set()
    for p in first:
        got.add(key(p, ticks))
        if p.kind in ("next", "continue") and (("var", t) in p.eff):
            v = p.eff[("var", t)]
            d = poly_of(v)
            c = d.pop((iv,), 0)
            if len(d) == 1 and all(k == 1 and len(m) == 1 and dt_of_line(m[0]) for m, k in d.items()) and c in (0, 1):
                if shift is not None and shift != c:
                    bad = bad or f"{describe(p)}: tick set to {show(v)}"
                shift = c
            elif v is not NONE and not any(dt_of_line(y) for y in args_sub(v)):
                bad = bad or f"{describe(p)}: the first epoch sets the tick to {show(v)}, not to its time"
            else:
                R.ob("first", q, None, w, f"tick set to {show(v)}")
                return
        elif p.kind in ("next", "continue") and p.eff:
            bad = bad or f"{describe(p)} keeps the first epoch without setting the tick"
    miss = free - got
    extra = [k for k in got - free]
    if miss or extra:
        k = next(iter(miss or extra))
        bad = bad or f"the first epoch is not treated as without an interval: {'lost' if miss else 'new'} path {k[0]}, lines {k[1][:60]}, {len(k[2])} changes"
    if not first:
        R.ob("first", q, None, w, "no state before the first epoch")
        return
    R.ob("first", q, bad is None, w, bad or "")
    if shift is None:
        if bad is None:
            R.ob("first", q, None, w, "the tick is never set")
        return
    # ---- later epochs
    H = {}
    for p in later:
        x = head(p).get(t)
        H[x] = 1
    if len(H) != 1 or NONE in H:
        R.ob("keep", q, None, w, f"tick at the loop head: {[show(h) for h in H if h]}")
        return
    X = next(iter(H))
    for cls, els in SAMPLES.items():
        verdict, why = True, ""
        got = set()
        for STEP, el in els:
            env = {X: EPOCH + shift * STEP, iv: STEP}
            T = Times(env, lambda v, el=el: EPOCH + el if dt_of_line(v) else None)
            here = set()
            for p in later:
                h = p.x.heads[p.i]
                ok = True
                for a, v in p.st.facts.items():
                    if h.facts.get(a) is v or not (contains(a, lambda y: y is iv or y is X)):
                        continue
                    try:
                        if T.atom(a) is not v:
                            ok = False
                            break
                    except Unknown as e:
                        R.ob("keep", q, None, w, f"condition {show(a)} not comparable: {e}")
                        return
                if not ok:
                    continue
                if cls == "less":
                    if p.kind not in ("next", "continue"):
                        if p.kind in ("break",) and key(p) in free:
                            continue
                        if p.kind == "raise":
                            continue
                        verdict, why = False, why or f"{describe(p)} for an epoch {el} s after the tick at interval {STEP} s"
                    elif p.eff:
                        verdict, why = False, why or f"{describe(p)} for an epoch {el} s after the tick at interval {STEP} s"
                else:
                    here.add(key(p, ticks))
                    u = p.eff.get(("var", t))
                    if p.kind in ("next", "continue"):
                        ustat = True
                        if u is None:
                            # a pass that changes nothing at all without limits has nothing to advance
                            ustat = False if (p.eff or tickless(p, free, ps)) else True
                            msg = f"{describe(p)}: the tick stays where it was after {el} s"
                        else:
                            try:
                                ustat = abs(T.ev(u) - (EPOCH + shift * STEP + STEP)) < 1e-6
                            except Unknown as e:
                                ustat = None
                            msg = f"{describe(p)}: {el} s after the tick at interval {STEP} s the tick becomes {show(u)}"
                        if ustat is not True:
                            R.ob("tick", q + "." + cls, ustat, w, msg)
            if cls != "less":
                miss, extra = free - here, here - free
                if miss or extra:
                    k = next(iter(miss or extra))
                    verdict = False
                    why = why or f"an epoch {el} s after the tick at interval {STEP} s: {'lost' if miss else 'new'} path {k[0]}, lines {k[1][:60]}, {len(k[2])} changes"
        R.ob("drop" if cls == "less" else "keep", q + "." + cls, verdict, w, why)
        if cls != "less":
            R.ob("tick", q + "." + cls, True, w)


def tickless(p, free, ps):
    return False


def number(prog, R, name):
    """interval given in seconds"""
    q = f"{outer_name(name)}[{name}].seconds"
    n = SYM("seconds", "float")
    pos = lambda st, atom: False if atom.a[0] == "lt0" and atom.a[1] is n else None
    base = run(prog, name, value=flag0(name), tag="c03")
    r = run(prog, name, interval=n, oracle=pos, value=flag0(name), tag="secc03")
    judge(R, name, q, base, r, n, where(r.rec[0]))
    R.ob("number", q, True, where(r.rec[0]))


def accept(prog, R):
    n = SYM("n", "int")
    x = SYM("x", "float")
    td = SYM("delta", "timedelta")
    w = "georinex.common"

    def outs(v, oracle):
        pol = ReaderPolicy({}, oracle=oracle)
        I, res = runfn(prog, "common", "check_time_interval", [v], {}, pol)
        R.used(I)
        return res

    def sign(v, neg, zero=False):
        def f(st, a):
            if a.a[0] == "lt0":
                d = poly_of(a.a[1])
                c = d.pop((), 0)
                if list(d) == [(v,)] and abs(d[(v,)]) == 1:
                    val = -1.5 if neg else (0 if zero else 1.5)
                    if v.t == "int":
                        val = -1 if neg else (0 if zero else 1)
                    return d[(v,)] * val + c < 0
            if a.a[0] in ("eq",) and v in a.a[1:]:
                o = a.a[2] if a.a[1] is v else a.a[1]
                if isc(o):
                    return (-1 if neg else 0 if zero else 1) == cv(o)
            if a.a[0] == "truth" and a.a[1] is v:
                return not zero
            return None

        return f

    def kinds(res):
        return {("raise", v.exc.a[0].split(".")[-1] if isinstance(v.exc.a, tuple) else v.exc.a) if k == "raise" else (k, v) for k, st, v in res}

    def expect(nm, res, want, shown):
        got = kinds(res)
        ok = got == {want}
        R.ob("accept", nm, ok, w, "" if ok else f"{shown}: " + ", ".join(f"{k} {show(v) if isinstance(v, V) else v}" for k, v in got))

    for nm, v in (("int", n), ("float", x)):
        expect(nm, outs(v, sign(v, False)), ("return", OP("td", v, t="timedelta")), f"a positive {nm}")
        z = kinds(outs(v, sign(v, False, True)))
        okz = z in ({("return", OP("td", v, t="timedelta"))}, {("return", OP("td", C(0), t="timedelta"))})
        R.ob("accept", nm + ".zero", okz, w, "" if okz else f"an interval of zero: {[(k, show(v) if isinstance(v, V) else v) for k, v in z]}")
        expect(nm + ".negative", outs(v, sign(v, True)), ("raise", "ValueError"), f"a negative {nm}")
    expect("timedelta", outs(td, None), ("return", td), "a timedelta")
    expect("None", outs(NONE, None), ("return", NONE), "no interval")
    for nm, v in (("str", SYM("s", "str")), ("list", None), ("datetime", SYM("d", "datetime"))):
        if v is None:
            continue
        expect(nm, outs(v, None), ("raise", "TypeError"), f"a {nm}")
