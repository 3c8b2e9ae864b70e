"""C04: exactly the selected satellite systems are read."""
from .records import *
from .glue import *
from .c03 import flag0

SYS2 = ("G", "R", "E", "S", "C", "J")  # systems an OBS 2 file can hold
FORMS = {"str": lambda s: s, "set": lambda s: {s}, "list": lambda s: [s], "tuple": lambda s: (s,)}


def check(prog, R, tier):
    R.rule("driver", "an OBS 2 read of several systems reads exactly the selected ones, by default all", 6)
    R.rule("merge", "the result of an OBS 2 read of several systems holds each of them", 2)
    R.rule("present", "a single-system OBS 2 file is read for its own system and gives nothing for another", 4)
    R.rule("record", "a satellite of the selected system is stored, one of another system is not", 6)
    R.rule("nav", "a NAV 3 record is kept unchanged when its system is selected and dropped otherwise", 14)
    R.rule("header", "the OBS 3 header keeps exactly the selected systems", 6)
    R.rule("form", "a single letter means the same as a collection holding it", 4)
    R.rule("removal", "reading with a system selection gives what reading a file of the selected satellites gives", 10)
    from .filter import tasks as removal

    t = [(lambda R: R.guard("driver", "obs2", driver, prog, R),), (lambda R: R.guard("present", "obs2", present, prog, R),)]
    t += [(lambda R, n: R.guard("record", n, record2, prog, R, n), n) for n in ("obs2:fast", "obs2:strict")]
    t += [(lambda R: R.guard("record", "obs3", record3, prog, R),), (lambda R: R.guard("header", "obs3", header, prog, R),)]
    t += [(lambda R, c: R.guard("nav", c, nav, prog, R, c), c) for c in "GRECJIS"]
    t += [(lambda R: R.guard("form", "obs3", form3, prog, R),)]
    R.parallel([*t, *removal(prog, "C04", "removal")])


# ------------------------------------------------------------------ OBS 2
def driver(prog, R):
    name = "georinex.obs2.rinexsystem2"
    fdef(prog, name)
    cases = [(f"{f}.G", FORMS[f]("G"), {"G"}, {"G"}) for f in FORMS]
    cases += [("pair", {"G", "R"}, {"G", "R"}, {"G", "R"}), ("pairlist", ["E", "S"], {"E", "S"}, {"E", "S"})]
    cases += [("all", set("CEGIJRS"), set("CEGIJRS"), set("CEGIJRS")), ("four", list("RGSE"), set("RGSE"), set("RGSE"))]
    cases += [("none", None, set(SYS2), None), ("empty", set(), set(SYS2), None), ("emptylist", [], set(SYS2), None)]
    for nm, use, want, most in cases:
        pol = CallPolicy(obs2("M"), stubs={name}, prog=prog)
        pol.events = {"loop"}
        I, res = runfn(prog, "obs2", "rinexobs2", [PATH], dict(use=use), pol)
        R.used(I)
        rets = [(st, v) for k, st, v in res if k == "return"]
        why, ok = "", True
        for st, v in rets:
            got = set()
            for n, b, loc in calls(st, {name}):
                s = b.get("system")
                if isinstance(s, V) and isc(s):
                    got.add(cv(s))
                else:
                    ok = None if ok else ok
                    why = why or f"system {val(s)}"
            if ok is None:
                continue
            if want - got:
                ok, why = False, f"use={use!r}: systems {sorted(want - got)} are not read"
            elif most is not None and got - most:
                ok, why = False, f"use={use!r}: systems {sorted(got - most)} are read too"
        if not rets:
            ok, why = None, "no path returns"
        R.ob("driver", nm, ok, "obs2.rinexobs2", why)
    merge(prog, R, name)


def merge(prog, R, name):
    """what was read of every system ends up in the result"""
    sym = {c: SYM(("result", name, c), "Dataset") for c in SYS2}

    def stub(I, st, nm, b, node, ctx):
        s = b.get("system")
        return [(st, sym[cv(s)])] if isinstance(s, V) and isc(s) and cv(s) in sym else None

    def nonempty(st, a):
        about = [x for x in sym.values() if contains(a, lambda y: y is x)]
        if not about:
            return None
        if a.a[0] == "lt0":
            d = poly_of(a.a[1])
            c = d.pop((), 0)
            return 3 * sum(d.values()) + c < 0 if all(len(m) == 1 and m[0].t == "int" for m in d) else None
        if a.a[0] == "eq" and isc(a.a[2]) and isinstance(cv(a.a[2]), int):
            return cv(a.a[2]) == 3
        if a.a[0] == "truth":
            return True
        return None

    for use in ({"G", "R"}, {"R", "E", "S"}):
        pol = CallPolicy(obs2("M"), stubs={name}, prog=prog, stub_value=stub, oracle=nonempty)
        I, res = runfn(prog, "obs2", "rinexobs2", [PATH], dict(use=use), pol)
        ok, why = None, "no path returns"
        for k, st, v in res:
            if k != "return":
                continue
            if ok is None:
                ok, why = True, ""
            anc = ancestors(st, v)
            miss = [c for c in sorted(use) if sym[c] not in anc]
            if miss and ok:
                open_ = any(contains(a, lambda y: y in [sym[c] for c in miss]) for a in st.facts if a.a[0] not in ("lt0", "eq", "truth"))
                ok, why = (None if open_ else False), f"what was read of {''.join(miss)} is not part of the result"
        R.ob("merge", "".join(sorted(use)), ok, "obs2.rinexobs2", why)


def ancestors(st, v):
    out, todo = set(), [v]
    while todo:
        x = todo.pop()
        if not isinstance(x, V) or x in out:
            continue
        out.add(x)
        for y in subterms(x):
            if y is not x:
                todo.append(y)
        if x.k == "ref":
            for f in st.heap[x.a].f.values():
                todo += [y for y in (flat(f) if isinstance(f, tuple) else list(f.values()) if isinstance(f, dict) else [f]) if isinstance(y, V)]
    return out


def val(v):
    return show(v) if isinstance(v, V) else str(v)


def present(prog, R):
    for fs, u, want in (("M", "G", True), ("G", "G", True), (" ", "G", True), ("R", "G", False), ("G", "R", False), ("R", "R", True), ("E", "E", True), ("M", "S", True), ("S", "S", True), ("M", "J", True)) + tuple((a, b, False) for a in "GRES" for b in "GRECJSI" if a != b and a + b not in ("GR", "RG")):
        pol = RecPolicy(obs2(fs))
        pol.value = flag0("obs2")
        r = Run(prog, "obs2", "rinexsystem2", [PATH, C(u)], dict(fast=FALSE), pol)
        R.used(r.I)
        reach = any(k == "return" for k, s, v in r.res)
        loops = [x for x in r.loops if stop_at_records(x)]
        stores = any(data_store(p) for x in loops for p in paths(x))
        q = f"file {fs!r} system {u}"
        if want:
            R.ob("present", q, True if stores else False, "obs2.rinexsystem2", "" if stores else "no record of the file is stored")
        else:
            bad = [s for k, s, v in r.res if k == "return" and v.k == "ref" and s.heap[v.a].kind == "ds" and s.heap[v.a].f["vars"]]
            R.ob("present", q, not stores and not bad, "obs2.rinexsystem2", "records of another system's file are stored" if stores or bad else "")


def data_store(p):
    """the pass stores values of the record (cells addressed by more than one index)"""
    for k in p.eff:
        if k[0] != "obj":
            continue
        b = p.st.heap[k[1]]
        a = p.x.heads[p.i].heap[k[1]]
        if b.kind == "array" and (a.f.get("stores") != b.f.get("stores") or a.f.get("log") != b.f.get("log")):
            for e in flat(b.f.get("stores", ())) + flat(b.f.get("log", ())):
                if isinstance(e, V) and e.k == "tup" and len(e.a) >= 2:
                    return True
    return False


def flat(x):
    out = []
    for y in x:
        if isinstance(y, tuple):
            out += flat(y)
        else:
            out.append(y)
    return out


def whole_record(p):
    return contains(p.off, lambda y: isop(y, "ceildiv") and NOBS in y.a) and not isc(p.off)


def record2(prog, R, name):
    f0 = flag0("obs2")
    for sysm, letter, want in (("G", "G", True), ("G", " ", True), ("G", "R", False), ("R", "R", True), ("R", "G", False), ("R", " ", False), ("S", "S", True), ("E", "R", False)):
        r = run(prog, name, use=sysm, value=first_of(name_value(letter + "07"), f0), tag=("c04", letter, sysm))
        R.used(r.I)
        w = where(r.rec[0])
        q = f"{outer_name(name)}[{name}] system {sysm} satellite {letter!r}"
        ps = [p for x in r.rec for p in paths(x) if p.kind in ("next", "continue")]
        full = [p for p in ps if whole_record(p)]
        st = [p for p in ps if data_store(p)]
        if want:
            # a blank letter is replaced in the list of satellites, which is followed element-wise only
            miss = [p for p in full if p not in st] if letter != " " else []
            ok = True if st and not miss else (False if miss or full else None)
            R.ob("record", q, ok, w, "" if ok else (f"{describe(miss[0])} stores nothing" if miss else "no path stores the record"))
        else:
            R.ob("record", q, not st, w, f"{describe(st[0])} stores its values" if st else "")


# ------------------------------------------------------------------ OBS 3
def record3(prog, R):
    f0 = flag_value("obs3", "0")
    base = run(prog, "obs3", value=f0, tag="c04")
    heads = {h.heap[oid].f["off"] for x in base.rec for h in x.heads for oid in streams_of(x) if oid in h.heap}
    for sys3, letter, want in ((("G",), "G", True), (("G",), "R", False), (("R",), "R", True), (("R",), "G", False), (("G", "E"), "E", True), (("G", "E"), "R", False)):
        nm = text_value({0: letter, 1: "0", 2: "7"}, at=lambda l: l.a[2] not in heads)
        r = run(prog, "obs3", value=first_of(f0, nm), tag=("c04", letter, sys3), systems3=sys3)
        R.used(r.I)
        w = where(r.rec[0])
        q = f"obs3.rinexobs3 systems {''.join(sys3)} satellite {letter}"
        ps = [p for x in r.rec for p in paths(x) if p.kind in ("next", "continue")]
        dat = [p for p in ps if dataset_change(p)]
        if want:
            full = [p for p in ps if not isc(p.off) and p not in dat and not empty_record(p)]
            ok = bool(dat) and not full
            R.ob("record", q, ok, w, "" if ok else (f"{describe(full[0])} stores nothing" if full else "no path stores the record"))
        else:
            R.ob("record", q, not dat, w, f"{describe(dat[0])} stores its values" if dat else "")


def dataset_change(p):
    return any(k[0] == "var" and v.k == "ref" and p.st.heap[v.a].kind == "ds" for k, v in p.eff.items()) or any(k[0] == "obj" and p.st.heap[k[1]].kind == "ds" for k in p.eff)


def empty_record(p):
    """the path has established that a list built from the record's satellites is empty"""
    h = p.x.heads[p.i]
    for a, v in p.st.facts.items():
        if h.facts.get(a) is v:
            continue
        if a.a[0] == "eq" and v is True and a.a[2] is C(0) and isinstance(a.a[1], V) and a.a[1].t == "int":
            return True
        if a.a[0] == "lt0" and v is True and not contains(a, lambda y: isop(y, "line")):
            return True
        if a.a[0] == "lt0" and v is True and isop(next(iter([y for m in poly_of(a.a[1]) for y in m]), NONE), "int"):
            return True
    return False


def header(prog, R):
    cases = [("none", "GR", None, {"G", "R"})] + [(f"{f}.R", "GR", FORMS[f]("R"), {"R"}) for f in FORMS]
    cases += [("first", "GR", {"G"}, {"G"}), ("both", "GR", {"G", "R"}, {"G", "R"}), ("more", "GR", {"G", "J"}, {"G"}), ("absent", "GR", {"J"}, set())]
    for a, b in zip("GREJSCI", "REJSCIG"):
        cases += [(f"{a} of {a} {b}", a + b, {a}, {a}), (f"{b} of {a} {b}", a + b, {b}, {b}), (f"{a}+{b} of {a} {b}", a + b, {a, b}, {a, b})]
    for nm, sys_, use, want in cases:
        pol = ReaderPolicy(obs3("M"))
        first = SYM("infolines", "int")
        pol.value = first_of(text_value({0: sys_[0]}, at=lambda l: l.a[2] is first), text_value({0: sys_[1]}, at=lambda l: l.a[2] is not first))
        I, res = runfn(prog, "obs3", "obsheader3", [PATH], dict(use=use), pol)
        R.used(I)
        got, ok, why = set(), True, ""
        n = 0
        for k, st, v in res:
            if k != "return":
                continue
            n += 1
            ks = field_systems(st, v)
            if ks is None:
                ok, why = None, "fields of the header not resolved"
                break
            got |= ks
        if ok:
            if got != want:
                ok, why = False, f"use={use!r}: a header with systems {sys_[0]} and {sys_[1]} keeps {sorted(got)}"
            elif want and not n:
                ok, why = None, "no path returns"
        R.ob("header", nm, ok, "obs3.obsheader3", why)


def field_systems(st, v):
    if v.k != "ref" or st.heap[v.a].kind != "dict":
        return None
    f = st.heap[v.a].f["d"].get(C("fields"))
    out = set()
    for x in (f,) if f is not None and f.k == "ref" else (f.a[1:] if f is not None and isop(f, "phi") else (None,)):
        if x is None or not isinstance(x, V) or x.k != "ref" or st.heap[x.a].kind != "dict":
            return None
        o = st.heap[x.a].f
        if o["gen"] or o["open"] is not None:
            return None
        for k in o["d"]:
            if not isc(k):
                return None
            out.add(cv(k))
    return out


def form3(prog, R):
    """the OBS 3 reader hands the selection to the header"""
    for nm, mk in FORMS.items():
        seen = []

        class P(RecPolicy):
            def intercept(self, I, st, name, selfv, args, kw, node, ctx):
                if name == "georinex.obs3.obsheader3":
                    u = bind(prog, name, args, kw).get("use")
                    try:
                        seen.append(plain(st, u) if isinstance(u, V) else None)
                    except ValueError:
                        seen.append(u)
                return super().intercept(I, st, name, selfv, args, kw, node, ctx)

        pol = P(obs3("M"))
        pol.stop_loop = stop_at_records
        r = Run(prog, "obs3", "rinexobs3", [PATH], dict(use=mk("R")), pol)
        R.used(r.I)
        ok, why = (True, "") if seen else (None, "the header is not read by obsheader3")
        for u in seen:
            if isinstance(u, V):
                ok, why = None, f"selection {show(u)}"
            elif u is None or set(u) != {"R"}:
                ok, why = False, f"use={mk('R')!r} becomes {u!r}"
        R.ob("form", nm, ok, "obs3.rinexobs3", why)


# ------------------------------------------------------------------ NAV 3
def nav(prog, R, c):
    name = f"nav3:{c}"
    base = run(prog, name)
    R.used(base.I)
    free = {p.key for x in base.rec for p in paths(x) if not p.tags}
    other = "R" if c != "R" else "G"
    w = where(base.rec[0])
    cases = [(f"{f}", FORMS[f](c), True) for f in FORMS] + [("more", {c, other}, True), ("other", {other}, False), ("others", {x for x in "GRECJIS" if x != c}, False), ("all", set("GRECJIS"), True), ("otherstr", other, False)]
    for nm, use, want in cases:
        r = run(prog, name, use=use, tag=None)
        ps = [p for x in r.rec for p in paths(x) if not p.tags]
        q = f"nav3.rinexnav3[{c}] {nm}"
        if want:
            got = {p.key for p in ps}
            ok = got == free
            d = next((p for p in ps if p.key not in free), None)
            R.ob("nav", q, ok, w, "" if ok else (f"{describe(d)} with use={use!r}, unlike without a selection" if d else f"a path is lost with use={use!r}"))
        else:
            bad = [p for p in ps if obj_effects(p.x, p.i, p.st, p.kind) and p.eff]
            R.ob("nav", q, not bad, w, f"{describe(bad[0])} with use={use!r}" if bad else "")
