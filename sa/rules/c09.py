"""C09: existing output data is never destroyed without overwrite."""
from .c08 import *

EXISTS = {"m:is_file", "m:exists", "isfile", "exists", "path.isfile", "path.exists"}


def check(prog, R, tier):
    R.rule("present", "output that holds the data already is refused with ValueError and left alone", 8)
    R.rule("beside", "data of another kind is added to an existing file, never replacing it", 6)
    R.rule("replace", "with overwrite the file is replaced", 8)
    R.rule("create", "a file that does not exist yet is written", 8)
    R.rule("group", "the kind looked for is the kind written", 6)
    R.rule("batch", "converting many files never asks for overwriting", 1)
    R.guard("batch", "batch_convert", batch, prog, R)
    for kind in KINDS:
        for fn in PACK:
            if serves(fn, kind):
                R.guard("present", f"{fn}:{kind}", cases, prog, R, fn, kind)


def world(exists, held, over):
    def f(st, a):
        if not contains(a, lambda y: y is OUT):
            if a.a[0] == "truth" and a.a[1] is SYM("overwrite", "bool"):
                return over
            return None
        n = a.a[0]
        if contains(a, size_of_out) and exists:  # what is there is not empty
            if n == "eq" and isc(a.a[2]) and cv(a.a[2]) == 0:
                return False
            if n == "truth":
                return True
        if n in EXISTS or (n == "truth" and isinstance(a.a[1], V) and a.a[1].k == "op" and a.a[1].a[0] in EXISTS):
            return exists
        if n == "raises" and isinstance(a.a[2], V) and isop(a.a[2], "open_dataset"):
            return (not held) if exists else True
        if n == "raises":
            return False
        return None

    return f


def size_of_out(y):
    return isop(y, "attr") and y.a[2] == "st_size" and contains(y, lambda z: z is OUT)


KNOWN = {"m:is_dir", "raises", "truth", "is", "isinstance"} | EXISTS


def unknown(s):
    """the path was decided by something about the output that the scenario does not fix"""
    return [a for a in s.facts if contains(a, lambda y: y is OUT) and a.a[0] not in KNOWN and not (a.a[0] == "eq" and contains(a, lambda y: isop(y, "attr") and y.a[2] in ("suffix", "name", "st_size"))) and not contains(a, size_of_out)]


def batch(prog, R):
    pol = CallPolicy({}, stubs={"georinex.base.load"}, prog=prog, events={"loop"})
    I, res = runfn(prog, "base", "batch_convert", [SYM("path", "Path"), SYM("glob", "str"), OUT], {}, pol)
    R.used(I)
    cs = [c for s in all_states(I, res) for c in calls(s, {"georinex.base.load"})]
    ok, why, w = (True if cs else None), "" if cs else "no call of load found", "base.batch_convert"
    for name, b, loc in cs:
        g = b.get("overwrite", ("default", "False"))
        x = True if g in (("default", "False"), FALSE, NONE) else False if g in (("default", "True"), TRUE) else None
        if x is not True and ok is not False:
            ok, why, w = x, f"load is called with overwrite={show(g) if isinstance(g, V) else g[1]}", loc
    R.ob("batch", "batch_convert", ok, w, why)


def modes(s):
    out = []
    for d, loc in writes(s):
        m = dict(d[2]).get("mode") if d[2] else None
        out.append((cv(m) if isinstance(m, V) and isc(m) else ("w" if m is None else m), dict(d[2]).get("group") if d[2] else None, loc))
    return out


def cases(prog, R, fn, kind):
    q = f"{fn}:{kind}"
    sp3 = kind == "sp3"
    for rule, exists, held, over in (("present", True, True, False), ("beside", True, False, False), ("replace", True, True, True), ("create", False, False, False)):
        if sp3 and rule == "beside":
            continue
        I, res = scenario(prog, fn, kind, OUT, oracle=world(exists, held, over), overwrite=C(over))
        R.used(I)
        ok, why, w = True, "", fn
        wrote = 0
        for k, s, v in res:
            ms = modes(s)
            wrote += len(ms)
            unk = unknown(s)
            if rule == "present":
                if ms:
                    ok, why, w = None if unk else False, f"existing data is written over (mode {ms[0][0]!r})", ms[0][2]
                elif k == "return":
                    ok, why = (None if unk else False), "the call succeeds without refusing"
                elif k == "raise" and refusal(v) is False and about_out(v):
                    ok, why = False, f"refused with {v.exc.a[0]}"
            elif rule == "beside":
                for m, g, loc in ms:
                    if m not in ("a", "r+"):
                        ok, why, w = (None if unk or not isinstance(m, str) else False), f"an existing file is written with mode {m!r}", loc
                if not ms and (k == "return" or about_out(v)) and ok:
                    ok, why = (None if unk else False), "data of another kind is not added"
            elif rule == "replace":
                for m, g, loc in ms:
                    if m != "w":
                        ok, why, w = (None if unk or not isinstance(m, str) else False), f"with overwrite the file is written with mode {m!r}", loc
                if not ms and (k == "return" or about_out(v)) and ok:
                    ok, why = (None if unk else False), "with overwrite nothing is written"
            else:
                for m, g, loc in ms:
                    if m not in ("w", "a", "x"):
                        ok, why, w = None if not isinstance(m, str) else False, f"a new file is written with mode {m!r}", loc
                if not ms and (k == "return" or about_out(v)) and ok:
                    ok, why = (None if unk else False), "a new output file is not written"
        if rule != "present" and not wrote and ok:
            ok, why = None, "no path writes"
        R.ob(rule, q, ok, w, why)
        if rule in ("beside", "present") and not sp3:
            groups(R, q + ":" + rule, fn, kind, I, res)


def refusal(v):
    return v.exc.a[0].split(".")[-1] == "ValueError" if isinstance(v.exc.a, tuple) and isinstance(v.exc.a[0], str) else None


def about_out(v):
    """the exception speaks about the existing output (not about its name or the input)"""
    if isinstance(v, V):
        return False
    return contains(v.exc, lambda y: y is OUT) and not contains(v.exc, lambda y: isc(y) and "not sure what output" in str(cv(y)))


def groups(R, q, fn, kind, I, res):
    want = C("OBS") if kind.startswith("obs") else C("NAV")
    ok, why = True, ""
    for k, s, v in res:
        for a in s.facts:
            if a.a[0] == "raises" and isinstance(a.a[2], V) and isop(a.a[2], "open_dataset") and contains(a, lambda y: y is OUT):
                g = a.a[2].a[2] if len(a.a[2].a) > 2 else NONE
                if g is not want:
                    ok, why = (False if isc(g) or g is NONE else None), f"looks for group {show(g)}"
        for m, g, loc in modes(s):
            if g is not want:
                ok, why = (False if g is None or isc(g) else None), f"writes group {show(g) if isinstance(g, V) else g}"
    R.ob("group", q, ok, fn, why)
