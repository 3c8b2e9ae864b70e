"""C16: navigation records are mapped to the named broadcast fields in order."""
from .navcells import *


def one(R, prog, v, t, N, good, first="", short=0):
    q = name(v, t, N, first, short)
    where = f"nav{v}.rinexnav{v}"
    gots, exc = shape(prog, R, v, t, N, first, short)
    if not good:
        bad = [g for g in gots if any(feeds(g, n) for n in g.fields)]
        R.ob("refused", q, False if bad else True if exc and not gots else None, where, "a record with this number of values is stored" if bad else f"{exc[0][0]} at {exc[0][1]}" if exc else "nothing is known")
        return
    ok, why = (False, f"a well-formed record is refused: {exc[0][0]} at {exc[0][1]}") if exc and not gots else (None, "no dataset with values is returned")
    for g in gots:
        ok, why = mapping(v, t, N, g, first, short)
        if ok is not True:
            break
    R.ob("order", q, ok, where, why)


def name(v, t, N, first="", short=0):
    return f"nav{v} {t} {N} values" + (f" behind a record of system {first}" if first else "") + (f", the last {short} characters short" if short else "")


def check(prog, R, tier):
    R.rule("order", "each value of a record reaches the field that follows in the broadcast order of its system, only spare and optional trailing fields are left out", 30)
    R.rule("refused", "a record with another number of values is refused", 8)
    jobs = []
    for t, ok in ACCEPTED.items():
        top = len(ORDER[t])
        ns = set(ok) | {min(ok) - 1, 8} | ({29, 30} if t == "I" else set()) | ({11} if t in "RS" else {15})
        if tier == "thorough":
            ns |= set(range(1, top + 1))
        for N in sorted(ns):
            if (t, N) != ("E", 30):  # neither promised nor excluded
                jobs.append((3, t, N, N in ok))
    for t, n in SIZE2.items():
        top = 15 if t == "G" else 31
        for N in sorted({n, n - 1, top, min(top, n + 1)} | (set(range(4, top + 1)) if tier == "thorough" else set())):
            jobs.append((2, t, N, True))
    for t, ok in ACCEPTED.items():
        for N in sorted(ok) if tier == "thorough" else [min(ok)]:
            jobs.append((3, t, N, True, "", 1))
    R.parallel([(lambda R, *j: R.guard("order" if j[3] else "refused", name(*j[:3], *j[4:]), one, R, prog, *j), *j) for j in jobs])
