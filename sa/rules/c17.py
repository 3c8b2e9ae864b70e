"""C17: GLONASS and SBAS states are in metres, scaled exactly once."""
from .navcells import *
from .c16 import name


def one(R, prog, v, t, N, first=""):
    gots, exc = shape(prog, R, v, t, N, first)
    ok, why = None, f"{exc[0][0]} at {exc[0][1]}" if exc else "no dataset with values is returned"
    for g in gots:
        ok, why = scaling(v, t, g)
        if ok is not True:
            break
    R.ob("factor", name(v, t, N, first), ok, f"nav{v}.rinexnav{v}", why)


def check(prog, R, tier):
    R.rule("factor", "position, velocity and acceleration of GLONASS and SBAS are multiplied by 1000 once between the file and the result, no other value is", 10)
    jobs = []
    for t, ok in ACCEPTED.items():
        for N in sorted(ok) if tier == "thorough" else [max(ok)]:
            jobs.append((3, t, N))
    for t, n in SIZE2.items():
        jobs += [(2, t, n), (2, t, n - 1)]
    R.parallel([(lambda R, *j: R.guard("factor", name(*j), one, R, prog, *j), *j) for j in jobs])
