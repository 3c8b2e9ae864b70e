"""C25: every value is filed under its own record's epoch and satellite."""
from .cells import *
from . import navrows


def shapes(tier):
    out2, out3 = [], []
    N = ["G05", "R03", "G02", "S20", "G32"]
    for fast in (False, True):
        f = " fast" if fast else ""
        for n in (1, 2, 5, 12, 13, 24, 25) + ((11, 14, 36, 37) if tier == "thorough" else ()):
            for t in (1, 6) if n in (5, 13) or tier == "thorough" else (6,):
                out2.append(Shape(f"{n} satellites, {t} types{f}", MANY2[:t], names2(n), fast=fast))
        for s in "GRSE":
            out2.append(Shape(f"system {s}{f}", MANY2[:7], N if s != "E" else N + ["E01", "E36"], system=s, fast=fast))
        out2.append(Shape(f"last of the record{f}", MANY2[:6], ["R01", "R02", "G36"], fast=fast))
        out2.append(Shape(f"no system letter{f}", MANY2[:6], [" 05", "R03", "  2"], fast=fast))
        out2.append(Shape(f"numbers without zero{f}", MANY2[:6], ["G 5", "R 3", "G 2"], fast=fast))
        out2.append(Shape(f"meas{f}", MANY2[:7], N, meas=["L"], fast=fast))
        out2.append(Shape(f"indicators{f}", MANY2[:7], N, ind=True, fast=fast))
        out2.append(Shape(f"interval{f}", MANY2[:6], N, interval=True, fast=fast))
        out2.append(Shape(f"time limits{f}", MANY2[:6], N, limits=True, fast=fast))
        out2.append(Shape(f"time limits and interval{f}", MANY2[:6], N, limits=True, interval=True, fast=fast))
        out2.append(Shape(f"blank satellite{f}", MANY2[:6], N, fast=fast, blank=((0, 0, 16), (2, 0, 80), (2, 80, 96), (3, 64, 80))))
    out3.append(Shape("one system", {"G": SYS3["G"]}, ["G05", "G12", "G02"]))
    out3.append(Shape("mixed", SYS3, NAMES3))
    out3.append(Shape("mixed, one satellite", SYS3, ["R03"]))
    out3.append(Shape("systems not in the header", {"G": SYS3["G"]}, ["R03", "G05", "E01", "G02"]))
    out3.append(Shape("20 satellites", SYS3, [f"{'GRE'[i % 3]}{(5 * i) % 31 + 1:02d}" for i in range(20)]))
    out3.append(Shape("use", SYS3, NAMES3, use="G"))
    out3.append(Shape("use two", SYS3, NAMES3, use=["R", "E"]))
    out3.append(Shape("meas", SYS3, NAMES3, meas=["L", "C1"]))
    out3.append(Shape("indicators", SYS3, NAMES3, ind=True))
    out3.append(Shape("interval", SYS3, NAMES3, interval=True))
    out3.append(Shape("time limits", SYS3, NAMES3, limits=True))
    out3.append(Shape("time limits and interval", SYS3, NAMES3, limits=True, interval=True))
    out3.append(Shape("blank satellite", SYS3, NAMES3, blank=((0, 0, 16), (2, 0, 96), (4, 0, 32))))
    return out2, out3


def check(prog, R, tier):
    R.rule("filing", "each cell of the result holds what its own satellite's lines of the record say, or nothing; row and time of all values of a record agree, and each record has its own row", 30)
    R.rule("lockstep", "one pass of a navigation record loop adds one epoch, one satellite and one set of values, or none of them", 25)
    R.rule("rows", "the values of a navigation record stand in the row of its own time: both are picked by the same sequence of selections, or the row is looked up by the record's time", 9)
    two, three = shapes(tier)
    t = [(lambda R, v, sh: R.guard("filing", f"obs{v} {sh.name}", judge, prog, R, "filing", v, sh, filing), v, sh) for v, ss in ((2, two), (3, three)) for sh in ss]
    for j in navrows.tasks(prog):
        if j[0] == "lockstep":
            t.append((lambda R, *a: R.guard("lockstep", " ".join(map(str, a)), navrows.lockstep, R, prog, *a), *j[1:]))
        else:
            t.append((lambda R, f, a: R.guard("rows", f"{f[:-1]} {a}", getattr(navrows, f), R, prog, a), *j))
    R.parallel(t)
