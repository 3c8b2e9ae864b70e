"""C23: every satellite system has a defined OBS time system."""
from .attrs import *

SYSTEM = {"G": "GPS", "R": "GLO", "E": "GAL", "J": "QZS", "C": "BDT", "I": "IRN", "S": "GPS", " ": "GPS"}
NAMED = ["GPS", "GLO", "GAL", "QZS", "BDT", "IRN"]


def one(R, prog, version, letter, tfo, want, fast=True):
    q = f"obs{version} file of system {letter!r}" + (f", first epoch in {tfo}" if tfo else "") + ("" if fast else ", strict")
    where = f"obs{version}.rinexobs{version}"
    s = "G" if letter in "M " else letter
    types = ["C1", "L1"] if version == 2 else {s: ["C1C", "L1C"]}
    outs, exc = obs(prog, R, version, letter, head(version, letter, types, tfo), [f"{s}05", f"{s}07"], types, dict(use=C(s)), fast=fast)
    full = [x for x in outs if x.n]
    if not full:
        bad = [e for e in exc if e[0] in ("ValueError", "KeyError", "IndexError", "NotImplementedError", "UnboundLocalError")]
        return R.ob("system", q, False if bad and not outs else None, where, f"reading raises {bad[0][0]} at {bad[0][1]}" if bad else "no dataset with values is returned")
    ok, why = True, ""
    for x in full:
        v = x.attrs.get("time_system")
        if v is None:
            ok, why = False, "time_system is not stated"
        elif "time_system" in x.maybe:
            ok, why = (False, "time_system is not stated on every path") if ok else (ok, why)
        elif not all(isc(y) for y in alts(v)):
            ok, why = (None, show(v)[:80]) if ok else (ok, why)
        elif any(cv(y) != want for y in alts(v)):
            ok, why = False, f"time_system is {show(v)[:60]}, not {want!r}"
    R.ob("system", q, ok, where, why)


def check(prog, R, tier):
    R.rule("system", "the time_system of a dataset is the one of the file's system, or the one the header names for a mixed file", 40)
    jobs = []
    for version in (2, 3):
        for letter, want in SYSTEM.items():
            if version == 3 and letter == " ":
                continue
            for tfo in ("GPS", "", "GLO") if tier == "thorough" else ("GPS", "") if letter in "GR " else ("GPS",):
                jobs.append((version, letter, tfo, want))
        for n in NAMED:
            jobs.append((version, "M", n, n))
    for letter, want in SYSTEM.items():
        jobs.append((2, letter, "GPS", want, False))
    for n in NAMED:
        jobs.append((2, "M", n, n, False))
    R.parallel([(lambda R, *j: R.guard("system", f"obs{j[0]} {j[1]} {j[2]}", one, R, prog, *j), *j) for j in jobs])
