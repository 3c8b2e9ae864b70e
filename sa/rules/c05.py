"""C05: a measurement selection returns the requested observables, from their own columns."""
from .cells import *


def shapes(tier):
    out2, out3 = [], []
    for n in (1, 2, 4, 5, 6, 7, 10, 11, 12) + ((3, 8, 9) if tier == "thorough" else ()):
        out2.append(Shape(f"{n} types", MANY2[:n], ["G05", "R03", "G02"]))
    for m in ("C1", ["C1"], ["L1", "S"], ["S", "L1"], ["C", "C1"], ["P2"], ["L5", "L8"], [], "", [""]):
        out2.append(Shape(f"meas={m!r}", MANY2[:7] if m != ["L5", "L8"] else MANY2, ["G05", "R03", "G02"], meas=m))
    for m in ("L1", ["C", "S"]):
        out2.append(Shape(f"meas={m!r} fast", MANY2, ["G05", "R03", "G02"], meas=m, fast=True))
        out2.append(Shape(f"meas={m!r} with indicators", MANY2[:7], ["G05", "R03", "G02"], meas=m, ind=True))
    MORE = [a + b for b in "12578" for a in "CLSDP"] + ["C6", "L6", "S6", "D6", "P6"]
    for n in (15, 16, 20, 21, 26, 30):
        out2.append(Shape(f"{n} types", MORE[:n], ["G05", "R03", "G02"]))
    out2.append(Shape("30 types, meas=['S6', 'D']", MORE, ["G05", "R03", "G02"], meas=["S6", "D"]))
    A = ["CA", "C1", "LA", "L1", "SA", "CB", "S1"]
    for m in (["CA"], ["CA", "L"], ["LAX", "S1", "C1"], ["c", "SA"], ("CB", "C1")):
        out2.append(Shape(f"letter codes, meas={m!r}", A, ["G05", "R03", "G02"], meas=m))
    out2.append(Shape("blank fields", MANY2[:7], ["G05", "R03", "G02"], blank=((0, 16, 32), (2, 0, 16), (2, 80, 96))))
    out2.append(Shape("blank ends of lines", MANY2, ["G05", "R03", "G02", "G09", "G11"], blank=((0, 48, 80), (0, 144, 160), (2, 79, 80), (2, 94, 96), (2, 159, 160), (3, 0, 80), (4, 80, 160))))
    out2.append(Shape("meas and blank fields", MANY2[:7], ["G05", "G02"], meas=["L"], blank=((0, 16, 32), (1, 80, 112))))
    out2.append(Shape("13 satellites", MANY2[:6], names2(13)))
    out2.append(Shape("GLONASS", MANY2[:6], ["G05", "R03", "G02", "R11"], system="R"))
    for m in (None, "C1C", ["C1C"], ["L1", "S"], ["S", "L1"], ["C"], ["D1C"], ["C", "C1"], [], "", [""]):
        out3.append(Shape(f"meas={m!r}", SYS3, NAMES3, meas=m))
    B = {"G": ["C1C", "C1W", "L1C", "L1W", "S1W", "C2W"], "R": ["C1P", "C1C", "L1P", "S1C"]}
    for m in (["C1W"], ["C1", "C1W"], ["C1WX", "L1"], ["c", "S1W", "S1C"], ("C2", "C1C")):
        out3.append(Shape(f"attribute codes, meas={m!r}", B, NAMES3, meas=m))
    for m in (None, ["L1"]):
        out3.append(Shape(f"meas={m!r} with indicators", SYS3, NAMES3, meas=m, ind=True))
        for u in ("G", ["R", "E"]):
            out3.append(Shape(f"meas={m!r} use={u!r}", SYS3, NAMES3, meas=m, use=u))
    out3.append(Shape("one satellite", SYS3, ["G05"], meas=["S"]))
    out3.append(Shape("13 types", {"G": [f"C{i}C" for i in range(10)] + ["L1C", "L2C", "L5C"]}, ["G05", "G07"]))
    out3.append(Shape("14 types", {"G": [f"C{i}C" for i in range(10)] + ["L1C", "L2C", "L5C", "S1C"]}, ["G05", "G07"], meas=["S", "L"]))
    out3.append(Shape("27 types", {"G": [f"C{i}C" for i in range(9)] + [f"L{i}C" for i in range(9)] + [f"S{i}C" for i in range(9)]}, ["G05", "G07"], meas=["L"]))
    out3.append(Shape("blank fields", SYS3, NAMES3, blank=((0, 16, 32), (2, 0, 48), (3, 112, 128))))
    return out2, out3


def check(prog, R, tier):
    R.rule("columns", "the variables returned are those selected, and each cell is parsed from its own observable's columns", 30)
    two, three = shapes(tier)
    t = [(lambda R, v, sh: R.guard("columns", f"obs{v} {sh.name}", judge, prog, R, "columns", v, sh, lambda v, s, k: columns(v, s, k, False)), v, sh) for v, ss in ((2, two), (3, three)) for sh in ss]
    R.parallel(t)
