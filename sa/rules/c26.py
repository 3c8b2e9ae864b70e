"""C26: indicators come with their own observable, when asked for."""
from .cells import *


def shapes(tier):
    out2, out3 = [], []
    N = ["G05", "R03", "G02"]
    for n in (1, 2, 5, 6, 7, 10, 11, 12) + ((3, 4, 8, 9) if tier == "thorough" else ()):
        out2.append(Shape(f"{n} types", MANY2[:n], N, ind=True))
        out2.append(Shape(f"{n} types, not asked for", MANY2[:n], N))
    MORE = [a + b for b in "12578" for a in "CLSDP"] + ["C6", "L6", "S6"]
    for n in (15, 16, 21, 28):
        out2.append(Shape(f"{n} types", MORE[:n], N, ind=True))
    for m in ("C1", ["L1", "S"], ["S", "L1"], ["L5", "L8"], ["L"], ["S"], [], ""):
        out2.append(Shape(f"meas={m!r}", MANY2, N, meas=m, ind=True))
    for m in ("L1", ["C", "L"]):
        out2.append(Shape(f"meas={m!r} fast", MANY2, N, meas=m, ind=True, fast=True))
        out2.append(Shape(f"meas={m!r}, not asked for", MANY2, N, meas=m))
    out2.append(Shape("blank indicators", MANY2[:7], N, ind=True, blank=((0, 30, 31), (0, 47, 48), (2, 62, 64), (2, 96, 112))))
    out2.append(Shape("blank values", MANY2[:7], N, ind=True, blank=((0, 0, 14), (0, 80, 94), (2, 16, 30), (2, 30, 31), (2, 48, 62))))
    out2.append(Shape("blank ends of lines", MANY2, ["G05", "R03", "G02", "G09", "G11"], ind=True, blank=((0, 48, 80), (0, 144, 160), (2, 79, 80), (2, 94, 96), (2, 159, 160), (3, 0, 80), (4, 80, 160))))
    out2.append(Shape("13 satellites", MANY2[:6], names2(13), ind=True))
    for m in (None, "L1C", ["L1", "S"], ["S", "L1"], ["C"], [], ""):
        out3.append(Shape(f"meas={m!r}", SYS3, NAMES3, meas=m, ind=True))
    for u in ("G", ["R", "E"]):
        out3.append(Shape(f"use={u!r}", SYS3, NAMES3, use=u, ind=True))
        out3.append(Shape(f"use={u!r}, not asked for", SYS3, NAMES3, use=u))
    out3.append(Shape("not asked for", SYS3, NAMES3))
    out3.append(Shape("meas, not asked for", SYS3, NAMES3, meas=["L"]))
    out3.append(Shape("one satellite", SYS3, ["E05"], ind=True))
    out3.append(Shape("blank indicators", SYS3, NAMES3, ind=True, blank=((0, 30, 31), (0, 47, 48), (3, 62, 64), (2, 80, 96))))
    out3.append(Shape("blank values", SYS3, NAMES3, ind=True, blank=((0, 0, 14), (2, 16, 30), (2, 30, 31), (3, 48, 62))))
    out3.append(Shape("14 types", {"G": [f"C{i}C" for i in range(10)] + ["L1C", "L2C", "L5C", "S1C"]}, ["G05", "G07"], ind=True))
    return out2, out3


def check(prog, R, tier):
    R.rule("indicators", "each indicator is parsed from the character that follows its own observable, none appears unasked", 30)
    two, three = shapes(tier)
    t = [(lambda R, v, sh: R.guard("indicators", f"obs{v} {sh.name}", judge, prog, R, "indicators", v, sh, lambda v, s, k: columns(v, s, k, True)), v, sh) for v, ss in ((2, two), (3, three)) for sh in ss]
    R.parallel(t)
