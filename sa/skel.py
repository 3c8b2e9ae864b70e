"""Readers analysed on files of known shape: the header lines are known, the records have a known satellite
list, every other character of a record is a distinct mark. What reaches a cell of the result is then the
set of columns of the record it was parsed from."""
from __future__ import annotations
from .terms import *
from .state import *
from .scen import *
from .rl import *
from .texteval import Text, Raises
from .gridval import Unknown
from .rules.records import RecPolicy, stop_at_records
from . import small
from .models_calls import new_array

W = 512


def mark(j, c):
    return chr(0xF0000 + j * W + c)


def marked(j, n=80):
    return "".join(mark(j, c) for c in range(n))


def where_from(s):
    """columns a text is made of: [(line, first column, last column + 1)] without the blanks at its ends, or None"""
    cs = [ord(ch) - 0xF0000 for ch in s.strip() if ord(ch) >= 0xF0000]
    if len(cs) != len(s.strip()) or not cs:
        return None
    out = []
    for x in cs:
        j, c = divmod(x, W)
        if out and out[-1][0] == j and out[-1][2] == c:
            out[-1][2] += 1
        else:
            out.append([j, c, c + 1])
    return [tuple(x) for x in out]


class Cell:
    """a number read from a piece of text"""

    def __init__(self, text):
        self.text = text

    def __eq__(self, o):
        return isinstance(o, Cell) and o.text == self.text

    def __hash__(self):
        return hash(self.text)


class Marks(Text):
    def ev(self, v):
        try:
            return super().ev(v)
        except Raises as e:
            if "TypeError" in str(e):
                raise Unknown(show(v)[:80])
            raise

    def _ev(self, v):
        if v.k == "op":
            n = v.a[0]
            if n == "phi":
                xs = [self.ev(x) for x in v.a[1:]]
                if all(x == xs[0] for x in xs):
                    return xs[0]
                raise Unknown(show(v)[:80])
            if n in ("float", "np:float64", "int") and len(v.a) == 2:
                x = self.ev(v.a[1])
                if isinstance(x, str) and where_from(x):
                    return Cell(x)
                if isinstance(x, str) and not x.strip():
                    raise Raises("blank")
            if n == "cell":
                return self.gencell(v)
            if n in ("encode", "decode", "m:encode", "m:decode"):
                return self.ev(v.a[1])
            if n in ("raises", "truth"):
                pass
        r = super()._ev(v)
        return r

    def gencell(self, v):
        gen, r, c = v.a[1:4]
        kw = {}
        for x in gen.a[2:]:
            if not isinstance(x, tuple):
                raise Unknown(show(v))
            kw.update(dict(x))
        if set(kw) - {"delimiter", "usecols", "encoding", "dtype"} or "delimiter" not in kw:
            raise Unknown(show(v))
        src = gen.a[1]
        if isop(src, "rows"):
            rows = [self.ev(x) for x in src.a[1:]]
        else:
            x = self.ev(src)
            if not isinstance(x, str):
                raise Unknown(show(v))
            rows = x.split("\n")
        rows = [x.rstrip("\r\n") for x in rows]
        rows = [x for x in rows if x]
        r, c, w = self.ev(r), self.ev(c), self.ev(kw["delimiter"])
        if not isinstance(r, int) or not isinstance(c, int):
            raise Unknown(show(v))
        if "usecols" in kw:
            u = self.ev(kw["usecols"])
            c = u[c] if isinstance(u, (tuple, list)) else Unknown(show(v))
        if isinstance(w, int):
            a, b = w * c, w * (c + 1)
        elif isinstance(w, (tuple, list)):
            if c < 0:
                c += len(w)
            a, b = sum(w[:c]), sum(w[: c + 1])
        else:
            raise Unknown(show(v))
        t = rows[r][a:b]
        if not t.strip():
            return "nan"
        if not where_from(t):
            raise Unknown(show(v))
        return Cell(t)


class SkelPolicy(RecPolicy):
    """header: lines of the header; record: {line of the record: text}; node: the record loop"""

    contract = False
    peel = True
    shapes = True
    header_lines = ()
    rec = None
    node = None
    mod = ""

    def line(self, content, off):
        if isc(off) and isinstance(cv(off), int) and 0 <= cv(off) < len(self.header_lines):
            return C(self.header_lines[cv(off)])
        return None

    def there(self, content, off):
        j = self.rel(off) if self.rec is not None else None
        return j is not None and j in self.rec

    def intercept(self, I, st, name, selfv, args, kw, node, ctx):
        if name in (FIRST, INFO):
            f = args[0] if args else kw.get("f")
            if f is not None and f.k == "ref" and st.heap[f.a].kind == "stream":
                o = st.mut(f.a)
                o.f["off"] = C(1)
                if name == FIRST:
                    return [(st, C(self.header_lines[0]))]
            d = {C(k): (C(v) if not isinstance(v, V) else v) for k, v in self.info.items()}
            return [(st, st.new_dict(I.site(node, ctx), d))]
        if self.scan_symbol and name == "georinex.obs2.obstime2":
            n = SYM("Ntimes", "int")
            return [(st, new_array(I, st, node, ctx, "data", shape=TUP([n]), ndim=1))]
        return super().intercept(I, st, name, selfv, args, kw, node, ctx)

    def rel(self, off):
        """number of a line within the record"""
        d = poly_of(off)
        c = d.pop((), 0)
        if not d and isinstance(c, int) and (self.node is not None or self.whole):
            return c - len(self.header_lines)  # the first record
        if self.node is None:
            return None
        if len(d) != 1 or not isinstance(c, int):
            return None
        (m, k), = d.items()
        if k != 1 or len(m) != 1 or m[0].k != "sym":
            return None
        a = m[0].a
        n = self.node
        if isinstance(a, tuple) and a[0] == "off" and a[1] == ((self.mod, n.lineno, n.col_offset, type(n).__name__),):
            return c
        return None

    def subject(self, v):
        if isop(v, "line") and self.rec is not None:
            j = self.rel(v.a[2])
            if j is not None:
                return self.rec.get(j)
        return None

    def setup(self):
        self.text = Marks(self.subject)

    def value(self, v):
        """text of a record that is known in full"""
        if self.rec is not None and v.k in ("op", "poly") and v.t in ("int", "num") and contains(v, lambda y: isop(y, "len") and contains(y, lambda z: isop(z, "line"))):
            try:
                x = self.text.ev(v)
            except (Unknown, Raises):
                return None
            return C(x) if isinstance(x, int) else None
        if self.rec is None or v.k != "op" or v.t not in ("str", "any", "bytes", "bool"):
            return None
        if v.a[0] not in ("slice", "item", "index", "idx") and not v.a[0].startswith("m:"):
            return None
        if not contains(v, lambda y: isop(y, "line")):
            return None
        try:
            x = self.text.ev(v)
        except (Unknown, Raises):
            return None
        if isinstance(x, bool) or isinstance(x, str) and all(ord(ch) < 0xF0000 for ch in x):
            return C(x)
        return None

    def decide(self, st, atom):
        if self.rec is not None and atom.a[0] in ("lt0", "eq", "in", "truth", "raises") and contains(atom, lambda y: isop(y, "line") or self.whole and isop(y, "datetime")):
            r = self.text.atom(atom)
            if r is not None:
                return r
        if atom.a[0] == "eq" and isop(atom.a[1], "len") and atom.a[2] is C(0) and atom.a[1].a[1].k == "ref":
            o = st.heap.get(atom.a[1].a[1].a)
            if o is not None and o.kind == "ds" and o.f["vars"]:
                return False
        if atom.a[0] == "raises" and atom.a[1] in ("IndexError", "KeyError") and atom.a[2].k == "op" and atom.a[2].a[0] in ("astore", "aread", "item"):
            return False  # out of bounds is not the question here
        return super().decide(st, atom)


def hl(content, label):
    return f"{content:<60s}{label}\n"


# ------------------------------------------------------------------ shapes of files
def head2(types, sys_="M", extra=()):
    L = [hl(f"     2.11           OBSERVATION DATA    {sys_}", "RINEX VERSION / TYPE")]
    for i in range(0, len(types), 9):
        L.append(hl((f"{len(types):6d}" if i == 0 else " " * 6) + "".join(f"    {x:>2s}" for x in types[i : i + 9]), "# / TYPES OF OBSERV"))
    L.append(hl("  2020     1     1     0     0    0.0000000     GPS", "TIME OF FIRST OBS"))
    L.extend(extra)
    L.append(hl("", "END OF HEADER"))
    return L


def head3(types, sys_="M", extra=()):
    L = [hl(f"     3.03           OBSERVATION DATA    {sys_}", "RINEX VERSION / TYPE")]
    for s, tt in types.items():
        for i in range(0, len(tt), 13):
            L.append(hl((f"{s}  {len(tt):3d}" if i == 0 else " " * 6) + "".join(" " + x for x in tt[i : i + 13]), "SYS / # / OBS TYPES"))
    L.append(hl("  2020     1     1     0     0    0.0000000     GPS", "TIME OF FIRST OBS"))
    L.extend(extra)
    L.append(hl("", "END OF HEADER"))
    return L


def over(L, a, s):
    return L[:a] + s + L[a + len(s) :]


def rec2(names, nobs, blank=(), cut=None):
    """lines of an OBS 2 record; blank: {(satellite, column from, to within its text)}; cut: satellites' last lines end there"""
    out = {}
    L = over(over(over(marked(0), 0, " 20  1  1  0  0  0.0000000"), 26, "  0"), 29, f"{len(names):3d}")
    out[0] = over(L, 32, "".join(names[:12]))[: 32 + 3 * len(names[:12])] + "\n"
    j = 1
    for i in range(12, len(names), 12):
        out[j] = " " * 32 + "".join(names[i : i + 12]) + "\n"
        j += 1
    nl = -(-nobs // 5)
    first = {}
    for i in range(len(names)):
        first[i] = j
        for l in range(nl):
            n = min(5, nobs - 5 * l)
            T = marked(j, 16 * n)
            for s, a, b in blank:
                if s == i and a // 80 == l:
                    T = over(T, a % 80, " " * (b - a))
            out[j] = T.rstrip() + "\n"
            j += 1
    return out, first


def rec3(names, nobs, blank=()):
    out = {0: over(over(over(marked(0, 40), 0, "> 2020 01 01 00 00  0.0000000"), 29, "  0"), 32, f"{len(names):3d}")[:35] + "\n"}
    for i, s in enumerate(names):
        T = over(marked(i + 1, 3 + 16 * nobs.get(s[0], 3)), 0, s)
        for q, a, b in blank:
            if q == i:
                T = over(T, 3 + a, " " * (b - a))
        out[i + 1] = T.rstrip() + "\n"
    return out, {i: i + 1 for i in range(len(names))}


class Epoch:
    """what the keep path of one record does: cells by variable and satellite label"""

    def __init__(self):
        self.cells = {}  # (variable, label) -> Cell | "nan" | None
        self.vars = set()
        self.labels = set()
        self.times = set()  # time terms the values are filed under
        self.extra = []  # stores that hit other satellites
        self.note = ""


_disc = {}


def loops_of(prog, mod, fn, args, kw, pol):
    return Run(prog, mod, fn, args, kw, pol)


def skel_policy(info, header, node=None, mod=None, rec=None, **k):
    pol = SkelPolicy(info)
    pol.header_lines = header
    pol.node, pol.rec = node, rec
    pol.mod = "georinex." + mod if mod else ""
    for a, b in k.items():
        setattr(pol, a, b)
    pol.setup()
    return pol


NANS = ("numpy.nan", "numpy.NaN", "math.nan")


def isnan(v):
    return v is not None and (v.k == "ext" and v.a in NANS or isc(v) and isinstance(cv(v), float) and cv(v) != cv(v))


def cellval(T, v):
    if v is None:
        return None
    if isnan(v):
        return "nan"
    try:
        x = T.ev(v)
    except Raises:
        return "nan" if isop(v, "cell") else None
    except Unknown:
        return None
    return x if isinstance(x, Cell) or x == "nan" else None


def root(st, v, idx):
    """array and index a cell of a view comes from"""
    while v.k == "ref":
        o = st.heap[v.a]
        if o.kind != "array":
            return None
        src = o.f.get("src")
        if not isinstance(src, V) or o.f["stores"]:
            return v, idx
        i = o.f.get("idx")
        if not (i is None or isc(i)):
            j = small.through(st, i, idx, src)
            if j is None:  # cells chosen by a mask: an array of its own
                return v, idx
            idx = j
        v = src
    return None


TT, SS = SYM("anytime", "int"), SYM("anysat", "int")


