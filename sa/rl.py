"""Record loops of the readers: scenarios, path effects, order oracles."""
from __future__ import annotations
import ast
from .terms import *
from .state import *
from .interp import Interp, Policy, R
from .loader import AnalysisError
from .scen import *
from . import models

LO, HI = SYM("tlim0", "datetime"), SYM("tlim1", "datetime")
IV = SYM("interval", "timedelta")
ORDERS = {"before": (-1, -1), "at_start": (0, -1), "inside": (1, -1), "at_stop": (1, 0), "after": (1, 1)}


def sign_of(p, pos):
    """sign of a linear term over datetimes given position of T relative to LO and HI: needs exactly
    one unknown T and one bound"""
    d = poly_of(p)
    c = d.pop((), 0)
    if c != 0 or len(d) != 2:
        return None
    s = {}
    for m, k in d.items():
        if len(m) != 1 or abs(k) != 1:
            return None
        s[m[0]] = k
    b = next((x for x in (LO, HI) if x in s), None)
    if b is None:
        return None
    t = next(x for x in s if x is not b)
    if t in (LO, HI):
        # LO - HI < 0
        v = -1 if s[LO] == 1 else 1
        return v if s[LO] == -s[HI] else None
    if t.t != "datetime" or isop(t, "m:replace") or s[t] != -s[b]:
        return None
    rel = pos[0] if b is LO else pos[1]
    return rel * s[t]


def order_oracle(pos, extra=None):
    def f(st, atom):
        if atom.a[0] == "lt0":
            s = sign_of(atom.a[1], pos)
            if s is not None:
                return s < 0
        elif atom.a[0] == "eq" and (LO in atom.a[1:3] or HI in atom.a[1:3]):
            a, b = atom.a[1:3]
            if isinstance(a, V) and isinstance(b, V):
                s = sign_of(psub(a, b), pos)
                if s is not None:
                    return s == 0
        if extra is not None:
            return extra(st, atom)
        return None

    return f


def letter_oracle(letter, version=3):
    """decides tests on the first character of a record line / satellite name"""

    def f(st, atom):
        if atom.a[0] == "eq" and isc(atom.a[2]) and isinstance(cv(atom.a[2]), str) and len(cv(atom.a[2])) == 1:
            x = atom.a[1]
            if isop(x, "slice") and x.a[2] is C(0) and x.a[3] is C(1) and base_line(x.a[1]):
                return cv(atom.a[2]) == letter
        return None

    return f


def base_line(x):
    return isop(x, "line") or (isop(x, "slice") and isop(x.a[1], "line") and x.a[2] is C(0))


def letter_value(letter):
    def f(v):
        if isop(v, "slice") and len(v.a) == 4 and v.a[2] is C(0) and v.a[3] is C(1) and svname(v.a[1]):
            return C(letter)
        return None

    return f


def text_value(chars, at=None):
    """scenario: the characters of record lines at the given columns are known"""

    def f(v):
        if v.k != "op" or v.a[0] not in ("slice", "index", "item") or not isop(v.a[1], "line"):
            return None
        if at is not None and not at(v.a[1]):
            return None
        if v.a[0] == "slice":
            if len(v.a) != 4 or not isc(v.a[2]) or not isc(v.a[3]):
                return None
            a, b = cv(v.a[2]), cv(v.a[3])
            if isinstance(a, int) and isinstance(b, int) and 0 <= a < b and all(i in chars for i in range(a, b)):
                return C("".join(chars[i] for i in range(a, b)))
        elif len(v.a) == 3 and isc(v.a[2]) and cv(v.a[2]) in chars:
            return C(chars[cv(v.a[2])])
        return None

    return f


def name_value(name, c0=32):
    """scenario: every satellite in a list of three-character names starting at column c0 has this name"""

    def f(v):
        if isop(v, "slice") and len(v.a) == 4 and isop(v.a[1], "line"):
            d = psub(v.a[3], v.a[2])
            lo = poly_of(v.a[2])
            c = lo.pop((), 0)
            if isc(d) and isinstance(c, int) and lo and all(isinstance(k, int) and k % 3 == 0 for k in lo.values()):
                o, n = (c - c0) % 3, cv(d)
                if isinstance(n, int) and 0 < o + n <= 3:
                    return C(name[o : o + n])
        elif v.k == "op" and v.a[0] in ("item", "index") and len(v.a) == 3 and isop(v.a[1], "line"):
            lo = poly_of(v.a[2])
            c = lo.pop((), 0)
            if lo and all(isinstance(k, int) and k % 3 == 0 for k in lo.values()) and isinstance(c, int):
                return C(name[(c - c0) % 3])
        return None

    return f


def first_of(*fs):
    """value hooks tried in order"""

    def f(v):
        for g in fs:
            r = g(v)
            if r is not None:
                return r
        return None

    return f


FLAGCOL = {"obs3": 31, "obs2": 28}


def flag_value(kind, flag):
    """scenario: every epoch line has this epoch flag"""
    c = FLAGCOL[kind]
    return text_value({c - 2: " ", c - 1: " ", c: flag})


def svname(x):
    if base_line(x):
        return True
    while isop(x, "replace") or isop(x, "strip"):
        x = x.a[1]
    return base_line(x)


def all_of(*fs):
    def f(st, atom):
        for g in fs:
            if g is not None:
                r = g(st, atom)
                if r is not None:
                    return r
        return None

    return f


def const(st, a, name):
    """a Python collection of constants as an argument object"""
    if isinstance(a, V):
        return a
    if isinstance(a, (set, frozenset)):
        return st.new_list(("arg", name), [const(st, x, name) for x in sorted(a)], kind="set")
    if isinstance(a, list):
        return st.new_list(("arg", name), [const(st, x, name) for x in a])
    if isinstance(a, tuple):
        return TUP(tuple(const(st, x, name) for x in a))
    return NONE if a is None else C(a)


def plain(st, v):
    """the Python value of a term, if it is a constant collection"""
    if isc(v):
        return cv(v)
    if v.k == "tup":
        return tuple(plain(st, x) for x in v.a)
    if v.k == "ref":
        o = st.heap[v.a]
        if o.kind in ("list", "set") and o.f["items"] is not None:
            x = [plain(st, y) for y in o.f["items"]]
            return x if o.kind == "list" else set(x)
    raise ValueError(show(v))


class Run:
    def __init__(self, prog, mod, fn, args, kw, pol):
        self.I = Interp(prog, pol)
        self.pol = pol
        st = self.I.fresh_state()
        args = [const(st, a, i) for i, a in enumerate(args)]
        kw = {k: const(st, a, k) for k, a in kw.items()}
        self.res = self.I.run("georinex." + mod, fn, args, kw, st)
        self.loops = self.I.summaries


def streams_of(summ):
    """streams whose offset the loop advances"""
    out = set()
    for i, kind, s, v in summ.paths:
        h = summ.heads[i]
        for oid, o in s.heap.items():
            if o.kind == "stream" and oid in h.heap and h.heap[oid].f["off"] is not o.f["off"]:
                out.add(oid)
    return out


def off_delta(summ, i, s, oid):
    return psub(s.heap[oid].f["off"], summ.heads[i].heap[oid].f["off"])


def raised_facts(s, h=None):
    return [a for a, v in s.facts.items() if v is True and a.a[0] == "raises" and (h is None or h.facts.get(a) is not True)]


def reading_loops(run):
    return [x for x in run.loops if streams_of(x)]


def live_head(summ):
    fi = summ.ctx.fi
    lv = fi.live
    return (lv.head.get(id(summ.node)) or set()) | lv.always


def effects(summ, i, s, kind, ignore=()):
    """observable changes one pass makes: {what: new value}; stream position is not an effect"""
    h = summ.heads[i]
    out = {}
    fr = summ.ctx.fr
    live = live_head(summ)
    for f in range(min(len(h.frames), len(s.frames))):
        for n, v in s.frames[f].items():
            if n.startswith("$"):
                continue
            if f == fr and n not in live:
                continue
            old = h.frames[f].get(n)
            if old is not v and old is not None:
                out[("var", n)] = v
    roots = []
    for f in range(min(len(h.frames), len(s.frames))):
        for n, v in h.frames[f].items():
            if f != fr or n in live:
                roots.append(v)
    for oid in reach(h, roots):
        a, b = h.heap.get(oid), s.heap.get(oid)
        if a is None or b is None or a is b or a.kind == "stream":
            continue
        if a.key() != b.key():
            out[("obj", oid)] = b.key()
    return out


def names_of(h, oid, fr):
    ns = [n for n, v in h.frames[fr].items() if v.k == "ref" and v.a == oid]
    return ns[0] if ns else str(oid)
