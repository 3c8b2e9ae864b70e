"""Record loops of the data readers under scenarios (shared by C01-C05, C25)."""
from __future__ import annotations
from ..terms import *
from ..state import *
from ..scen import *
from ..rl import *
from ..loader import AnalysisError
from .. import models

SCAN = SYM("alltimes", "ndarray")


def pool(name, kind):
    """well-formed first lines of records (kind: record) or of special events (kind: event)"""
    import random

    rnd = random.Random(7)
    nf, let = name.split(":")[0], name[-1]
    out = []
    for k in range(240):
        y = 1980 + k % 100
        z = rnd.choice(" 0")
        n = lambda x, w=2: f"{x:0{w}d}" if z == "0" else f"{x:{w}d}"
        mo, d, h, mi, s = rnd.randint(1, 12), rnd.randint(1, 28 if k % 3 else 30), rnd.randint(0, 23), rnd.randint(0, 59), rnd.randint(0, 59)
        if mo == 2:
            d = min(d, 28)
        if k % 7 == 0:
            h = mi = s = 0
        num = f"{rnd.uniform(-1, 1):19.12E}" + f"{rnd.uniform(-1, 1):19.12E}" + f"{rnd.uniform(-1, 1):19.12E}"
        if rnd.random() < 0.5:
            num = num.replace("E", "D")
        c = k % 43 if k % 5 else 0
        flag = str(rnd.choice((2, 3, 4, 5)) if kind == "event" else rnd.choice((0, 0, 1, 2, 3, 4, 5, 6)))
        frac = f"{rnd.choice((0, 0, 2500000, 9990000)):07d}"
        sv = [rnd.choice("GRECJIS") + n(rnd.randint(1, 36)) for _ in range(c)]
        if nf == "nav2":
            L = f"{n(rnd.randint(1, 32))} {n(y % 100)} {n(mo)} {n(d)} {n(h)} {n(mi)} {n(s)}.{k % 10 if k % 4 == 0 else 0}{num}"
        elif nf == "nav3":
            L = f"{let}{n(rnd.randint(1, 36))} {y:4d} {n(mo)} {n(d)} {n(h)} {n(mi)} {n(s)}{num}"
        elif nf == "obs2":
            L = f" {n(y % 100)} {n(mo)} {n(d)} {n(h)} {n(mi)} {n(s)}.{frac}"
            if kind == "event" and k % 2:
                L = " " * 26
            L = f"{L}  {flag}{c:3d}" + ("" if kind == "event" else "".join(sv[:12]))
            if k % 6 == 0:
                L = f"{L:68s}{rnd.uniform(-1, 1):12.9f}"
        else:
            L = f"> {y:4d} {n(mo)} {n(d)} {n(h)} {n(mi)} {n(s)}.{frac}"
            if kind == "event" and k % 2:
                L = ">" + " " * 28
            L = f"{L}  {flag}{c:3d}"
            if k % 6 == 0:
                L += f"      {rnd.uniform(-1, 1):15.12f}"
        if k % 4 == 1:
            L = f"{L:80s}"
        out.append(L + "\n")
    return out


_texts = {}


def texts(name, kind):
    from ..texteval import Text

    nf = name if name.startswith("nav3") else name.split(":")[0]
    r = _texts.get((nf, kind))
    if r is None:
        r = _texts[nf, kind] = [Text(lambda v, L=L: L if isop(v, "line") else None) for L in pool(name, kind)]
    return r


class RecPolicy(Contract):
    tag_caught = True
    scan_symbol = True
    wellformed = None  # (reader name, kind of line, record loop): what every first line of a record has in common is known
    _known = {}

    def decide(self, st, atom):
        r = super().decide(st, atom)
        if r is None and self.wellformed is not None and atom.a[0] in ("lt0", "eq", "in", "truth"):
            r = self.common(atom)
        return r

    def common(self, atom):
        """the truth every well-formed first line of a record gives this atom, if they all agree"""
        name, kind, node, mod = self.wellformed
        key = (name, kind, node, atom)
        if key in self._known:
            return self._known[key]
        ls = {x for x in args_sub(atom) if isop(x, "line")}
        r = None
        if len(ls) == 1:
            off = next(iter(ls)).a[2]
            if off.k == "sym" and isinstance(off.a, tuple) and off.a[0] == "off" and off.a[1] == ((mod, node.lineno, node.col_offset, type(node).__name__),):
                for T in texts(name, kind):
                    v = T.atom(atom)
                    if v is None or (r is not None and v is not r):
                        r = None
                        break
                    r = v
        self._known[key] = r
        return r

    def intercept(self, I, st, name, selfv, args, kw, node, ctx):
        if self.scan_symbol and name == "georinex.obs2.obstime2":
            return [(st, SCAN)]
        if self.scan_symbol and name == "georinex.obs2._fast_alloc":
            n = SYM("Nextra", "int")
            st.facts[OP("lt0", psub(n, C(1)), t="bool")] = False
            st.facts[OP("eq", n, C(0), t="bool")] = False
            return [(st, n)]
        return super().intercept(I, st, name, selfv, args, kw, node, ctx)


def stop_at_records(x):
    return bool(streams_of(x)) and any(obj_effects(x, i, s, k) for i, k, s, v in x.paths)


def obj_effects(x, i, s, kind):
    return [k for k in effects(x, i, s, kind) if k[0] == "obj"]


READERS = {
    # name: (module, function, info, extra positional, record letters)
    "nav2:N": ("nav2", "rinexnav2", lambda: nav2("N")),
    "nav2:G": ("nav2", "rinexnav2", lambda: nav2("G")),
    "nav2:E": ("nav2", "rinexnav2", lambda: nav2("E")),
    **{f"nav3:{c}": ("nav3", "rinexnav3", lambda: nav3("M")) for c in "GRECJIS"},
    "obs3": ("obs3", "rinexobs3", lambda: obs3("M")),
    "obs2:fast": ("obs2", "rinexsystem2", lambda: obs2("M")),
    "obs2:strict": ("obs2", "rinexsystem2", lambda: obs2("M")),
}
NAV = [k for k in READERS if k.startswith("nav")]
OBS = [k for k in READERS if k.startswith("obs")]

_cache = {}
_nodes = {}


def run(prog, name, tlim=None, interval=None, use=None, oracle=None, tag="", stop=True, value=None, lines="record", **kw):
    """one analysed execution of a reader's record loop"""
    key = (id(prog), name, tlim, interval, use, tag, stop, lines, tuple(sorted(kw))) if tag is not None else None
    if tag is not None and key in _cache:
        return _cache[key]
    mod, fn, info = READERS[name]
    orig = dict(kw)
    pol = RecPolicy(info())
    vals = []
    if name.startswith("nav3"):
        vals.append(letter_value(name[-1]))
    if value is not None:
        vals.append(value)
    if vals:
        pol.value = lambda v: next((r for r in (f(v) for f in vals) if r is not None), None)
    pol.oracle = oracle
    for a in list(kw):
        if a in ("systems3", "stop_loop", "prefixes", "track"):
            setattr(pol, a, kw.pop(a))
    node = _nodes.get((id(prog), name))
    if node is not None and lines != "any":
        pol.wellformed = (name, lines, node, "georinex." + mod)
    if stop:
        pol.stop_loop = stop_at_records if node is None else (lambda x: x.node is node)
    args = [PATH]
    kws = dict(kw)
    if tlim:
        kws["tlim"] = TUP((LO, HI))
    if interval is not None:
        kws["interval"] = interval
    if mod == "obs2":
        args.append(C(use or "G"))
        kws["fast"] = C(name.endswith("fast"))
    elif use is not None:
        kws["use"] = use
    r = Run(prog, mod, fn, args, kws, pol)
    if node is None:
        if tlim or interval is not None:
            run(prog, name)
        else:
            nodes = [x.node for x in r.loops if stop_at_records(x)]
            if not nodes:
                raise AnalysisError(f"{mod}.{fn}: no record loop found")
            node = _nodes[(id(prog), name)] = nodes[-1]
        return run(prog, name, tlim, interval, use, oracle, tag, stop, value, lines, **orig)
    last = node
    r.rec = [x for x in r.loops if x.node is last]
    for x in r.rec:
        if len(streams_of(x)) != 1:
            raise AnalysisError(f"{mod}.{fn}: record loop reads {len(streams_of(x))} streams")
    if tag is not None:
        _cache[key] = r
    return r


# ------------------------------------------------------------------ canonical text
def canon_sym(v):
    m = {}
    for x in args_sub(v):
        if x.k == "sym" and isinstance(x.a, tuple) and len(x.a) > 1 and isinstance(x.a[1], tuple) and len(x.a[1]) == 2 and isinstance(x.a[1][1], int):
            m[x] = SYM((x.a[0], (x.a[1][0],)) + x.a[2:], x.t)
    return subst(v, m) if m else v


def text(x, depth=0):
    if isinstance(x, V):
        return fulltext(canon_sym(x))
    if isinstance(x, (tuple, list)):
        return "(" + ",".join(text(y, depth + 1) for y in x) + ")"
    if isinstance(x, (set, frozenset)):
        return "{" + ",".join(sorted(text(y) for y in x)) + "}"
    if isinstance(x, dict):
        return "{" + ",".join(text(k) + ":" + text(v) for k, v in x.items()) + "}"
    return repr(x)


_ft = {}


def fulltext(v):
    r = _ft.get(v)
    if r is None:
        if v.k == "c":
            r = repr(cv(v))
        elif v.k == "poly":
            r = "P(" + "+".join(sorted(f"{c}*" + "*".join(sorted(fulltext(y) for y in m)) for m, c in v.a)) + ")"
        elif v.k in ("op", "tup", "bound", "exc", "sym"):
            r = f"{v.k}:" + raw(v.a)
        else:
            r = f"{v.k}:{v.a!r}"
        _ft[v] = r
    return r


def raw(a):
    if isinstance(a, V):
        return fulltext(a)
    if isinstance(a, tuple):
        return "(" + ",".join(raw(y) for y in a) + ")"
    return repr(a)


def canon_len(p, st):
    """lengths of lists the path has compared with a number are replaced by that number"""
    m = {}
    for a, val in st.facts.items():
        if val is True and a.a[0] == "eq":
            x, y = a.a[1], a.a[2]
            for u, w in ((x, y), (y, x)):
                if u.k == "sym" and isinstance(u.a, tuple) and u.a[0] == "len" and not (w.k == "sym" and isinstance(w.a, tuple) and w.a[0] == "len"):
                    m[u] = w
    return subst(p, m) if m else p


class Path:
    __slots__ = ("x", "i", "kind", "st", "val", "off", "eff", "tags", "key", "efft")

    def __init__(self, x, i, kind, st, val):
        self.x, self.i, self.kind, self.st, self.val = x, i, kind, st, val
        oid = next(iter(streams_of(x)))
        self.off = canon_len(off_delta(x, i, st, oid), st)
        self.eff = {k: v for k, v in effects(x, i, st, kind).items() if relevant(x, k)}
        self.tags = st.tags
        self.efft = tuple(sorted((text(k), text(self.change(k, v))) for k, v in self.eff.items()))
        self.key = (("next" if kind == "continue" else kind), text(self.off), self.efft)


    def change(self, k, v):
        """what the pass adds to an object"""
        if k[0] == "var":
            return v
        a, b = self.x.heads[self.i].heap[k[1]], self.st.heap[k[1]]
        out = []
        for f in b.f:
            if a.f.get(f) is b.f[f] or a.f.get(f) == b.f[f]:
                continue
            o, n = a.f.get(f), b.f[f]
            if isinstance(o, tuple) and isinstance(n, tuple) and n[: len(o)] == o:
                n = n[len(o) :]
            out.append((f, n))
        return tuple(out)


def relevant(x, k):
    """effects on names and objects that exist before the loop"""
    if k[0] == "obj":
        return k[1] in x.pre.heap
    fr = x.ctx.fr
    return k[1] in x.pre.frames[fr] or any(k[1] in f for f in x.pre.frames[:fr])


def paths(x):
    return [Path(x, i, kind, s, v) for i, kind, s, v in x.paths]


def garbage(p):
    """a path on which the line was rejected by its own decoding: an exception caught in the reader"""
    return bool(p.tags)


def where(x):
    return f"{x.ctx.module}:{x.node.lineno} ({x.ctx.func})"


def describe(p):
    names = []
    for k in p.eff:
        if k[0] == "var":
            names.append(k[1])
        else:
            names.append(names_of(p.x.heads[p.i], k[1], p.x.ctx.fr))
    return f"path({p.kind}, lines {show(p.off)}, changes {sorted(map(str, set(names)))})"


def outer_name(name):
    mod, fn, _ = READERS[name]
    return f"{mod}.{fn}"
