"""Path-sensitive interprocedural abstract interpreter for the georinex package (stdlib only).

Abstract values are the interned terms of terms.py.  Branches whose condition is not decided by
constants, known facts, intervals or the scenario's oracle are followed both ways; states that differ
only in facts are merged; loops over unknown sequences are generalised to a fixpoint (one generic
iteration); package functions are inlined.  No solver is involved.
"""
from __future__ import annotations
import ast, builtins
from .terms import *
from .state import *
from .loader import Program, AnalysisError, PKG


import os

DEBUG = int(os.environ.get("SA_DEBUG", "0"))


class Limit(AnalysisError):
    pass


class InitError(AnalysisError):
    """a module body ends in an exception"""

    r = None


class Policy:
    missing = frozenset()
    events = frozenset()
    prefixes = False  # value() also decides startswith()
    track = frozenset()  # exception names whose implicit raise is always followed
    max_steps = 400000
    max_outs = 3000
    tag_caught = False  # keep states on which an exception was caught apart
    join_above = 40  # outside loops, more states than this are joined with loss of correlation
    phi_returns = 4  # a call with more results than this that differ only in the returned value joins them

    def intercept(self, I, st, name, selfv, args, kw, node, ctx):
        return None

    def decide(self, st, atom):
        return None

    def no_raise(self, ctx, ename, term):
        return False

    def elem(self, I, st, seqv, ctx):
        return None

    def nc_attrs(self, path, group):
        """attributes a NetCDF group is known to have"""
        return None

    # scenario: a term known to be a constant
    value = None
    # scenario: text of a line of a stream (content term, number) or None
    line = None
    # called with every dataset made
    made = None
    # is the line of this number there for certain?
    there = None
    # run loops whose next step is known one pass at a time
    peel = False
    whole = False  # the lines that are `there` are all lines of the file
    # follow the contents of small arrays of known shape
    shapes = False
    # scenario: nothing after this loop matters
    stop_loop = None


class Ctx:
    __slots__ = ("fr", "module", "fi", "yieldk", "chain", "loops")

    def __init__(self, fr, module, fi, yieldk=None, chain=(), loops=()):
        self.fr, self.module, self.fi, self.yieldk, self.chain, self.loops = fr, module, fi, yieldk, chain, loops

    def sub(self, **k):
        c = Ctx(self.fr, self.module, self.fi, self.yieldk, self.chain, self.loops)
        for a, b in k.items():
            setattr(c, a, b)
        return c

    @property
    def func(self):
        return self.fi.qual if self.fi else "<module>"


class LoopSummary:
    def __init__(self, node, ctx, lk, kind):
        self.node, self.ctx, self.lk, self.kind = node, ctx, lk, kind
        self.heads = []
        self.paths = []  # (head index, outcome kind, state, value)
        self.exits = []
        self.pre = None

    def __repr__(self):
        return f"<Loop {self.ctx.module}:{self.node.lineno} {len(self.paths)} paths>"


EXTRA_MRO = {
    "zipfile.BadZipFile": ("Exception",),
    "gzip.BadGzipFile": ("OSError", "Exception"),
    "zlib.error": ("Exception",),
    "hatanaka.HatanakaException": ("Exception",),
    "xarray.MergeError": ("ValueError", "Exception"),
    "io.UnsupportedOperation": ("OSError", "ValueError", "Exception"),
}


def exc_mro(name):
    if name == "$stop":
        return (name,)
    if name in EXTRA_MRO:
        return (name,) + EXTRA_MRO[name] + ("BaseException",)
    b = getattr(builtins, name.split(".")[-1], None)
    if isinstance(b, type) and issubclass(b, BaseException):
        return tuple(c.__name__ for c in b.__mro__)
    return (name, "Exception", "BaseException")


class Interp:
    def __init__(self, prog: Program, policy: Policy):
        from . import models

        self.p, self.pol = prog, policy
        self.models = models
        self.steps = 0
        self.handlers = []  # dynamic stack of tuples of exception names
        self.fdefaults = {}
        self.unknown_calls = {}
        self.loopdepth = 0
        self.summaries = []
        self.stopped = set()
        self.uneven = {}
        self.gcache = {}
        self.visited = set()
        self.inlined = set()
        self.st0 = St()
        self.st0.frames = []
        self.inst_methods = {}
        for m in prog.modules.values():
            models.mark_callees(m.tree)

    # ============================================================== modules
    def module_env(self, name):
        st = self.st0
        if name in st.mods:
            return st.mods[name]
        if name not in self.p.modules:
            raise AnalysisError(f"module {name} not found")
        env = {}
        st.mods[name] = env
        m = self.p.modules[name]
        env["__name__"] = C(name)
        env["__file__"] = SYM("__file__", "str")
        fi = None
        st.frames.append(env)
        fr = len(st.frames) - 1
        ctx = Ctx(fr, name, fi)
        outs = self.block(st, m.tree.body, ctx)
        good = [o for o in outs if o[0] == "next"]
        if len(good) != 1:
            if not good and all(o[0] == "raise" for o in outs):
                del st.mods[name]
                e = InitError(f"module {name} cannot be imported: {[(o[2].exc.a[0], o[2].loc) for o in outs]}")
                e.r = outs[0][2]
                raise e
            raise AnalysisError(f"module {name}: {len(good)} initialisation paths: {[(o[0], getattr(o[2],"exc",None), getattr(o[2],"loc",None)) for o in outs]}")
        s = good[0][1]
        env2 = dict(s.frames[fr])
        env.clear()
        env.update(env2)
        s.frames = s.frames[:fr]
        # module-level heap objects become static
        self.st0.heap = s.heap
        self.st0.counts = s.counts
        for oid, o in self.st0.heap.items():
            if o.origin is None:
                nm = next((k for k, v in env.items() if v.k == "ref" and v.a == oid), "?")
                o.origin = ("module", name, nm)
        self.st0.frames = self.st0.frames[:fr]
        return env

    def fresh_state(self):
        for n in list(self.p.modules):
            if not n.endswith("__main__") and not n.endswith(".plots") and not n.endswith("plots_geo"):
                self.module_env(n)
        return self.st0.fork()

    # ============================================================== entry
    def func_value(self, module, name):
        env = self.module_env(module)
        v = env.get(name)
        if v is None or v.k not in ("func",):
            raise AnalysisError(f"anchor {module}.{name} not found")
        return v

    def run(self, module, name, args=(), kw=None, st=None):
        """abstractly execute a package function; list of (kind, state, value)"""
        f = self.func_value(module, name)
        if st is None:
            st = self.fresh_state()
        ctx = Ctx(len(st.frames) - 1, module, None)
        res = self.call(st, f, list(args), dict(kw or {}), None, ctx)
        return [("raise", s, v) if isinstance(v, R) else ("return", s, v) for s, v in res]

    def run_module(self, name):
        """abstractly execute a module body as a program; list of (kind, state, value)"""
        st = self.fresh_state()
        if name not in self.p.modules:
            raise AnalysisError(f"module {name} not found")
        env = {"__name__": C("__main__"), "__file__": SYM("__file__", "str")}
        st.mods = dict(st.mods)
        st.mods[name] = env
        st.frames.append(env)
        ctx = Ctx(len(st.frames) - 1, name, None)
        outs = self.block(st, self.p.modules[name].tree.body, ctx)
        return outs

    # ============================================================== helpers
    def emit(self, st, kind, data, node, ctx):
        if kind in self.pol.events:
            st.ev = (st.ev, (kind, data, self.loc(node, ctx)))

    def loc(self, node, ctx):
        return (ctx.module, getattr(node, "lineno", 0), ctx.func)

    def site(self, node, ctx):
        return (ctx.module, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), type(node).__name__)

    def tick(self, node=None, ctx=None):
        self.steps += 1
        if self.steps > self.pol.max_steps:
            raise Limit(f"step limit at {ctx.module if ctx else ''}:{getattr(node,'lineno','?')}")

    def handled(self, ename):
        if ename in self.pol.track or "*" in self.pol.track:
            return True
        mro = exc_mro(ename)
        for hs in self.handlers:
            for h in hs:
                if h in mro:
                    return True
        return False

    def may_raise(self, st, ename, term, node, ctx):
        """fork on an implicit exception; yields list of (st, None|R)"""
        atom = OP("raises", ename, term, t="bool")
        got = st.facts.get(atom)
        if got is None:
            got = self.pol.decide(st, atom)
        if got is None and self.pol.no_raise(ctx, ename, term):
            return [(st, None)]
        if got is False:
            return [(st, None)]
        if got is None and ename == "IndexError" and self.long_enough(st, term):
            return [(st, None)]
        r = R(EXC(ename, ()), self.loc(node, ctx))
        if got is True:
            return [(st, r)]
        if not self.handled(ename):
            return [(st, None)]
        s2 = st.fork()
        s2.facts[atom] = True
        st.facts[atom] = False
        return [(st, None), (s2, r)]

    def long_enough(self, st, term):
        """the path conditions bound the length of the indexed text or list from below"""
        if len(term.a) != 3 or not isinstance(term.a[1], V) or not isinstance(term.a[2], V) or not isc(term.a[2]):
            return False
        b, i = term.a[1], cv(term.a[2])
        if not isinstance(i, int) or isinstance(i, bool):
            return False
        if b.k == "ref":
            o = st.heap.get(b.a)
            if o is None or o.kind not in ("list",):
                return False
            L = o.f["len"]
        else:
            L = OP("len", b, t="int")
        need = i + 1 if i >= 0 else -i
        for a, v in st.facts.items():
            h = a.a[0]
            if h == "lt0" and isinstance(a.a[1], V):
                d = dict(poly_of(a.a[1]))
                c = d.pop((), 0)
                if len(d) == 1 and isinstance(c, (int, float)):
                    (m, k), = d.items()
                    if len(m) == 1 and m[0] is L and k in (1, -1):
                        # k*L + c < 0 is v
                        lo = None
                        if k == 1 and v is False:
                            lo = -c
                        elif k == -1 and v is True:
                            lo = c + 1
                        if lo is not None and lo >= need:
                            return True
            elif h == "eq" and v is True and isc(a.a[2]):
                if a.a[1] is L and isinstance(cv(a.a[2]), int) and cv(a.a[2]) >= need:
                    return True
                x = a.a[1]
                if isop(x, "slice") and len(x.a) == 4 and x.a[1] is b and isinstance(cv(a.a[2]), str) and isc(x.a[2]) and isinstance(cv(x.a[2]), int) and cv(x.a[2]) >= 0:
                    n = len(cv(a.a[2]))
                    if n and cv(x.a[2]) + n >= need:
                        return True
            elif h == "truth" and v is True and need == 1 and isinstance(a.a[1], V):
                x = a.a[1]
                while isop(x) and x.a[0] in ("m:strip", "m:rstrip", "m:lstrip") and len(x.a) == 2:
                    x = x.a[1]
                if x is b:
                    return True
        return False

    def merge(self, outs, ctx=None, stmt=None):
        if len(outs) < 2:
            return outs
        live = None
        if ctx is not None and ctx.fi is not None and stmt is not None and not isinstance(ctx.fi.node, ast.Lambda):
            lv = ctx.fi.live
            live = lv.lo.get(id(stmt))
            if live is not None:
                live = live | lv.always
        groups = {}
        order = []
        for o in outs:
            kind, st, val = o
            if live is not None and kind == "next":
                env = st.frames[ctx.fr]
                for k in [k for k in env if k not in live and not k.startswith("$")]:
                    del env[k]
            k = (kind, val if not isinstance(val, R) else (val.exc, val.loc), self.stkey(st, val, ctx))
            g = groups.get(k)
            if g is None:
                groups[k] = o
                order.append(k)
            else:
                s0 = g[1]
                s0.facts = {a: b for a, b in s0.facts.items() if st.facts.get(a) is b}
                s0.known = {a: b for a, b in s0.known.items() if st.known.get(a) is b}
                s0.types = {a: b for a, b in s0.types.items() if st.types.get(a) is b}
                for c, n in st.counts.items():
                    if s0.counts.get(c, 0) < n:
                        s0.counts[c] = n
        res = [groups[k] for k in order]
        if len(res) > self.pol.max_outs:
            raise Limit(f"path limit at {ctx.module if ctx else ''}:{getattr(stmt,'lineno','?')} ({len(res)})")
        return res

    def stkey(self, st, val, ctx=None):
        roots = [f for f in st.frames] + [st.pend]
        if isinstance(val, R):
            roots.append(val.exc)
        elif val is not None:
            roots.append(val)
        ids = reach(st, roots)
        hk = []
        for oid, o in st.heap.items():
            if oid in ids or o.kind == "stream":
                if o.origin is not None and o.origin[0] == "module" and self.st0.heap.get(oid) is o:
                    continue
                hk.append((oid, o.kid()))
        return (
            tuple(frozenset(f.items()) for f in st.frames),
            frozenset(hk),
            st.pend,
            tuple(st.events()) if st.ev else (),
            id(st.mods),
            st.tags,
        )

    # ============================================================== statements
    def block(self, st, stmts, ctx):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in cur:
                for o in self.stmt(x, s, ctx):
                    if o[0] == "next":
                        nxt.append(o)
                    else:
                        done.append(o)
            if len(nxt) > 1:
                nxt = self.merge(nxt, ctx, s)
                if self.loopdepth == 0 and len(nxt) > self.pol.join_above:
                    nxt = self.lossy(nxt, ctx)
                if DEBUG and len(nxt) >= DEBUG:
                    print("   " * len(ctx.chain), ctx.module, s.lineno, len(nxt))
            cur = [o[1] for o in nxt]
            if not cur:
                break
        if len(done) > 1:
            done = self.merge(done)
        return done + [("next", x, None) for x in cur]

    def stmt(self, st, s, ctx):
        self.tick(s, ctx)
        self.visited.add((ctx.module, s.lineno))
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError(f"unsupported statement {type(s).__name__} at {ctx.module}:{s.lineno}")
        return m(st, s, ctx)

    def outs(self, results, fn):
        """results of ev -> outcomes via fn(st, val) -> outcomes"""
        o = []
        for st, v in results:
            if isinstance(v, R):
                o.append(("raise", st, v))
            else:
                o.extend(fn(st, v))
        return o

    def s_Expr(self, st, s, ctx):
        if isinstance(s.value, ast.Constant):
            return [("next", st, None)]
        return self.outs(self.ev(st, s.value, ctx), lambda st, v: [("next", st, None)])

    def s_Pass(self, st, s, ctx):
        return [("next", st, None)]

    def s_Break(self, st, s, ctx):
        return [("break", st, None)]

    def s_Continue(self, st, s, ctx):
        return [("continue", st, None)]

    def s_Return(self, st, s, ctx):
        if s.value is None:
            return [("return", st, NONE)]
        return self.outs(self.ev(st, s.value, ctx), lambda st, v: [("return", st, v)])

    def s_Global(self, st, s, ctx):
        return [("next", st, None)]

    s_Nonlocal = s_Global

    def s_Delete(self, st, s, ctx):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[ctx.fr].pop(t.id, None)
                return [("next", st, None)]
            if isinstance(t, ast.Subscript):
                o = []
                for st2, v in self.ev(st, t.value, ctx):
                    if isinstance(v, R):
                        o.append(("raise", st2, v))
                        continue
                    self.mutated(st2, v, "del", t, ctx)
                    if v.k == "ref" and st2.heap[v.a].kind == "dict":
                        for st3, k in self.ev(st2, t.slice, ctx):
                            if not isinstance(k, R):
                                ob = st3.mut(v.a)
                                d = dict(ob.f["d"])
                                d.pop(k, None)
                                ob.f["d"] = d
                            o.append(("next", st3, None))
                        continue
                    o.append(("next", st2, None))
                return o
        return [("next", st, None)]

    def s_Import(self, st, s, ctx):
        try:
            return self.do_import(st, s, ctx)
        except InitError as e:
            return [("raise", st, e.r)]

    def s_ImportFrom(self, st, s, ctx):
        try:
            return self.do_import_from(st, s, ctx)
        except InitError as e:
            return [("raise", st, e.r)]

    def do_import(self, st, s, ctx):
        outs = [("next", st, None)]
        for a in s.names:
            top = a.name.split(".")[0]
            nm = a.asname or top
            if a.name.startswith(PKG):
                v = MOD(a.name if a.asname else PKG)
                if a.name in self.p.modules:
                    self.ensure_mod(st, a.name)
                st.frames[ctx.fr][nm] = v
            elif top in self.pol.missing:
                return [("raise", st, R(EXC("ModuleNotFoundError", (C(a.name),)), self.loc(s, ctx)))]
            else:
                st.frames[ctx.fr][nm] = EXT(a.name if a.asname else top)
        return outs

    def ensure_mod(self, st, name):
        if name in st.mods:
            return
        self.module_env(name)
        for k, v in self.st0.heap.items():
            st.heap.setdefault(k, v)

    def do_import_from(self, st, s, ctx):
        if s.module == "__future__":
            return [("next", st, None)]
        if s.level:
            base = ctx.module.split(".")
            if not self.p.modules[ctx.module].is_pkg:
                base = base[:-1]
            base = base[: len(base) - (s.level - 1)]
            mod = ".".join(base + ([s.module] if s.module else []))
        else:
            mod = s.module
        if mod == PKG or mod.startswith(PKG + "."):
            for a in s.names:
                sub = mod + "." + a.name
                if sub in self.p.modules and (mod not in self.p.modules or a.name not in self.module_env_safe(mod)):
                    self.ensure_mod(st, sub)
                    v = MOD(sub)
                else:
                    self.ensure_mod(st, mod)
                    env = st.mods.get(mod) or self.st0.mods[mod]
                    if a.name == "*":
                        for k, x in env.items():
                            if not k.startswith("_"):
                                st.frames[ctx.fr][k] = x
                        continue
                    if a.name not in env:
                        # module failed to define it (or a cycle)
                        return [("raise", st, R(EXC("ImportError", (C(a.name),)), self.loc(s, ctx)))]
                    v = env[a.name]
                st.frames[ctx.fr][a.asname or a.name] = v
            return [("next", st, None)]
        if mod.split(".")[0] in self.pol.missing:
            return [("raise", st, R(EXC("ModuleNotFoundError", (C(mod),)), self.loc(s, ctx)))]
        for a in s.names:
            st.frames[ctx.fr][a.asname or a.name] = EXT(mod + "." + a.name)
        return [("next", st, None)]

    def module_env_safe(self, mod):
        if mod in self.st0.mods:
            return self.st0.mods[mod]
        if mod in self.p.modules:
            return self.module_env(mod)
        return {}

    def s_FunctionDef(self, st, s, ctx):
        qual = (ctx.fi.qual + "." if ctx.fi else ctx.module + ".") + s.name
        st.frames[ctx.fr][s.name] = self.make_func(st, s, ctx, qual)
        return [("next", st, None)]

    def make_func(self, st, node, ctx, qual):
        fid = self.p.func(node, ctx.module, qual)
        fr = ctx.fr if ctx.fi is not None else None
        key = (fid, fr)
        defs = []
        for d in node.args.defaults:
            r = self.ev(st, d, ctx)
            defs.append(r[0][1])
        kd = []
        for d in node.args.kw_defaults:
            kd.append(None if d is None else self.ev(st, d, ctx)[0][1])
        for d in defs + kd:
            if d is not None and d.k == "ref":
                st.heap[d.a].origin = ("default", qual, "default argument")
        self.fdefaults[key] = (defs, kd)
        return FUNC(key)

    def s_ClassDef(self, st, s, ctx):
        qual = (ctx.fi.qual + "." if ctx.fi else ctx.module + ".") + s.name
        ns = {}
        fields = []
        bases = [ast.unparse(b) for b in s.bases]
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                ns[b.name] = self.make_func(st, b, ctx.sub(fi=None), qual + "." + b.name)
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                dv = None
                if b.value is not None:
                    dv = self.ev(st, b.value, ctx)[0][1]
                    ns[b.target.id] = dv
                fields.append((b.target.id, dv))
            elif isinstance(b, ast.Assign) and isinstance(b.targets[0], ast.Name):
                ns[b.targets[0].id] = self.ev(st, b.value, ctx)[0][1]
        self.p.classes[qual] = dict(ns=ns, fields=fields, bases=bases, module=ctx.module, name=s.name)
        st.frames[ctx.fr][s.name] = CLS(qual)
        return [("next", st, None)]

    def s_Assign(self, st, s, ctx):
        def k(st, v):
            outs = [("next", st, None)]
            for t in s.targets:
                new = []
                for o in outs:
                    if o[0] == "next":
                        new.extend(self.assign(o[1], t, v, ctx))
                    else:
                        new.append(o)
                outs = new
            return outs

        return self.outs(self.ev(st, s.value, ctx), k)

    def s_AnnAssign(self, st, s, ctx):
        if s.value is None:
            return [("next", st, None)]
        return self.outs(self.ev(st, s.value, ctx), lambda st, v: self.assign(st, s.target, v, ctx))

    def assign(self, st, t, v, ctx):
        if isinstance(t, ast.Name):
            if ctx.fi is not None and t.id in ctx.fi.globals_:
                st.mods = {k: dict(e) for k, e in st.mods.items()}
                st.mods[ctx.module][t.id] = v
                self.emit(st, "mutate", (("module", ctx.module, t.id), "rebind"), t, ctx)
                st.dirty = st.dirty + (("global", ctx.module, t.id),)
            else:
                st.frames[ctx.fr][t.id] = v
            return [("next", st, None)]
        if isinstance(t, ast.Starred):
            return self.assign(st, t.value, v, ctx)
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            outs = []
            for st2, items in self.unpack(st, v, n, star[0] if star else None, t, ctx):
                if isinstance(items, R):
                    outs.append(("raise", st2, items))
                    continue
                cur = [("next", st2, None)]
                for e, x in zip(t.elts, items):
                    nx = []
                    for o in cur:
                        nx.extend(self.assign(o[1], e, x, ctx) if o[0] == "next" else [o])
                    cur = nx
                outs.extend(cur)
            return outs
        if isinstance(t, ast.Attribute):
            return self.outs(self.ev(st, t.value, ctx), lambda st, b: self.setattr(st, b, t.attr, v, t, ctx))
        if isinstance(t, ast.Subscript):

            def k(st, b):
                return self.outs(self.ev(st, t.slice, ctx), lambda st, i: self.setitem(st, b, i, v, t, ctx))

            return self.outs(self.ev(st, t.value, ctx), k)
        raise AnalysisError(f"unsupported assignment target {type(t).__name__} at {ctx.module}:{t.lineno}")

    def unpack(self, st, v, n, star, node, ctx):
        if v.k == "tup":
            items = list(v.a)
        elif v.k == "ref" and st.heap[v.a].kind in ("list", "array_list") and st.heap[v.a].f.get("items") is not None:
            items = list(st.heap[v.a].f["items"])
        elif isc(v) and isinstance(cv(v), (str, tuple, bytes)):
            items = [C(x) for x in cv(v)]
        else:
            atomres = self.may_raise(st, "ValueError", OP("unpack", v, C(n)), node, ctx)
            return [(s, r if r is not None else [self.models.getitem_term(self, s, v, C(i)) for i in range(n)]) for s, r in atomres]
        if star is not None:
            k = len(items) - (n - 1)
            if k < 0:
                return [(st, R(EXC("ValueError"), self.loc(node, ctx)))]
            mid = st.new_list(self.site(node, ctx), items[star : star + k])
            return [(st, items[:star] + [mid] + items[star + k :])]
        if len(items) != n:
            return [(st, R(EXC("ValueError", (C("unpack"),)), self.loc(node, ctx)))]
        return [(st, items)]

    def s_AugAssign(self, st, s, ctx):
        t = s.target
        opn = type(s.op).__name__

        def store(st, cur, base=None, idx=None):
            def k(st, rhs):
                # in-place on lists / arrays
                if cur.k == "ref" and st.heap[cur.a].kind in ("list",) and opn == "Add":
                    return self.outs(self.models.list_extend(self, st, cur, rhs, s, ctx), lambda st, v: self.assign_back(st, t, cur, base, idx, ctx))
                if cur.k == "ref" and st.heap[cur.a].kind in ("array", "ds") and base is None:
                    return self.outs(self.models.inplace(self, st, cur, opn, rhs, s, ctx), lambda st, v: self.assign_back(st, t, cur, base, idx, ctx))
                if cur.k == "ref" and st.heap[cur.a].kind in ("set", "dict") and opn == "BitOr":
                    return self.outs(self.models.set_update(self, st, cur, rhs, s, ctx), lambda st, v: self.assign_back(st, t, cur, base, idx, ctx))
                if cur.k == "op":
                    self.emit(st, "augval", (cur, opn), s, ctx)
                return self.outs(self.binop(st, opn, cur, rhs, s, ctx), lambda st, v: self.assign_back(st, t, v, base, idx, ctx, aug=(opn, rhs)))

            return self.outs(self.ev(st, s.value, ctx), k)

        if isinstance(t, ast.Name):
            return self.outs(self.ev(st, ast.copy_location(ast.Name(t.id, ast.Load()), t), ctx), lambda st, c: store(st, c))
        if isinstance(t, ast.Subscript):

            def k2(st, b):
                def k3(st, i):
                    return self.outs(self.getitem(st, b, i, t, ctx), lambda st, c: store(st, c, b, i))

                return self.outs(self.ev(st, t.slice, ctx), k3)

            return self.outs(self.ev(st, t.value, ctx), k2)
        if isinstance(t, ast.Attribute):

            def k4(st, b):
                return self.outs(self.getattr(st, b, t.attr, t, ctx), lambda st, c: store(st, c, b, None))

            return self.outs(self.ev(st, t.value, ctx), k4)
        raise AnalysisError("augassign target")

    def assign_back(self, st, t, v, base, idx, ctx, aug=None):
        if isinstance(t, ast.Name):
            return self.assign(st, t, v, ctx)
        if isinstance(t, ast.Attribute):
            return self.setattr(st, base, t.attr, v, t, ctx)
        return self.setitem(st, base, idx, v, t, ctx, aug=aug)

    def s_Assert(self, st, s, ctx):
        outs = []
        for st2, v in self.ev(st, s.test, ctx):
            if isinstance(v, R):
                outs.append(("raise", st2, v))
                continue
            for st3, b in self.truth(st2, v, s, ctx):
                if b:
                    outs.append(("next", st3, None))
                elif self.handled("AssertionError") or isc(v):
                    outs.append(("raise", st3, R(EXC("AssertionError"), self.loc(s, ctx))))
        return outs

    def s_Raise(self, st, s, ctx):
        if s.exc is None:
            e = st.frames[ctx.fr].get("$exc", EXC("Exception"))
            return [("raise", st, R(e, self.loc(s, ctx)))]

        def k(st, v):
            e = v
            if v.k == "ext":
                e = EXC(v.a.split("builtins.")[-1])
            elif v.k == "cls":
                e = EXC(v.a)
            elif v.k != "exc":
                e = EXC("Exception", (v,))
            return [("raise", st, R(e, self.loc(s, ctx)))]

        return self.outs(self.ev(st, s.exc, ctx), k)

    def s_If(self, st, s, ctx):
        outs = []
        for st2, v in self.ev(st, s.test, ctx):
            if isinstance(v, R):
                outs.append(("raise", st2, v))
                continue
            for st3, b in self.truth(st2, v, s.test, ctx):
                outs.extend(self.block(st3, s.body if b else s.orelse, ctx))
        return outs

    def s_With(self, st, s, ctx):
        return self.with_items(st, s, 0, ctx)

    def with_items(self, st, s, i, ctx):
        if i == len(s.items):
            return self.block(st, s.body, ctx)
        it = s.items[i]
        e = it.context_expr

        def body(st2, val):
            """runs the rest in the caller's context"""
            if it.optional_vars is not None:
                outs = []
                for o in self.assign(st2, it.optional_vars, val, ctx):
                    outs.extend(self.with_items(o[1], s, i + 1, ctx) if o[0] == "next" else [o])
                return outs
            return self.with_items(st2, s, i + 1, ctx)

        # calls of @contextmanager generator functions are driven inline
        if isinstance(e, ast.Call):
            return self.outs_with(self.ev_call(st, e, ctx, as_ctx=True), body, e, ctx)
        return self.outs_with(self.ev(st, e, ctx), body, e, ctx)

    def outs_with(self, results, body, node, ctx):
        outs = []
        for st, v in results:
            if isinstance(v, R):
                outs.append(("raise", st, v))
            elif v.k == "op" and v.a[0] == "ctxgen":
                outs.extend(self.drive_ctx(st, v, body, node, ctx))
            else:
                outs.extend(self.models.with_obj(self, st, v, body, node, ctx))
        return outs

    def drive_ctx(self, st, v, body, node, ctx):
        _, f, args, kw = v.a

        def yk(st2, val):
            # returns list of (st, V|R) as results of the yield expression
            if st2.pend and st2.pend[-1][0] != "mark":
                return [(st2, R(EXC("RuntimeError", (C("generator didn't stop"),)), self.loc(node, ctx)))]
            res = []
            for kind, s3, w in body(st2, val):
                if kind == "raise":
                    res.append((s3, w))
                else:
                    s3.pend = s3.pend + ((kind, w),)
                    res.append((s3, NONE))
            return res

        st.pend = st.pend + (("mark", None),)
        outs = []
        for s2, r in self.call(st, f, list(args.a), {k: x for k, x in kw}, node, ctx, yieldk=yk):
            if s2.pend and s2.pend[-1][0] != "mark":
                kind, w = s2.pend[-1]
                s2.pend = s2.pend[:-2]
                if isinstance(r, R):
                    outs.append(("raise", s2, r))
                else:
                    outs.append((kind, s2, w))
            else:
                s2.pend = s2.pend[:-1]
                if isinstance(r, R):
                    outs.append(("raise", s2, r))
                else:
                    outs.append(("raise", s2, R(EXC("RuntimeError", (C("generator didn't yield"),)), self.loc(node, ctx))))
        return outs

    def s_Try(self, st, s, ctx):
        hs = []
        for h in s.handlers:
            hs.append(self.exc_names(st, h.type, ctx))
        flat = tuple(x for h in hs for x in h)
        self.handlers.append(flat)
        try:
            outs = self.block(st, s.body, ctx)
        finally:
            self.handlers.pop()
        res = []
        for kind, st2, val in outs:
            if kind == "next" and s.orelse:
                res.extend(self.block(st2, s.orelse, ctx))
            elif kind == "raise":
                mro = exc_mro(val.exc.a[0]) if val.exc.a[0] not in self.p.classes else self.cls_mro(val.exc.a[0])
                for h, names in zip(s.handlers, hs):
                    if any(n in mro for n in names):
                        old = st2.frames[ctx.fr].get("$exc")
                        st2.frames[ctx.fr]["$exc"] = val.exc
                        if self.pol.tag_caught:
                            st2.tags = st2.tags | {(ctx.func, val.exc.a[0])}
                        if h.name:
                            st2.frames[ctx.fr][h.name] = val.exc
                        for o in self.block(st2, h.body, ctx):
                            env = o[1].frames[ctx.fr] if len(o[1].frames) > ctx.fr else None
                            if env is not None:
                                env.pop("$exc", None)
                                if old is not None:
                                    env["$exc"] = old
                                if h.name:
                                    env.pop(h.name, None)
                            res.append(o)
                        break
                else:
                    res.append((kind, st2, val))
            else:
                res.append((kind, st2, val))
        if s.finalbody:
            fin = []
            for kind, st2, val in res:
                for o in self.block(st2, s.finalbody, ctx):
                    if o[0] == "next":
                        fin.append((kind, o[1], val))
                    else:
                        fin.append(o)
            res = fin
        return res

    def cls_mro(self, qual):
        c = self.p.classes[qual]
        r = [qual, c["name"]]
        for b in c["bases"]:
            r.extend(exc_mro(b))
        return tuple(r)

    def exc_names(self, st, t, ctx):
        if t is None:
            return ("BaseException",)
        if isinstance(t, ast.Tuple):
            return tuple(x for e in t.elts for x in self.exc_names(st, e, ctx))
        r = self.ev(st, t, ctx)[0][1]
        if isinstance(r, V):
            if r.k == "ext":
                n = r.a
                if n.startswith("builtins."):
                    n = n[9:]
                if n in ("IOError", "EnvironmentError"):
                    n = "OSError"
                return (n,)
            if r.k == "cls":
                return (r.a,)
            if r.k == "tup":
                return tuple(x.a.split("builtins.")[-1] if x.k == "ext" else x.a for x in r.a)
        return (ast.unparse(t),)

    def s_Match(self, st, s, ctx):
        outs = []
        for st2, v in self.ev(st, s.subject, ctx):
            if isinstance(v, R):
                outs.append(("raise", st2, v))
                continue
            cur = [st2]
            for c in s.cases:
                nxt = []
                for x in cur:
                    for x2, cond in self.match_pat(x, c.pattern, v, ctx):
                        if not cond:
                            nxt.append(x2)
                            continue
                        if c.guard is not None:
                            for x3, g in self.ev(x2, c.guard, ctx):
                                for x4, b in self.truth(x3, g, c.guard, ctx):
                                    if b:
                                        outs.extend(self.block(x4, c.body, ctx))
                                    else:
                                        nxt.append(x4)
                        else:
                            outs.extend(self.block(x2, c.body, ctx))
                cur = nxt
            outs.extend(("next", x, None) for x in cur)
        return outs

    def match_pat(self, st, p, v, ctx):
        if isinstance(p, ast.MatchValue):
            r = []
            for s2, w in self.ev(st, p.value, ctx):
                r.extend(self.truth(s2, self.compare(s2, "Eq", v, w), p, ctx))
            return r
        if isinstance(p, ast.MatchSingleton):
            return self.truth(st, self.compare(st, "Is", v, C(p.value)), p, ctx)
        if isinstance(p, ast.MatchOr):
            res, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for x in cur:
                    for x2, b in self.match_pat(x, q, v, ctx):
                        (res if b else nxt).append((x2, True) if b else x2)
                cur = nxt
            return res + [(x, False) for x in cur]
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    st.frames[ctx.fr][p.name] = v
                return [(st, True)]
            r = self.match_pat(st, p.pattern, v, ctx)
            for x, b in r:
                if b and p.name:
                    x.frames[ctx.fr][p.name] = v
            return r
        if isinstance(p, ast.MatchSequence) and v.k == "tup" and len(p.patterns) == len(v.a):
            cur = [(st, True)]
            for q, w in zip(p.patterns, v.a):
                nx = []
                for x, b in cur:
                    nx.extend(self.match_pat(x, q, w, ctx) if b else [(x, False)])
                cur = nx
            return cur
        raise AnalysisError(f"unsupported match pattern at {ctx.module}:{p.lineno}")

    # ============================================================== loops
    def s_For(self, st, s, ctx):
        outs = []
        for st2, it in self.ev(st, s.iter, ctx):
            if isinstance(it, R):
                outs.append(("raise", st2, it))
                continue
            outs.extend(
                self.iterate(
                    st2,
                    it,
                    s,
                    ctx,
                    lambda x, el, c: self.bind_body(x, s.target, el, s.body, c),
                    orelse=s.orelse,
                )
            )
        return outs

    def bind_body(self, st, target, el, body, ctx):
        outs = []
        for o in self.assign(st, target, el, ctx):
            outs.extend(self.block(o[1], body, ctx) if o[0] == "next" else [o])
        return outs

    def iterate(self, st, it, node, ctx, body, orelse=None):
        """for-loop over value `it`; body(st, elem, ctx) -> outcomes"""
        if it.k == "op" and it.a[0] == "gencall":
            return self.iterate_gen(st, it, node, ctx, body, orelse)
        if self.pol.shapes and isop(it) and it.a[0] in ("zip", "islice", "enumerate"):
            it = self.models.preread(self, st, it, node, ctx)
        items = self.models.concrete_items(self, st, it)
        if items is not None and len(items) <= (400 if self.pol.shapes else 64):
            self.models.note_iter(self, st, it, node, ctx)
            cur = [st]
            outs = []
            for x in items:
                nxt = []
                for s2 in cur:
                    for o in body(s2, x, ctx):
                        if o[0] in ("next", "continue"):
                            nxt.append(("next", o[1], None))
                        elif o[0] == "break":
                            outs.append(("next", o[1], None))
                        else:
                            outs.append(o)
                nxt = self.merge(nxt)
                cur = [o[1] for o in nxt]
                if not cur:
                    break
            for s2 in cur:
                outs.extend(self.block(s2, orelse, ctx) if orelse else [("next", s2, None)])
            return self.merge(outs) if len(outs) > 1 else outs
        self.models.note_iter(self, st, it, node, ctx)
        res = self.models.make_iter(self, st, it, node, ctx)
        outs = []
        for st2, itd in res:
            if isinstance(itd, R):
                outs.append(("raise", st2, itd))
                continue
            outs.extend(self.loop(st2, node, ctx, itd, body, None, orelse))
        return outs

    def iterate_gen(self, st, g, node, ctx, body, orelse):
        """for x in generator_function(...): body driven inline"""
        _, f, args, kw = g.a
        mark = ("genmark", len(st.pend))

        def yk(st2, val):
            res = []
            for kind, s3, w in body(st2, val, ctx):
                if kind in ("next", "continue"):
                    res.append((s3, NONE))
                elif kind == "break":
                    s3.pend = s3.pend + (("next", None),)
                    res.append((s3, R(EXC("GeneratorExit"), self.loc(node, ctx))))
                else:
                    s3.pend = s3.pend + ((kind, w),)
                    res.append((s3, R(EXC("GeneratorExit"), self.loc(node, ctx))))
            return res

        st.pend = st.pend + (mark,)
        outs = []
        for s2, r in self.call(st, f, list(args.a), {k: x for k, x in kw}, node, ctx, yieldk=yk):
            if isinstance(r, R) and r.exc.a[0] == "GeneratorExit" and s2.pend and s2.pend[-1][0] != "genmark":
                kind, w = s2.pend[-1]
                s2.pend = s2.pend[:-2]
                outs.append((kind, s2, w))
            elif isinstance(r, R):
                s2.pend = s2.pend[:-1]
                outs.append(("raise", s2, r))
            else:
                s2.pend = s2.pend[:-1]
                outs.extend(self.block(s2, orelse, ctx) if orelse else [("next", s2, None)])
        return outs

    def s_While(self, st, s, ctx):
        c = None
        # `while True` is generic as well
        return self.loop(st, s, ctx, None, None, s, s.orelse)

    def loop_key(self, st, node, ctx, itd):
        site = self.site(node, ctx)
        if self.loopdepth == 0:
            return (site,)
        names = sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name)})
        if ctx.fi is not None and not isinstance(ctx.fi.node, ast.Lambda) and isinstance(node, (ast.For, ast.While)):
            lv = ctx.fi.live
            if id(node) in lv.head:
                need = lv.head[id(node)] | lv.lo.get(id(node), set())
                names = [n for n in names if n in need]
        env = st.frames[ctx.fr]
        vals = []
        ids = []
        for n in names:
            v = env.get(n)
            if v is not None:
                vals.append((n, v))
                if v.k == "ref":
                    ids.append(v)
        hk = []
        for oid in sorted(reach(st, [x for x in ids]), key=repr):
            o = st.heap.get(oid)
            if oid[0] == "old":  # what an earlier iteration left behind
                continue
            if o is not None and o.kind in ("list", "set"):
                # contents are left out: they grow while the enclosing loop is generalised
                hk.append((oid, o.f["len"]))
            elif o is not None and o.kind in ("stream", "dict"):
                hk.append((oid, o.key()))
        body = mk("key", (ast.dump(node)[:4000], tuple(vals), tuple(hk), itd.key if itd else None))
        return (site[:1] + (node.lineno,), body.n)

    def posfree(self, st):
        """state key up to stream positions"""
        s = st.fork()
        for oid, o in list(s.heap.items()):
            if o.kind == "stream":
                s.mut(oid).f.update(off=C(0), reads=())
        return self.stkey(s, None)

    def foreseen(self, st, itd, wnode, ctx):
        """is the next pass of the loop known: the text of the next line, or the outcome of the test"""
        def nextline(oid):
            at = st.heap[oid].f["content"], st.heap[oid].f["off"]
            return self.pol.line is not None and self.pol.line(*at) is not None or self.pol.whole and self.pol.there(*at)

        if itd is not None:
            return itd.stream is not None and itd.key[0] == "stream" and nextline(itd.stream)
        if self.pol.peel == "for":
            return False
        if isinstance(wnode.test, ast.Constant):
            return any(o.kind == "stream" and not o.f["closed"] and nextline(oid) for oid, o in st.heap.items())
        s = st.fork()
        n = len(s.facts)
        r = self.ev(s, wnode.test, ctx)
        if len(r) != 1 or isinstance(r[0][1], R):
            return False
        t = self.truth(r[0][0], r[0][1], wnode.test, ctx)
        return len(t) == 1 and len(t[0][0].facts) == n

    def peel(self, st, node, ctx, itd, body, wnode, orelse):
        cur, outs, rest, over = [st], [], [], False
        for n in range(300):
            nxt = []
            for s in cur:
                if not self.foreseen(s, itd, wnode, ctx):
                    if self.pol.whole and itd is not None and itd.stream is not None and itd.key[0] == "stream":  # end of the file
                        for s2 in itd.exhaust(s.fork()):
                            outs.extend(self.block(s2, orelse, ctx) if orelse else [("next", s2, None)])
                        over = True
                    else:
                        rest.append(s)
                    continue
                got, done = self.step(s, node, ctx, itd, body, wnode, None, known=True)
                for s2 in done:
                    outs.extend(self.block(s2, orelse, ctx) if orelse else [("next", s2, None)])
                for o in got:
                    if o[0] in ("next", "continue"):
                        nxt.append(("next", o[1], None))
                    else:
                        outs.append(("next", o[1], None) if o[0] == "break" else o)
            cur = [o[1] for o in self.merge(nxt)]
            if not cur:
                break
        if rest == [st] and not over:
            return None
        for s in rest + cur:
            outs.extend(self.loop(s, node, ctx, itd, body, wnode, orelse, peeled=True))
        return self.merge(outs) if len(outs) > 1 else outs

    def loop(self, st, node, ctx, itd, body, wnode, orelse, peeled=False):
        if self.pol.peel and not peeled:
            r = self.peel(st, node, ctx, itd, body, wnode, orelse)
            if r is not None:
                return r
        lk = self.loop_key(st, node, ctx, itd)
        stream_depth0 = self.loopdepth == 0
        pre = st
        if stream_depth0 and self.stopped:
            if (node, self.posfree(st)) in self.stopped:
                return [("raise", st, R(EXC("$stop"), self.loc(node, ctx)))]
        gkey = (self.site(node, ctx), ctx.fr, ctx.chain)
        ends = []
        heads = None
        prevkey = None
        self.loopdepth += 1
        bctx = ctx.sub(loops=ctx.loops + (lk,))
        try:
            G = dict(self.gcache.get(gkey, {}))
            for npass in range(10):
                heads = self.generalise(pre, ends, lk, G, npass, node, ctx)
                hk = tuple(self.stkey(h, None) for h in heads)
                if prevkey is not None and hk == prevkey:
                    break
                prevkey = hk
                perhead = []
                allends = []
                for h in heads:
                    hs = h.fork()
                    outs, exh = self.step(hs, node, bctx, itd, body, wnode, lk)
                    outs = self.merge(outs)
                    perhead.append((h, outs, exh))
                    allends.extend(o[1] for o in outs if o[0] in ("next", "continue"))
                # accumulate ends (keep the union to guarantee growth)
                ends = allends
            else:
                raise Limit(f"loop at {ctx.module}:{node.lineno} does not stabilise")
            self.gcache[gkey] = {k: v for k, v in G.items()}
        finally:
            self.loopdepth -= 1
        summ = LoopSummary(node, ctx, lk, "while" if wnode is not None else "for")
        summ.pre = pre
        summ.itd = itd
        exits = []
        result = []
        for i, (h, outs, exh) in enumerate(perhead):
            summ.heads.append(h)
            for kind, s2, val in outs:
                summ.paths.append((i, kind, s2, val))
                if kind == "break":
                    result.append(("next", s2.fork() if stream_depth0 else s2, None))
                elif kind in ("return", "raise"):
                    result.append((kind, s2.fork() if stream_depth0 else s2, val))
            exits.extend(exh)
        trips = itd.trips if itd is not None else self.while_trips(summ, wnode, lk)
        for s2 in exits:
            self.close_forms(s2, pre, summ, trips, lk, itd)
        ex = self.merge([("next", s2, None) for s2 in exits], ctx, node if isinstance(node, (ast.For, ast.While)) else None)
        summ.exits = [o[1] for o in ex]
        for o in ex:
            result.extend(self.block(o[1], orelse, ctx) if orelse else [o])
        if self.loopdepth == 0:
            self.summaries.append(summ)
            for o in result:
                if "loop" in self.pol.events:
                    o[1].ev = (o[1].ev, ("loop", summ, self.loc(node, ctx)))
            if self.pol.stop_loop is not None and self.pol.stop_loop(summ):
                self.stopped.add((node, self.posfree(pre)))
                return [("raise", result[0][1] if result else pre, R(EXC("$stop"), self.loc(node, ctx)))]
        if len(result) > 1:
            result = self.merge(result)
        return result

    def step(self, st, node, ctx, itd, body, wnode, lk, known=False):
        outs, exh = [], []
        if wnode is not None:
            for s2, v in self.ev(st, wnode.test, ctx):
                if isinstance(v, R):
                    outs.append(("raise", s2, v))
                    continue
                for s3, b in self.truth(s2, v, wnode.test, ctx):
                    if b:
                        outs.extend(self.block(s3, wnode.body, ctx))
                    else:
                        exh.append(s3)
            return outs, exh
        # exhaustion at the head
        if not known:
            s0 = st.fork()
            exh.extend(itd.exhaust(s0))
        for s2, el in itd.next(st, lk):
            if isinstance(el, R):
                outs.append(("raise", s2, el))
            else:
                outs.extend(body(s2, el, ctx))
        return outs, exh

    def while_trips(self, summ, wnode, lk):
        t = wnode.test
        if not isinstance(t, ast.Compare) or len(summ.heads) != 1:
            return None
        h = summ.heads[0].fork()
        try:
            r = self.ev(h, t, summ.ctx)
        except AnalysisError:
            return None
        if len(r) != 1 or isinstance(r[0][1], R):
            return None
        atom = r[0][1]
        neg = False
        while isop(atom, "not"):
            neg, atom = not neg, atom.a[1]
        if not isop(atom, "lt0"):
            return None
        p = atom.a[1]
        if neg:
            p = psub(pneg(p), C(1)) if is_int(p) else None
            if p is None:
                return None
        mus = {x for x in args_sub(p) if x.k == "sym" and isinstance(x.a, tuple) and x.a[0] in ("mu", "off", "len") and x.a[1] == lk}
        if not mus:
            return None
        p0, pe = self.subst_init(summ, p, lk), None
        for i, kind, s2, v in summ.paths:
            if kind in ("next", "continue"):
                e = self.subst_end(summ, p, lk, s2)
                if e is None:
                    return None
                sl = psub(e, p)
                if pe is None:
                    pe = sl
                elif pe is not sl:
                    return None
        if p0 is None or pe is None or not isc(pe) or not (isinstance(cv(pe), (int, float)) and cv(pe) > 0):
            return None
        return self.models.ceildiv(pneg(p0), pe)

    def _mu_lookup(self, st, x, fr):
        kind, lk, nm = x.a[:3]
        if kind == "mu":
            return st.frames[nm[0]].get(nm[1]) if nm[0] < len(st.frames) else None
        o = st.heap.get(nm)
        if o is None:
            return None
        return o.f.get("off") if kind == "off" else o.f.get("len")

    def subst_init(self, summ, p, lk):
        m = {}
        for x in args_sub(p):
            if x.k == "sym" and isinstance(x.a, tuple) and x.a[0] in ("mu", "off", "len") and x.a[1] == lk:
                v = self._mu_lookup(summ.pre, x, summ.ctx.fr)
                if v is None:
                    return None
                m[x] = v
        return subst(p, m)

    def subst_end(self, summ, p, lk, st):
        m = {}
        for x in args_sub(p):
            if x.k == "sym" and isinstance(x.a, tuple) and x.a[0] in ("mu", "off", "len") and x.a[1] == lk:
                v = self._mu_lookup(st, x, summ.ctx.fr)
                if v is None:
                    return None
                m[x] = v
        return subst(p, m)

    def close_forms(self, st, pre, summ, trips, lk, itd):
        """replace mu symbols of counters by init + trips*delta when delta is loop invariant"""

        def inner(t):
            return contains(t, lambda x: x.k == "sym" and isinstance(x.a, tuple) and len(x.a) > 1 and x.a[1] == lk)

        m = {}
        nexts = [(i, s2) for i, kind, s2, v in summ.paths if kind in ("next", "continue")]

        def delta(getter):
            d = None
            for i, s2 in nexts:
                a, b = getter(summ.heads[i]), getter(s2)
                if a is None or b is None or not isnum(a) or not isnum(b):
                    return None
                x = psub(b, a)
                if inner(x):
                    return None
                if d is None:
                    d = x
                elif d is not x:
                    return None
            return d

        for oid, o in list(st.heap.items()):
            po = pre.heap.get(oid)
            if po is None or o.kind != po.kind:
                continue
            fld = "off" if o.kind == "stream" else "len" if o.kind in ("list", "set") else None
            if fld is None:
                continue
            cur = o.f.get(fld)
            if not any(h.heap.get(oid) is not None and h.heap[oid].f.get(fld) is cur and cur is not po.f.get(fld) for h in summ.heads) and not (
                cur is not None and inner(cur)
            ):
                continue
            if trips is not None and nexts:
                d = delta(lambda s: s.heap[oid].f.get(fld) if oid in s.heap else None)
                if d is None and fld == "off":
                    self.uneven[(summ.ctx.module, summ.node.lineno, oid)] = (summ, oid)
                if d is not None:
                    base = padd(po.f[fld], pmul(d, trips))
                    # exit effects already applied on top of the head value
                    hv = summ.heads[0].heap[oid].f.get(fld)
                    extra = psub(cur, hv) if hv is not None else C(0)
                    if not inner(extra):
                        ob = st.mut(oid)
                        ob.f[fld] = padd(base, extra)
            elif nexts:
                d = delta(lambda s: s.heap[oid].f.get(fld) if oid in s.heap else None)
                if d is not None and isc(d) and cv(d) == 0:
                    ob = st.mut(oid)
                    ob.f[fld] = po.f[fld]
        if trips is not None and nexts:
            env, penv = st.frames[summ.ctx.fr], pre.frames[summ.ctx.fr]
            for n, v in list(env.items()):
                if v.k == "sym" and isinstance(v.a, tuple) and v.a[0] == "mu" and v.a[1] == lk and n in penv and isnum(penv[n]):
                    fr = summ.ctx.fr
                    d = delta(lambda s: s.frames[fr].get(n))
                    if d is not None:
                        env[n] = padd(penv[n], pmul(d, trips))
        # logs: fold the iterations' logs into one entry
        for oid, o in list(st.heap.items()):
            po = pre.heap.get(oid)
            if po is None or "log" not in o.f:
                continue
            logs = []
            for i, s2 in nexts:
                if oid in s2.heap and s2.heap[oid].f.get("log"):
                    logs.append(s2.heap[oid].f["log"])
            ob = o
            newlog = po.f["log"] + ((("loop", lk, tuple(dict.fromkeys(logs))),) if logs else ())
            if ob.f["log"] != newlog:
                ob = st.mut(oid)
                ob.f["log"] = newlog

    # -------------------------------------------------- generalisation
    def generalise(self, pre, ends, lk, G, npass, node, ctx):
        """states describing the loop head: pre joined with every body end"""
        base = pre.fork()
        base.tags = frozenset()
        self.renamed = {}
        # variables
        changed = set(k for k in G if k[0] == "v")
        for e in ends:
            for fr in range(len(pre.frames)):
                for n, v in pre.frames[fr].items():
                    if n.startswith("$"):
                        continue
                    if fr < len(e.frames) and e.frames[fr].get(n) is not v:
                        if n in e.frames[fr]:
                            changed.add(("v", fr, n))
        hchanged = set(k for k in G if k[0] == "h")
        for e in ends:
            for oid, o in pre.heap.items():
                eo = e.heap.get(oid)
                if eo is not None and eo is not o and eo.key() != o.key():
                    hchanged.add(("h", oid))
        for k in changed | hchanged:
            G.setdefault(k, True)
        # heap
        for _, oid in sorted(hchanged, key=repr):
            if oid not in pre.heap:
                continue
            objs = [pre.heap[oid]] + [e.heap[oid] for e in ends if oid in e.heap]
            self._ren = lambda v, src: self.rename_refs(base, pre, v, lk, src, ends)
            base.heap[oid] = self.join_objs(base, objs, [pre] + ends, lk, oid, pre)
        # names first bound inside the loop and read at its head or after it
        if ctx.fi is not None and not isinstance(ctx.fi.node, ast.Lambda) and isinstance(node, (ast.For, ast.While)):
            lv = ctx.fi.live
            need = lv.head.get(id(node), set()) | lv.lo.get(id(node), set())
            for e in ends:
                for n, v in e.frames[ctx.fr].items():
                    if n in need and n not in base.frames[ctx.fr] and not n.startswith("$"):
                        rest = [(x.frames[ctx.fr][n], x) for x in ends if n in x.frames[ctx.fr]]
                        base.frames[ctx.fr][n] = self.join_var(base, pre, rest, lk, (ctx.fr, n), G)
        splits = [base]
        for _, fr, n in sorted(changed, key=repr):
            if fr >= len(pre.frames) or n not in pre.frames[fr]:
                continue
            init = pre.frames[fr][n]
            alts = [e.frames[fr][n] for e in ends if fr < len(e.frames) and n in e.frames[fr]]
            known = G.get(("alts", fr, n), ())
            vals = [init] + alts
            nm = (fr, n)
            has_none = any(v is NONE for v in vals) or "none" in known
            rest = [(v, src) for v, src in zip(vals, [pre] + [e for e in ends if fr < len(e.frames) and n in e.frames[fr]]) if v is not NONE]
            if not rest and "some" not in known:
                if npass == 0 or not alts:
                    # first pass from a cached key: only None known so far
                    continue
                continue
            mu = None
            if rest or "some" in known:
                mu = self.join_var(base, pre, rest, lk, nm, G)
            cands = []
            if has_none:
                cands.append(NONE)
            if mu is not None:
                cands.append(mu)
            new = []
            for s in splits:
                for c in cands:
                    t = s.fork() if len(cands) > 1 else s
                    t.frames[fr][n] = c
                    new.append(t)
            splits = new
            if len(splits) > 16:
                raise Limit(f"too many loop-head splits ({lk})")
        return splits

    def join_var(self, base, pre, rest, lk, nm, G):
        vals = list(dict.fromkeys(v for v, _ in rest))
        if len(vals) == 1 and not self.needs_rename(pre, vals[0]):
            if npass_const(vals[0], G, nm):
                return vals[0]
            return vals[0]
        if vals and all(v.k == "ref" for v in vals):
            kinds = {src.heap[v.a].kind for v, src in rest if v.a in src.heap}
            if len(kinds) == 1:
                oid = ("mu", lk, nm)
                objs = [(src.heap[v.a], src) for v, src in rest]
                base.heap[oid] = self.join_objs(base, [o for o, _ in objs], [s for _, s in objs], lk, oid, pre)
                return REF(oid, vals[0].t)
        ts = {("int" if v.t == "bool" and any(w.t == "int" for w in vals) else v.t) for v in vals}
        if len(ts) == 1:
            t = ts.pop()
        elif ts <= {"int", "float", "num", "bool"}:
            t = "num"
        else:
            t = "any"
        if t == "tuple" and all(v.k == "tup" for v in vals) and len({len(v.a) for v in vals}) == 1:
            n = len(vals[0].a)
            out = []
            for i in range(n):
                out.append(self.join_var(base, pre, [(v.a[i], s) for v, s in rest], lk, nm + (i,), G))
            return TUP(out)
        if all(v.k == "c" for v in vals) and len(vals) <= 1:
            return vals[0]
        return SYM(("mu", lk, nm), t)

    renamed: dict = {}

    def needs_rename(self, pre, v):
        return any(x.k == "ref" and x.a not in pre.heap for x in args_sub(v))

    def rename_refs(self, base, pre, v, lk, src, ends, depth=0):
        """values flowing from an iteration into the loop head: objects allocated inside the loop
        are replaced by one summary object each"""
        if not isinstance(v, V):
            if isinstance(v, tuple):
                return tuple(self.rename_refs(base, pre, x, lk, src, ends, depth) for x in v)
            return v
        if not vrefs(v):
            return v
        m = {}
        for x in args_sub(v):
            if x.k == "ref" and x.a not in pre.heap and not (isinstance(x.a, tuple) and x.a[0] in ("old", "mu")):
                oid = ("old", lk, x.a)
                if depth < 40 and x.a in src.heap and (id(src), x.a) not in self.renamed:
                    self.renamed[(id(src), x.a)] = src
                    o = src.heap[x.a]
                    if oid not in base.heap:
                        base.heap[oid] = o
                        base.heap[oid] = self._map_obj(o, lambda y: self.rename_refs(base, pre, y, lk, src, ends, depth + 1))
                    else:
                        a = base.heap[oid]
                        b = self._map_obj(o, lambda y: self.rename_refs(base, pre, y, lk, src, ends, depth + 1))
                        if a.key() != b.key():
                            base.heap[oid] = self.models.join2(self, a, b, lk, oid)
                m[x] = REF(oid, x.t)
            elif x.k == "ref" and x.a in src.heap and x.a not in base.heap:
                if self.pol.shapes:
                    self.carry(base, pre, src, x.a)
                else:
                    base.heap[x.a] = src.heap[x.a]
        return subst(v, m) if m else v

    def carry(self, base, pre, src, oid):
        """an object made by an earlier pass, with what it refers to"""
        todo = [oid]
        while todo:
            a = todo.pop()
            if a in base.heap or a not in src.heap or a in pre.heap or a != oid and not (isinstance(a, tuple) and a[0] in ("old", "mu")):
                continue
            o = src.heap[a]
            if o.f.get("log"):
                o = o.copy()
                o.f["log"] = ()
            base.heap[a] = o
            todo.extend(o.refs())

    def _map_obj(self, o, fn):
        def mp(x):
            if isinstance(x, V):
                return fn(x)
            if isinstance(x, tuple):
                return tuple(mp(y) for y in x)
            if isinstance(x, dict):
                return {mp(k): mp(v) for k, v in x.items()}
            return x

        n = o.copy()
        for k in n.f:
            n.f[k] = mp(n.f[k])
        return n

    def join_objs(self, base, objs, srcs, lk, oid, pre):
        mapped = []
        for o, s in zip(objs, srcs):
            if s is pre:
                mapped.append(o)
            else:
                mapped.append(self._map_obj(o, lambda y, s=s: self.rename_refs(base, pre, y, lk, s, None)))
        r = mapped[0]
        for o in mapped[1:]:
            r = self.models.join2(self, r, o, lk, oid)
        r = self.models.as_head(self, r, lk, oid, mapped[0], len(mapped) > 1)
        return r

    # ============================================================== truth / facts
    def truth(self, st, v, node, ctx):
        """list of (state, bool)"""
        b = self.truth_const(st, v)
        if b is not None:
            return [(st, b)]
        neg = False
        while isop(v, "not"):
            neg, v = not neg, v.a[1]
            b = self.truth_const(st, v)
            if b is not None:
                return [(st, b != neg)]
        atom = v
        if not (v.k == "op" and v.t == "bool"):
            atom = self.truth_atom(st, v)
            if atom is TRUE or atom is FALSE:
                return [(st, (atom is TRUE) != neg)]
            while isop(atom, "not"):
                neg, atom = not neg, atom.a[1]
        if isop(atom, "and") or isop(atom, "or"):
            isand = atom.a[0] == "and"
            cur = [st]
            res = []
            for x in atom.a[1:]:
                nxt = []
                for s in cur:
                    for s2, b in self.truth(s, x, node, ctx):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            res.append((s2, (not isand) != neg))
                cur = nxt
            return res + [(s, isand != neg) for s in cur]
        d = self.decide(st, atom)
        if d is not None:
            return [(st, d != neg)]
        s2 = st.fork()
        out = []
        if self.assume(st, atom, True):
            out.append((st, not neg))
        if self.assume(s2, atom, False):
            out.append((s2, neg))
        return out

    def truth_atom(self, st, v):
        if v.k == "ref":
            o = st.heap[v.a]
            if o.kind in ("list", "set"):
                return self.compare(st, "Gt", o.f["len"], C(0))
            if o.kind == "dict" and not o.f["d"]:
                return OP("truth", v, t="bool")
        if v.t in ("int", "float", "num"):
            return self.compare(st, "NotEq", v, C(0))
        return OP("truth", v, t="bool")

    def truth_const(self, st, v):
        if v.k == "c":
            return bool(cv(v))
        if v.k == "tup":
            return len(v.a) > 0
        if v.k in ("func", "cls", "mod", "ext", "bound", "exc"):
            return True
        if v.k == "ref":
            o = st.heap[v.a]
            if o.kind in ("list", "set"):
                if o.f["items"] is not None:
                    return len(o.f["items"]) > 0
                if isc(o.f["len"]):
                    return cv(o.f["len"]) > 0
                return None
            if o.kind == "dict":
                if any(k not in o.f["maybe"] for k in o.f["d"]):
                    return True
                return False if not o.f["d"] and o.f["open"] is None and not o.f["gen"] else None
            if o.kind in ("stream", "inst"):
                return True
            return None
        if v.t in ("datetime", "Path", "stream", "function", "class", "module"):
            return True
        if v in st.known:
            return bool(cv(st.known[v]))
        return None

    def decide(self, st, atom):
        d = st.facts.get(atom)
        if d is not None:
            return d
        if atom.a[0] == "lt0":
            d = self.interval(st, atom.a[1])
            if d is not None:
                return d
        if atom.a[0] == "eq" and isc(atom.a[2]):
            k = st.known.get(atom.a[1])
            if k is not None:
                return cv(k) == cv(atom.a[2])
        if atom.a[0] == "isinstance":
            t = st.types.get(atom.a[1])
            if t is not None:
                return self.models.type_is(t, atom.a[2])
        if atom.a[0] == "is" and atom.a[2] is NONE:
            if atom.a[1] in st.types:
                return False
        if atom.a[0] == "truth" and atom.a[1] in st.known:
            return bool(cv(st.known[atom.a[1]]))
        return self.pol.decide(st, atom)

    def interval(self, st, p):
        """decide p<0 from remembered bounds on the same linear form"""
        d = poly_of(p)
        c = d.pop((), 0)
        if not d:
            return c < 0
        L = tuple(sorted(d.items(), key=lambda mc: tuple(x.n for x in mc[0])))
        s = 1 if L[0][1] > 0 else -1
        L = tuple((m, k * s) for m, k in L)
        isint = is_int(p)
        lo = hi = None  # bounds on L
        lo_strict = hi_strict = False
        # non-negative atoms
        for atom, val in st.facts.items():
            if atom.a[0] == "lt0":
                d2 = poly_of(atom.a[1])
                c2 = d2.pop((), 0)
                if len(d2) != len(L):
                    continue
                L2 = tuple(sorted(d2.items(), key=lambda mc: tuple(x.n for x in mc[0])))
                s2 = 1 if L2[0][1] > 0 else -1
                if tuple((m, k * s2) for m, k in L2) != L:
                    continue
                # s2*L + c2 < 0 is val
                if val:
                    b = -c2  # s2*L < b
                    if s2 > 0:
                        x = b - 1 if isint else b
                        if hi is None or x < hi:
                            hi, hi_strict = x, not isint
                    else:
                        x = -b + 1 if isint else -b
                        if lo is None or x > lo:
                            lo, lo_strict = x, not isint
                else:
                    b = -c2  # s2*L >= b
                    if s2 > 0:
                        if lo is None or b > lo:
                            lo, lo_strict = b, False
                    else:
                        if hi is None or -b < hi:
                            hi, hi_strict = -b, False
        for atom, val in st.known.items():
            if len(L) == 1 and L[0][0] == (atom,) and L[0][1] == 1 and isinstance(cv(val), (int, float)):
                lo = hi = cv(val)
        if len(L) == 1 and len(L[0][0]) == 1 and L[0][1] == 1:
            x = L[0][0][0]
            if (x.k == "op" and x.a[0] in ("len", "ceildiv0")) or (x.k == "sym" and isinstance(x.a, tuple) and x.a[0] in ("len", "it", "off")):
                if lo is None or lo < 0:
                    lo, lo_strict = 0, False
        # s*L + c < 0 ?
        if s > 0:
            if hi is not None and (hi + c < 0 or (hi + c == 0 and hi_strict)):
                return True
            if lo is not None and lo + c >= 0:
                return False
        else:
            if lo is not None and (-lo + c < 0 or (-lo + c == 0 and lo_strict)):
                return True
            if hi is not None and -hi + c >= 0:
                return False
        return None

    def assume(self, st, atom, val):
        st.facts[atom] = val
        a = atom.a
        if a[0] == "eq" and val and isc(a[2]):
            st.known[a[1]] = a[2]
        if a[0] == "isinstance" and val:
            if isinstance(a[2], str):
                st.types[a[1]] = a[2]
        return True

    # -------------------------------------------------- comparisons
    def compare(self, st, op, a, b):
        if op == "NotEq":
            return self.neg(self.compare(st, "Eq", a, b))
        if op == "IsNot":
            return self.neg(self.compare(st, "Is", a, b))
        if op == "NotIn":
            return self.neg(self.compare(st, "In", a, b))
        if op == "Gt":
            return self.compare(st, "Lt", b, a)
        if op == "GtE":
            return self.neg(self.compare(st, "Lt", a, b))
        if op == "LtE":
            return self.neg(self.compare(st, "Lt", b, a))
        a = st.known.get(a, a)
        b = st.known.get(b, b)
        r = self.models.compare_special(self, st, op, a, b)
        if r is not None:
            return r
        if op == "Lt":
            if isc(a) and isc(b):
                try:
                    return C(cv(a) < cv(b))
                except TypeError:
                    return OP("lt", a, b, t="bool")
            if self.cmpnum(a) and self.cmpnum(b):
                p = psub(a, b)
                return self.lt0(p)
            return OP("lt", a, b, t="bool")
        if op == "Eq":
            if a is b:
                return TRUE
            if isc(a) and isc(b):
                return C(cv(a) == cv(b))
            if a.k == "tup" and b.k == "tup":
                if len(a.a) != len(b.a):
                    return FALSE
                parts = [self.compare(st, "Eq", x, y) for x, y in zip(a.a, b.a)]
                if any(x is FALSE for x in parts):
                    return FALSE
                parts = [x for x in parts if x is not TRUE]
                if not parts:
                    return TRUE
                return parts[0] if len(parts) == 1 else OP("and", *parts, t="bool")
            if a is NONE or b is NONE:
                o = b if a is NONE else a
                if o.t not in ("any",):
                    return FALSE
            if isc(a):
                a, b = b, a
            if isc(b):
                tb = b.t
                if a.t in ("str",) and tb != "str" or a.t in ("int", "float", "num") and tb == "str":
                    return FALSE
                if a.k in ("func", "ext", "cls", "mod"):
                    return FALSE
                if a.k == "ref" and a.a in st.heap and st.heap[a.a].kind in ("list", "set", "dict") and isinstance(cv(b), (str, bytes, int, float)):
                    return FALSE
                if is_int(a) and a.k == "poly":
                    # x + c == d  ->  x == d - c
                    d = poly_of(psub(a, b))
                    c = d.pop((), 0)
                    if len(d) == 1:
                        (m, k), = d.items()
                        if len(m) == 1 and abs(k) == 1:
                            return OP("eq", m[0], C(-c * k), t="bool")
            elif self.cmpnum(a) and self.cmpnum(b) and a.t != "any" and b.t != "any":
                p = psub(a, b)
                if isc(p):
                    return C(cv(p) == 0)
            if not isc(b) and b < a:
                a, b = b, a
            return OP("eq", a, b, t="bool")
        if op == "Is":
            if a is b:
                return TRUE
            if isc(a):
                a, b = b, a
            if isc(b):
                if isc(a):
                    return C(cv(a) is cv(b) or cv(a) == cv(b) and type(cv(a)) == type(cv(b)))
                if b is NONE:
                    if a.k in ("ref", "tup", "func", "cls", "ext", "mod", "bound", "exc", "poly"):
                        return FALSE
                    if a.t not in ("any",):
                        return FALSE
                    if isop(a) and a.a[0] in ("raises",):
                        return FALSE
                elif isinstance(cv(b), bool):
                    if a.t not in ("any", "bool"):
                        return FALSE
                    if a.t == "bool":
                        return a if cv(b) else self.neg(a)
            return OP("is", a, b, t="bool")
        if op == "In":
            return self.models.contains_(self, st, a, b)
        raise AnalysisError("compare " + op)

    def cmpnum(self, v):
        if v.k == "c":
            return v.a[0] in ("int", "float", "bool")
        return v.t in ("int", "float", "num", "any", "bool", "datetime", "timedelta") and v.k in ("sym", "op", "poly")

    def lt0(self, p):
        if isc(p):
            return C(cv(p) < 0)
        if is_int(p):
            d = poly_of(p)
            m0 = next(iter(sorted((m for m in d if m), key=lambda m: tuple(x.n for x in m))))
            if d[m0] < 0:
                q = psub(pneg(p), C(1))
                if q.t != "int" and q.k == "poly":
                    q = mk("poly", q.a, "int")
                return self.neg(OP("lt0", q, t="bool"))
        return OP("lt0", p, t="bool")

    def neg(self, v):
        if v is TRUE:
            return FALSE
        if v is FALSE:
            return TRUE
        if isop(v, "not"):
            return v.a[1]
        return OP("not", v, t="bool")

    # ============================================================== expressions
    def ev(self, st, e, ctx):
        self.tick(e, ctx)
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError(f"unsupported expression {type(e).__name__} at {ctx.module}:{getattr(e,'lineno','?')}")
        return m(st, e, ctx)

    def bind(self, results, fn):
        out = []
        for st, v in results:
            if isinstance(v, R):
                out.append((st, v))
            else:
                out.extend(fn(st, v))
        return out

    def evs(self, st, exprs, ctx):
        """evaluate several expressions left to right: list of (st, [V...] | R)"""
        cur = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vals in cur:
                if isinstance(vals, R):
                    nxt.append((s, vals))
                    continue
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(s, e.value, ctx):
                        if isinstance(v, R):
                            nxt.append((s2, v))
                            continue
                        it = self.models.concrete_items(self, s2, v)
                        if it is not None:
                            nxt.append((s2, vals + list(it)))
                        else:
                            nxt.append((s2, vals + [OP("star", v)]))
                    continue
                for s2, v in self.ev(s, e, ctx):
                    nxt.append((s2, v if isinstance(v, R) else vals + [v]))
            cur = nxt
        return cur

    def e_Constant(self, st, e, ctx):
        if e.value is Ellipsis:
            return [(st, mk("c", ("ellipsis", "..."), "ellipsis"))]
        return [(st, C(e.value))]

    def e_Name(self, st, e, ctx):
        v = self.lookup(st, e.id, ctx)
        if v is None:
            return [(st, R(EXC("NameError", (C(e.id),)), self.loc(e, ctx)))]
        return [(st, v)]

    def lookup(self, st, name, ctx):
        env = st.frames[ctx.fr]
        if name in env:
            return env[name]
        fi = ctx.fi
        fr = ctx.fr
        clos = env.get("$closure")
        while clos is not None and isc(clos) and cv(clos) is not None:
            fr = cv(clos)
            if fr >= len(st.frames):
                break
            if name in st.frames[fr]:
                return st.frames[fr][name]
            clos = st.frames[fr].get("$closure")
        m = st.mods.get(ctx.module) or self.st0.mods.get(ctx.module) or {}
        if name in m:
            return m[name]
        if hasattr(builtins, name):
            return EXT("builtins." + name)
        return None

    def e_Attribute(self, st, e, ctx):
        return self.bind(self.ev(st, e.value, ctx), lambda s, b: self.known(self.getattr(s, b, e.attr, e, ctx)))

    def getattr(self, st, b, name, node, ctx):
        return self.models.getattr_(self, st, b, name, node, ctx)

    def setattr(self, st, b, name, v, node, ctx):
        return self.models.setattr_(self, st, b, name, v, node, ctx)

    def getitem(self, st, b, i, node, ctx):
        r = self.models.getitem(self, st, b, i, node, ctx)
        if self.pol.value is not None:
            return [(s, self.pol.value(v) or v if isinstance(v, V) else v) for s, v in r]
        return r

    def known(self, r):
        """scenario constants among evaluation results"""
        if self.pol.value is not None:
            return [(s, self.pol.value(v) or v if isinstance(v, V) and not isc(v) else v) for s, v in r]
        return r

    def setitem(self, st, b, i, v, node, ctx, aug=None):
        return self.models.setitem(self, st, b, i, v, node, ctx, aug)

    def mutated(self, st, v, how, node, ctx):
        """record a mutation of a value that is not local"""
        if v.k == "ref":
            o = st.heap.get(v.a)
            if o is not None and o.origin is not None:
                self.emit(st, "mutate", (o.origin, how), node, ctx)
        elif v.k in ("sym", "op"):
            self.emit(st, "mutate", (("value", v), how), node, ctx)
        elif v.k in ("ext", "func", "cls", "mod"):
            self.emit(st, "mutate", (("process", v.a if isinstance(v.a, str) else self.p.funcs[v.a[0]].qual if v.k == "func" else str(v.a)), how), node, ctx)

    def e_Subscript(self, st, e, ctx):
        def k(s, b):
            return self.bind(self.ev(s, e.slice, ctx), lambda s2, i: self.getitem(s2, b, i, e, ctx))

        return self.bind(self.ev(st, e.value, ctx), k)

    def e_Slice(self, st, e, ctx):
        parts = [x if x is not None else ast.Constant(None) for x in (e.lower, e.upper, e.step)]
        res = []
        for s, vals in self.evs(st, parts, ctx):
            res.append((s, vals if isinstance(vals, R) else OP("sl", *vals, t="slice")))
        return res

    def e_Tuple(self, st, e, ctx):
        return [(s, v if isinstance(v, R) else TUP(v)) for s, v in self.evs(st, e.elts, ctx)]

    def e_List(self, st, e, ctx):
        return [(s, v if isinstance(v, R) else s.new_list(self.site(e, ctx), v)) for s, v in self.evs(st, e.elts, ctx)]

    def e_Set(self, st, e, ctx):
        return [
            (s, v if isinstance(v, R) else s.new_list(self.site(e, ctx), dict.fromkeys(v), kind="set"))
            for s, v in self.evs(st, e.elts, ctx)
        ]

    def e_Dict(self, st, e, ctx):
        keys = [k for k in e.keys]
        exprs = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)
        out = []
        for s, vals in self.evs(st, exprs, ctx):
            if isinstance(vals, R):
                out.append((s, vals))
                continue
            d = {}
            i = 0
            opn = None
            for k in keys:
                if k is None:
                    w = vals[i]
                    i += 1
                    if w.k == "ref" and s.heap[w.a].kind == "dict":
                        d.update(s.heap[w.a].f["d"])
                        opn = s.heap[w.a].f["open"] or opn
                    else:
                        opn = w
                else:
                    d[vals[i]] = vals[i + 1]
                    i += 2
            out.append((s, s.new_dict(self.site(e, ctx), d, open=opn)))
        return out

    def e_JoinedStr(self, st, e, ctx):
        parts = []
        for v in e.values:
            parts.append(v.value if isinstance(v, ast.FormattedValue) else v)
        specs = [v.format_spec if isinstance(v, ast.FormattedValue) else None for v in e.values]
        conv = [v.conversion if isinstance(v, ast.FormattedValue) else -1 for v in e.values]
        out = []
        for s, vals in self.evs(st, parts, ctx):
            if isinstance(vals, R):
                out.append((s, vals))
                continue
            cur = [(s, [])]
            for v, sp, cn, p in zip(vals, specs, conv, e.values):
                nxt = []
                for s2, acc in cur:
                    if sp is None:
                        nxt.append((s2, acc + [self.models.to_str(v) if isinstance(p, ast.FormattedValue) and cn != 114 else v]))
                    else:
                        for s3, spv in self.e_JoinedStr(s2, sp, ctx):
                            nxt.append((s3, acc + [self.models.fmt(v, spv)]))
                cur = nxt
            for s2, acc in cur:
                out.append((s2, self.models.concat(acc)))
        return out

    def e_FormattedValue(self, st, e, ctx):
        return self.bind(self.ev(st, e.value, ctx), lambda s, v: [(s, self.models.to_str(v))])

    def e_BoolOp(self, st, e, ctx):
        isand = isinstance(e.op, ast.And)

        def rec(s, i):
            res = []
            for s2, v in self.ev(s, e.values[i], ctx):
                if isinstance(v, R) or i == len(e.values) - 1:
                    res.append((s2, v))
                    continue
                for s3, b in self.truth(s2, v, e, ctx):
                    if b == isand:
                        res.extend(rec(s3, i + 1))
                    else:
                        # the value itself; when only its truth matters it is decided in facts
                        res.append((s3, v if not (v.k == "op" and v.t == "bool") else C(b)))
            return res

        return rec(st, 0)

    def e_UnaryOp(self, st, e, ctx):
        def k(s, v):
            if isinstance(e.op, ast.Not):
                b = self.truth_const(s, v)
                if b is not None:
                    return [(s, C(not b))]
                if v.k == "op" and v.t == "bool":
                    return [(s, self.neg(v))]
                a = self.truth_atom(s, v)
                return [(s, self.neg(a))]
            if isc(v):
                x = cv(v)
                try:
                    return [(s, C({"USub": lambda: -x, "UAdd": lambda: +x, "Invert": lambda: ~x}[type(e.op).__name__]()))]
                except TypeError:
                    pass
            if isinstance(e.op, ast.USub) and v.k != "ref":
                return [(s, pneg(v) if isnum(v) or v.t == "timedelta" else OP("neg", v))]
            if isinstance(e.op, ast.UAdd):
                return [(s, v)]
            return [(s, OP("un:" + type(e.op).__name__, v, t=v.t))]

        return self.bind(self.ev(st, e.operand, ctx), k)

    def e_BinOp(self, st, e, ctx):
        def k(s, a):
            return self.bind(self.ev(s, e.right, ctx), lambda s2, b: self.binop(s2, type(e.op).__name__, a, b, e, ctx))

        return self.bind(self.ev(st, e.left, ctx), k)

    def binop(self, st, op, a, b, node, ctx):
        r = self.models.binop(self, st, op, a, b, node, ctx)
        return self.known(r) if self.pol.shapes else r

    def e_Compare(self, st, e, ctx):
        def rec(s, left, i):
            res = []
            for s2, r in self.ev(s, e.comparators[i], ctx):
                if isinstance(r, R):
                    res.append((s2, r))
                    continue
                v = self.compare(s2, type(e.ops[i]).__name__, left, r)
                if i == len(e.ops) - 1:
                    res.append((s2, v))
                else:
                    for s3, b in self.truth(s2, v, e, ctx):
                        if b:
                            res.extend(rec(s3, r, i + 1))
                        else:
                            res.append((s3, FALSE))
            return res

        return self.bind(self.ev(st, e.left, ctx), lambda s, l: rec(s, l, 0))

    def e_IfExp(self, st, e, ctx):
        res = []
        for s, v in self.ev(st, e.test, ctx):
            if isinstance(v, R):
                res.append((s, v))
                continue
            for s2, b in self.truth(s, v, e, ctx):
                res.extend(self.ev(s2, e.body if b else e.orelse, ctx))
        return res

    def e_NamedExpr(self, st, e, ctx):
        def k(s, v):
            s.frames[ctx.fr][e.target.id] = v
            return [(s, v)]

        return self.bind(self.ev(st, e.value, ctx), k)

    def e_Lambda(self, st, e, ctx):
        qual = (ctx.fi.qual if ctx.fi else ctx.module) + ".<lambda>"
        return [(st, self.make_func(st, e, ctx, qual))]

    def e_Starred(self, st, e, ctx):
        return self.ev(st, e.value, ctx)

    def e_Yield(self, st, e, ctx):
        if ctx.yieldk is None:
            raise AnalysisError(f"yield outside a driven generator at {ctx.module}:{e.lineno}")
        val = e.value if e.value is not None else ast.Constant(None)
        return self.bind(self.ev(st, val, ctx), lambda s, v: ctx.yieldk(s, v))

    def e_YieldFrom(self, st, e, ctx):
        def k(s, it):
            res = []
            for o in self.iterate(s, it, e, ctx, lambda x, el, c: self.outs(ctx.yieldk(x, el), lambda y, w: [("next", y, None)])):
                res.append((o[1], o[2] if o[0] == "raise" else NONE))
            return res

        return self.bind(self.ev(st, e.value, ctx), k)

    # comprehensions ------------------------------------------------
    def e_ListComp(self, st, e, ctx):
        return self.comp(st, e, ctx, "list")

    def e_GeneratorExp(self, st, e, ctx):
        return self.comp(st, e, ctx, "list", gen=True)

    def e_SetComp(self, st, e, ctx):
        return self.comp(st, e, ctx, "set")

    def e_DictComp(self, st, e, ctx):
        return self.comp(st, e, ctx, "dict")

    def comp(self, st, e, ctx, kind, gen=False):
        site = self.site(e, ctx)
        acc = st.new_dict(site) if kind == "dict" else st.new_list(site, (), kind=kind)
        names = set()
        for g in e.generators:
            names |= {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        saved = {n: st.frames[ctx.fr].get(n) for n in names}
        hold = "$acc" + str(len([k for k in st.frames[ctx.fr] if k.startswith("$acc")]))
        st.frames[ctx.fr][hold] = acc

        def level(s, i, c):
            g = e.generators[i]

            def body(s2, el, c2):
                outs = []
                for o in self.assign(s2, g.target, el, c2):
                    if o[0] != "next":
                        outs.append(o)
                        continue
                    outs.extend(conds(o[1], 0, c2))
                return outs

            def conds(s2, j, c2):
                if j == len(g.ifs):
                    if i + 1 < len(e.generators):
                        return level(s2, i + 1, c2)
                    return add(s2, c2)
                outs = []
                for s3, v in self.ev(s2, g.ifs[j], c2):
                    if isinstance(v, R):
                        outs.append(("raise", s3, v))
                        continue
                    for s4, b in self.truth(s3, v, g.ifs[j], c2):
                        outs.extend(conds(s4, j + 1, c2) if b else [("next", s4, None)])
                return outs

            outs = []
            for s2, it in self.ev(s, g.iter, c):
                if isinstance(it, R):
                    outs.append(("raise", s2, it))
                else:
                    outs.extend(self.iterate(s2, it, e if i == 0 else g.iter, c, body))
            return outs

        def add(s, c):
            if kind == "dict":

                def k(s2, vals):
                    return self.setitem(s2, acc, vals[0], vals[1], e, c)

                o = []
                for s2, vals in self.evs(s, [e.key, e.value], c):
                    o.extend([("raise", s2, vals)] if isinstance(vals, R) else k(s2, vals))
                return o
            return self.outs(
                self.join_numbers(self.ev(s, e.elt, c)), lambda s2, v: self.outs(self.models.list_append(self, s2, acc, v, e, c), lambda s3, w: [("next", s3, None)])
            )

        res = []
        for o in level(st, 0, ctx):
            s = o[1]
            env = s.frames[ctx.fr]
            env.pop(hold, None)
            for n in names:
                env.pop(n, None)
                if saved[n] is not None:
                    env[n] = saved[n]
            if o[0] == "raise":
                res.append((s, o[2]))
            else:
                res.append((s, acc))
        return self.merge_vals(res)

    def join_numbers(self, res):
        """alternatives of one number that differ in nothing else become one value"""
        if len(res) < 2:
            return res
        groups, out = {}, []
        for s, v in res:
            if isinstance(v, R) or not (isnum(v) or isc(v) and isinstance(cv(v), (int, float))):
                out.append((s, v))
            else:
                groups.setdefault(self.stkey(s, None), []).append((s, v))
        for g in groups.values():
            s0 = g[0][0]
            for s, v in g[1:]:
                self.meet(s0, s)
            vs = list(dict.fromkeys(v for _, v in g))
            out.append((s0, vs[0] if len(vs) == 1 else OP("phi", *vs, t="float" if any(v.t == "float" for v in vs) else "num")))
        return out

    def merge_vals(self, res):
        if len(res) < 2:
            return res
        outs = self.merge([("raise" if isinstance(v, R) else "val", s, v) for s, v in res])
        return [(s, v) for _, s, v in outs]

    # calls ----------------------------------------------------------
    def e_Call(self, st, e, ctx):
        return self.ev_call(st, e, ctx)

    def ev_call(self, st, e, ctx, as_ctx=False):
        out = []
        for s, f in self.ev(st, e.func, ctx):
            if isinstance(f, R):
                out.append((s, f))
                continue
            kwn = [k.arg for k in e.keywords]
            for s2, vals in self.evs(s, list(e.args) + [k.value for k in e.keywords], ctx):
                if isinstance(vals, R):
                    out.append((s2, vals))
                    continue
                nk = len(kwn)
                args = vals[: len(vals) - nk] if nk else vals
                kwv = vals[len(vals) - nk :] if nk else []
                kw = {}
                for n, v in zip(kwn, kwv):
                    if n is None:
                        if v.k == "ref" and s2.heap[v.a].kind == "dict" and s2.heap[v.a].f["open"] is None:
                            for k, x in s2.heap[v.a].f["d"].items():
                                if isc(k):
                                    kw[cv(k)] = x
                        else:
                            kw["**"] = v
                    else:
                        kw[n] = v
                out.extend(self.known(self.call(s2, f, args, kw, e, ctx, as_ctx=as_ctx)))
        return out

    def call(self, st, f, args, kw, node, ctx, yieldk=None, as_ctx=False):
        self.tick(node, ctx)
        if f.k == "func":
            fi = self.p.funcs[f.a[0]]
            r = self.pol.intercept(self, st, fi.qual, None, args, kw, node, ctx) if yieldk is None else None
            if r is not None:
                return r
            if fi.is_gen and yieldk is None:
                tag = "ctxgen" if fi.ctxmgr else "gencall"
                return [(st, OP(tag, f, TUP(args), tuple(kw.items()), t="gen"))]
            return self.inline(st, f, fi, args, kw, node, ctx, yieldk)
        if f.k == "bound":
            selfv, name = f.a
            r = self.pol.intercept(self, st, "m." + name, selfv, args, kw, node, ctx)
            if r is not None:
                return r
            return self.models.method(self, st, selfv, name, args, kw, node, ctx)
        if f.k == "ext":
            r = self.pol.intercept(self, st, f.a, None, args, kw, node, ctx)
            if r is not None:
                return r
            return self.models.ext_call(self, st, f.a, args, kw, node, ctx)
        if f.k == "cls":
            return self.models.instantiate(self, st, f.a, args, kw, node, ctx)
        if f is NONE:
            return [(st, R(EXC("TypeError", (C("'NoneType' object is not callable"),)), self.loc(node, ctx)))]
        r = self.pol.intercept(self, st, "?", f, args, kw, node, ctx)
        if r is not None:
            return r
        if isop(f, "partial"):
            _, g, a0, k0 = f.a
            return self.call(st, g, list(a0.a) + args, {**dict(k0), **kw}, node, ctx, as_ctx=as_ctx)
        return [(st, OP("call", f, TUP(args), tuple(kw.items())))]

    def inline(self, st, f, fi, args, kw, node, ctx, yieldk=None):
        depth = sum(1 for c in ctx.chain if c == fi.qual)
        if depth > 3 or len(ctx.chain) > 25:
            return [(st, OP("rec:" + fi.qual, *args))]
        self.inlined.add(fi.qual)
        memo = not fi.is_gen and any(d.split(".")[-1] in ("lru_cache", "cache") for d in fi.decorators)
        before = dict(st.heap) if memo else None
        r = self.bind_args(st, f, fi, args, kw, node, ctx)
        if isinstance(r, R):
            return [(st, r)]
        env = r
        clos = f.a[1]
        env["$closure"] = C(clos)
        base = len(st.frames)
        st.frames = st.frames + [env]
        c2 = Ctx(base, fi.module, fi, yieldk, ctx.chain + (fi.qual,), ctx.loops)
        if isinstance(fi.node, ast.Lambda):
            res = self.ev(st, fi.node.body, c2)
            outs = [("raise", s, v) if isinstance(v, R) else ("return", s, v) for s, v in res]
        else:
            outs = self.block(st, fi.node.body, c2)
        res = []
        for kind, s, v in outs:
            s.frames = s.frames[:base]
            if kind == "raise":
                res.append((s, v))
            elif kind == "return":
                res.append((s, v))
            elif kind == "next":
                res.append((s, NONE))
            else:
                raise AnalysisError(f"stray {kind} out of {fi.qual}")
        if memo:
            for s, v in res:
                files = any(o.kind == "stream" and (k not in before or before[k].f["off"] is not o.f["off"]) for k, o in s.heap.items())
                obj = isinstance(v, V) and v.k == "ref" and s.heap[v.a].kind != "stream"
                self.emit(s, "memo", (fi.qual, files, obj), fi.node, ctx)
        res = self.merge_vals(res)
        if len(res) > self.pol.phi_returns:
            res = self.phi_vals(res)
        return res

    def phi_vals(self, res):
        groups, out = {}, []
        for s, v in res:
            if isinstance(v, R) or v.k in ("c", "ref", "tup") or contains(v, lambda x: x.k == "ref"):
                out.append((s, v))
                continue
            groups.setdefault((v.t, self.stkey(s, None)), []).append((s, v))
        for (t, _), g in groups.items():
            if len(g) <= self.pol.phi_returns:
                out.extend(g)
                continue
            s0 = g[0][0]
            for s, v in g[1:]:
                self.meet(s0, s)
            out.append((s0, self.models.phi([v for _, v in g], cap=64)))
        return out

    def meet(self, s0, st):
        s0.facts = {a: b for a, b in s0.facts.items() if st.facts.get(a) is b}
        s0.known = {a: b for a, b in s0.known.items() if st.known.get(a) is b}
        s0.types = {a: b for a, b in s0.types.items() if st.types.get(a) is b}
        for c, n in st.counts.items():
            if s0.counts.get(c, 0) < n:
                s0.counts[c] = n

    def lossy(self, outs, ctx):
        """join states (next outcomes only) that agree on which variables exist / are None"""
        groups = {}
        for o in outs:
            st = o[1]
            env = st.frames[ctx.fr]
            k = (
                tuple(sorted((n, v is NONE, v.k if v.k in ("ref", "func", "c") else "") for n, v in env.items())),
                st.pend,
                st.tags,
                tuple(st.events()) if st.ev else (),
                tuple(sorted((repr(oid), o.f["closed"]) for oid, o in st.heap.items() if o.kind == "stream")),
            )
            groups.setdefault(k, []).append(o)
        res = []
        for g in groups.values():
            s0 = g[0][1]
            for o in g[1:]:
                st = o[1]
                lk = ("join", ctx.module, ctx.func)
                for fr in range(min(len(s0.frames), len(st.frames))):
                    for n, v in list(s0.frames[fr].items()):
                        w = st.frames[fr].get(n)
                        if w is None:
                            continue
                        if w is not v:
                            s0.frames[fr][n] = self.models.phi([v, w])
                for oid, ob in st.heap.items():
                    cur = s0.heap.get(oid)
                    if cur is None:
                        s0.heap[oid] = ob
                    elif cur is not ob and cur.key() != ob.key():
                        s0.heap[oid] = self.models.join2(self, cur, ob, lk, oid)
                self.meet(s0, st)
            res.append(("next", s0, None))
        return res

    def bind_args(self, st, f, fi, args, kw, node, ctx):
        a = fi.node.args
        defs, kdefs = self.fdefaults[f.a]
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        err = lambda m: R(EXC("TypeError", (C(m),)), self.loc(node, ctx))
        args = list(args)
        if args and isop(args[-1], "star"):
            v = args.pop().a[1]
            n = len(pos) - len(args)
            for i in range(n):
                if pos[len(args)] in kw:
                    break
                args.append(self.models.getitem_term(self, st, v, C(i)))
        for i, v in enumerate(args):
            if i < len(pos):
                env[pos[i]] = v
            elif a.vararg is None:
                return err("too many positional arguments")
        if a.vararg is not None:
            env[a.vararg.arg] = TUP(args[len(pos) :])
        extra = {}
        for k, v in kw.items():
            if k == "**":
                continue
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    return err(f"multiple values for {k}")
                env[k] = v
            else:
                extra[k] = v
        if extra:
            if a.kwarg is None:
                return err(f"unexpected keyword {sorted(extra)}")
        if a.kwarg is not None:
            env[a.kwarg.arg] = st.new_dict((ctx.module, "kwargs", fi.qual), {C(k): v for k, v in extra.items()})
        nd = len(defs)
        for i, p in enumerate(pos):
            if p not in env:
                j = i - (len(pos) - nd)
                if j >= 0:
                    env[p] = defs[j]
                else:
                    return err(f"missing argument {p}")
        for x, d in zip(a.kwonlyargs, kdefs):
            if x.arg not in env:
                if d is None:
                    return err(f"missing keyword argument {x.arg}")
                env[x.arg] = d
        return env


def npass_const(v, G, nm):
    return False
