"""C27: a missing optional package is worked around or reported as ImportError."""
import ast
import builtins
from .openscen import *
from .glue import *
from ..interp import InitError
from .c20 import TEXTUAL

OPTIONAL = ("hatanaka", "ncompress", "pymap3d", "psutil", "cartopy")
PLOT = ("matplotlib",)
FN = SYM("fn", "Path")
BAD = {"NameError", "UnboundLocalError", "TypeError", "AttributeError"}


def check(prog, R, tier):
    R.rule("import", "every module imports without the optional package", 40)
    R.rule("names", "every global name a function uses is defined without the optional package", 30)
    R.rule("guard", "a name that is None without the package is only used where it is known not to be", 2)
    R.rule("reading", "text that does not need the package is read without it", 12)
    R.rule("reported", "text that needs the package is refused with ImportError", 8)
    R.rule("memory", "the memory check passes without its package", 1)
    sets = [frozenset({o}) for o in OPTIONAL] + [frozenset(OPTIONAL)]
    for miss in sets:
        R.guard("import", "+".join(sorted(miss)) if len(miss) == 1 else "all", modules, prog, R, miss)
    R.guard("import", "matplotlib", modules, prog, R, frozenset(OPTIONAL + PLOT), True)
    for miss in sets:
        if miss & {"hatanaka", "ncompress"}:
            R.guard("reading", "opener", reading, prog, R, miss)
    R.guard("memory", "check_ram", memory, prog, R)


class Miss(Policy):
    def __init__(self, missing):
        self.missing = frozenset(missing)


def label(miss):
    return "without " + (next(iter(miss)) if len(miss) == 1 else "any" if "matplotlib" not in miss else "any and matplotlib")


def env_of(prog, mod, miss):
    I = Interp(prog, Miss(miss))
    return I, I.module_env(mod)


def modules(prog, R, miss, core=False):
    for mod in sorted(prog.modules):
        if mod == "drive" or mod.startswith("imports:"):
            continue
        short = mod.removeprefix("georinex.")
        if core and not (mod == "georinex" or short in ("read.__main__", "rinex2hdf5.__main__", "time.__main__")):
            continue
        main = short.endswith("__main__")
        try:
            I, env = env_of(prog, imports_only(prog, mod) if main else mod, miss)
            R.used(I)
        except InitError as e:
            R.ob("import", f"{short} {label(miss)}", False, mod, f"import fails with {e.r.exc.a[0]} (line {e.r.loc[1] if e.r.loc else '?'} of {e.r.loc[0] if e.r.loc else '?'})")
            continue
        R.ob("import", f"{short} {label(miss)}", True, mod)
        if main:
            continue
        names(prog, R, mod, short, env, miss)
        guards(prog, R, mod, short, env, miss)


def imports_only(prog, mod):
    """a program's import statements, without running the program"""
    n = "imports:" + mod
    if n not in prog.modules:
        top = []
        for x in prog.modules[mod].tree.body:
            if isinstance(x, (ast.Import, ast.ImportFrom, ast.Try)):
                if isinstance(x, ast.Try) and not all(isinstance(y, (ast.Import, ast.ImportFrom)) for y in x.body):
                    continue
                if isinstance(x, ast.ImportFrom) and x.level:
                    base = mod.split(".")[: -x.level]
                    x = ast.ImportFrom(".".join(base + ([x.module] if x.module else [])), x.names, 0)
                top.append(x)
        prog.driver(n, ast.unparse(ast.fix_missing_locations(ast.Module(top, []))))
    return n


IMP = ("ImportError", "ModuleNotFoundError")
BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__"}


def names(prog, R, mod, short, env, miss):
    bad = []
    tree = prog.modules[mod].tree
    none = {n for n, v in env.items() if v is NONE}
    for fn in [x for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]:
        for n, line in free_names(fn):
            if n not in env and n not in BUILTINS and not local_to_outer(tree, fn, n):
                if not any(shielded(fn, n, line, g) for g in none):
                    bad.append(f"{n} (line {line})")
    R.ob("names", f"{short} {label(miss)}", not bad, mod, "undefined: " + ", ".join(sorted(set(bad))) if bad else "")


def shielded(fn, n, line, g):
    """the use is only reached where g, None without the package, is not None"""
    out = []
    walk(fn.body, g, False, lambda e: out.extend(x.lineno for x in exposed(e, g) if isinstance(x, ast.Name) and x.id == n))
    return line not in out


def exposed(e, g):
    """nodes of e evaluated while g may be None"""
    out = []

    def go(x, ok):
        if isinstance(x, ast.IfExp):
            go(x.test, ok)
            t, f = implied(x.test, g)
            go(x.body, ok or t)
            go(x.orelse, ok or f)
            return
        if isinstance(x, ast.BoolOp):
            k = ok
            for v in x.values:
                go(v, k)
                t, f = implied(v, g)
                k = k or (t if isinstance(x.op, ast.And) else f)
            return
        if not ok:
            out.append(x)
        for y in ast.iter_child_nodes(x):
            go(y, ok)

    go(e, False)
    return out


def bound_in(fn):
    out = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        out.add(x.arg)
    glob = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not fn:
            out.add(x.name)
        elif isinstance(x, ast.Lambda):
            out |= {y.arg for y in x.args.posonlyargs + x.args.args + x.args.kwonlyargs}
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(y.asname or y.name).split(".")[0] for y in x.names}
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, ast.Global):
            glob |= set(x.names)
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            out.add(x.name)
    return out - glob


def free_names(fn):
    b = bound_in(fn)
    ann = set()
    for x in ast.walk(fn):
        for f in ("annotation", "returns"):
            y = getattr(x, f, None)
            if isinstance(y, ast.AST):
                ann |= {id(z) for z in ast.walk(y)}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in b and id(x) not in ann:
            yield x.id, x.lineno


def local_to_outer(tree, fn, n):
    for x in ast.walk(tree):
        if isinstance(x, ast.FunctionDef) and x is not fn and any(y is fn for y in ast.walk(x)):
            if n in bound_in(x):
                return True
    return False


# ------------------------------------------------------------------ names that may be None
def guards(prog, R, mod, short, env, miss):
    """uses of a name that is None in this scenario and something else with the package"""
    full = env_of(prog, mod, frozenset())[1]
    none = {n for n, v in env.items() if v is NONE and full.get(n) is not NONE and n in full}
    # a name the missing package leaves undefined is the business of `names`
    if not none:
        return
    tree = prog.modules[mod].tree
    funcs = {x.name: x for x in tree.body if isinstance(x, ast.FunctionDef)}
    for n in sorted(none):
        bad, good = {}, 0
        for fname, fn in funcs.items():
            if n in bound_in(fn):
                continue
            b = unguarded(fn, n)
            good += sum(1 for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == n)
            if b:
                bad[fname] = b
        if not good:
            continue
        # a helper may rely on its callers: every call of it guarded, and no call from outside the module
        for fname in list(bad):
            cs = [(c, g) for g, f in funcs.items() for c in ast.walk(f) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == fname]
            outside = any(used_elsewhere(m, mod, fname) for k, m in prog.modules.items() if k != mod and ":" not in k and k != "drive")
            if cs and not outside and all(not call_unguarded(funcs[g], n, c) for c, g in cs):
                del bad[fname]
        why = "; ".join(f"{n} is used at line {', '.join(map(str, ls))} of {f} with nothing ruling out None" for f, ls in sorted(bad.items()))
        R.ob("guard", f"{short}: {n} {label(miss)}", not bad, mod, why)


def used_elsewhere(m, mod, fname):
    last = mod.rsplit(".", 1)[-1]
    for x in ast.walk(m.tree):
        if isinstance(x, ast.ImportFrom) and (x.module or "").rsplit(".", 1)[-1] == last and any(a.name == fname for a in x.names) and m.name != "georinex":
            return True
        if isinstance(x, ast.Attribute) and x.attr == fname:
            return True
    return False


def unguarded(fn, n):
    out = []
    walk(fn.body, n, False, lambda e: out.extend(uses(e, n)))
    return sorted(set(out))


def call_unguarded(fn, n, call):
    out = []

    def see(e):
        if any(x is call for x in ast.walk(e)):
            out.append(1)

    walk(fn.body, n, False, see)
    return bool(out)


def uses(e, n):
    """lines where the value itself is called or looked into (conditions on it inside e respected)"""
    out = []
    for x in exposed(e, n):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == n:
            out.append(x.lineno)
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == n:
            out.append(x.lineno)
    return out


def implied(t, n):
    """(not None when t holds, not None when t fails)"""
    if isinstance(t, ast.Name) and t.id == n:
        return True, False
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        a, b = implied(t.operand, n)
        return b, a
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, r = t.left, t.comparators[0]
        for x, y in ((l, r), (r, l)):
            if isinstance(x, ast.Name) and x.id == n and isinstance(y, ast.Constant) and y.value is None:
                if isinstance(t.ops[0], (ast.Is, ast.Eq)):
                    return False, True
                if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
                    return True, False
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "callable" and t.args and isinstance(t.args[0], ast.Name) and t.args[0].id == n:
        return True, False
    if isinstance(t, ast.BoolOp):
        r = [implied(v, n) for v in t.values]
        if isinstance(t.op, ast.And):
            return any(a for a, b in r), all(b for a, b in r)
        return all(a for a, b in r), any(b for a, b in r)
    return False, False


def walk(body, n, ok, see):
    """visit the expressions evaluated while n may be None; True if the block never completes"""
    for s in body:
        if isinstance(s, ast.If):
            if not ok:
                see(s.test)
            t, f = implied(s.test, n)
            a = walk(s.body, n, ok or t, see)
            b = walk(s.orelse, n, ok or f, see)
            if a and b:
                return True
            if a:
                ok = ok or f
            elif b:
                ok = ok or t
        elif isinstance(s, (ast.For, ast.While)):
            if not ok:
                see(s.iter if isinstance(s, ast.For) else s.test)
            t = implied(s.test, n)[0] if isinstance(s, ast.While) else False
            walk(s.body, n, ok or t, see)
            walk(s.orelse, n, ok, see)
        elif isinstance(s, ast.With):
            if not ok:
                for i in s.items:
                    see(i.context_expr)
            if walk(s.body, n, ok, see):
                return True
        elif isinstance(s, ast.Try):
            # an exception of the use itself may be what the handlers are for
            h = {x for y in s.handlers for x in ast.walk(y.type or ast.Name(id="BaseException"))}
            caught = {x.id for x in h if isinstance(x, ast.Name)} & {"TypeError", "AttributeError", "Exception", "BaseException"}
            if caught:
                for y in s.handlers:
                    walk(y.body, n, ok, see)
            else:
                d = walk(s.body, n, ok, see)
                for y in s.handlers:
                    walk(y.body, n, ok, see)
                walk(s.orelse, n, ok, see)
            if walk(s.finalbody, n, ok, see):
                return True
        elif isinstance(s, ast.Assert):
            if not ok:
                see(s.test)
            ok = ok or implied(s.test, n)[0]
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            walk(s.body, n, ok, see)
        else:
            if not ok:
                see(s)
            if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                return True
    return False


# ------------------------------------------------------------------ outcomes
def reading(prog, R, miss):
    for c, (sfx, magic) in CONTAINERS.items():
        for kind, text in (("RINEX", RIN), ("CRINEX", CRX)):
            for header in (False, True):
                need = set()
                if c == "lzw":
                    need.add("ncompress")
                if kind == "CRINEX" and not header:
                    need.add("hatanaka")
                need &= miss
                pol = OpenPolicy(sfx[0], magic, text, missing=miss, track=frozenset(BAD))
                pol.rel = lambda st, a: False if a.a[1] not in BAD else None
                I, res = drive(prog, FN, header, pol)
                R.used(I)
                q = f"{c} {kind}{' header' if header else ''} {label(miss)}"
                ok, why, n = True, "", 0
                for k, st, v in res:
                    if k == "return":
                        n += 1
                        if need:
                            ok, why = False, "it is read all the same"
                        continue
                    e = v.exc.a[0]
                    if e in BAD:
                        ok, why = False, f"{e} at line {v.loc[1] if v.loc else '?'}"
                    elif not need and e in IMP:
                        ok, why = False, f"ImportError at line {v.loc[1] if v.loc else '?'} although nothing missing is needed"
                    elif need and e not in IMP and not (c == "zip" and e == "ValueError"):
                        ok, why = False, f"{e} at line {v.loc[1] if v.loc else '?'} instead of ImportError"
                if not need and not n and ok:
                    ok, why = False, "no path delivers the text"
                R.ob("reported" if need else "reading", q, ok if res else None, "rio.opener", why)


def memory(prog, R):
    fdef(prog, "georinex.common.check_ram")
    pol = ReaderPolicy({})
    pol.missing = frozenset({"psutil"})
    pol.track = frozenset(BAD)
    I, res = runfn(prog, "common", "check_ram", [SYM("memneed", "int"), PATH], {}, pol)
    R.used(I)
    ok, why = True, ""
    for k, s, v in res:
        if k == "raise":
            ok, why = False, f"{v.exc.a[0]} at line {v.loc[1] if v.loc else '?'}"
    R.ob("memory", "check_ram without psutil", ok if res else None, "common.check_ram", why)
