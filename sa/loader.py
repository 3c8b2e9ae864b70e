"""Parses the package under analysis; liveness; function table."""
from __future__ import annotations
import ast, os, pathlib, hashlib

SRC = pathlib.Path(os.environ.get("GEORINEX_SRC", "/repo/src/georinex"))
PKG = "georinex"


class AnalysisError(Exception):
    """the analysis itself cannot be carried out (vanished anchor, unsupported construct)"""


class FuncInfo:
    def __init__(self, node, module, qual):
        self.node, self.module, self.qual = node, module, qual
        self.name = getattr(node, "name", "<lambda>")
        a = node.args
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            x = d.func if isinstance(d, ast.Call) else d
            self.decorators.append(ast.unparse(x))
        self.is_gen = False
        if not isinstance(node, ast.Lambda):
            self.is_gen = _has_yield(node.body)
        self.ctxmgr = any(d.split(".")[-1] == "contextmanager" for d in self.decorators)
        self._live = None
        self.globals_ = set()
        if not isinstance(node, ast.Lambda):
            for n in ast.walk(node):
                if isinstance(n, ast.Global):
                    self.globals_ |= set(n.names)

    @property
    def live(self):
        if self._live is None:
            self._live = Live(self.node)
        return self._live


def _has_yield(stmts):
    todo = list(stmts)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Module:
    def __init__(self, name, path, text=None):
        self.name, self.path = name, path
        self.text = path.read_text() if text is None else text
        self.tree = ast.parse(self.text, str(path))
        self.is_pkg = path.name == "__init__.py"


class Program:
    def __init__(self, src=None):
        self.src = pathlib.Path(src or SRC)
        if not (self.src / "__init__.py").is_file():
            raise AnalysisError(f"package not found: {self.src}")
        self.modules = {}
        for p in sorted(self.src.rglob("*.py")):
            rel = p.relative_to(self.src)
            if rel.parts[0] == "tests" or "__pycache__" in rel.parts:
                continue
            parts = list(rel.with_suffix("").parts)
            if parts[-1] == "__init__":
                parts = parts[:-1]
            self.modules[".".join([PKG] + parts)] = Module(".".join([PKG] + parts), p)
        self.funcs = {}  # id -> FuncInfo
        self.classes = {}

    def driver(self, name, text):
        """a calling sequence to analyse the package under: a module that is not part of it"""
        self.modules[name] = Module(name, self.src / (name + ".py"), text)

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(self.modules[n].text.encode())
        return h.hexdigest()[:16]

    def func(self, node, module, qual):
        fid = (module, node.lineno, node.col_offset, qual)
        if fid not in self.funcs:
            self.funcs[fid] = FuncInfo(node, module, qual)
        return fid


class Live:
    """backward liveness over a structured function body; lo[id(stmt)] = names live after stmt"""

    def __init__(self, fn):
        self.lo = {}
        self.head = {}
        self.always = set()
        if isinstance(fn, ast.Lambda):
            return
        body = fn.body
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda)):
                self.always |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        self.L(body, set(), set(), set(), set())

    def uses(self, n):
        if n is None:
            return set()
        if isinstance(n, list):
            r = set()
            for x in n:
                r |= self.uses(x)
            return r
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store)}

    def defs(self, n):
        if isinstance(n, ast.Name):
            return {n.id}
        if isinstance(n, (ast.Tuple, ast.List)):
            r = set()
            for e in n.elts:
                r |= self.defs(e)
            return r
        if isinstance(n, ast.Starred):
            return self.defs(n.value)
        return set()

    def L(self, stmts, out, brk, cont, exc):
        for s in reversed(stmts):
            self.lo[id(s)] = self.lo.get(id(s), set()) | out | exc
            out = self.S(s, out, brk, cont, exc)
        return out

    def S(self, s, out, brk, cont, exc):
        u = self.uses
        if isinstance(s, ast.Assign):
            k = set()
            g = u(s.value)
            for t in s.targets:
                k |= self.defs(t)
                g |= u(t)
            return (out - k) | g | exc
        if isinstance(s, ast.AugAssign):
            return out | u(s.value) | u(s.target) | self.defs(s.target) | exc
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return out
            return (out - self.defs(s.target)) | u(s.value) | u(s.target) | exc
        if isinstance(s, ast.If):
            return u(s.test) | self.L(s.body, out, brk, cont, exc) | self.L(s.orelse, out, brk, cont, exc) | exc
        if isinstance(s, (ast.For, ast.While)):
            head = set(out)
            while True:
                o = self.L(s.orelse, out, brk, cont, exc)
                if isinstance(s, ast.For):
                    b = self.L(s.body, head, out, head, exc)
                    b = (b - self.defs(s.target)) | u(s.target)
                    new = head | b | o
                else:
                    b = self.L(s.body, head, out, head, exc)
                    new = head | b | o | u(s.test)
                if new == head:
                    break
                head = new
            self.head[id(s)] = set(head)
            return head | (u(s.iter) if isinstance(s, ast.For) else set()) | exc
        if isinstance(s, ast.With):
            r = self.L(s.body, out, brk, cont, exc)
            for it in reversed(s.items):
                if it.optional_vars is not None:
                    r = r - self.defs(it.optional_vars)
                    r |= u(it.optional_vars)
                r |= u(it.context_expr)
            return r | exc
        if isinstance(s, ast.Try):
            fin_out = out
            if s.finalbody:
                fin_out = self.L(s.finalbody, out, brk, cont, exc)
                # finalbody also runs on abrupt exits
                exc2 = exc | self.L(s.finalbody, exc, brk, cont, exc)
                brk, cont = brk | exc2, cont | exc2
            else:
                exc2 = exc
            hl = set(exc2)
            for h in s.handlers:
                x = self.L(h.body, fin_out, brk, cont, exc2)
                if h.name:
                    x = x - {h.name}
                hl |= x | u(h.type)
            o = self.L(s.orelse, fin_out, brk, cont, exc2)
            return self.L(s.body, o, brk, cont, hl) | hl
        if isinstance(s, ast.Return):
            return u(s.value) | exc
        if isinstance(s, ast.Raise):
            return u(s.exc) | u(s.cause) | exc
        if isinstance(s, ast.Break):
            return set(brk) | exc
        if isinstance(s, ast.Continue):
            return set(cont) | exc
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return (out - {s.name}) | u(s) | exc
        if isinstance(s, ast.Match):
            r = set(out) | u(s.subject)
            for c in s.cases:
                r |= self.L(c.body, out, brk, cont, exc) | u(c.guard)
                r |= u(c.pattern)
            return r | exc
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return out | exc
        return out | u(s) | exc
