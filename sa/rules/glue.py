"""Calls between the package's layers: the layers below are replaced by recorded calls (C06-C09, C19, C21)."""
from __future__ import annotations
import ast
from ..terms import *
from ..state import *
from ..scen import *
from ..interp import Interp, Policy, R
from ..loader import AnalysisError
from .. import models

READERS = {
    "georinex.obs2.rinexobs2": "obs2",
    "georinex.obs3.rinexobs3": "obs3",
    "georinex.nav2.rinexnav2": "nav2",
    "georinex.nav3.rinexnav3": "nav3",
    "georinex.sp3.load_sp3": "sp3",
}
ALIAS = {}


def fdef(prog, name):
    mod, fn = name.rsplit(".", 1)
    m = prog.modules.get(mod)
    if m is not None:
        for n in m.tree.body:
            if isinstance(n, ast.FunctionDef) and n.name == fn:
                return n
    raise AnalysisError(f"anchor {name} not found")


def bind(prog, name, args, kw):
    """{parameter: value} of a package call, defaults included as ('default', expr text)"""
    mod, fn = name.rsplit(".", 1)
    a = fdef(prog, name).args
    pos = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    for i, v in enumerate(args):
        if i < len(pos):
            out[pos[i]] = v
        else:
            out[f"*{i}"] = v
    out.update(kw)
    dflt = {}
    for p, d in zip(pos[len(pos) - len(a.defaults) :], a.defaults):
        dflt[p] = d
    for p, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
        if d is not None:
            dflt[p] = d
    for p, d in dflt.items():
        if p not in out:
            out[p] = ("default", ast.unparse(d))
    return out


class CallPolicy(ReaderPolicy):
    """records calls to the functions in `stubs` as events ("call", (name, bound args)) and returns a symbol"""

    stubs = ()
    prog = None
    stub_value = None  # f(I, st, name, bound, node, ctx) -> list of (st, val)

    def intercept(self, I, st, name, selfv, args, kw, node, ctx):
        if name in self.stubs:
            b = bind(self.prog, name, args, kw)
            st.ev = (st.ev, ("call", (name, tuple(sorted(b.items(), key=lambda x: x[0]))), I.loc(node, ctx)))
            if self.stub_value is not None:
                r = self.stub_value(I, st, name, b, node, ctx)
                if r is not None:
                    return r
            return [(st, SYM(("result", name), "Dataset"))]
        return super().intercept(I, st, name, selfv, args, kw, node, ctx)


def calls(st, only=None):
    return [(d[0], dict(d[1]), loc) for k, d, loc in st.events() if k == "call" and (only is None or d[0] in only)]


def runfn(prog, mod, fn, args=(), kw=None, pol=None):
    from ..rl import const

    I = Interp(prog, pol)
    st = I.fresh_state()
    args = [const(st, a, i) for i, a in enumerate(args)]
    kw = {k: const(st, a, k) for k, a in (kw or {}).items()}
    res = I.run("georinex." + mod if not mod.startswith("georinex") else mod, fn, args, kw, st)
    return I, res
