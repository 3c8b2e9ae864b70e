"""The container layer: opener() driven by `with opener(fn, header) as f: <body>` (C10, C11, C12, C20)."""
from __future__ import annotations
from ..terms import *
from ..state import *
from ..interp import Interp, Policy, R
from .. import models
from ..rl import text_value

DRIVER = """
from georinex.rio import opener
from caller import mark

def probe(fn, header):
    with opener(fn, header) as f:
        return mark(f)
"""
RIN = "     3.04           OBSERVATION DATA    M                   RINEX VERSION / TYPE"
CRX = "3.0                 COMPACT RINEX FORMAT                    CRINEX VERS   / TYPE"
SP3 = "#cP2019  1  1  0  0  0.00000000      96 ORBIT IGb14 HLM  IGS"
BYTES = OP("bytes", SYM("fn", "Path"), t="bytes")
# container -> (suffix, first bytes)
CONTAINERS = {
    "plain": ((".rnx", ".19o", ".crx", ""), b"    "),
    "gzip": ((".gz",), b"\x1f\x8b\x08\x00"),
    "bzip2": ((".bz2",), b"BZh9"),
    "zip": ((".zip",), b"PK\x03\x04"),
    "lzw": ((".Z", ".z"), b"\x1f\x9d\x90\x00"),
}


class OpenPolicy(Policy):
    events = frozenset({"open", "close", "read", "seek"})

    def __init__(self, suffix=None, magic=None, text=None, blanks=0, track=(), missing=(), fault=False, is_file=True, rel=None):
        self.suffix, self.magic, self.text, self.blanks = suffix, magic, text, blanks
        self.track, self.missing, self.fault, self.is_file = frozenset(track), frozenset(missing), fault, is_file
        self.tv = text_value(dict(enumerate(text))) if text is not None else None
        self.rel = rel

    def decide(self, st, a):
        h = a.a[0]
        if h == "m:is_file" and self.is_file is not None:
            return self.is_file
        if h == "eq" and isc(a.a[2]) and isinstance(cv(a.a[2]), bytes) and self.magic is not None:
            c = cv(a.a[2])
            return self.magic[: len(c)] == c
        if self.text is not None and h == "truth":
            x = a.a[1]
            s = False
            while isop(x) and x.a[0] in ("m:strip", "m:rstrip", "m:lstrip") and len(x.a) == 2:
                x, s = x.a[1], True
            if isop(x, "line"):
                return True if not s else self.lineno(x) >= self.blanks
        if h == "raises" and self.rel is not None:
            return self.rel(st, a)
        return None

    def lineno(self, x):
        return cv(x.a[2]) if isc(x.a[2]) else self.blanks

    def value(self, v):
        if isop(v, "attr") and v.a[2] == "suffix" and self.suffix is not None:
            return C(self.suffix)
        if self.text is not None:
            if isop(v, "len") and isop(v.a[1], "line"):
                return C(len(self.text) + 1)
            r = self.tv(v)
            if r is not None:
                return r
            if isop(v, "float") or isop(v, "int"):
                x = self.tv(v.a[1]) or v.a[1]
                if isc(x):
                    try:
                        return C({"float": float, "int": int}[v.a[0]](cv(x)))
                    except (TypeError, ValueError):
                        return None
        return None

    def intercept(self, I, st, name, selfv, args, kw, node, ctx):
        if name == "caller.mark":
            x = args[0]
            o = st.heap.get(x.a) if x.k == "ref" else None
            d = (x, o.f["content"], o.f["off"], o.f["closed"]) if o is not None and o.kind == "stream" else (x, None, None, None)
            st.ev = (st.ev, ("mark", d, None))
            if self.fault:
                return [(st, R(EXC("$any", ()), None))]
            return [(st, NONE)]
        return None


def drive(prog, fn, header, pol):
    if "drive" not in prog.modules:
        prog.driver("drive", DRIVER)
    I = Interp(prog, pol)
    st = I.fresh_state()
    from ..rl import const

    res = I.run("drive", "probe", [const(st, fn, 0) if callable(fn) else fn, C(header) if isinstance(header, bool) else header], {}, st)
    return I, res
