"""Analysis scenarios shared by the rules: the file container layer replaced by an abstract text stream."""
from __future__ import annotations
from .terms import *
from .state import *
from .interp import Interp, Policy
from . import models

OPENER = "georinex.rio.opener"
FIRST = "georinex.rio.first_nonblank_line"
INFO = "georinex.rio.rinexinfo"


class ReaderPolicy(Policy):
    """opener() gives a text stream of unknown content, rinexinfo() gives the scenario's version/type.
    The container layer itself is the subject of its own rules (C10, C11, C20)."""

    def __init__(self, info=None, events=(), oracle=None, icpt=None, **k):
        self.info = info or {}
        self.events = frozenset(events)
        self.oracle = oracle
        self.icpt = icpt
        self.key_types = {}
        for a, b in k.items():
            setattr(self, a, b)

    def decide(self, st, atom):
        if self.oracle is not None:
            return self.oracle(st, atom)
        return None

    # scenario: well-formed headers (every record the header functions look for is present and parses)
    header_ok = True
    HEADERS = ("obsheader2", "obsheader3", "navheader2", "navheader3")

    def no_raise(self, ctx, ename, term):
        return self.header_ok and any(c.rsplit(".", 1)[-1] in self.HEADERS for c in ctx.chain)

    def intercept(self, I, st, name, selfv, args, kw, node, ctx):
        if self.icpt is not None:
            r = self.icpt(I, st, name, selfv, args, kw, node, ctx)
            if r is not None:
                return r
        if name == OPENER:
            src = args[0] if args else kw.get("fn", SYM("fn"))
            if src.k == "ref" and st.heap[src.a].kind == "stream":
                o = st.mut(src.a)
                o.f["off"] = C(0)
                return [(st, OP("nullctx", src))]
            return [(st, models.new_stream(I, st, node, ctx, "file", OP("content", src), "r", src=src))]
        if name == FIRST:
            f = args[0] if args else kw.get("f")
            if f.k == "ref" and st.heap[f.a].kind == "stream":
                o = st.mut(f.a)
                k = SYM("blanklines", "int")
                o.f["off"] = padd(k, C(1))
                return [(st, OP("line", o.f["content"], k, t="str"))]
        if name == INFO:
            f = args[0] if args else kw.get("f")
            if f.k == "ref" and st.heap[f.a].kind == "stream":
                o = st.mut(f.a)
                o.f["off"] = SYM("infolines", "int")
            d = {C(k): (C(v) if not isinstance(v, V) else v) for k, v in self.info.items()}
            return [(st, st.new_dict(I.site(node, ctx), d))]
        return None


def nav2(ft):
    return dict(version=SYM("version", "float"), filetype=ft, rinextype="nav", systems={"N": "G", "G": "R", "E": "E"}[ft])


def nav3(sys="M"):
    return dict(version=SYM("version", "float"), filetype="N", rinextype="nav", systems=sys)


def obs3(sys="M"):
    return dict(version=SYM("version", "float"), filetype="O", rinextype="obs", systems=sys)


def obs2(sys="M"):
    return dict(version=SYM("version", "float"), filetype="O", rinextype="obs", systems=sys)


PATH = SYM("fn", "Path")


# ------------------------------------------------------------------ header contracts
# Readers are analysed against these abstract results of the header functions; rule C30 proves that
# the header functions in the source deliver them.
NOBS = SYM("Nobs", "int")  # number of observation types declared
HDRQ = {
    "georinex.obs2.obsheader2": "o2",
    "georinex.obs3.obsheader3": "o3",
    "georinex.nav2.navheader2": "n2",
    "georinex.nav3.navheader3": "n3",
}
HKEYS = {
    "t0": "datetime", "t1": "datetime", "interval": "float", "# OF SATELLITES": "int", "rxmodel": "str",
    "TIME OF FIRST OBS": "str", "TIME OF LAST OBS": "str", "RINEX VERSION / TYPE": "str", "RCV CLOCK OFFS APPL": "str",
    "ION ALPHA": "str", "ION BETA": "str", "position": "list", "position_geodetic": "tuple", "LEAP SECONDS": "str",
}


class Contract(ReaderPolicy):
    """readers with the header functions replaced by their contract"""

    systems3 = ("G",)  # systems present in an OBS3 header
    hdr_calls = None

    def intercept(self, I, st, name, selfv, args, kw, node, ctx):
        tag = HDRQ.get(name)
        if tag is not None and getattr(self, "contract", True):
            if self.hdr_calls is None:
                self.hdr_calls = []
            self.hdr_calls.append((name, tuple(args), tuple(kw.items()), I.loc(node, ctx) if node is not None else None))
            return [self.header(I, st, tag, args, kw, node, ctx)]
        return super().intercept(I, st, name, selfv, args, kw, node, ctx)

    def header(self, I, st, tag, args, kw, node, ctx):
        f = args[0] if args else kw.get("f")
        if f is not None and f.k == "ref" and st.heap[f.a].kind == "stream":
            st.mut(f.a).f["off"] = SYM("hdrlines", "int")
        self.key_types = dict(HKEYS)
        d = {C(k): (C(v) if not isinstance(v, V) else v) for k, v in self.info.items()}
        site = ("hdr", tag)

        def strlist(nm, n):
            oid = st.alloc(site + (nm,), Obj("list", dict(items=None, elems=(SYM(nm, "str"),), len=n, log=()), None))
            return REF(oid, "list")

        if tag == "o2":
            ui = args[1] if len(args) > 1 else kw.get("useindicators", FALSE)
            meas = args[2] if len(args) > 2 else kw.get("meas", NONE)
            st.facts[OP("lt0", NOBS, t="bool")] = False
            nsel = NOBS if meas is NONE else SYM("nsel", "int")
            d[C("Nobs")] = NOBS
            d[C("Nl_sv")] = models.ceildiv(NOBS, C(5))
            d[C("Nobsused")] = pmul(NOBS, C(3)) if ui is TRUE else NOBS
            d[C("fields")] = strlist("field", nsel)
            oid = st.alloc(site + ("ind",), Obj("array", dict(init="data", src=SYM("fields_ind"), srcver=0, idx=None, stores=(), log=(), shape=TUP([nsel]), elems=None, items=None, fillv=None, uninit_src=None, ndim=1, dtype="int", cast=None, of=None), None))
            d[C("fields_ind")] = SYM("fields_ind", "any")
        elif tag == "o3":
            fl, fi = {}, {}
            for s in self.systems3:
                fl[C(s)] = strlist("field" + s, SYM("n" + s, "int"))
                fi[C(s)] = SYM("ind" + s, "any")
            d[C("fields")] = st.new_dict(site + ("fields",), fl)
            d[C("fields_ind")] = st.new_dict(site + ("find",), fi)
            d[C("Fmax")] = SYM("Fmax", "int")
        return st, st.new_dict(site, d, open=SYM("hdr:" + tag, "dict"))
