"""Models of calls: builtins, methods, standard library, numpy, xarray, compression libraries."""
from __future__ import annotations
import ast
from .terms import *
from .state import *
from .loader import AnalysisError
from . import models as M
from . import small

MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "update", "discard", "setdefault", "popitem", "fill", "put", "resize", "difference_update", "intersection_update", "symmetric_difference_update", "itemset"}
PATH_WRITES = {"write_text", "write_bytes", "unlink", "mkdir", "rmdir", "rename", "replace", "touch", "chmod", "symlink_to", "hardlink_to"}


def op_kw(kw):
    return tuple(sorted((k, v) for k, v in kw.items()))


def arg(args, kw, i, name, default=NONE):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def raises(I, node, ctx, name, *a):
    return R(EXC(name, tuple(a)), I.loc(node, ctx))


# ================================================================ methods
def method(I, st, b, name, args, kw, node, ctx):
    b = st.known.get(b, b)
    if isop(b, "phi") and any(x.k == "ref" or x is NONE for x in b.a[1:]):
        out = []
        al = b.a[1:]
        for n, x in enumerate(al):
            s = st.fork() if n < len(al) - 1 else st
            out.extend(method(I, s, x, name, args, kw, node, ctx))
        return out
    if b is NONE:
        return [(st, raises(I, node, ctx, "AttributeError", C(name)))]
    if b.k == "ref":
        o = st.heap.get(b.a)
        if o is not None:
            f = {"list": list_m, "set": set_m, "dict": dict_m, "stream": stream_m, "array": array_m, "ds": ds_m, "inst": inst_m, "ns": ns_m, "exitstack": es_m}.get(o.kind)
            if f is not None:
                return f(I, st, b, o, name, args, kw, node, ctx)
    if b.k == "tup":
        if name == "index" and args and args[0] in b.a:
            return [(st, C(b.a.index(args[0])))]
        if name == "count" and all(isc(x) for x in b.a):
            return [(st, C(b.a.count(args[0])))]
        return [(st, OP("m:" + name, b, *args))]
    if b.k == "cls":
        return [(st, OP("m:" + name, b, *args))]
    t = st.types.get(b, b.t)
    if t in ("str", "bytes") or (b.k == "c" and isinstance(cv(b), (str, bytes))):
        return str_m(I, st, b, name, args, kw, node, ctx)
    if t == "Path":
        return path_m(I, st, b, name, args, kw, node, ctx)
    if t == "ndarray" and name in ("fill", "sort", "put", "itemset"):
        I.mutated(st, b, name, node, ctx)
        return [(st, NONE)]
    if name == "total_seconds":
        return [(st, b.a[1] if isop(b, "td") else OP("tsec", b, t="num"))]
    if t == "any" and name in STR_ONLY:
        return str_m(I, st, b, name, args, kw, node, ctx)
    if t == "any" and name in ("is_file", "is_dir", "exists", "expanduser", "glob", "rglob", "iterdir", "stat", "with_suffix", "with_name", "read_bytes", "read_text", "open", "mkdir", "unlink", "write_text", "write_bytes"):
        return path_m(I, st, b, name, args, kw, node, ctx)
    if name in MUTATORS and t not in ("int", "float", "num"):
        I.mutated(st, b, name, node, ctx)
    if name == "to_netcdf":
        I.emit(st, "write", ("to_netcdf", arg(args, kw, 0, "path"), op_kw(kw), b), node, ctx)
        return [(st, NONE)]
    if name in ("get",) and t in ("any", "dict"):
        return [(st, OP("m:get", b, *args))]
    if name in ("items", "keys", "values"):
        return [(st, OP("m:" + name, b, t="gen"))]
    rt = "any"
    if t == "ndarray" or name in ("astype", "squeeze", "reshape", "dropna"):
        rt = "ndarray" if name not in ("any", "all", "tolist", "item", "max", "min", "sum") else "any"
    if t == "set":
        rt = {"intersection": "set", "union": "set", "difference": "set", "issubset": "bool", "isdisjoint": "bool", "issuperset": "bool", "copy": "set"}.get(name, "any")
    if t == "datetime" and name == "replace":
        rt = "datetime"
    if t == "datetime" and name == "isoformat":
        rt = "str"
    return [(st, OP("m:" + name, b, *args, *([op_kw(kw)] if kw else []), t=rt))]


STR_ONLY = {"strip", "lstrip", "rstrip", "split", "startswith", "endswith", "splitlines", "isdigit", "isspace", "lower", "upper", "ljust", "zfill", "encode", "isalpha", "isnumeric"}


def str_m(I, st, b, name, args, kw, node, ctx):
    if isc(b) and all(isc(a) for a in args) and not kw and name not in ("encode",):
        try:
            r = getattr(cv(b), name)(*[cv(a) for a in args])
        except (TypeError, AttributeError, ValueError, IndexError):
            r = None
        if isinstance(r, (list, tuple)):
            if isinstance(r, tuple):
                return [(st, TUP([C(x) for x in r]))]
            return [(st, st.new_list(I.site(node, ctx), [C(x) for x in r]))]
        if r is not None:
            return [(st, C(r))]
    if name in ("startswith", "endswith") and args:
        p = args[0]
        alts = p.a if p.k == "tup" else (p,)
        conds = []
        for x in alts:
            if name == "startswith" and isc(x) and isinstance(cv(x), (str, bytes)):
                n = len(cv(x))
                if n == 0:
                    return [(st, TRUE)]
                h = M.str_slice(b, C(0), C(n))
                if I.pol.value is not None and I.pol.prefixes:
                    h = I.pol.value(h) or h
                e = I.compare(st, "Eq", h, x)
            else:
                e = OP(name, b, x, t="bool")
            if e is TRUE:
                return [(st, TRUE)]
            if e is not FALSE:
                conds.append(e)
        if not conds:
            return [(st, FALSE)]
        return [(st, conds[0] if len(conds) == 1 else OP("or", *conds, t="bool"))]
    if name == "strip" and not args:
        x = b
        while isop(x) and x.a[0] in ("m:strip", "m:rstrip", "m:lstrip") and len(x.a) == 2:
            x = x.a[1]
        return [(st, OP("m:strip", x, t=b.t if b.t != "any" else "str"))]
    if name == "join":
        return join(I, st, b, args[0], node, ctx)
    if name == "replace" and len(args) >= 2 and isop(b, "text") and isc(args[0]) and cv(args[0]) in ("\r\n", "\r") and isc(args[1]) and cv(args[1]) == "\n":
        return [(st, OP(*b.a[:-1], C("universal"), t="str"))]
    if name == "decode":
        enc, err = arg(args, kw, 0, "encoding", C("utf-8")), arg(args, kw, 1, "errors", C("strict"))
        v = OP("text", b, enc, err, C("keep"), t="str")
        return [(s, r if r is not None else v) for s, r in I.may_raise(st, "UnicodeDecodeError", OP("decode", b, enc, err), node, ctx)]
    if name == "encode":
        if isc(b):
            try:
                return [(st, C(cv(b).encode(*[cv(a) for a in args])))]
            except Exception:
                pass
        return [(st, OP("encode", b, arg(args, kw, 0, "encoding", C("utf-8")), arg(args, kw, 1, "errors", C("strict")), t="bytes"))]
    if name == "format":
        return [(st, OP("m:format", b, *args, *([op_kw(kw)] if kw else []), t="str"))]
    if name in ("partition", "rpartition"):
        return [(st, TUP([OP("part", C(i), C(name), b, *args, t="str") for i in range(3)]))]
    if name == "index":
        v = OP("m:index", b, *args, t="int")
        return [(s, r if r is not None else v) for s, r in I.may_raise(st, "ValueError", v, node, ctx)]
    t = M.STR_RET.get(name)
    if t is None:
        return [(st, OP("m:" + name, b, *args, *([op_kw(kw)] if kw else [])))]
    if t == "str" and b.t == "bytes":
        t = "bytes"
    return [(st, OP("m:" + name, b, *args, *([op_kw(kw)] if kw else []), t=t))]


def join(I, st, sep, x, node, ctx):
    items = M.concrete_items(I, st, x)
    if items is not None:
        parts = []
        for i, v in enumerate(items):
            if i and not (isc(sep) and cv(sep) == ""):
                parts.append(sep)
            parts.append(v)
        return [(st, M.concat(parts))]
    if x.k == "ref" and st.heap[x.a].kind in ("list", "set"):
        o = st.heap[x.a]
        return [(st, OP("joined", sep, TUP(o.f["elems"]), o.f["len"], t="str"))]
    return [(st, OP("joined", sep, x, t="str"))]


def path_m(I, st, b, name, args, kw, node, ctx):
    if name in ("expanduser", "resolve", "absolute"):
        return [(st, b)]
    if name in ("is_file", "is_dir", "exists", "is_absolute", "match", "is_symlink"):
        return [(st, OP("m:" + name, b, *args, t="bool"))]
    if name == "open":
        return open_(I, st, [b] + args, kw, node, ctx)
    if name == "read_bytes":
        I.emit(st, "open", (None, "raw", b, "rb"), node, ctx)
        return [(s, r if r is not None else OP("bytes", b, t="bytes")) for s, r in I.may_raise(st, "OSError", OP("open", b), node, ctx)]
    if name == "read_text":
        v = OP("text", OP("bytes", b, t="bytes"), arg(args, kw, 0, "encoding"), arg(args, kw, 1, "errors"), C("universal"), t="str")
        out = []
        for s, r in I.may_raise(st, "UnicodeDecodeError", OP("decode", OP("bytes", b, t="bytes"), v.a[2], v.a[3]), node, ctx):
            out.append((s, r if r is not None else v))
        return out
    if name in PATH_WRITES:
        I.emit(st, "write", (name, b, tuple(args), NONE), node, ctx)
        return [(st, OP("m:" + name, b, *args))]
    if name in ("with_suffix", "with_name", "joinpath", "relative_to", "with_stem"):
        return [(st, OP("m:" + name, b, *args, t="Path"))]
    if name in ("glob", "rglob", "iterdir"):
        return [(st, OP("m:" + name, b, *args, t="gen"))]
    if name == "as_posix":
        return [(st, OP("str", b, t="str"))]
    return [(st, OP("m:" + name, b, *args))]


def open_(I, st, args, kw, node, ctx):
    path = args[0]
    mode = arg(args, kw, 1, "mode", C("r"))
    enc = arg(args, kw, 3, "encoding")
    err = arg(args, kw, 4, "errors")
    nl = kw.get("newline", NONE)
    md = cv(mode) if isc(mode) and isinstance(cv(mode), str) else "?"
    if any(c in md for c in "wax+?"):
        I.emit(st, "write", ("open", path, mode, NONE), node, ctx)
    out = []
    for s, r in I.may_raise(st, "OSError", OP("open", path), node, ctx):
        if r is not None:
            out.append((s, r))
            continue
        raw = OP("bytes", path, t="bytes")
        if "b" in md:
            out.append((s, M.new_stream(I, s, node, ctx, "raw", raw, md, path)))
        else:
            out.append((s, M.new_stream(I, s, node, ctx, "file", text(raw, enc, err, nl), md, path)))
    return out


def text(raw, enc, err, nl=NONE):
    return OP("text", raw, enc, err, C("universal") if nl is NONE else C("keep"), t="str")


def list_m(I, st, b, o, name, args, kw, node, ctx):
    f = o.f
    if name == "append":
        return M.list_append(I, st, b, args[0], node, ctx)
    if name == "extend":
        return M.list_extend(I, st, b, args[0], node, ctx)
    if name == "copy":
        return [(st, clone(I, st, b, node, ctx))]
    if name in ("index", "count"):
        if f["items"] is not None and args[0] in f["items"] and all(isc(x) for x in f["items"]):
            return [(st, C(getattr(f["items"], name)(args[0])))]
        v = OP("m:" + name, b, *args, t="int")
        if name == "index":
            return [(s, r if r is not None else v) for s, r in I.may_raise(st, "ValueError", v, node, ctx)]
        return [(st, v)]
    I.mutated(st, b, name, node, ctx)
    ob = st.mut(b.a)
    f = ob.f
    if name == "pop":
        i = args[0] if args else C(-1)
        if f["items"] is not None and isc(i):
            items = list(f["items"])
            try:
                v = items.pop(cv(i))
            except IndexError:
                return [(st, raises(I, node, ctx, "IndexError"))]
            f["items"] = tuple(items)
            f["elems"] = tuple(dict.fromkeys(items))
            f["len"] = C(len(items))
            f["log"] += (("pop", i),)
            return [(st, v)]
        f["items"] = None
        f["len"] = psub(f["len"], C(1))
        f["log"] += (("pop", i),)
        el = f["elems"]
        return M.alternatives(I, st, el, ("elem", b)) if el else [(st, OP("pop", b))]
    if name == "insert":
        if f["items"] is not None and isc(args[0]):
            items = list(f["items"])
            items.insert(cv(args[0]), args[1])
            f["items"] = tuple(items)
        else:
            f["items"] = None
        f["elems"] = tuple(dict.fromkeys(f["elems"] + (args[1],)))
        f["len"] = padd(f["len"], C(1))
        f["log"] += (("add", args[1]),)
        return [(st, NONE)]
    if name == "sort":
        if f["items"] is not None and all(isc(x) for x in f["items"]) and not kw:
            try:
                f["items"] = tuple(sorted(f["items"], key=cv))
            except TypeError:
                pass
        elif f["items"] is not None and len(f["items"]) > 1:
            f["items"] = None
        f.pop("unord", None)
        return [(st, NONE)]
    if name == "reverse":
        if f["items"] is not None:
            f["items"] = f["items"][::-1]
        return [(st, NONE)]
    if name == "clear":
        f["items"], f["elems"], f["len"] = (), (), C(0)
        f["log"] += (("clear",),)
        return [(st, NONE)]
    if name == "remove":
        if f["items"] is not None and args[0] in f["items"]:
            items = list(f["items"])
            items.remove(args[0])
            f["items"] = tuple(items)
            f["len"] = C(len(items))
        else:
            f["items"] = None
            f["len"] = psub(f["len"], C(1))
        f["log"] += (("remove", args[0]),)
        return [(st, NONE)]
    return [(st, OP("m:" + name, b, *args))]


def clone(I, st, b, node, ctx, kind=None):
    o = st.heap[b.a]
    k = kind or o.kind
    n = Obj(k, dict(o.f), None)
    n.f["log"] = ()
    oid = st.alloc(I.site(node, ctx), n)
    return REF(oid, {"array": "ndarray", "ds": "Dataset"}.get(k, k))


def set_m(I, st, b, o, name, args, kw, node, ctx):
    if name == "add":
        return M.list_append(I, st, b, args[0], node, ctx)
    if name == "update":
        cur = [(st, NONE)]
        for a in args:
            cur = [y for s, _ in cur for y in M.set_update(I, s, b, a, node, ctx)]
        return cur
    if name == "copy":
        return [(st, clone(I, st, b, node, ctx))]
    if name in ("intersection", "union", "difference", "symmetric_difference"):
        if not args:
            return [(st, clone(I, st, b, node, ctx))]
        return M.set_binop(I, st, name, b, args[0], node, ctx)
    if name in ("issubset", "isdisjoint", "issuperset"):
        return [(st, OP("m:" + name, b, *args, t="bool"))]
    I.mutated(st, b, name, node, ctx)
    ob = st.mut(b.a)
    if name in ("discard", "remove") and ob.f["items"] is not None and args[0] in ob.f["items"]:
        items = tuple(x for x in ob.f["items"] if x is not args[0])
        ob.f["items"], ob.f["elems"], ob.f["len"] = items, items, C(len(items))
        return [(st, NONE)]
    if name == "clear":
        ob.f["items"], ob.f["elems"], ob.f["len"] = (), (), C(0)
        return [(st, NONE)]
    if name == "discard" and ob.f["items"] is not None and all(isc(x) for x in ob.f["items"]) and isc(args[0]):
        return [(st, NONE)]
    ob.f["items"] = None
    return [(st, OP("m:" + name, b, *args))]


def dict_m(I, st, b, o, name, args, kw, node, ctx):
    f = o.f
    if name == "keys":
        return [(st, b)]
    if name == "copy":
        return [(st, clone(I, st, b, node, ctx))]
    if name in ("values", "items"):
        pairs = list(f["d"].items())
        if f["open"] is None and not f["gen"] and not f["maybe"]:
            return [(st, st.new_list(I.site(node, ctx), [v if name == "values" else TUP((k, v)) for k, v in pairs]))]
        r = st.new_list(I.site(node, ctx))
        pairs += list(f["gen"])
        if f["open"] is not None:
            k = OP("anykey", f["open"], t="str")
            pairs.append((k, OP("hkey", f["open"], k)))
        ob = st.mut(r.a)
        ob.f.update(items=None, elems=tuple(dict.fromkeys(v if name == "values" else TUP((k, v)) for k, v in pairs)), len=OP("len", b, t="int"))
        return [(st, r)]
    if name == "get":
        k = args[0]
        d = args[1] if len(args) > 1 else NONE
        out = []
        for s, y in I.truth(st, M.haskey(st, b, o, st.known.get(k, k)), node, ctx):
            out.extend(M.getitem(I, s, b, k, node, ctx) if y else [(s, d)])
        return out
    if name == "setdefault":
        k = args[0]
        d = args[1] if len(args) > 1 else NONE
        out = []
        for s, y in I.truth(st, M.haskey(st, b, o, st.known.get(k, k)), node, ctx):
            if y:
                out.extend(M.getitem(I, s, b, k, node, ctx))
            else:
                M.setitem(I, s, b, k, d, node, ctx)
                out.append((s, d))
        return out
    I.mutated(st, b, name, node, ctx)
    if name == "update":
        for a in args:
            M.dict_update(I, st, b, a, node, ctx)
        for k, v in kw.items():
            if k != "**":
                M.setitem(I, st, b, C(k), v, node, ctx)
        return [(st, NONE)]
    if name == "pop":
        k = args[0]
        out = []
        for s, y in I.truth(st, M.haskey(st, b, o, st.known.get(k, k)), node, ctx):
            if y:
                for s2, v in M.getitem(I, s, b, k, node, ctx):
                    if not isinstance(v, R):
                        ob = s2.mut(b.a)
                        d = dict(ob.f["d"])
                        d.pop(k, None)
                        ob.f["d"] = d
                        ob.f["gen"] = tuple(x for x in ob.f["gen"] if x[0] is not k)
                    out.append((s2, v))
            elif len(args) > 1:
                out.append((s, args[1]))
            elif I.handled("KeyError"):
                out.append((s, raises(I, node, ctx, "KeyError", k)))
        return out or [(st, OP("m:pop", b, k))]
    if name == "clear":
        ob = st.mut(b.a)
        ob.f.update(d={}, open=None, gen=(), maybe=frozenset())
        return [(st, NONE)]
    return [(st, OP("m:" + name, b, *args))]


def stream_m(I, st, b, o, name, args, kw, node, ctx):
    f = o.f
    oid = b.a
    if name in ("read", "readline", "readlines", "seek", "tell", "__next__", "write") and f["closed"]:
        return [(st, raises(I, node, ctx, "ValueError", C("I/O operation on closed file")))]
    binary = f["content"].t == "bytes"
    if name in ("readline", "__next__"):
        v = M.read_line(I, st, oid, node, ctx)
        return stream_errs(I, st, f, v, node, ctx)
    if name == "read":
        off = f["off"]
        I.emit(st, "read", (oid, off), node, ctx)
        if args and args[0] is not NONE and not (isc(args[0]) and cv(args[0]) == -1):
            ob = st.mut(oid)
            ob.f["off"] = OP("pos", off, args[0], t="int")
            v = OP("head", f["content"], off, args[0], t="bytes" if binary else "str")
        else:
            ob = st.mut(oid)
            ob.f["off"] = OP("eof", f["content"], t="int")
            v = f["content"] if off is C(0) else OP("rest", f["content"], off, t="bytes" if binary else "str")
        return stream_errs(I, st, f, v, node, ctx)
    if name == "readlines":
        ob = st.mut(oid)
        v = OP("lines", f["content"], f["off"], t="list")
        ob.f["off"] = OP("eof", f["content"], t="int")
        I.emit(st, "read", (oid, f["off"]), node, ctx)
        return [(st, v)]
    if name == "seek":
        ob = st.mut(oid)
        wh = arg(args, kw, 1, "whence", C(0))
        p = arg(args, kw, 0, "cookie")
        if isc(wh) and cv(wh) == 0 or wh.k == "ext" and wh.a.endswith("SEEK_SET"):
            ob.f["off"] = C(0) if isc(p) and cv(p) == 0 else (p.a[2] if isop(p, "tell") and p.a[1] is b else OP("at", p, t="int"))
        else:
            ob.f["off"] = OP("eof", f["content"], t="int")
        I.emit(st, "seek", (oid, ob.f["off"]), node, ctx)
        return [(st, p)]
    if name == "tell":
        return [(st, OP("tell", b, f["off"], t="int"))]
    if name == "close":
        M.close_stream(I, st, b, node, ctx)
        return [(st, NONE)]
    if name in ("write", "writelines", "truncate"):
        I.emit(st, "write", ("stream." + name, f["src"] if f["src"] is not None else b, tuple(args), NONE), node, ctx)
        return [(st, NONE)]
    if name == "getvalue":
        return [(st, f["content"])]
    if name == "detach":
        return [(st, REF(f["wraps"][0], "stream") if f["wraps"] else OP("detach", b))]
    if f["kind"] == "zip":
        if name == "namelist":
            return [(st, OP("namelist", f["content"], t="list"))]
        if name == "infolist":
            return [(st, OP("infolist", f["content"], t="list"))]
        if name == "open":
            m = args[0]
            out = []
            for s, r in I.may_raise(st, "zipfile.BadZipFile", OP("member", f["content"], m), node, ctx):
                out.append((s, r if r is not None else M.new_stream(I, s, node, ctx, "member", OP("member", f["content"], m, t="bytes"), "rb", f["src"])))
            return out
        if name == "read":
            return [(st, OP("member", f["content"], args[0], t="bytes"))]
        if name in ("extract", "extractall"):
            I.emit(st, "write", (name, f["src"], tuple(args), NONE), node, ctx)
            return [(st, OP("m:" + name, b))]
    return [(st, OP("m:" + name, b, *args))]


def stream_errs(I, st, f, v, node, ctx):
    """exceptions reading this stream can raise, by its pipeline"""
    out = []
    c = f["content"]
    if isop(c, "text"):
        enc, err = c.a[2], c.a[3]
        if isc(err) and cv(err) in ("ignore", "replace"):
            cur = [(st, None)]
        else:
            cur = I.may_raise(st, "UnicodeDecodeError", OP("decode", c.a[1], enc, err), node, ctx)
    else:
        cur = [(st, None)]
    for s, r in cur:
        if r is not None:
            out.append((s, r))
            continue
        pipe = c.a[1] if isop(c, "text") else c
        name = {"gunzip": "gzip.BadGzipFile", "bunzip": "OSError"}.get(pipe.a[0] if isop(pipe) else "", None)
        if name:
            for s2, r2 in I.may_raise(s, name, OP("decompress", pipe), node, ctx):
                out.append((s2, r2 if r2 is not None else v))
        else:
            out.append((s, v))
    return out


def array_m(I, st, b, o, name, args, kw, node, ctx):
    f = o.f
    if name == "fill":
        I.mutated(st, b, "fill", node, ctx)
        ob = st.mut(b.a)
        if ob.f["init"] == "uninit":
            ob.f["init"] = "filled"
        ent = (OP("sl", NONE, NONE, NONE, t="slice"), args[0])
        ob.f["stores"] += (ent,)
        ob.f["log"] += (ent,)
        ob.f["fillv"] = args[0]
        I.emit(st, "astore", (b.a, ent[0], args[0], None), node, ctx)
        return [(st, NONE)]
    if name in ("astype", "copy", "flatten", "ravel", "squeeze", "reshape", "view", "transpose"):
        r = clone(I, st, b, node, ctx)
        ob = st.mut(r.a)
        ob.f.update(src=b, srcver=C(len(f["stores"])), idx=C(name), stores=(), cast=tuple(args) if name == "astype" else f.get("cast"))
        ob.f["uninit_src"] = f["init"] if f["init"] == "uninit" else f.get("uninit_src")
        return [(st, r)]
    if name == "tolist":
        r = st.new_list(I.site(node, ctx))
        ob = st.mut(r.a)
        its = small.known(st, b) if I.pol.shapes and not (f.get("items") is not None and not f["stores"]) else None
        if its is not None:
            ob.f.update(items=tuple(its), elems=tuple(dict.fromkeys(its)), len=C(len(its)), src=b)
        elif f.get("items") is not None and not f["stores"]:
            ob.f.update(items=tuple(f["items"]), elems=tuple(dict.fromkeys(f["items"])), len=C(len(f["items"])), src=b)
        else:
            ob.f.update(items=None, elems=f.get("elems") or (OP("aelem", b, C(len(f["stores"]))),), len=OP("len", b, t="int"), src=b)
        return [(st, r)]
    if name in MUTATORS:
        I.mutated(st, b, name, node, ctx)
        ob = st.mut(b.a)
        ob.f["stores"] += ((C(name), TUP(args)),)
        return [(st, NONE)]
    t = {"any": "bool", "all": "bool", "sum": "num", "max": "num", "min": "num", "mean": "num"}.get(name, "ndarray")
    return [(st, OP("am:" + name, b, C(len(f["stores"])), *args, *([op_kw(kw)] if kw else []), t=t))]


def new_ds(I, st, node, ctx, vars=None, coords=None, attrs=None, parents=(), open=False, **k):
    site = I.site(node, ctx)
    if attrs is None or attrs is NONE:
        attrs = st.new_dict(site + ("attrs",))
    oid = st.alloc(site, Obj("ds", dict(vars=dict(vars or {}), coords=dict(coords or {}), attrs=attrs, parents=tuple(parents), open=open, log=(), handle=False, **k)))
    return REF(oid, "Dataset")


def dict_items(st, v):
    if v.k == "ref" and st.heap[v.a].kind == "dict":
        o = st.heap[v.a]
        d = dict(o.f["d"])
        for k, x in o.f["gen"]:
            d[k] = x
        return d, o.f["open"] is not None or bool(o.f["gen"])
    return {}, v is not NONE


def ds_m(I, st, b, o, name, args, kw, node, ctx):
    f = o.f
    if name == "to_netcdf":
        I.emit(st, "write", ("to_netcdf", arg(args, kw, 0, "path"), op_kw(kw), b), node, ctx)
        return [(s, r if r is not None else NONE) for s, r in I.may_raise(st, "OSError", OP("to_netcdf", b, arg(args, kw, 0, "path")), node, ctx)]
    if name == "close":
        M.close_stream(I, st, b, node, ctx)
        return [(st, NONE)]
    if name in ("load", "compute"):
        return [(st, b)]
    if name in ("assign_coords", "assign", "assign_attrs", "merge", "drop_vars", "dropna", "sel", "isel", "copy", "rename", "sortby", "transpose", "where", "expand_dims", "reindex", "drop_sel", "fillna", "update", "set_coords", "astype", "squeeze"):
        v, c = dict(f["vars"]), dict(f["coords"])
        opn = f["open"]
        attrs = f["attrs"]
        if name == "assign_coords":
            for k, x in kw.items():
                c[C(k)] = x
            if args:
                d, _ = dict_items(st, args[0])
                c.update(d)
        elif name == "assign":
            for k, x in kw.items():
                v[C(k)] = x
            if args:
                d, op2 = dict_items(st, args[0])
                v.update(d)
                opn = opn or op2
        elif name in ("merge", "update"):
            opn = True
            if args and args[0].k == "ref" and st.heap[args[0].a].kind == "ds":
                o2 = st.heap[args[0].a]
                for k, x in o2.f["vars"].items():
                    v.setdefault(k, x)
        if name == "assign_attrs":
            na = st.new_dict(I.site(node, ctx) + ("attrs",), dict_items(st, attrs)[0], open=st.heap[attrs.a].f["open"] if attrs.k == "ref" and attrs.a in st.heap else NONE)
            for a in args:
                M.dict_update(I, st, na, a, node, ctx)
            for k, x in kw.items():
                M.setitem(I, st, na, C(k), x, node, ctx)
            attrs = na
        elif name != "update":
            attrs = copied_attrs(I, st, attrs, node, ctx)
        if name == "update":
            I.mutated(st, b, "update", node, ctx)
        r = new_ds(I, st, node, ctx, v, c, attrs, (b, *[a for a in args if a.k == "ref"]), opn, how=(name, tuple(args), op_kw(kw)))
        return [(st, r)]
    return [(st, OP("m:" + name, b, *args, *([op_kw(kw)] if kw else [])))]


def inst_m(I, st, b, o, name, args, kw, node, ctx):
    if name == "_asdict":
        return [(st, st.new_dict(I.site(node, ctx), {C(k): v for k, v in o.f["d"].items()}))]
    if name == "_replace":
        d = dict(o.f["d"])
        d.update(kw)
        oid = st.alloc(I.site(node, ctx), Obj("inst", dict(o.f, d=d)))
        return [(st, REF(oid, "inst"))]
    return [(st, OP("m:" + name, b, *args))]


def ns_m(I, st, b, o, name, args, kw, node, ctx):
    if name in ("add_argument",):
        names = [cv(a) for a in args if isc(a) and isinstance(cv(a), str)]
        dest = kw.get("dest")
        if dest is not None:
            d = cv(dest)
        else:
            longs = [n for n in names if n.startswith("--")]
            pick = longs[0] if longs else names[0]
            d = pick.lstrip("-").replace("-", "_")
        act = kw.get("action")
        t = "any"
        if act is not None and cv(act) in ("store_true", "store_false"):
            t = "bool"
        ob = st.mut(b.a)
        dd = dict(ob.f["d"])
        dd[d] = SYM(("cli", d), t)
        ob.f["d"] = dd
        if "decl" in ob.f:
            ob.f["decl"] = ob.f["decl"] + ((d, tuple(names), op_kw(kw)),)
        return [(st, NONE)]
    if name in ("parse_args", "parse_known_args"):
        return [(st, b)]
    if name in ("add_mutually_exclusive_group", "add_argument_group"):
        return [(st, b)]
    return [(st, OP("m:" + name, b, *args))]


def es_m(I, st, b, o, name, args, kw, node, ctx):
    if name in ("enter_context", "push"):
        v = args[0]
        if v.k == "op" and v.a[0] == "ctxgen":
            raise AnalysisError(f"ExitStack over a generator context manager at {ctx.module}:{node.lineno}")
        ob = st.mut(b.a)
        ob.f["cbs"] = ob.f["cbs"] + ((v.a[1] if isop(v, "closing") else v),)
        return [(st, v.a[1] if isop(v, "closing") else v)]
    if name == "callback":
        v = args[0]
        if v.k == "bound" and v.a[1] == "close":
            ob = st.mut(b.a)
            ob.f["cbs"] = ob.f["cbs"] + (v.a[0],)
        return [(st, NONE)]
    if name == "close":
        for x in reversed(o.f["cbs"]):
            M.close_stream(I, st, x, node, ctx)
    return [(st, NONE)]


# ================================================================ builtins
def seq_map(I, st, it, fn, node, ctx):
    """new list of fn(elem) over it; fn(st, elem, ctx) -> list[(st, V|R|None)] (None: skip)"""
    acc = st.new_list(I.site(node, ctx) + ("map",))
    # the list is reachable while it is built
    hold = "$acc" + str(len([k for k in st.frames[ctx.fr] if k.startswith("$acc")]))
    st.frames[ctx.fr][hold] = acc

    def body(s, el, c):
        outs = []
        for s2, v in fn(s, el, c):
            if isinstance(v, R):
                outs.append(("raise", s2, v))
            elif v is None:
                outs.append(("next", s2, None))
            else:
                outs.extend(("next", s3, None) for s3, _ in M.list_append(I, s2, acc, v, node, c))
        return outs

    res = []
    for o in I.iterate(st, it, node, ctx, body):
        o[1].frames[ctx.fr].pop(hold, None)
        res.append((o[1], o[2] if o[0] == "raise" else acc))
    return I.merge_vals(res)


def b_len(I, st, args, kw, node, ctx):
    x = args[0]
    items = M.concrete_items(I, st, x)
    if items is not None:
        return [(st, C(len(items)))]
    if isc(x) and isinstance(cv(x), (str, bytes)):
        return [(st, C(len(cv(x))))]
    if x.k == "ref":
        o = st.heap[x.a]
        if o.kind in ("list", "set"):
            return [(st, o.f["len"])]
        if o.kind == "ds":
            if not o.f["open"] and not o.f["parents"]:
                return [(st, C(len(o.f["vars"])))]
            return [(st, OP("len", x, C(len(o.f["vars"])), t="int"))]
        if o.kind == "dict":
            return [(st, OP("len", x, C(len(o.f["d"])), t="int"))]
    if x is NONE:
        return [(st, raises(I, node, ctx, "TypeError"))]
    return [(st, OP("len", x, t="int"))]


def unstrip(x):
    while isop(x) and x.a[0] in ("m:strip", "m:rstrip", "m:lstrip") and len(x.a) == 2:
        x = x.a[1]
    return x


def conv(I, st, name, args, kw, node, ctx):
    if not args:
        return [(st, C(0 if name == "int" else 0.0))]
    x = st.known.get(args[0], args[0])
    if isc(x) and len(args) == 1:
        try:
            return [(st, C({"int": int, "float": float}[name](cv(x))))]
        except (ValueError, TypeError) as e:
            return [(st, raises(I, node, ctx, type(e).__name__))]
    t = st.types.get(x, x.t)
    if name == "int" and t == "bool" and x.k != "ref" and not isc(x):
        return [(st, OP("int", x, t="int"))]
    if name == "int" and t in ("int", "bool") and x.k != "ref":
        return [(st, x)]
    if name == "float" and t in ("float",):
        return [(st, x)]
    y = unstrip(x)
    v = OP(name, y, *args[1:], t=name)
    if name == "int" and t in ("float", "num"):
        if isop(x, "float") and "OverflowError" in I.pol.track:
            # "inf" is a float
            return [(s, r if r is not None else v) for s, r in I.may_raise(st, "OverflowError", v, node, ctx)]
        return [(st, v)]
    if t == "tuple" or t == "list":
        return [(st, raises(I, node, ctx, "TypeError"))]
    out = []
    for s, r in I.may_raise(st, "ValueError", v, node, ctx):
        if r is None and t == "any":
            for s2, r2 in I.may_raise(s, "TypeError", v, node, ctx):
                out.append((s2, r2 if r2 is not None else v))
        else:
            out.append((s, r if r is not None else v))
    return out


STREAM_CLASSES = {
    "StringIO": ("stringio", "crxio"),
    "TextIOWrapper": ("file", "textwrap", "gz", "bz2"),
    "BytesIO": ("bytesio",),
    "GzipFile": ("gzraw",),
    "BZ2File": ("bz2raw",),
}


def isinstance_(I, st, args, kw, node, ctx):
    v, ty = args
    v = st.known.get(v, v)
    names = []
    todo = [ty]
    while todo:
        t = todo.pop()
        if t.k == "tup":
            todo.extend(t.a)
        elif t.k == "ext":
            names.append(t.a.split(".")[-1])
        elif t.k == "cls":
            names.append(t.a)
        elif isop(t, "bitor"):
            todo.extend(t.a[1:])
        else:
            names.append(show(t))
    names = tuple(sorted(set(names)))
    t = M.vtype(I, st, v)
    if v.k == "op" and v.a[0] in ("gencall", "ctxgen"):
        t = "gen"
    if t and t.startswith("stream:"):
        k = t.split(":")[1]
        for n in names:
            if n in STREAM_CLASSES and k in STREAM_CLASSES[n]:
                return [(st, TRUE)]
            if n in ("IOBase", "TextIOBase", "TextIO", "IO", "object") and (n != "TextIOBase" or k not in ("raw", "member", "bytesio", "gzraw", "bz2raw")):
                return [(st, TRUE)]
        return [(st, FALSE)]
    if t == "inst" or v.k == "ref" and st.heap.get(v.a) is not None and st.heap[v.a].kind == "inst":
        return [(st, C(st.heap[v.a].f["cls"] in names))]
    if t == "num":
        if "float" in names and "int" in names or "Number" in names or "Real" in names:
            return [(st, TRUE)]
        if not {"float", "int"} & set(names):
            return [(st, FALSE)]
    elif t == "NoneType":
        return [(st, C("NoneType" in names))]
    elif t != "any":
        r = M.type_is(t, names)
        if r is not None:
            return [(st, C(r))]
    atoms = []
    for n in names:
        if v in I.__dict__.get("nottypes", {}):
            pass
        atoms.append(OP("isinstance", v, n, t="bool"))
    if t == "any":
        # types already excluded on this path
        known = st.types.get(v)
    return [(st, atoms[0] if len(atoms) == 1 else OP("or", *atoms, t="bool"))]


def b_minmax(I, st, name, args, kw, node, ctx):
    xs = args
    if len(args) == 1:
        xs = M.concrete_items(I, st, args[0])
        if xs is None:
            t = "any"
            if args[0].k == "ref":
                el = st.heap[args[0].a].f.get("elems") or ()
                ts = {e.t for e in el}
                t = ts.pop() if len(ts) == 1 else "any"
                return [(st, OP(name + "of", TUP(el), t=t))]
            return [(st, OP(name + "of", args[0], t=t))]
    if all(isc(x) for x in xs) and xs and "key" not in kw:
        try:
            return [(st, C({"min": min, "max": max}[name]([cv(x) for x in xs])))]
        except TypeError:
            pass
    ts = {x.t for x in xs}
    t = ts.pop() if len(ts) == 1 else ("num" if ts <= {"int", "float", "num"} else "any")
    if len(xs) == 1:
        return [(st, xs[0])]
    # decided by facts
    if len(xs) == 2 and all(I.cmpnum(x) for x in xs):
        c = I.compare(st, "Lt", xs[0], xs[1])
        d = True if c is TRUE else False if c is FALSE else None
        if d is None:
            neg = isop(c, "not")
            d = I.decide(st, c.a[1] if neg else c)
            if d is not None and neg:
                d = not d
        if d is not None:
            return [(st, xs[0] if d == (name == "min") else xs[1])]
    return [(st, OP(name, *sorted(set(xs)), t=t))]


def b_sorted(I, st, args, kw, node, ctx):
    x = args[0]
    items = M.concrete_items(I, st, x)
    if items is not None and all(isc(i) for i in items) and "key" not in kw:
        try:
            rev = kw.get("reverse")
            return [(st, st.new_list(I.site(node, ctx), sorted(items, key=cv, reverse=bool(rev is not None and isc(rev) and cv(rev)))))]
        except TypeError:
            pass
    if items is not None:
        if len(items) <= 1:
            return [(st, st.new_list(I.site(node, ctx), items))]
        r = st.new_list(I.site(node, ctx), sorted(items) if "key" not in kw else items)
        ob = st.mut(r.a)
        ob.f["items"] = None
        return [(st, r)]
    if x.k == "ref" and st.heap[x.a].kind in ("list", "set", "dict"):
        o = st.heap[x.a]
        r = st.new_list(I.site(node, ctx))
        ob = st.mut(r.a)
        if o.kind == "dict":
            el = tuple(o.f["d"]) + tuple(k for k, _ in o.f["gen"])
            ob.f.update(items=None, elems=el, len=OP("len", x, t="int"))
        else:
            ob.f.update(items=None, elems=o.f["elems"], len=o.f["len"])
        ob.f["sortedof"] = x
        return [(st, r)]
    return [(st, OP("sorted", x, t="list"))]


def b_seq(I, st, kind, args, kw, node, ctx):
    site = I.site(node, ctx)
    if not args:
        if kind == "tuple":
            return [(st, TUP(()))]
        return [(st, st.new_list(site, (), kind="set" if kind in ("set", "frozenset") else "list"))]
    x = args[0]
    sk = "set" if kind in ("set", "frozenset") else "list"
    items = M.concrete_items(I, st, x)
    if items is not None and not (x.k == "ref" and st.heap[x.a].kind == "stream"):
        if sk == "set":
            M.note_iter(I, st, x, node, ctx) if False else None
            if all(isc(i) or i.k == "tup" for i in items) or len(items) <= 1:
                return [(st, st.new_list(site, dict.fromkeys(items), kind="set"))]
            r = st.new_list(site, dict.fromkeys(items), kind="set")
            return [(st, r)]
        M.note_iter(I, st, x, node, ctx)
        if kind == "tuple":
            return [(st, TUP(items))]
        return [(st, st.new_list(site, items))]
    if x.k == "ref" and st.heap[x.a].kind in ("list", "set", "dict", "array"):
        o = st.heap[x.a]
        r = st.new_list(site, (), kind=sk)
        ob = st.mut(r.a)
        if o.kind == "dict":
            el = tuple(o.f["d"]) + tuple(k for k, _ in o.f["gen"])
            if o.f["open"] is not None:
                el += (OP("anykey", o.f["open"], t="str"),)
            ob.f.update(items=None, elems=el, len=OP("len", x, t="int"))
        elif o.kind == "array":
            ob.f.update(items=None, elems=o.f.get("elems") or (OP("aelem", x, C(len(o.f["stores"]))),), len=OP("len", x, t="int"))
        else:
            ob.f.update(items=None, elems=o.f["elems"], len=o.f["len"] if sk == "list" or o.kind == "set" else OP("nuniq", x, o.f["len"], t="int"))
            if sk == "list" and (o.kind == "set" or o.f.get("unord")):
                ob.f["unord"] = True
        if sk == "set":
            ob.f["setof"] = x
        return [(st, r)]
    if x is NONE:
        return [(st, raises(I, node, ctx, "TypeError"))]
    if isop(x) and x.a[0] in ("zip", "enumerate", "range", "islice", "gencall", "iter_sentinel", "reversed") or x.k == "ref" and st.heap[x.a].kind == "stream":
        res = seq_map(I, st, x, lambda s, e, c: [(s, e)], node, ctx)
        if sk == "set":
            return [(s, v if isinstance(v, R) else clone(I, s, v, node, ctx, "set")) for s, v in res]
        return res
    if isop(x, "m:split") or isop(x, "namelist") or isop(x, "sorted") or isop(x, "m:splitlines"):
        if sk == "list":
            return [(st, x)]
    return [(st, OP(kind, x, t=kind if kind != "frozenset" else "set"))]


def b_dict(I, st, args, kw, node, ctx):
    site = I.site(node, ctx)
    d = {}
    r = st.new_dict(site)
    if args:
        x = args[0]
        if x.k == "ref" and st.heap[x.a].kind == "dict":
            r = clone(I, st, x, node, ctx)
        else:
            items = M.concrete_items(I, st, x)
            if items is not None:
                for it in items:
                    p = M.concrete_items(I, st, it)
                    if p is not None and len(p) == 2:
                        M.setitem(I, st, r, p[0], p[1], node, ctx)
            else:
                st.mut(r.a).f["open"] = OP("dictof", x)
    for k, v in kw.items():
        if k != "**":
            M.setitem(I, st, r, C(k), v, node, ctx)
    st.mut(r.a).f["log"] = ()
    return [(st, r)]


def builtin(I, st, n, args, kw, node, ctx):
    if n == "len":
        return b_len(I, st, args, kw, node, ctx)
    if n in ("int", "float"):
        return conv(I, st, n, args, kw, node, ctx)
    if n == "str":
        if not args:
            return [(st, C(""))]
        return [(st, M.to_str(args[0]))]
    if n == "repr":
        return [(st, OP("repr", args[0], t="str"))]
    if n == "range":
        a = args
        if len(a) == 1:
            return [(st, OP("range", C(0), a[0], C(1), t="range"))]
        return [(st, OP("range", a[0], a[1], a[2] if len(a) > 2 else C(1), t="range"))]
    if n == "enumerate":
        return [(st, OP("enumerate", args[0], arg(args, kw, 1, "start", C(0)), t="gen"))]
    if n == "zip":
        return [(st, OP("zip", *args, t="gen"))]
    if n == "reversed":
        return [(st, OP("reversed", args[0], t="gen"))]
    if n in ("min", "max"):
        return b_minmax(I, st, n, args, kw, node, ctx)
    if n == "sum":
        items = M.concrete_items(I, st, args[0])
        if items is not None and all(isnum(x) for x in items):
            r = C(0)
            for x in items:
                r = padd(r, x)
            return [(st, r)]
        el = st.heap[args[0].a].f.get("elems") if args[0].k == "ref" else None
        return [(st, OP("sumof", TUP(el) if el else args[0], t="int" if el and all(e.t in ("int", "bool") for e in el) else "num"))]
    if n in ("any", "all"):
        return anyall(I, st, n, args[0], node, ctx)
    if n == "sorted":
        return b_sorted(I, st, args, kw, node, ctx)
    if n in ("list", "tuple", "set", "frozenset"):
        return b_seq(I, st, n, args, kw, node, ctx)
    if n == "dict":
        return b_dict(I, st, args, kw, node, ctx)
    if n == "isinstance":
        return isinstance_(I, st, args, kw, node, ctx)
    if n == "print":
        return [(st, NONE)]
    if n == "bool":
        if not args:
            return [(st, FALSE)]
        return [(s, C(b)) for s, b in I.truth(st, args[0], node, ctx)]
    if n == "abs":
        if isc(args[0]):
            return [(st, C(abs(cv(args[0]))))]
        return [(st, OP("abs", args[0], t=args[0].t))]
    if n == "round":
        if isc(args[0]) and len(args) == 1:
            return [(st, C(round(cv(args[0]))))]
        return [(st, OP("round", *args, t="int" if len(args) == 1 else "num"))]
    if n == "divmod":
        return [(st, TUP((OP("floordiv", *args, t=args[0].t), OP("mod", *args, t=args[0].t))))]
    if n == "pow":
        return M.binop(I, st, "Pow", args[0], args[1], node, ctx)
    if n == "map":
        f = args[0]
        if len(args) == 2:
            return seq_map(I, st, args[1], lambda s, e, c: I.call(s, f, [e], {}, node, c), node, ctx)
        return seq_map(I, st, OP("zip", *args[1:], t="gen"), lambda s, e, c: I.call(s, f, list(e.a), {}, node, c), node, ctx)
    if n == "filter":
        f = args[0]

        def flt(s, e, c):
            out = []
            for s2, v in I.call(s, f, [e], {}, node, c) if f is not NONE else [(s, e)]:
                if isinstance(v, R):
                    out.append((s2, v))
                    continue
                for s3, b in I.truth(s2, v, node, c):
                    out.append((s3, e if b else None))
            return out

        return seq_map(I, st, args[1], flt, node, ctx)
    if n == "iter":
        if len(args) == 2:
            c = args[0]
            if c.k == "bound" and c.a[1] == "readline" and c.a[0].k == "ref" and st.heap[c.a[0].a].kind == "stream" and args[1] in (C(""), C(b"")):
                return [(st, c.a[0])]  # the lines of the stream
            from .interp import Limit

            raise Limit("iter(callable, sentinel)")
        return [(st, args[0])]
    if n == "next":
        x = args[0]
        if x.k == "ref" and st.heap[x.a].kind == "stream":
            v = M.read_line(I, st, x.a, node, ctx)
            if len(args) > 1:
                return [(st, v)]
            return [(s, r if r is not None else v) for s, r in I.may_raise(st, "StopIteration", v, node, ctx)]
        items = M.concrete_items(I, st, x)
        if items:
            return [(st, items[0])]
        if items is not None and len(args) > 1:
            return [(st, args[1])]
        if items is not None:
            return [(st, raises(I, node, ctx, "StopIteration"))]
        if x.k == "ref" and st.heap[x.a].kind in ("list", "set"):
            M.note_iter(I, st, x, node, ctx)
            el = st.heap[x.a].f["elems"]
            outs = M.alternatives(I, st.fork(), el, ("elem", x))
            if len(args) > 1:
                outs.append((st, args[1]))
            return outs
        v = OP("next", x)
        if len(args) > 1:
            return [(st.fork(), v), (st, args[1])]
        return [(s, r if r is not None else v) for s, r in I.may_raise(st, "StopIteration", v, node, ctx)]
    if n == "open":
        return open_(I, st, args, kw, node, ctx)
    if n == "type":
        return [(st, OP("type", args[0], t="class"))]
    if n == "id" or n == "hash":
        I.emit(st, "nondet", ("builtins." + n,), node, ctx)
        return [(st, OP(n, args[0], t="int"))]
    if n == "hasattr":
        return [(st, OP("hasattr", *args, t="bool"))]
    if n == "getattr":
        if isc(args[1]):
            r = M.getattr_(I, st, args[0], cv(args[1]), node, ctx)
            if len(args) > 2:
                r = [(s, args[2] if type(v).__name__ == "R" and v.exc.a[0] == "AttributeError" else v) for s, v in r]
            return r
        return [(st, OP("getattr", *args))]
    if n == "callable":
        if args[0] is NONE:
            return [(st, FALSE)]
        if args[0].k in ("func", "ext", "bound", "cls"):
            return [(st, TRUE)]
        return [(st, OP("callable", args[0], t="bool"))]
    if n == "super":
        return [(st, OP("super"))]
    if n in ("chr", "ord", "bin", "hex", "bytes", "bytearray", "format", "ascii"):
        if all(isc(a) for a in args) and args:
            try:
                return [(st, C(getattr(__import__("builtins"), n)(*[cv(a) for a in args])))]
            except Exception:
                pass
        if n == "format":
            return [(st, M.fmt(args[0], args[1] if len(args) > 1 else C("")))]
        return [(st, OP(n, *args, t="int" if n == "ord" else "bytes" if n.startswith("byte") else "str"))]
    if n == "slice":
        a = list(args)
        if len(a) == 1:
            a = [NONE, a[0], NONE]
        while len(a) < 3:
            a.append(NONE)
        return [(st, OP("sl", *a, t="slice"))]
    if n in ("globals", "locals", "vars", "exec", "eval", "compile", "__import__", "setattr", "delattr", "input"):
        if n == "setattr" and isc(args[1]):
            for o in M.setattr_(I, st, args[0], cv(args[1]), args[2], node, ctx):
                return [(o[1], NONE)]
        raise AnalysisError(f"call of {n} is outside the analysed subset ({ctx.module}:{node.lineno})")
    from .interp import exc_mro

    if n == "object":
        return [(st, OP("object", mk("c", ("site", I.site(node, ctx)), "site")))]
    import builtins

    b = getattr(builtins, n, None)
    if isinstance(b, type) and issubclass(b, BaseException):
        return [(st, EXC("OSError" if n in ("IOError", "EnvironmentError") else n, tuple(args)))]
    I.unknown_calls["builtins." + n] = I.loc(node, ctx)
    return [(st, OP("x:" + n, *args))]


def anyall(I, st, n, x, node, ctx):
    items = M.concrete_items(I, st, x)
    if items is not None:
        cur = [st]
        out = []
        for it in items:
            nxt = []
            for s in cur:
                for s2, b in I.truth(s, it, node, ctx):
                    if b == (n == "any"):
                        out.append((s2, C(n == "any")))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s, C(n != "any")) for s in cur]
    if x.k == "ref" and st.heap[x.a].kind in ("list", "set"):
        el = st.heap[x.a].f["elems"]
        return [(st, OP(n + "of", TUP(el), t="bool"))]
    return [(st, OP(n + "of", x, t="bool"))]


# ================================================================ external functions
NONDET = ("time.time", "time.monotonic", "time.perf_counter", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today", "random.", "numpy.random.", "os.environ", "os.getenv", "os.getpid", "uuid.", "secrets.", "os.urandom", "time.localtime", "time.gmtime", "os.cpu_count", "socket.")
FS_WRITES = {"os.remove", "os.unlink", "os.rename", "os.replace", "os.mkdir", "os.makedirs", "os.rmdir", "os.removedirs", "os.truncate", "os.chmod", "os.symlink", "os.link", "os.utime", "shutil.rmtree", "shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.move", "shutil.copytree", "tempfile.mkstemp", "tempfile.mkdtemp", "tempfile.NamedTemporaryFile", "tempfile.TemporaryFile", "tempfile.TemporaryDirectory", "numpy.save", "numpy.savetxt", "numpy.savez", "pickle.dump", "json.dump", "subprocess.run", "subprocess.Popen", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "os.system", "os.chdir", "os.open", "shelve.open", "netCDF4.Dataset", "h5py.File"}
TD = {"weeks": 604800, "days": 86400, "hours": 3600, "minutes": 60, "seconds": 1, "milliseconds": 0.001, "microseconds": 1e-6}
DT_FIELDS = ["year", "month", "day", "hour", "minute", "second", "microsecond"]


def copied_attrs(I, st, attrs, node, ctx):
    """the attributes of a dataset made from another one: a copy"""
    alts = attrs.a[1:] if isop(attrs, "phi") else (attrs,)
    objs = [st.heap[x.a] if isinstance(x, V) and x.k == "ref" and x.a in st.heap and st.heap[x.a].kind == "dict" else None for x in alts]
    if any(o is None for o in objs):
        return st.new_dict(I.site(node, ctx) + ("attrs",), {}, open=attrs)
    d, maybe, opn, gen = {}, set(), None, ()
    for o in objs:
        maybe |= set(o.f["maybe"])
        opn = opn or o.f["open"]
        gen += tuple(o.f["gen"])
        for k, x in o.f["d"].items():
            d.setdefault(k, []).append(x)
    for k in d:
        if len(d[k]) < len(objs):
            maybe.add(k)
        d[k] = M.phi(d[k]) if len(set(d[k])) > 1 else d[k][0]
    r = st.new_dict(I.site(node, ctx) + ("attrs",), d, open=opn)
    st.mut(r.a).f.update(maybe=frozenset(maybe), gen=tuple(dict.fromkeys(gen))[:24])
    return r


UNBOUND = {"is_file", "exists", "is_dir", "resolve", "expanduser", "stat", "open", "read_bytes", "read_text", "write_text", "unlink", "glob", "total_seconds", "replace", "timestamp"}


def instant(x):
    """value to sort a time that is known by"""
    if isop(x, "np:datetime64"):
        return instant(x.a[1])
    if isop(x, "datetime") and all(isc(y) and isinstance(cv(y), (int, float)) for y in x.a[1:]):
        return tuple(cv(y) for y in x.a[1:])
    return None


# calls that change the process for every later call
PROCESS = ("os.environ.", "os.putenv", "os.unsetenv", "os.chdir", "os.fchdir", "os.umask", "os.setuid", "os.nice", "locale.setlocale", "numpy.seterr", "numpy.seterrcall", "numpy.set_printoptions", "numpy.random.seed", "random.seed",
    "xarray.set_options", "pandas.set_option", "sys.setrecursionlimit", "sys.path.", "sys.modules.", "signal.signal", "socket.setdefaulttimeout", "gc.disable", "gc.enable", "time.tzset",
    "threading.Thread", "atexit.register", "codecs.register", "decimal.setcontext", "csv.field_size_limit", "importlib.reload")  # fmt: skip
READS_ONLY = ("get", "keys", "items", "values", "copy")


def ext_call(I, st, d, args, kw, node, ctx):
    if any(d == p or p.endswith(".") and d.startswith(p) and d.rsplit(".", 1)[1] not in READS_ONLY for p in PROCESS):
        I.emit(st, "mutate", (("process", d), "call"), node, ctx)
    if d.startswith("builtins."):
        n = d[9:]
        if n == "dict.fromkeys":
            r = b_seq(I, st, "list", args[:1], {}, node, ctx)
            out = []
            for s, v in r:
                items = M.concrete_items(I, s, v) if not isinstance(v, R) else None
                if items is None:
                    out.append((s, v))
                else:
                    out.append((s, s.new_dict(I.site(node, ctx), {i: (args[1] if len(args) > 1 else NONE) for i in items})))
            return out
        if "." in n:
            # str.strip(x) style
            cls, m = n.split(".", 1)
            if args:
                return method(I, st, args[0], m, args[1:], kw, node, ctx)
            return [(st, OP("x:" + n))]
        return builtin(I, st, n, args, kw, node, ctx)
    if d.startswith(("pathlib.Path.", "datetime.datetime.", "datetime.timedelta.")) and args and d.split(".")[2] in UNBOUND:
        return method(I, st, args[0], d.split(".")[2], args[1:], kw, node, ctx)
    for p in NONDET:
        if d == p or (p.endswith(".") and d.startswith(p)) or d.startswith(p + "."):
            I.emit(st, "nondet", (d,), node, ctx)
            return [(st, OP("x:" + d, *args, t={"datetime.datetime.now": "datetime"}.get(d, "any")))]
    if d in FS_WRITES:
        I.emit(st, "write", (d, args[0] if args else NONE, tuple(args[1:]) + op_kw(kw), NONE), node, ctx)
        return [(st, OP("x:" + d, *args))]
    top = d.split(".")[0]
    if top == "logging":
        I.emit(st, "log", (d, tuple(args)), node, ctx)
        return [(st, NONE if not d.endswith("getLogger") else EXT("logging"))]
    if top == "warnings":
        return [(st, NONE)]
    if d == "datetime.datetime":
        vals = list(args) + [kw.get(f) for f in DT_FIELDS[len(args) :]]
        vals = [C(0) if v is None else v for v in vals][:7]
        v = OP("datetime", *vals, t="datetime")
        if all(isc(x) for x in vals):
            return [(st, v)]
        return [(s, r if r is not None else v) for s, r in I.may_raise(st, "ValueError", v, node, ctx)]
    if d == "datetime.timedelta":
        tot = C(0)
        order = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
        d2 = dict(zip(order, args))
        d2.update({k: v for k, v in kw.items() if k in TD})
        for k, v in d2.items():
            tot = padd(tot, pmul(v, C(TD[k])) if isnum(v) else OP("tdpart", C(k), v, t="num"))
        return [(st, OP("td", tot, t="timedelta"))]
    if d in ("datetime.datetime.strptime", "datetime.datetime.fromisoformat", "dateutil.parser.parse", "dateutil.parser.isoparse"):
        opts = [TUP((C(a), b)) for a, b in sorted(kw.items())] + list(args[1:] if not d.endswith("strptime") else ())
        v = OP("parse", args[0], *opts, t="datetime")
        return [(s, r if r is not None else v) for s, r in I.may_raise(st, "ValueError", v, node, ctx)]
    if d in ("pathlib.Path", "pathlib.PurePath"):
        x = args[0] if args else C(".")
        t = st.types.get(x, x.t)
        if x is NONE:
            return [(st, raises(I, node, ctx, "TypeError"))]
        if t == "Path":
            return [(st, x)]
        v = OP("Path", x, t="Path")
        for y in args[1:]:
            v = OP("join", v, y, t="Path")
        return [(st, v)]
    if d in ("os.path.isfile", "os.path.exists", "os.path.isdir"):
        return [(st, OP({"isfile": "m:is_file", "exists": "m:exists", "isdir": "m:is_dir"}[d.split(".")[-1]], args[0], t="bool"))]
    if d == "os.path.expanduser":
        return [(st, args[0])]
    if d == "os.fspath":
        return [(st, args[0])]
    if d in ("gzip.open", "bz2.open", "lzma.open"):
        return comp_open(I, st, d, args, kw, node, ctx)
    if d in ("gzip.GzipFile", "bz2.BZ2File"):
        return comp_open(I, st, d, args, dict(kw, mode=kw.get("mode", C("rb"))), node, ctx)
    if d in ("gzip.decompress", "bz2.decompress", "zlib.decompress"):
        nm = "gunzip" if d[0] == "g" else "bunzip" if d[0] == "b" else "inflate"
        return [(st, OP(nm, args[0], t="bytes"))]
    if d == "ncompress.decompress" or d == "unlzw3.unlzw":
        return [(s, r if r is not None else OP("unlzw", args[0], t="bytes")) for s, r in I.may_raise(st, "ValueError", OP("unlzw", args[0]), node, ctx)]
    if d == "hatanaka.crx2rnx":
        x = args[0]
        out = []
        for s, v in (stream_m(I, st, x, st.heap[x.a], "read", [], {}, node, ctx) if x.k == "ref" and st.heap[x.a].kind == "stream" else [(st, x)]):
            if isinstance(v, R):
                out.append((s, v))
                continue
            for s2, r in I.may_raise(s, "hatanaka.HatanakaException", OP("crx2rnx", v), node, ctx):
                out.append((s2, r if r is not None else OP("crx2rnx", v, t="str")))
        return out
    if d == "zipfile.ZipFile":
        mode = arg(args, kw, 1, "mode", C("r"))
        if not (isc(mode) and cv(mode) == "r"):
            I.emit(st, "write", ("ZipFile", args[0], mode, NONE), node, ctx)
        out = []
        for s, r in I.may_raise(st, "zipfile.BadZipFile", OP("zip", args[0]), node, ctx):
            src = args[0]
            out.append((s, r if r is not None else M.new_stream(I, s, node, ctx, "zip", OP("bytes", src, t="bytes"), "r", src)))
        return out
    if d == "io.StringIO":
        x = args[0] if args else C("")
        nl = kw.get("newline", args[1] if len(args) > 1 else C("\n"))
        if nl is NONE and isop(x, "text"):
            x = OP(*x.a[:-1], C("universal"), t="str")
        return [(st, M.new_stream(I, st, node, ctx, "stringio", x, "r", None, owned=False))]
    if d == "io.BytesIO":
        return [(st, M.new_stream(I, st, node, ctx, "bytesio", args[0] if args else C(b""), "r", None, owned=False))]
    if d == "io.TextIOWrapper":
        b = args[0]
        enc, err, nl = arg(args, kw, 1, "encoding"), arg(args, kw, 2, "errors"), arg(args, kw, 3, "newline")
        if b.k == "ref" and st.heap[b.a].kind == "stream":
            o = st.heap[b.a]
            return [(st, M.new_stream(I, st, node, ctx, "textwrap", text(o.f["content"], enc, err, nl), "r", o.f["src"], wraps=(b.a,), owned=False))]
        return [(st, M.new_stream(I, st, node, ctx, "textwrap", text(b, enc, err, nl), "r", None))]
    if d == "io.open":
        return open_(I, st, args, kw, node, ctx)
    if d.startswith("argparse."):
        if d == "argparse.ArgumentParser":
            oid = st.alloc(I.site(node, ctx), Obj("ns", dict(d={}, decl=())))
            return [(st, REF(oid, "ns"))]
        return [(st, OP("x:" + d))]
    if d == "functools.partial":
        return [(st, OP("partial", args[0], TUP(args[1:]), tuple(kw.items()), t="function"))]
    if d in ("functools.lru_cache", "functools.cache", "functools.wraps"):
        return [(st, OP("deco", C(d)))]
    if d == "contextlib.closing":
        return [(st, OP("closing", args[0]))]
    if d == "contextlib.nullcontext":
        return [(st, OP("nullctx", args[0] if args else NONE))]
    if d == "contextlib.suppress":
        return [(st, OP("suppress", tuple(a.a.split("builtins.")[-1] for a in args)))]
    if d == "contextlib.ExitStack":
        oid = st.alloc(I.site(node, ctx), Obj("exitstack", dict(cbs=())))
        return [(st, REF(oid, "exitstack"))]
    if d == "itertools.islice":
        if len(args) == 2:
            return [(st, OP("islice", args[0], args[1], t="gen"))]
        if isc(args[1]) and cv(args[1]) in (0, None) and (len(args) < 4):
            return [(st, OP("islice", args[0], args[2], t="gen"))]
        return [(st, OP("x:islice", *args, t="gen"))]
    if d in ("itertools.chain", "itertools.chain.from_iterable"):
        parts = [M.concrete_items(I, st, a) for a in args]
        if d.endswith("chain") and all(p is not None for p in parts):
            return [(st, TUP([x for p in parts for x in p]))]
        return [(st, OP("x:chain", *args, t="gen"))]
    if d == "itertools.repeat" and len(args) == 2:
        return [(st, OP("x:repeat", *args, t="gen"))]
    if d in ("collections.OrderedDict",):
        return b_dict(I, st, args, kw, node, ctx)
    if d == "collections.deque":
        return b_seq(I, st, "list", args, {}, node, ctx)
    if d in ("copy.copy", "copy.deepcopy"):
        x = args[0]
        if x.k == "ref" and st.heap[x.a].kind in ("list", "set", "dict", "array", "ds"):
            return [(st, clone(I, st, x, node, ctx))]
        return [(st, x)]
    if d in ("math.ceil", "numpy.ceil"):
        x = args[0]
        if isop(x, "div") and d.startswith("math"):
            return [(st, M.ceildiv(x.a[1], x.a[2]))]
        if isc(x):
            import math

            return [(st, C(math.ceil(cv(x))))]
        return [(st, OP("ceil", x, t="int"))]
    if top == "math":
        import math

        n = d.split(".")[1]
        if all(isc(a) for a in args) and callable(getattr(math, n, None)):
            try:
                return [(st, C(getattr(math, n)(*[cv(a) for a in args])))]
            except (ValueError, TypeError, OverflowError):
                pass
        return [(st, OP("fn:" + n, *args, t="int" if n in ("floor", "trunc") else "bool" if n.startswith("is") else "num"))]
    if top == "numpy":
        return np_call(I, st, d[6:], args, kw, node, ctx)
    if top == "xarray":
        return xr_call(I, st, d[7:], args, kw, node, ctx)
    if d in ("dataclasses.field",):
        return [(st, OP("x:" + d, tuple(kw.items())))]
    if d.startswith("typing.") or d.startswith("dataclasses."):
        return [(st, OP("x:" + d, *args))]
    if d in ("sys.exit",):
        return [(st, raises(I, node, ctx, "SystemExit"))]
    if d == "pymap3d.ecef2geodetic" or d == "pymap3d.ecef.ecef2geodetic":
        v = OP("x:ecef2geodetic", *args, t="any")
        return [(st, v)]
    if d.endswith("Error") or d.endswith("Exception"):
        return [(st, EXC(d, tuple(args)))]
    I.unknown_calls.setdefault(d, I.loc(node, ctx))
    return [(st, OP("x:" + d, *args, *([op_kw(kw)] if kw else [])))]


def comp_open(I, st, d, args, kw, node, ctx):
    gz = d.startswith("gzip")
    nm = "gunzip" if gz else "bunzip" if d.startswith("bz2") else "unxz"
    src = args[0]
    mode = arg(args, kw, 1, "mode", C("rb"))
    md = cv(mode) if isc(mode) else "?"
    enc = kw.get("encoding", args[3] if len(args) > 3 else NONE)
    err = kw.get("errors", args[4] if len(args) > 4 else NONE)
    nl = kw.get("newline", NONE)
    if any(c in md for c in "wax?"):
        I.emit(st, "write", (d, src, mode, NONE), node, ctx)
    wraps = ()
    if src.k == "ref" and st.heap[src.a].kind == "stream":
        raw = st.heap[src.a].f["content"]
        wraps = ()
    else:
        raw = OP("bytes", src, t="bytes")
    out = []
    for s, r in I.may_raise(st, "OSError", OP("open", src), node, ctx):
        if r is not None:
            out.append((s, r))
        elif "t" in md:
            out.append((s, M.new_stream(I, s, node, ctx, "gz" if gz else "bz2", text(OP(nm, raw, t="bytes"), enc, err, nl), "r", src)))
        else:
            out.append((s, M.new_stream(I, s, node, ctx, "gzraw" if gz else "bz2raw", OP(nm, raw, t="bytes"), "r", src)))
    return out


def new_array(I, st, node, ctx, init, shape=NONE, elems=None, items=None, **k):
    oid = st.alloc(I.site(node, ctx), Obj("array", dict(init=init, src=None, srcver=None, idx=None, stores=(), log=(), shape=shape, elems=elems, items=items, uninit_src=None, **k)))
    return REF(oid, "ndarray")


def dtype_name(v):
    if v is None or v is NONE:
        return "float"
    if isc(v):
        return str(cv(v))
    if v.k == "ext":
        return v.a.split(".")[-1]
    return "?"


def np_call(I, st, n, args, kw, node, ctx):
    if kw.get("out", NONE) is not NONE:
        for x in kw["out"].a if kw["out"].k == "tup" else [kw["out"]]:
            I.mutated(st, x, "out=", node, ctx)
    if n in ("empty", "zeros", "ones", "full"):
        dt = kw.get("dtype", args[2 if n == "full" else 1] if len(args) > (2 if n == "full" else 1) else None)
        dn = dtype_name(dt)
        init = "uninit" if n == "empty" and dn not in ("object", "datetime", "O", "str", "Path", "dict", "list", "timedelta") else "filled"
        sh = arg(args, kw, 0, "shape")
        nd = len(sh.a) if sh.k == "tup" else 1
        fv = {"zeros": C(0), "ones": C(1), "full": arg(args, kw, 1, "fill_value"), "empty": NONE}[n]
        return [(st, new_array(I, st, node, ctx, init, shape=sh, fillv=fv, ndim=nd, dtype=dn))]
    if n in ("empty_like", "zeros_like", "ones_like", "full_like"):
        return [(st, new_array(I, st, node, ctx, "uninit" if n == "empty_like" else "filled", shape=OP("shapeof", args[0]), like=args[0], fillv=arg(args, kw, 1, "fill_value") if n == "full_like" else NONE))]
    if n in ("ndarray",):
        return [(st, new_array(I, st, node, ctx, "uninit", shape=arg(args, kw, 0, "shape")))]
    if n in ("array", "asarray", "atleast_1d", "asanyarray", "ascontiguousarray"):
        x = args[0]
        cast = kw.get("dtype", args[1] if len(args) > 1 else None)
        if isop(x) and x.a[0] in ("zip", "enumerate", "range"):
            r = b_seq(I, st, "list", [x], {}, node, ctx)
            x = r[0][1]
            st = r[0][0]
            if isinstance(x, R):
                return [(st, x)]
        items = M.concrete_items(I, st, x) if x.k in ("ref", "tup") else None
        if x.k == "ref" and st.heap[x.a].kind in ("list", "set"):
            o = st.heap[x.a]
            return [(st, new_array(I, st, node, ctx, "data", elems=o.f["elems"], items=tuple(items) if items is not None else None, of=x, cast=cast, size=o.f["len"], unord=bool(o.f.get("unord"))))]
        if x.k == "tup":
            return [(st, new_array(I, st, node, ctx, "data", elems=tuple(dict.fromkeys(x.a)), items=x.a, cast=cast, size=C(len(x.a))))]
        if x.k == "ref" and st.heap[x.a].kind == "array":
            if n == "asarray" or n == "atleast_1d":
                return [(st, x)]
            return array_m(I, st, x, st.heap[x.a], "copy", [], {}, node, ctx)
        r = OP("np:array", x, *([cast] if cast is not None else []), t="ndarray")
        I.emit(st, "view", (r, n != "array" or kw.get("copy") is FALSE), node, ctx)
        return [(st, r)]
    if n == "atleast_2d":
        x = args[0]
        if x.k == "ref":
            return [(st, x)]
        return [(st, x if x.t == "ndarray" else OP("np:" + n, x, t="ndarray"))]
    if n == "nan" or n == "inf":
        return [(st, EXT("numpy." + n))]
    if n in ("datetime64", "timedelta64"):
        return [(st, OP("np:" + n, *args, t="any"))]
    if I.pol.whole and n == "unique" and len(args) == 1 and not set(kw) - {"return_index"} and args[0].k in ("ref", "tup"):
        xs = small.known(st, args[0])
        ks = [instant(x) for x in xs] if xs else [None]
        if None not in ks:
            order = sorted({k: i for i, k in reversed(list(enumerate(ks)))}.items())
            its = [tuple(xs[i] for k, i in order), tuple(C(i) for k, i in order)]
            arrs = [new_array(I, st, node, ctx, "data", elems=its[j], items=its[j], size=C(len(order)), shape=TUP([C(len(order))]), ndim=1) for j in range(2 if kw else 1)]
            return [(st, TUP(arrs) if kw else arrs[0])]
    if n == "unique" and any(k in kw for k in ("return_index", "return_inverse", "return_counts")):
        parts = [OP("np:unique", *args, t="ndarray")]
        for k in ("return_index", "return_inverse", "return_counts"):
            if k in kw and isc(kw[k]) and cv(kw[k]):
                parts.append(OP("np:unique_" + k[7:], *args, t="ndarray"))
        return [(st, TUP(parts))]
    if I.pol.shapes and n in ("unique", "sort") and len(args) == 1 and not kw:
        xs = small.known(st, args[0]) if args[0].k in ("ref", "tup") else None
        if xs and all(isc(x) and type(cv(x)) is type(cv(xs[0])) and isinstance(cv(x), (str, int)) for x in xs):
            its = sorted({cv(x) for x in xs}) if n == "unique" else sorted(cv(x) for x in xs)
            its = tuple(C(x) for x in its)
            return [(st, new_array(I, st, node, ctx, "data", elems=its, items=its, size=C(len(its)), ndim=1))]
    if I.pol.shapes and n in ("nonzero", "where", "flatnonzero", "arange") and len(args) == 1:
        its = None
        if n == "arange":
            its = [C(k) for k in range(cv(args[0]))] if small.intc(args[0]) and cv(args[0]) <= 400 else None
        else:
            xs = M.concrete_items(I, st, args[0])
            if xs is not None and all(isc(x) for x in xs):
                its = [C(k) for k, x in enumerate(xs) if cv(x)]
        if its is not None:
            v = new_array(I, st, node, ctx, "data", elems=tuple(its), items=tuple(its), size=C(len(its)), ndim=1)
            return [(st, v if n in ("arange", "flatnonzero") else TUP((v,)))]
    if n == "nonzero" or (n == "where" and len(args) == 1):
        return [(st, TUP((OP("np:nonzero", *args, t="ndarray"),)))]
    if n in ("float64", "float32"):
        return conv(I, st, "float", args, kw, node, ctx)
    if n in ("int64", "int32", "intp"):
        return conv(I, st, "int", args, kw, node, ctx)
    if n in ("isnan", "isfinite"):
        return [(st, OP("np:" + n, *args, t="bool" if args[0].t != "ndarray" else "ndarray"))]
    if n == "genfromtxt":
        if I.pol.shapes and args and args[0].k == "ref":
            o = st.heap[args[0].a]
            if o.kind == "stream" and o.f["kind"] in ("bytesio", "stringio"):
                args = [o.f["content"], *args[1:]]
            elif o.kind == "list" and o.f["items"] is not None:
                args = [OP("rows", *o.f["items"], t="list"), *args[1:]]
        v = OP("np:genfromtxt", *args, op_kw(kw), t="ndarray")
        return [(s, r if r is not None else v) for s, r in I.may_raise(st, "ValueError", v, node, ctx)]
    if n in ("copyto", "put", "place", "putmask"):
        I.mutated(st, args[0], n, node, ctx)
        if args[0].k == "ref" and st.heap[args[0].a].kind == "array":
            ob = st.mut(args[0].a)
            ob.f["stores"] += ((C(n), TUP(args[1:])),)
            if n == "copyto":
                ob.f["init"] = "filled" if ob.f["init"] == "uninit" else ob.f["init"]
        return [(st, NONE)]
    t = "ndarray"
    return [(st, OP("np:" + n, *args, *([op_kw(kw)] if kw else []), t=t))]


def xr_call(I, st, n, args, kw, node, ctx):
    if n == "Dataset":
        v, op1 = dict_items(st, arg(args, kw, 0, "data_vars"))
        c, op2 = dict_items(st, arg(args, kw, 1, "coords"))
        at = arg(args, kw, 2, "attrs")
        na = None
        if at is not NONE:
            na = clone(I, st, at, node, ctx) if at.k == "ref" and st.heap[at.a].kind == "dict" else at
        dv = arg(args, kw, 0, "data_vars")
        gen = ()
        if dv.k == "ref" and st.heap[dv.a].kind == "dict":
            gen = st.heap[dv.a].f["gen"]
        r = new_ds(I, st, node, ctx, v, c, na, (), op1, how=("Dataset",), varsrc=dv, coordsrc=arg(args, kw, 1, "coords"))
        if I.pol.made is not None:
            I.pol.made(st, r)
        return [(st, r)]
    if n in ("merge", "concat", "combine_by_coords", "align"):
        parts = M.concrete_items(I, st, args[0])
        src = parts if parts is not None else [args[0]]
        v, c = {}, {}
        first = True
        for p in src:
            if p.k == "ref" and st.heap[p.a].kind == "ds":
                for k, x in st.heap[p.a].f["vars"].items():
                    v[k] = M.phi([v[k], x]) if k in v else x
                for k, x in st.heap[p.a].f["coords"].items():
                    c[k] = M.phi([c[k], x]) if k in c else x
        how = (n, op_kw(kw))
        return [(st, new_ds(I, st, node, ctx, v, c, None, tuple(x for x in src), True, how=how))]
    if n in ("open_dataset", "load_dataset", "open_mfdataset"):
        p = arg(args, kw, 0, "filename_or_obj")
        g = kw.get("group", NONE)
        out = []
        for s, r in I.may_raise(st, "OSError", OP("open_dataset", p, g), node, ctx):
            if r is not None:
                out.append((s, r))
                continue
            site = I.site(node, ctx)
            at = s.new_dict(site + ("attrs",), I.pol.nc_attrs(p, g), open=OP("ncattrs", p, g))
            oid = s.alloc(site, Obj("ds", dict(vars={}, coords={}, attrs=at, parents=(), open=True, log=(), handle=n != "load_dataset", closed=False, src=p, group=g)))
            I.emit(s, "open", (oid, "netcdf", p, "r"), node, ctx)
            out.append((s, REF(oid, "Dataset")))
        return out
    if n == "DataArray":
        return [(st, OP("x:DataArray", *args, op_kw(kw), t="DataArray"))]
    return [(st, OP("x:xarray." + n, *args, *([op_kw(kw)] if kw else [])))]
