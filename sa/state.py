from __future__ import annotations
from .terms import *


class Obj:
    __slots__ = ("kind", "f", "origin", "_snap", "_kid", "_refs")

    def __init__(self, kind, f, origin=None):
        self.kind, self.f, self.origin = kind, f, origin
        self._snap = None
        self._kid = None
        self._refs = None

    def fresh(self):
        """caches are valid only for the very same field values"""
        cur = tuple(self.f.values())
        s = self._snap
        if s is None or len(s) != len(cur) or any(a is not b for a, b in zip(s, cur)):
            self._snap, self._kid, self._refs = cur, None, None

    def kid(self):
        self.fresh()
        k = self._kid
        if k is None:
            key = (self.kind,) + tuple((n, fid(x)) for n, x in self.f.items())
            k = self._kid = KIDS.setdefault(key, len(KIDS))
        return k

    def refs(self):
        self.fresh()
        r = self._refs
        if r is None:
            r = self._refs = direct_refs(self.f)
        return r

    def copy(self):
        return Obj(self.kind, dict(self.f), self.origin)

    def key(self):
        return self.kid()


KIDS = {}
_fid = {}


def fid(x):
    """hashable identity of a field value"""
    if not isinstance(x, (tuple, dict, list, set, frozenset)):
        return x
    if not x:
        return freeze(x)
    r = _fid.get(id(x))
    if r is None or r[0] is not x:
        key = freeze(x)
        r = _fid[id(x)] = (x, KIDS.setdefault(key, len(KIDS)))
    return ("#", r[1])


_vrefs = {}


def vrefs(v):
    """object ids a term mentions directly"""
    r = _vrefs.get(v)
    if r is None:
        if v.k == "ref":
            r = (v.a,)
        elif v.k in ("op", "tup", "bound", "exc", "poly"):
            r = direct_refs(v.a)
        else:
            r = ()
        _vrefs[v] = r
    return r


def direct_refs(x):
    if isinstance(x, V):
        return vrefs(x)
    out = ()
    if isinstance(x, dict):
        for k, v in x.items():
            out += direct_refs(k) + direct_refs(v)
    elif isinstance(x, (tuple, list, set, frozenset)):
        for v in x:
            if v.__class__ is V or isinstance(v, (V, tuple, list, set, frozenset, dict)):
                out += direct_refs(v)
    return tuple(dict.fromkeys(out)) if len(out) > 1 else out


def freeze(x):
    if isinstance(x, dict):
        return tuple((freeze(k), freeze(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return frozenset(x)
    return x


class R:
    """a raised exception as an evaluation result"""

    __slots__ = ("exc", "loc")

    def __init__(self, exc, loc=None):
        self.exc, self.loc = exc, loc


class St:
    __slots__ = ("frames", "heap", "mods", "facts", "known", "ev", "pend", "types", "counts", "dirty", "tags")

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.mods = {}
        self.facts = {}
        self.known = {}
        self.ev = ()
        self.pend = ()
        self.types = {}
        self.counts = {}
        self.dirty = ()
        self.tags = frozenset()

    def fork(self):
        s = St.__new__(St)
        s.frames = [dict(f) for f in self.frames]
        s.heap = dict(self.heap)
        s.mods = self.mods
        s.facts = dict(self.facts)
        s.known = dict(self.known)
        s.ev = self.ev
        s.pend = self.pend
        s.types = dict(self.types)
        s.counts = dict(self.counts)
        s.dirty = self.dirty
        s.tags = self.tags
        return s

    def alloc(self, site, obj):
        n = self.counts.get(site, 0)
        self.counts[site] = n + 1
        oid = (site, n)
        self.heap[oid] = obj
        return oid

    def mut(self, oid):
        o = self.heap[oid].copy()
        self.heap[oid] = o
        o.f.pop("last", None)
        return o

    def events(self):
        out = []
        e = self.ev
        while e:
            out.append(e[1])
            e = e[0]
        return out[::-1]

    def new_list(self, site, items=(), kind="list", origin=None):
        oid = self.alloc(site, Obj(kind, dict(items=tuple(items), elems=tuple(dict.fromkeys(items)), len=C(len(items)), log=()), origin))
        return REF(oid, kind)

    def new_dict(self, site, d=None, origin=None, open=None):
        oid = self.alloc(site, Obj("dict", dict(d=dict(d or {}), open=open, maybe=frozenset(), gen=(), log=()), origin))
        return REF(oid, "dict")


def reach(st, roots):
    """object ids reachable from values"""
    seen = set()
    todo = []
    for r in roots:
        todo.extend(direct_refs(r))
    heap = st.heap
    while todo:
        a = todo.pop()
        if a not in seen:
            seen.add(a)
            o = heap.get(a)
            if o is not None:
                todo.extend(o.refs())
    return seen
