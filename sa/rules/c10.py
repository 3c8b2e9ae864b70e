"""C10: the container a text comes in never changes the characters the readers see."""
from .openscen import *
from .glue import *
from .records import streams_of

FN = SYM("fn", "Path")
WRAP = {"plain": None, "gzip": "gunzip", "bzip2": "bunzip", "lzw": "unlzw"}
TEXTS = {"RINEX": RIN, "CRINEX": CRX, "SP3": SP3}
HEADS = {"line", "text", "bytes", "gunzip", "bunzip", "unlzw", "member", "crx2rnx", "namelist", "elem"}


def check(prog, R, tier):
    R.rule("content", "the stream delivered is the ASCII text of the file, decompressed, from its start", 60)
    R.rule("once", "one stream is delivered per opened file", 60)
    R.rule("route", "every reader gets its text from that layer, Hatanaka-decompressed where it reads data", 8)
    for c, (sfx, magic) in CONTAINERS.items():
        cases = [(s, magic if c == "plain" else None) for s in sfx]
        if c == "plain":
            cases += [(".gza", magic), (".tar", b"RINE")]
        else:
            # by suffix in either case, by first bytes under any other name
            cases = [(s, magic) for s in sfx] + [(sfx[0].upper(), magic), (sfx[0].lower(), magic), (".rnx", magic), ("", magic), (".19d", magic)]
        for s, m in dict.fromkeys(cases):
            R.guard("content", f"{c} {s!r}", container, prog, R, c, s, m or b"    ")
    R.guard("route", "readers", route, prog, R)


def want(c, crinex):
    t = OP("text", BYTES if WRAP.get(c) is None else OP(WRAP[c], BYTES, t="bytes"), C("ascii"), C("ignore"), C("universal"), t="str")
    return OP("crx2rnx", t, t="str") if crinex else t


def same(c, got, crinex):
    """True/False/None: the delivered content is the one the file holds"""
    if c == "zip":
        x = got
        if crinex != isop(x, "crx2rnx"):
            return False if known(x) else None
        if crinex:
            x = x.a[1]
        if isop(x, "text") and isop(x.a[1], "member") and x.a[2:] == (C("ascii"), C("ignore"), C("universal")):
            m = x.a[1]
            return True if m.a[1] is BYTES or contains(m.a[1], lambda y: y is BYTES) else None
        return False if known(x) else None
    w = want(c, crinex)
    return True if got.k == w.k and got.a == w.a or got is w or show(got) == show(w) else (False if known(got) else None)


def known(x):
    """built from nothing but the pipeline's own steps"""
    return all(y.k != "op" or y.a[0] in HEADS for y in subterms(x)) and contains(x, lambda y: y is BYTES)


def container(prog, R, c, sfx, magic):
    for kind, text in TEXTS.items():
        for header in (False, True):
            for blanks in (0, 1) if kind == "CRINEX" else (0,):
                I, res = drive(prog, FN, header, OpenPolicy(sfx, magic, text, blanks))
                R.used(I)
                q = f"{c} {sfx or '(none)'} {kind}{' header' if header else ''}{' after a blank line' if blanks else ''}"
                ok, why, n, one, why1 = True, "", 0, True, ""
                crinex = kind == "CRINEX" and not header
                for k, st, v in res:
                    ms = [d for e, d, l in st.events() if e == "mark"]
                    if k == "raise":
                        e = v.exc.a[0]
                        if c == "zip" and contains_len(st):
                            continue  # an archive of several files
                        ok, why = False, f"a {c} file of {kind} text is refused with {e} (line {v.loc[1] if v.loc else '?'})"
                        continue
                    n += 1
                    if len(ms) != 1:
                        one, why1 = False, f"the body of the with statement runs {len(ms)} times"
                        continue
                    x, content, off, closed = ms[0]
                    if content is None:
                        ok, why = (None, f"delivers {show(x)[:80]}") if ok else (ok, why)
                        continue
                    s = same(c, content, crinex)
                    if s is not True:
                        if s is False or ok:
                            ok, why = s, f"delivers {show(content)[:160]}"
                    if off is not C(0):
                        if isc(off) or contains(off, lambda y: y.k == "sym"):
                            ok, why = False, f"delivered at line offset {show(off)[:60]}, not at its start"
                    if closed:
                        ok, why = False, "the stream delivered is closed already"
                if not n and ok:
                    ok, why = None, "no path delivers a stream"
                R.ob("content", q, ok, "rio.opener", why)
                R.ob("once", q, one, "rio.opener", why1)


def contains_len(st):
    return any(contains(a, lambda y: isop(y, "namelist") or (y.k == "sym" and isinstance(y.a, tuple) and y.a[0] == "len")) for a in st.facts)


DATA = {("obs2", "rinexobs2"): 0, ("obs2", "obstime2"): 0, ("obs3", "rinexobs3"): 0, ("obs3", "obstime3"): 0, ("nav2", "rinexnav2"): 0, ("nav2", "navtime2"): 0, ("nav3", "rinexnav3"): 0, ("nav3", "navtime3"): 0, ("sp3", "load_sp3"): 1}


class Routes(ReaderPolicy):
    events = frozenset({"open"})

    def intercept(self, I, st, name, selfv, args, kw, node, ctx):
        r = super().intercept(I, st, name, selfv, args, kw, node, ctx)
        if name == "georinex.rio.opener":
            f = args[0] if args else kw.get("fn")
            h = args[1] if len(args) > 1 else kw.get("header", FALSE)
            self.seen.add((f, h, I.loc(node, ctx)))
            # the stand-in stream is not an open of the reader's own
            ev = st.ev
            while ev and ev[1][0] == "open" and ev[1][2] == I.loc(node, ctx):
                ev = ev[0]
            st.ev = ev
        return r


def route(prog, R):
    for (mod, fn), extra in DATA.items():
        fdef(prog, f"georinex.{mod}.{fn}")
        info = {"obs2": obs2, "obs3": obs3, "nav2": lambda: nav2("N"), "nav3": nav3, "sp3": dict}[mod]()
        pol = Routes(info, events={"open"})
        pol.seen = set()
        pol.stop_loop = lambda x: bool(streams_of(x))
        I, res = runfn(prog, mod, fn, [PATH] + [NONE] * extra, {}, pol)
        R.used(I)
        ok, why = True, ""
        states = [s for k, s, v in res] + [s for x in I.summaries for h, k, s, v in x.paths]
        for s in states:
            for e, d, l in s.events():
                if e == "open" and contains_path(d):
                    ok, why = False, f"opens the file itself at line {l[1]} of {l[2]}"
        for f, h, l in pol.seen:
            if f is not PATH and not (f is not None and f.k == "ref"):
                ok, why = (None, f"opener is given {show(f)[:60]}") if ok else (ok, why)
            if h is not FALSE and not (l[2].rsplit(".", 1)[-1] in HEADERS):
                ok, why = False, f"data read at line {l[1]} of {l[2]} skips Hatanaka decompression"
        if not pol.seen and ok:
            ok, why = None, "no use of the opener seen"
        R.ob("route", f"{mod}.{fn}", ok, f"{mod}.{fn}", why)


HEADERS = ("obsheader2", "obsheader3", "navheader2", "navheader3", "rinexheader", "rinexinfo")


def contains_path(d):
    return any(isinstance(x, V) and contains(x, lambda y: y is PATH) for x in (d if isinstance(d, tuple) else (d,)))
