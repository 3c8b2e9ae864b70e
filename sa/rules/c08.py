"""C08: nothing is written unless the caller asked for output.  (C09 uses the scenarios of this module.)"""
import ast
from .glue import *
from .c06 import KINDS

OUT = SYM("out", "Path")
PACK = ("load", "rinexobs", "rinexnav", "load_sp3")
# calls that change the file system whatever object they are made on
ALWAYS = {
    "to_netcdf", "to_zarr", "to_csv", "to_hdf", "to_pickle", "to_parquet", "to_json", "to_excel", "to_feather", "savefig", "savetxt", "savez", "savez_compressed",
    "write_text", "write_bytes", "mkdir", "makedirs", "unlink", "rmdir", "rmtree", "touch", "symlink_to", "hardlink_to", "chmod", "NamedTemporaryFile", "TemporaryFile",
    "TemporaryDirectory", "mkdtemp", "mkstemp", "copyfile", "copytree", "copy2", "extractall", "extract", "tofile", "memmap", "urlretrieve", "save_mfdataset", "imsave",
}
# calls that do so on these modules only
ON = {
    "os": {"remove", "rename", "replace", "removedirs", "renames", "truncate", "link", "symlink", "system", "utime", "chown", "mkfifo", "write", "open", "popen"},
    "shutil": {"move", "copy", "copyfileobj", "make_archive", "unpack_archive"},
    "np": {"save"}, "numpy": {"save"}, "pickle": {"dump"}, "json": {"dump"}, "shelve": {"open"}, "dbm": {"open"}, "sqlite3": {"connect"},
}
# programs run as filters on their standard input
SUB = {"run", "call", "check_call", "check_output", "Popen", "getoutput", "getstatusoutput"}
FILTERS = {"crx2rnx"}
HARMLESS = {"logging"}


def check(prog, R, tier):
    R.rule("silent", "without an output location no path writes", 8)
    R.rule("target", "with an output location only the requested file, or <input>.nc in the requested directory, is written", 8)
    R.rule("sites", "every call able to change files is one of those writes", 1)
    R.rule("readonly", "files are opened for reading", 4)
    sites = set()
    for kind in KINDS:
        for fn in PACK:
            if serves(fn, kind):
                R.guard("silent", f"{fn}:{kind}", silent, prog, R, fn, kind)
                r = R.guard("target", f"{fn}:{kind}", target, prog, R, fn, kind)
                sites |= r or set()
    R.guard("sites", "package", scan, prog, R, sites)


def serves(fn, kind):
    return fn == "load" or (fn == "load_sp3") == (kind == "sp3") and (fn != "rinexobs" or kind[:3] == "obs") and (fn != "rinexnav" or kind[:3] == "nav")


def scenario(prog, fn, kind, out, oracle=None, overwrite=SYM("overwrite", "bool"), suffix=False):
    mod = "sp3" if fn == "load_sp3" else "base"
    stubs = set(READERS) - ({"georinex.sp3.load_sp3"} if kind == "sp3" else set())

    def orc(st, a):
        if not suffix and a.a[0] == "eq" and isc(a.a[2]) and cv(a.a[2]) == ".nc" and contains(a.a[1], lambda y: y is PATH) and not contains(a.a[1], lambda y: y is OUT):
            return False
        return oracle(st, a) if oracle is not None else None

    pol = CallPolicy(KINDS[kind], stubs=stubs, prog=prog, events={"write", "open", "close"}, oracle=orc)
    if kind == "sp3":
        pol.events |= {"loop"}
    args = [PATH, out]
    return runfn(prog, mod, fn, args, dict(overwrite=overwrite), pol)


def writes(st):
    return [(d, loc) for k, d, loc in st.events() if k == "write"]


def all_states(I, res):
    seen = []
    for x in I.summaries:
        seen += [s for i, k, s, v in x.paths]
    return seen + [s for k, s, v in res]


def silent(prog, R, fn, kind):
    I, res = scenario(prog, fn, kind, NONE, suffix=True)
    R.used(I)
    bad = [w for s in all_states(I, res) for w in writes(s)]
    R.ob("silent", f"{fn}:{kind}", not bad, bad[0][1] if bad else fn, f"{bad[0][0][0]} to {show(bad[0][0][1])} without an output location" if bad else "")


def canon_path(p):
    """Path(x), x.expanduser(), resolve() name the same file"""
    while p.k == "op" and p.a[0] in ("Path", "expanduser", "m:expanduser", "m:resolve", "m:absolute", "str"):
        p = p.a[1]
    return p


def allowed(p, st):
    p = canon_path(p)
    if p is OUT:
        return True
    if isop(p, "join") and canon_path(p.a[1]) is OUT and len(p.a) == 3:
        n = p.a[2]
        if isop(n, "concat") and len(n.a) == 3 and n.a[2] is C(".nc") and isop(n.a[1], "attr") and n.a[1].a[2] == "name" and canon_path(n.a[1].a[1]) is PATH:
            return True
        return False
    if not contains(p, lambda y: y is OUT):
        return False
    if p.k == "op" and (p.a[0] in ("m:with_suffix", "m:with_name", "m:with_stem", "attr") or isop(p, "concat")):
        return False
    return None


def target(prog, R, fn, kind):
    I, res = scenario(prog, fn, kind, OUT)
    R.used(I)
    ok, why, w = True, "", fn
    n, sites = 0, set()
    for s in all_states(I, res):
        for d, loc in writes(s):
            n += 1
            sites.add(loc)
            a = allowed(d[1], s) if d[0] == "to_netcdf" and isinstance(d[1], V) else False
            if a is not True and ok is not False:
                ok, why, w = a, f"{d[0]} to {show(d[1]) if isinstance(d[1], V) else d[1]}", loc
    if not n and ok:
        ok, why = None, "no path writes the output"
    R.ob("target", f"{fn}:{kind}", ok, w, why)
    return sites


# ------------------------------------------------------------------ syntactic effect scan
def scan(prog, R, reached):
    lines = {f"{loc[0]}:{loc[1]}" for loc in reached}
    n = 0
    for name, m in sorted(prog.modules.items()):
        for node in ast.walk(m.tree):
            if not isinstance(node, ast.Call):
                continue
            f = node.func
            base, attr = None, None
            if isinstance(f, ast.Attribute):
                attr = f.attr
                base = f.value.id if isinstance(f.value, ast.Name) else None
            elif isinstance(f, ast.Name):
                attr = f.id
            if attr is None or base in HARMLESS:
                continue
            where = f"{name}:{node.lineno}"
            text = ast.unparse(node)[:100]
            short = f"{name.split('.', 1)[-1]}.{func_of(m.tree, node)}.{attr}"
            if attr == "to_netcdf":
                n += 1
                hit = where in lines
                R.ob("sites", short, True if hit else None, where, "" if hit else f"{text} is not on an analysed output path")
            elif base == "subprocess" and attr in SUB:
                R.ob("sites", short, filter_call(m.tree, node), where, f"{text} may change files")
            elif attr in ALWAYS or (base in ON and attr in ON[base]):
                R.ob("sites", short, False, where, f"{text} changes files outside the requested output")
            elif attr in ("open", "ZipFile", "GzipFile", "BZ2File", "fdopen", "LZMAFile", "TarFile") or (base == "tarfile" and attr == "open"):
                R.ob("readonly", short, mode_of(node, attr, base), where, f"{text} may open for writing")
    if not n:
        R.ob("sites", "to_netcdf", None, "", "no to_netcdf call found")


def func_of(tree, node):
    best = "<module>"
    for d in ast.walk(tree):
        if isinstance(d, (ast.FunctionDef, ast.AsyncFunctionDef)) and d.lineno <= node.lineno <= (d.end_lineno or d.lineno):
            best = d.name
    return best


def mode_of(node, attr, base):
    """True: read mode, False: a write mode, None: not known"""
    m = next((k.value for k in node.keywords if k.arg == "mode"), None)
    if m is None:
        # Path.open(mode), module.open(file, mode)
        pos = 1 if attr != "open" or base in (None, "gzip", "bz2", "lzma", "io", "tarfile", "codecs", "builtins") and isinstance(node.func, ast.Name) or base in ("gzip", "bz2", "lzma", "io", "tarfile", "codecs") else 0
        if attr == "open" and base not in (None, "gzip", "bz2", "lzma", "io", "tarfile", "codecs") or isinstance(node.func, ast.Attribute) and base is None:
            # method of an object: archive.open(member, mode) or path.open(mode)
            ms = [a for a in node.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            if not ms:
                return True if len(node.args) <= 1 else None
            return not any(c in x.value for x in ms for c in "wax+")
        m = node.args[pos] if len(node.args) > pos else None
    if m is None:
        return True
    if isinstance(m, ast.Constant) and isinstance(m.value, str):
        return not any(c in m.value for c in "wax+")
    return None


def filter_call(tree, node):
    """a known stream filter whose output is captured: True; otherwise not known"""
    names = {c.value for c in ast.walk(node) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
    if any(">" in n for n in names):
        return False
    # the program name may come from a variable of the module
    for x in ast.walk(node):
        if isinstance(x, ast.Name):
            for a in ast.walk(tree):
                if isinstance(a, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in a.targets):
                    names |= {c.value for c in ast.walk(a.value) if isinstance(c, ast.Constant) and isinstance(c.value, str)}
    return True if names & FILTERS else None
