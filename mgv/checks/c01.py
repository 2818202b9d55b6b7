"""C01: run the program, compare what it imports with the graph."""
import builtins
import importlib
import importlib.util
import json
import os
import subprocess
import sys
import types

from .. import model as M, project as P, realcode as R, sut


def strategy():
    return P.project_strategy(extra_roots=False, max_stmts=5)


def execute(root, kind, name):
    """Run one root for real; returns (modules loaded, {importer: [imported]})."""
    records = set()
    orig = builtins.__import__

    def hook(nm, globals=None, locals=None, fromlist=(), level=0):
        mod = orig(nm, globals, locals, fromlist, level)
        who = (globals or {}).get("__name__")
        if who is None:
            return mod
        if level:
            absname = importlib.util.resolve_name("." * level + nm, (globals.get("__spec__").parent if globals.get("__spec__") else globals.get("__package__")))
        else:
            absname = nm
        records.add((who, absname))
        for f in fromlist or ():
            sub = f"{absname}.{f}"
            if f != "*" and sub in sys.modules and getattr(mod, f, None) is sys.modules[sub]:
                records.add((who, sub))
        return mod

    before = set(sys.modules)
    sys.dont_write_bytecode = True
    builtins.__import__ = hook
    try:
        try:
            if kind == "m":
                importlib.import_module(name)
            else:
                main = types.ModuleType("__main__")
                main.__file__ = name
                sys.modules["__main__"] = main
                with open(os.path.join(root, name)) as fp:
                    exec(compile(fp.read(), name, "exec", dont_inherit=True), main.__dict__)
        except Exception as exc:
            err = repr(exc)
        else:
            err = None
    finally:
        builtins.__import__ = orig
    return [sorted(set(sys.modules) - before), sorted(records), err]


# Importing real modules in a fresh interpreter, prints the import statements that were executed.
RECORD = """
import sys, json, builtins, importlib, importlib.util, io, opcode
names = json.loads(sys.argv[1])
sys.path[:0] = json.loads(sys.argv[2])
sys.dont_write_bytecode = True
IMPORT_NAME = opcode.opmap["IMPORT_NAME"]
orig = builtins.__import__
records = set()
getframe = sys._getframe

def found(name):
    # not for modules that were made in memory
    spec = getattr(sys.modules.get(name), "__spec__", None)
    return spec is not None and spec.name == name and spec.loader is not None

def hook(nm, globals=None, locals=None, fromlist=(), level=0):
    mod = orig(nm, globals, locals, fromlist, level)
    f = getframe(1)
    # only statements in the code of a module (not: calls of __import__, generated code, borrowed globals)
    if f.f_code.co_code[f.f_lasti] != IMPORT_NAME or f.f_globals is not globals:
        return mod
    who, spec = globals.get("__name__"), globals.get("__spec__")
    if who is None or spec is None or sys.modules.get(who) is None or sys.modules[who].__dict__ is not globals:
        return mod
    if f.f_code.co_filename != globals.get("__file__"):
        return mod
    name = importlib.util.resolve_name("." * level + nm, spec.parent) if level else nm
    if found(name):
        records.add((who, name))
    for x in fromlist or ():
        sub = name + "." + x
        if x != "*" and sub in sys.modules and getattr(mod, x, None) is sys.modules[sub] and found(sub):
            records.add((who, sub))
    return mod

builtins.__import__ = hook
out, sys.stdout = sys.stdout, io.StringIO()
for n in names:
    try:
        importlib.import_module(n)
    except BaseException:
        pass
builtins.__import__ = orig
out.write(json.dumps(sorted(records)))
"""
NOT_HERE = {"antigravity", "this", "idlelib", "test", "lib2to3", "turtledemo", "__main__", "turtle", "tkinter"}
CPU_LIMIT = 100
MEM_LIMIT = 6 << 30


def corpus():
    std = [n for n in sorted(sys.stdlib_module_names) if n not in NOT_HERE]
    groups = [(std[i::3], False) for i in range(3)]
    groups += [(["numpy"], True), (["hypothesis", "pytest", "jsonschema"], True), (["lark", "libcst", "yaml", "packaging"], True), (["attr", "click", "jinja2", "requests", "pygments", "rich"], True)]
    return [{"modules": names, "site": site} for names, site in groups]


def run_modules(case, ctx):
    """Import modules that are installed here, compare with their graph."""
    import modulegraph2
    path = [R.SITE] if case["site"] else []
    names = [n for n in case["modules"] if not path or os.path.exists(os.path.join(R.SITE, n))]
    env = {"PATH": os.environ.get("PATH", ""), "HOME": ctx.dir, "PYTHONDONTWRITEBYTECODE": "1"}
    res = subprocess.run([sys.executable, "-I", "-c", RECORD, json.dumps(names), json.dumps(path)], capture_output=True, text=True, stdin=subprocess.DEVNULL, env=env, cwd=ctx.dir)
    if res.returncode:
        ctx.label("program failed")
        return
    records = json.loads(res.stdout)
    sut.use_path(*path)
    mg = ctx.sut("ModuleGraph()", modulegraph2.ModuleGraph)
    for n in names:
        ctx.sut(f"add_module({n!r})", mg.add_module, n)
    dump = M.Dump(mg, ctx.dir)
    ctx.label("real modules", len(names))
    ctx.label("real imports", len(records))
    ctx.nontrivial(len(records) > 50)
    # modules that are imported in another way (by functions in C, importlib.import_module) are not looked at
    follow, todo = set(), list(names)
    while todo:
        n = todo.pop()
        if n not in follow:
            follow.add(n)
            todo += [n.rpartition(".")[0]] if "." in n else []
            todo += [what for who, what in records if who == n]
    for who, what in records:
        if who not in follow:
            continue
        ctx.check(who in dump.reachable, "imported-not-reachable", lambda: f"importing {names} imports {who}, which is not reachable in the graph")
        ctx.check(what in dump.out(who), "import-edge-missing", lambda: f"{who} executed an import of {what}, no such edge; has {sorted(dump.out(who))}")
        ctx.check(dump.cls[what] not in BAD, "imported-not-found", lambda: f"{who} imports {what}, which is a {dump.cls[what]}")


BAD = {"MissingModule", "ExcludedModule", "InvalidModule", "InvalidRelativeImport"}


def run(case, ctx):
    if "modules" in case:
        run_modules(case, ctx)
        return
    case["roots"] = case["roots"][:1]
    kind, name = case["roots"][0]
    P.write_project(case, ctx.dir, call=True, guard=True)
    sut.use_path(ctx.dir)
    for m in P.LEAFS:
        sys.modules.pop(m, None)
    loaded, records, err = sut.fork_call(execute, ctx.dir, kind, name)
    if err:
        ctx.label("program raised")
    mg = sut.build(ctx, case, ctx.dir)
    dump = M.Dump(mg, ctx.dir)
    names = {m["name"] for m in case["mods"]} | set(P.LEAFS)
    loaded = [n for n in loaded if n in names]
    ctx.nontrivial(len(loaded) >= 2)
    ctx.label(f"loaded:{min(len(loaded), 8)}")
    for n in loaded:
        ctx.check(n in dump.reachable, "imported-not-reachable",
                  lambda: f"running {name} imports {n}, which is not reachable in the graph ({sorted(dump.reachable)})")
        ctx.check(dump.cls[n] not in BAD, "imported-not-found", lambda: f"running {name} imports {n}, which is a {dump.cls[n]}")
    for who, what in records:
        src = name if who == "__main__" else who
        if what not in names or what not in loaded and what not in sys.modules:
            continue
        if src not in names and src != name:
            continue
        ctx.check(src in dump.nodes and what in dump.out(src), "import-edge-missing",
                  lambda: f"{src} executed an import of {what}, no such edge; has {sorted(dump.out(src))}")
