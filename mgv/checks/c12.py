"""C12: analysing a program does not run it and leaves the interpreter alone."""
import gc
import importlib
import io
import os
import signal
import sys
import threading
import types
import warnings

from .. import config, model as M, project as P, sut

MARKS = "marks.txt"


def post(g, p):
    names = [m["name"] for m in p["mods"]]
    if g.chance(30):
        config.config(g, p, implies=2, excludes=1)
    p["pre"] = [g.pick(names) for _ in range(g.weighted([(0, 5), (1, 3), (2, 2)]))]
    p["nospec"] = [g.pick(names + ["zza"]) for _ in range(g.weighted([(0, 7), (1, 3)]))]
    p["fail"] = {m["name"]: g.pick(["raise ValueError('x')", "raise SystemExit(3)", "import zza"]) for m in p["mods"] if m["kind"] == "pkg" and g.chance(20)}
    ops = []
    for k, n in p["roots"]:
        ops.append([{"m": "module", "s": "script"}[k], n])
    for _ in range(g.int(0, 3)):
        k = g.pick(["source", "package", "hook", "report", "dists", "again", "badscript", "baddist", "cli"])
        if k == "source":
            ops.append([k, g.pick([f"import {g.pick(names)}", f"from {g.pick(names)} import sa, va", "import ("])])
        elif k in ("package", "hook", "again"):
            ops.append([k, g.pick(names)])
        elif k == "cli":
            n = g.pick(names)
            ops.append([k, g.pick([["-p", "pathx", "-o", "out.html", n], ["-p", "pathx", "-p", "pathy", "-o", "nodir/out.html", n], ["-p", "pathx", "-s", "nosuch.py"],
                                   ["-s", "-p", "pathx", "bad.script"], ["-d", "-p", "pathx", "nosuchdist"], ["-p", "pathx", "-f", "dot", "-o", "out.dot", "--exclude-stdlib", n, "zz"],
                                   ["-x", n, "-p", "pathx", "-o", "out.html", n + ".sa"], ["-f", "nosuch", "-p", "pathx", n], ["-p", "pathx"], ["-s", "-p", "pathx", "-o", "out.html", "good.script"]])])
        else:
            ops.append([k])
    # text that looks a bit like the declaration of a namespace package
    p["talk"] = {m["name"]: g.pick(TALK) for m in p["mods"] if m["kind"] in ("pkg", "mod") and g.chance(25)}
    p["ops"] = g.draw(P.st.permutations(ops)) if len(ops) > 1 and g.chance(50) else ops


TALK = [
    "# extends pkgutil.extend_path",
    "x1 = __path__ if '__path__' in globals() else 'pkgutil'",
    '"""pkg_resources.declare_namespace(__name__)"""',
    "def f1(pkgutil):\n    return pkgutil.extend_path(__path__, __name__)",
    "x1 = __import__",
    "x1 = __import__('errno')",
    "x1 = 'pkg_resources', __name__, __file__",
    "try:\n    __path__.append('.')\nexcept NameError:\n    pass",
    "__path__ = []  # not pkgutil",
    "def extend_path(path, name):\n    return path\n__path__ = extend_path(__path__ if '__path__' in globals() else [], 'pkgutil')",
    "x1 = 'pkgutil.extend_path(__path__, __name__)', __import__",
    "x1 = lambda pkg_resources: pkg_resources.declare_namespace(__name__)",
    "def __getattr__(name):\n    raise AttributeError(name, __import__)",
]


class Gen(P.ProjectGen):
    def body(self, me, depth, in_def, at_module, most):
        # packages import little, so that what they import when they are run leaves others alone
        if depth == 0 and me["kind"] == "pkg":
            most = min(most, 1)
        return super().body(me, depth, in_def, at_module, most)


def strategy():
    return P.project_strategy(gen=Gen, post=post, ext=False, max_top=4)


def mark(name):
    return [f"print({name!r}, file=open({MARKS!r}, 'a'))"]


def state():
    import modulegraph2  # noqa: F401
    return {
        "sys.path": list(sys.path), "sys.meta_path": list(sys.meta_path), "sys.path_hooks": list(sys.path_hooks), "cwd": os.getcwd(),
        "warnings.filters": list(warnings.filters), "sys.argv": list(sys.argv), "environ": dict(os.environ), "sys.stdout": sys.stdout, "sys.stderr": sys.stderr,
        "sys.stdin": sys.stdin, "sys.excepthook": sys.excepthook, "recursion limit": sys.getrecursionlimit(), "gc": gc.isenabled(), "bytecode": sys.dont_write_bytecode,
        "SIGINT": signal.getsignal(signal.SIGINT), "threads": threading.active_count(), "umask": umask(), "sys.flags": sys.flags, "trace": (sys.gettrace(), sys.getprofile()),
        "showwarning": warnings.showwarning, "import": __builtins__["__import__"], "pycache_prefix": sys.pycache_prefix, "displayhook": sys.displayhook,
    }


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def run(case, ctx):
    import modulegraph2
    import modulegraph2.__main__ as mgmain
    r = P.Render(guard=True)
    body = {m["name"]: m.get("body") or [] for m in case["mods"]}
    P.write_project(case, ctx.dir, guard=True, mark=mark)
    for n, text in case.get("talk", {}).items():
        kind = next(m["kind"] for m in case["mods"] if m["name"] == n)
        with open(os.path.join(ctx.dir, P.module_path({"name": n, "kind": kind}, None)), "a") as fp:
            fp.write(text + "\n")
    for n, line in case["fail"].items():
        with open(os.path.join(ctx.dir, P.module_path({"name": n, "kind": "pkg"}, None)), "a") as fp:
            fp.write(line + "\n")
    P.write_file(os.path.join(ctx.dir, "bad.script"), "import errno\nx = (\n")
    P.write_file(os.path.join(ctx.dir, "good.script"), mark("good.script")[0] + f"\nimport {case['mods'][0]['name']}\n")
    sut.use_path(ctx.dir)
    kinds = {m["name"]: m["kind"] for m in case["mods"]}
    files = tree(ctx.dir)
    before = set()
    for n in case["pre"]:
        try:
            importlib.import_module(n)
        except (Exception, SystemExit):
            pass
        before.add(n)
    for n in case["nospec"]:
        m = types.ModuleType(n)
        if n not in sys.modules:
            sys.modules[n] = m
            m.__spec__ = None
            if kinds.get(n) in ("pkg", "ns"):
                m.__path__ = [os.path.join(ctx.dir, n.replace(".", "/"))]
        # (an imported package with this name stays as it is)
    if os.path.exists(MARKS):
        os.unlink(MARKS)
    mg = ctx.sut("ModuleGraph()", modulegraph2.ModuleGraph)
    sut.configure(ctx, case, mg)
    ident0 = {k: id(getattr(sys, k)) for k in ("path", "meta_path", "path_hooks", "modules", "argv")}
    mods0 = dict(sys.modules)
    s0 = state()
    looked = set()
    for op in case["ops"]:
        do(ctx, mg, mgmain, op, looked)
        s1 = state()
        for k in s0:
            ctx.check(same(s0[k], s1[k]), f"state:{k}", lambda: f"{op} changed {k}: {s0[k]!r} -> {s1[k]!r}"[:1500])
        for k, v in ident0.items():
            ctx.check(id(getattr(sys, k)) == v, f"state:{k}", lambda: f"{op} replaced sys.{k}")
        for n, m in mods0.items():
            ctx.check(sys.modules.get(n) is m, "state:modules", lambda: f"{op} replaced sys.modules[{n!r}] ({m!r} -> {sys.modules.get(n)!r})"[:1000])
    # files
    now = tree(ctx.dir)
    new = now - files - {MARKS, "out.html", "out.dot"}
    ctx.check(not new and files <= now, "files", lambda: f"files appeared: {sorted(new)}, gone: {sorted(files - now)}")
    # what was run
    marks = set()
    if os.path.exists(MARKS):
        with open(MARKS) as fp:
            marks = {ln.strip() for ln in fp}
    scripts = {s["name"] for s in case["scripts"]} | {"good.script"}
    ctx.check(not marks & scripts, "script-run", lambda: f"scripts were run: {sorted(marks & scripts)}")
    parents = set()
    names = {i.identifier for i in mg.nodes()} | looked
    for i in names:
        while "." in i and not i.startswith("."):
            i = i.rpartition(".")[0]
            parents.add(i)
    dump = M.Dump(mg, ctx.dir)
    # the packages that may be run, and whatever these import
    model = M.Model(case)
    allowed, todo = set(), [n for n in parents if kinds.get(n) in ("mod", "pkg")]
    while todo:
        n = todo.pop()
        if n in allowed:
            continue
        allowed.add(n)
        if "." in n:
            todo.append(n.rpartition(".")[0])
        mod = model.mods.get(n)
        if mod is None:
            continue
        for rec in mod.recs:
            base = model.resolve(mod, rec.level, rec.module)
            if base is None:
                continue
            todo.append(base)
            if rec.kind == "from":
                todo += [f"{base}.{nm}" for nm, _ in rec.names]
            if rec.kind == "star":
                pass
        todo += [x for x in [case["fail"].get(n, "").partition("import ")[2]] if x]
    extra = marks - allowed
    ctx.check(not extra, "module-run", lambda: f"modules were run that are no parent of a name in the graph: {sorted(extra)}; run: {sorted(marks)}")
    leaves = {n for n in names if kinds.get(n) in ("mod", "pkg") and n not in allowed}
    ctx.label(f"not to be run:{min(len(leaves), 5)}")
    if marks:
        ctx.label("packages were run")
    ctx.nontrivial(bool(leaves))


def same(a, b):
    return a == b


def tree(d):
    out = set()
    for base, dirs, files in os.walk(d):
        for f in files:
            out.add(os.path.relpath(os.path.join(base, f), d))
    return out


def do(ctx, mg, mgmain, op, looked):
    k = op[0]
    ctx.label("op:" + k)
    if k == "module":
        ctx.sut("add_module", mg.add_module, op[1])
    elif k == "script":
        try:
            ctx.sut("add_script", mg.add_script, op[1], allowed=(ValueError,))
        except ValueError:
            pass
    elif k == "again":
        ctx.sut("add_module", mg.add_module, op[1])
    elif k == "source":
        try:
            ctx.sut("add_dependencies_for_source", mg.add_dependencies_for_source, op[1], allowed=(SyntaxError,))
        except SyntaxError:
            pass
    elif k in ("package", "hook"):
        with mg.hook_context():
            node = ctx.sut("add_module", mg.add_module, "gc")
            ctx.sut(f"import_{k}", mg.import_package if k == "package" else mg.import_module, node, op[1])
    elif k == "report":
        ctx.sut("report", mg.report, io.StringIO())
    elif k == "dists":
        ctx.sut("distributions", lambda: list(mg.distributions()))
    elif k == "badscript":
        try:
            mg.add_script("bad.script")
        except SyntaxError:
            pass
    elif k == "baddist":
        try:
            mg.add_distribution("no-such-distribution")
        except ValueError:
            pass
    elif k == "cli":
        # the graph of the command line is another one: remember the names it looks at
        graphs = []
        cls = type(mg)
        orig = cls.__init__

        def keep(self, *args, **kwds):
            orig(self, *args, **kwds)
            graphs.append(self)

        cls.__init__ = keep
        try:
            mgmain.main(op[1])
        except (SystemExit, OSError, SyntaxError, ValueError):
            ctx.label("cli failed")
        finally:
            cls.__init__ = orig
            for g in graphs:
                looked.update(n.identifier for n in g.nodes())
