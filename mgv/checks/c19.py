"""C19: import_package pulls in the whole package."""
import importlib.machinery
import importlib.util
import marshal
import os
import sys

from .. import model as M, project as P, sut

try:
    from hypothesis import strategies as st
except ImportError:
    st = None

SO = ".cpython-312-x86_64-linux-gnu.so"
NAMES = ["sa", "sb", "qa", "qb", "é", "Class", "import", "_x", "__main__", "s1", "__init__x"]
FILES = ["py"] * 8 + ["pyc", "pyc", "ext", "extplain", "abi3", "badsrc", "badpyc", "dangling", "symlink", "fifo", "otherabi", "dirpy"]
DATA = ["n.txt", "n.pyi", "n", "n.py.bak", "n.zz.py", "n-x.py", "1n.py", ".n.py", "n .py", ".py", "n.PY", "n.so.1", "n~", "\udcff.py", "__init__.txt"]
DIRS = ["pkg"] * 6 + ["pkgpyc", "pkgext", "pkgbad", "pkgfail", "pkgexit", "ns", "ns", "symlink", "loop", "looproot", "locked"]
DATADIRS = ["n-d", "1d", "n.d", "__pycache__", ".git", "n~"]


@st.composite
def strategy_(draw):
    g = P.Gen(draw)
    names = []

    def imports():
        return [g.pick(["errno", "gc", "helper", "zza", "zzb.zz"] + names) for _ in range(g.weighted([(0, 4), (1, 4), (2, 2)]))]

    def files():
        out = {}
        for _ in range(g.int(0, 4)):
            n = g.pick(NAMES)
            out[n] = [g.pick(FILES), imports()]
        return out

    def folder(prefix, depth, kind=None):
        kind = kind or g.pick(DIRS)
        names.append(prefix)
        f = {"kind": kind, "imports": imports(), "files": files(), "data": [g.pick(DATA) for _ in range(g.weighted([(0, 5), (1, 2), (2, 1)]))],
             "datadirs": [g.pick(DATADIRS) for _ in range(g.weighted([(0, 5), (1, 2)]))], "dirs": {}}
        if kind not in ("symlink", "loop", "looproot"):
            for n in f["files"]:
                names.append(prefix + "." + n)
            if depth < 3:
                for _ in range(g.weighted([(0, 3), (1, 3), (2, 2), (3, 1)])):
                    n = g.pick(NAMES)
                    f["dirs"][n] = folder(prefix + "." + n, depth + 1)
        return f

    entries = [{"pk": folder("pk", 0, g.pick(["pkg", "pkg", "pkg", "ns", "pkgfail", "pkgbad", "pkgexit", "pkgpyc", "pkgext"]))}]
    if g.chance(35):
        entries.append({"pk": folder("pk", 0, g.pick(["ns", "ns", "pkg"]))})
        if g.chance(70):
            entries[0]["pk"]["kind"] = "ns"
    idents = [n for n in dict.fromkeys(names) if "import" not in n]
    calls = []
    for _ in range(g.weighted([(1, 6), (2, 3), (3, 1)])):
        calls.append([g.pick(["context", "post", "missing"]), g.weighted([("pk", 12), (g.pick(idents), 6), (g.pick(["zza", "helper", "errno", "pk.zz", "helper.zz"]), 3)])])
    return {"entries": entries, "calls": calls, "preload": [g.pick(idents) for _ in range(g.weighted([(0, 5), (1, 3), (2, 1)]))],
            "excludes": [g.pick(idents) for _ in range(g.weighted([(0, 6), (1, 2)]))]}


def strategy():
    return strategy_()


def text(imports):
    # (some names are keywords)
    return "".join(f"import {n}\n" for n in imports if "import" not in n.split(".")) + "va = 1\n"


def pyc(src):
    return importlib.util.MAGIC_NUMBER + b"\0" * 12 + marshal.dumps(compile(src, "x", "exec"))


class Tree:
    def __init__(self, case, root):
        self.root = root
        self.imports = {}   # path of a file -> imports
        self.paths = []
        self.locked = []
        P.write_file(os.path.join(root, "elsewhere.py"), "import errno\n")
        self.imports[os.path.join(root, "elsewhere.py")] = ["errno"]
        for i, e in enumerate(case["entries"]):
            p = os.path.join(root, f"p{i}")
            os.makedirs(p)
            self.paths.append(p)
            self.top = os.path.join(p, "pk")
            self.folder(self.top, e["pk"])
        P.write_file(os.path.join(self.paths[0], "helper.py"), "import gc\n")
        self.imports[os.path.join(self.paths[0], "helper.py")] = ["gc"]
        P.write_file(os.path.join(self.paths[0], "host.py"), "import errno\n")
        self.imports[os.path.join(self.paths[0], "host.py")] = ["errno"]

    def put(self, path, data, imports=()):
        if os.path.lexists(path):
            return
        if isinstance(data, str):
            data = data.encode()
        with open(path, "wb") as fp:
            fp.write(data)
        self.imports[path] = [n for n in imports if "import" not in n.split(".")]

    def folder(self, d, f):
        k = f["kind"]
        if k in ("loop", "looproot"):
            # to a directory that contains this one
            if not os.path.lexists(d):
                os.symlink(os.path.dirname(d) if k == "loop" else self.top, d)
            return
        if k == "symlink":
            # to a package elsewhere
            real = os.path.join(self.root, "linked")
            if not os.path.isdir(real):
                os.makedirs(os.path.join(real, "qa"))
                self.put(real + "/__init__.py", "import errno\n", ["errno"])
                self.put(real + "/sb.py", "import gc\n", ["gc"])
                self.put(real + "/qa/sb.py", "import gc\n", ["gc"])
            if not os.path.lexists(d):
                os.symlink(real, d)
            return
        os.makedirs(d, exist_ok=True)
        src = text(f["imports"])
        if k == "pkg":
            self.put(d + "/__init__.py", src, f["imports"])
        elif k == "locked":
            self.put(d + "/__init__.py", "import zzlocked\n")
            self.put(d + "/sa.py", "import zzlocked\n")
            self.locked.append(d)
        elif k == "pkgpyc":
            self.put(d + "/__init__.pyc", pyc(src), f["imports"])
        elif k == "pkgext":
            self.put(d + "/__init__" + SO, b"")
        elif k == "pkgbad":
            self.put(d + "/__init__.py", src + "x = (\n")
        elif k == "pkgfail":
            self.put(d + "/__init__.py", src + "raise RuntimeError\n", f["imports"])
        elif k == "pkgexit":
            self.put(d + "/__init__.py", src + "raise SystemExit(1)\n", f["imports"])
        for n, (k, imports) in f["files"].items():
            b = os.path.join(d, n)
            if k == "py":
                self.put(b + ".py", text(imports), imports)
            elif k == "pyc":
                self.put(b + ".pyc", pyc(text(imports)), imports)
            elif k == "ext":
                self.put(b + SO, b"")
            elif k == "extplain":
                self.put(b + ".so", b"")
            elif k == "abi3":
                self.put(b + ".abi3.so", b"")
            elif k == "otherabi":
                self.put(b + ".cpython-311-x86_64-linux-gnu.so", b"")
            elif k == "badsrc":
                self.put(b + ".py", "import errno\nx = (\n")
            elif k == "badpyc":
                self.put(b + ".pyc", b"\0\1\2")
            elif k == "dangling" and not os.path.lexists(b + ".py"):
                os.symlink("/nonexistent/x.py", b + ".py")
            elif k == "symlink" and not os.path.lexists(b + ".py"):
                os.symlink(os.path.join(self.root, "elsewhere.py"), b + ".py")
                self.imports[b + ".py"] = ["errno"]
            elif k == "fifo" and not os.path.lexists(b + ".py"):
                os.mkfifo(b + ".py")
            elif k == "dirpy" and not os.path.lexists(b + ".py"):
                os.makedirs(b + ".py", exist_ok=True)
        for n in f["data"]:
            try:
                self.put(os.fsencode(os.path.join(d, n)).decode("utf-8", "surrogateescape"), b"\xff\0data")
            except OSError:
                pass
        for n in f["datadirs"]:
            if os.path.lexists(os.path.join(d, n)):
                continue
            os.makedirs(os.path.join(d, n))
            self.put(os.path.join(d, n, "sa.py"), "import zzinvalid\n")
        for n, sub in f["dirs"].items():
            self.folder(os.path.join(d, n), sub)


def find(name, path):
    """PathFinder.find_spec, without its need to import the packages around namespace packages."""
    portions = []
    for entry in path:
        finder = sys.path_importer_cache.get(entry) or importlib.machinery.PathFinder._path_importer_cache(entry)
        s = finder.find_spec(name) if finder is not None else None
        if s is None:
            continue
        if s.loader is not None:
            return s
        portions += s.submodule_search_locations
    if not portions:
        return None
    s = importlib.machinery.ModuleSpec(name, None)
    s.submodule_search_locations = portions
    return s


class Oracle:
    """What the import system can find, without running anything."""

    def __init__(self, tree, excludes):
        self.tree, self.excludes, self.specs = tree, set(excludes), {}

    def spec(self, name):
        if name not in self.specs:
            head = name.rpartition(".")[0]
            if head:
                parent = self.spec(head)
                path = parent.submodule_search_locations if parent is not None else None
            else:
                path = self.tree.paths
            s = find(name, path or [])
            if s is None and name in M.BUILTIN_LEAFS:
                s = importlib.machinery.BuiltinImporter.find_spec(name)
            self.specs[name] = s
        return self.specs[name]

    def excluded(self, name):
        parts = name.split(".")
        for i in range(len(parts)):
            if ".".join(parts[:i + 1]) in self.excludes:
                return True
            if self.spec(".".join(parts[:i + 1])) is None:
                return False
        return False

    def below(self, name):
        """All modules below a package, excluded ones are not looked into."""
        out = set()
        todo = [name]
        while todo:
            n = todo.pop()
            s = self.spec(n)
            if s is None or s.submodule_search_locations is None or self.excluded(n):
                continue
            parents = set()
            head = n.rpartition(".")[0]
            while head:
                parents.update(os.path.realpath(d) for d in self.spec(head).submodule_search_locations or ())
                head = head.rpartition(".")[0]
            for d in s.submodule_search_locations:
                # links to a containing directory are not followed again
                if os.path.realpath(d) in parents:
                    continue
                try:
                    entries = os.listdir(d)
                except OSError:
                    continue
                for e in entries:
                    stem = e.partition(".")[0]
                    if not stem.isidentifier() or stem in ("__init__", "__pycache__"):
                        continue
                    sub = f"{n}.{stem}"
                    if sub not in out and self.spec(sub) is not None:
                        out.add(sub)
                        todo.append(sub)
        return out

    def cls(self, name):
        if self.excluded(name):
            return ("ExcludedModule",)
        s = self.spec(name)
        if s is None:
            return ("MissingModule",)
        if s.submodule_search_locations is not None:
            return ("Package",) if s.origin is not None else ("NamespacePackage",)
        if isinstance(s.loader, importlib.machinery.ExtensionFileLoader):
            return ("ExtensionModule",)
        if s.loader is importlib.machinery.BuiltinImporter:
            return ("BuiltinModule",)
        return ("SourceModule", "BytecodeModule", "InvalidModule")

    def imports(self, name):
        s = self.spec(name)
        if s is None or self.excluded(name):
            return []
        return self.tree.imports.get(os.path.realpath(s.origin) if s.origin else None, [])


def run(case, ctx):
    import modulegraph2
    tree = Tree(case, ctx.dir)
    if tree.locked:
        for d in tree.locked:
            os.chmod(d, 0)
        from .c11 import drop_caps
        drop_caps()
        ctx.label("locked")
    sut.use_path(*tree.paths)
    o = Oracle(tree, case["excludes"])
    mg = ctx.sut("ModuleGraph()", modulegraph2.ModuleGraph)
    ctx.sut("add_excludes", mg.add_excludes, case["excludes"])
    seen = []
    mg.add_post_processing_hook(lambda g, n: seen.append(n.identifier))
    for n in case["preload"]:
        ctx.sut(f"add_module({n!r})", mg.add_module, n)
        ctx.label("preloaded")
    host = ctx.sut("add_module('host')", mg.add_module, "host")
    pulled, wanted = [], []
    for i, (how, name) in enumerate(case["calls"]):
        ctx.label("call:" + how)
        call(ctx, mg, modulegraph2, how, name, host, i)
        pulled.append(name)
        wanted.append((how, name, i))
        verify(ctx, mg, o, case, wanted)
    ctx.check(len(seen) == len(set(seen)), "hooks", lambda: f"post processing hooks called more than once: {sorted(n for n in seen if seen.count(n) > 1)}")
    done = {n.identifier for n in mg.iter_graph()}
    ctx.check(done <= set(seen), "unprocessed", lambda: f"not fully processed: {sorted(done - set(seen))}")
    kinds = {o.cls(n)[0] for n in o.below("pk")}
    ctx.nontrivial(len(o.below(case["calls"][0][1])) >= 2)
    for k in kinds:
        ctx.label("class:" + k)
    # other names behave like those of import_module
    for how, name in case["calls"]:
        s = o.spec(name)
        if s is None or s.submodule_search_locations is None or o.excluded(name):
            a, b = sut_graph(ctx, modulegraph2, case, name, "import_package"), sut_graph(ctx, modulegraph2, case, name, "import_module")
            ctx.check(a.graph() == b.graph(), "not-a-package", lambda: f"import_package({name!r}) and import_module give different graphs: {a.diff(b, ('package', 'module'))}")
            ctx.label("not a package")


def sut_graph(ctx, modulegraph2, case, name, method):
    mg = ctx.sut("ModuleGraph()", modulegraph2.ModuleGraph)
    mg.add_excludes(case["excludes"])
    host = ctx.sut("add_module('host')", mg.add_module, "host")

    def go():
        with mg.hook_context():
            getattr(mg, method)(host, name)
    ctx.sut(f"{method}({name!r})", go)
    return M.Dump(mg, ctx.dir)


def call(ctx, mg, modulegraph2, how, name, host, i):
    result = []

    def go(node):
        result.append(mg.import_package(node, name))

    if how == "context":
        def inside():
            with mg.hook_context():
                go(host)
        ctx.sut(f"import_package({name!r})", inside)
    elif how == "post":
        # when a new node is processed
        trigger = f"zzpost{i}"

        def hook(g, node):
            if node.identifier == trigger:
                go(host)
        mg.add_post_processing_hook(hook)
        ctx.sut(f"import_package({name!r}) in a hook", mg.add_module, trigger)
    else:
        trigger = f"zzmiss{i}"

        def missing(g, importing, n):
            if n == trigger:
                go(host)
        mg.add_missing_hook(missing)
        ctx.sut(f"import_package({name!r}) in a missing hook", mg.add_module, trigger)
    ctx.check(len(result) == 1, "hook-calls", lambda: f"the hook that calls import_package was called {len(result)} times")
    ctx.check(result[0] is mg.find_node(name), "return", lambda: f"import_package({name!r}) returned {result[0]!r}, the graph has {mg.find_node(name)!r}")


def verify(ctx, mg, o, case, wanted):
    d = M.Dump(mg, ctx.dir)
    mine = M.static_closure(d, "host")
    allowed = set()
    todo = ["host", *case["preload"]]
    for how, name, i in wanted:
        ctx.check(M.DEFAULT in d.out("host").get(name, ()), "edge", lambda: f"no edge from host to {name}: {d.out('host')}")
        below = o.below(name)
        for n in sorted({name, *below}):
            ctx.check(n in d.nodes, "lost", lambda: f"{n} can be imported, it is not in the graph after import_package({name!r}); nodes {sorted(d.nodes)}")
            ctx.check(n in mine, "unreachable", lambda: f"{n} cannot be reached from host after import_package({name!r})")
        todo += [name, *below]
        if how != "context":
            allowed.add(f"zzpost{i}" if how == "post" else f"zzmiss{i}")
    # everything that can be there
    while todo:
        n = todo.pop()
        if n in allowed:
            continue
        allowed.add(n)
        head = n.rpartition(".")[0]
        if head:
            todo.append(head)
        todo += o.imports(n)
    ctx.check(d.reachable <= allowed, "invented", lambda: f"names that are not modules of the package: {sorted(d.reachable - allowed)}")
    for n in sorted(d.reachable):
        if n.startswith("zz"):
            continue
        ctx.check(d.cls[n] in o.cls(n), "class", lambda: f"{n} is a {d.cls[n]}, expected {o.cls(n)}")
        for t in o.imports(n):
            ctx.check(t in d.out(n), "unprocessed", lambda: f"{n} imports {t}, it has edges {sorted(d.out(n))}")
        if "." in n:
            ctx.check(n.rpartition(".")[0] in d.out(n), "parent", lambda: f"{n} has no edge to its package: {sorted(d.out(n))}")
