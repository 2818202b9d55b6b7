"""C30: names that setuptools redirects lead to the modules that are really loaded for them."""
import importlib
import os
import sys

from .. import core, project as P, sut

try:
    from hypothesis import strategies as st
except ImportError:
    st = None

IMPORTER = '''
import importlib.util
import sys


class VendorImporter:
    def __init__(self, root_name, vendored_names=(), vendor_pkg=None):
        self.root_name = root_name
        self.vendored_names = set(vendored_names)
        self.vendor_pkg = vendor_pkg or root_name.replace('extern', '_vendor')

    @property
    def search_path(self):
        yield self.vendor_pkg + '.'
        yield ''

    def _module_matches_namespace(self, fullname):
        root, base, target = fullname.partition(self.root_name + '.')
        return not root and any(map(target.startswith, self.vendored_names))

    def load_module(self, fullname):
        root, base, target = fullname.partition(self.root_name + '.')
        for prefix in self.search_path:
            try:
                extant = prefix + target
                __import__(extant)
                mod = sys.modules[extant]
                sys.modules[fullname] = mod
                return mod
            except ImportError:
                pass
        else:
            raise ImportError(target)

    def create_module(self, spec):
        return self.load_module(spec.name)

    def exec_module(self, module):
        pass

    def find_spec(self, fullname, path=None, target=None):
        return (
            importlib.util.spec_from_loader(fullname, self)
            if self._module_matches_namespace(fullname)
            else None
        )

    def install(self):
        if self not in sys.meta_path:
            sys.meta_path.append(self)


names = %r
VendorImporter(__name__, names%s).install()
'''

SHIM = '''
import sys


class DistutilsMetaFinder:
    def find_spec(self, fullname, path, target=None):
        if path is not None and not fullname.startswith('test.'):
            return None
        method_name = 'spec_for_{fullname}'.format(**locals())
        method = getattr(self, method_name, lambda: None)
        return method()

    def spec_for_distutils(self):
        import importlib
        import importlib.abc
        import importlib.util

        try:
            mod = importlib.import_module('setuptools._distutils')
        except Exception:
            return None

        class DistutilsLoader(importlib.abc.Loader):
            def create_module(self, spec):
                mod.__name__ = 'distutils'
                return mod

            def exec_module(self, module):
                pass

        return importlib.util.spec_from_loader(
            'distutils', DistutilsLoader(), origin=mod.__file__
        )


sys.meta_path.insert(0, DistutilsMetaFinder())
'''

NAMES = ["va", "vb", "vax", "vc"]
HOSTS = ["setuptools", "pkg_resources"]
SUBS = ["", "", "", ".x", ".x", ".y", ".y.z", ".w", ".x.w"]


@st.composite
def strategy_(draw):
    g = P.Gen(draw)
    hosts = {}
    for h in HOSTS:
        if g.chance(75 if h == "setuptools" else 40):
            hosts[h] = {"vendored": {n: g.pick(["mod", "pkg", "pkg", "ns"]) for n in NAMES if g.chance(55)}, "listed": [n for n in NAMES + ["gone"] if g.chance(75)],
                        "explicit": g.chance(50), "real": [n for n in ["vd", "va"] if g.chance(15)], "vinit": g.chance(80)}
    if not hosts:
        hosts["setuptools"] = {"vendored": {"va": "pkg"}, "listed": ["va"], "explicit": True, "real": [], "vinit": True}
    case = {"hosts": hosts, "tops": {n: g.pick(["mod", "pkg", "ns"]) for n in NAMES if g.chance(35)}, "distutils": "setuptools" in hosts and g.chance(40)}
    if case["distutils"] and g.chance(15):
        case["distutils"] = "missing"

    def target():
        k = g.weighted([("extern", 9), ("vendor", 2), ("top", 2), ("dist", 4 if case["distutils"] else 0), ("leaf", 1)])
        h = g.pick(sorted(hosts))
        n = g.pick(NAMES + ["gone", "vd"])
        if k == "dist":
            return g.pick(["distutils", "setuptools._distutils"]) + g.pick(["", ".core", ".core", ".cmd", ".command", ".command.bdist", ".nope"])
        return {"extern": f"{h}.extern.", "vendor": f"{h}._vendor.", "top": "", "leaf": ""}[k] + (n + g.pick(SUBS) if k != "leaf" else g.pick(["errno", "gc", h, h + ".extern", h + "._vendor"]))

    def stmt(pkg):
        k = g.weighted([("imp", 5), ("impas", 1), ("from", 5), ("rel", 3 if pkg else 0)])
        if k == "rel":
            return ["from", "." * g.int(1, pkg.count(".") + ("_distutils" not in pkg)) + g.pick(["", "", "x", "y"]), [g.pick(["x", "y", "z", "w", "attr", "va", "core"])]]
        t = target()
        if k == "from":
            if g.chance(50) and "." in t:
                t, n = t.rpartition(".")[::2]
                return ["from", t, sorted({n, g.pick(["x", "y", "attr", n, "vb"])})]
            return ["from", t, [g.pick(["x", "y", "w", "attr", "z", "core"])]]
        return [k, t]

    files = sorted(layout(case))
    bodies = {}
    for f in files:
        if f.endswith("extern/__init__.py"):
            continue
        if g.chance(30):
            pkg = os.path.dirname(f).replace("/", ".")
            bodies[f] = [stmt(pkg) for _ in range(g.weighted([(1, 3), (2, 1)]))]
    case["bodies"] = bodies
    case["importers"] = {i: [stmt("") for _ in range(g.int(1, 5))] for i in ("main.py", "pk/user.py", "script") if g.chance(90 if i == "main.py" else 30)} or {"main.py": [["imp", "setuptools"]]}
    case["order"] = g.shuffle(case["importers"])
    case["pre"] = [target() for _ in range(g.weighted([(0, 6), (1, 2), (2, 1)]))]
    case["builds"] = g.weighted([(1, 4), (2, 2), (3, 2)])
    return case


def strategy():
    return strategy_()


def layout(case):
    """The files of the project without the importers."""
    out = {}

    def add(base, kind):
        if kind == "mod":
            out[base + ".py"] = ""
            return
        for f in (["__init__.py"] if kind == "pkg" else []) + ["x.py", "y/__init__.py", "y/z.py"]:
            out[f"{base}/{f}"] = ""

    for h, d in case["hosts"].items():
        out[h + "/__init__.py"] = ""
        out[h + "/extern/__init__.py"] = IMPORTER % (tuple(d["listed"]), f", {h + '._vendor'!r}" if d["explicit"] else "")
        if d["vinit"]:
            out[h + "/_vendor/__init__.py"] = ""
        for n, kind in d["vendored"].items():
            add(f"{h}/_vendor/{n}", kind)
        for n in d["real"]:
            out[f"{h}/extern/{n}.py"] = ""
    for n, kind in case["tops"].items():
        add(n, kind)
    if case["distutils"] is True:
        for f in ("__init__", "core", "cmd", "command/__init__", "command/bdist"):
            out[f"setuptools/_distutils/{f}.py"] = ""
    return out


def render(stmts):
    out = []
    for i, s in enumerate(stmts):
        line = {"imp": lambda: f"import {s[1]}", "impas": lambda: f"import {s[1]} as z{i}", "from": lambda: f"from {s[1]} import " + ", ".join(s[2])}[s[0]]()
        out += ["try:", "    " + line, "except ImportError: pass"]
    return "\n".join(out + ["attr = 1", ""])


def corpus():
    out = []
    host = {"vendored": {"va": "pkg", "vb": "mod"}, "listed": ["va", "vb", "vc"], "explicit": True, "real": [], "vinit": True}
    base = {"tops": {"vc": "pkg"}, "distutils": True, "bodies": {}, "order": ["main.py"], "pre": []}
    for h in HOSTS:
        for s in (["imp", f"{h}.extern.va"], ["imp", f"{h}.extern.va.x"], ["imp", f"{h}.extern.va.y.z"], ["from", f"{h}.extern", ["va", "vb", "vc"]], ["from", f"{h}.extern.va", ["x", "attr"]],
                  ["from", f"{h}.extern.vc.y", ["z"]], ["imp", f"{h}.extern.vc"], ["imp", f"{h}.extern.gone"]):
            out.append({**base, "hosts": {"setuptools": host, h: host}, "importers": {"main.py": [s]}})
            out.append({**base, "hosts": {"setuptools": host, h: host}, "importers": {"main.py": [s, ["from", f"{h}.extern.vc.y", ["z"]], ["imp", f"{h}._vendor.va"], ["imp", f"{h}.extern.va.y"]]}})
    for s in (["imp", "distutils"], ["imp", "distutils.core"], ["from", "distutils", ["core"]], ["from", "distutils.command", ["bdist"]], ["imp", "setuptools._distutils.core"]):
        out.append({**base, "hosts": {"setuptools": host}, "importers": {"main.py": [s]}})
    return out


def install():
    """The shim is active from the start, as the .pth file of setuptools arranges."""
    sys.meta_path[:] = [f for f in sys.meta_path if type(f).__name__ != "DistutilsMetaFinder"]
    for n in list(sys.modules):
        if n.partition(".")[0] in ("setuptools", "pkg_resources", "distutils", "_distutils_hack", "pk", "main", *NAMES):
            del sys.modules[n]
    importlib.import_module("_distutils_hack")


def load(name):
    """What the interpreter loads for a name: [file] (None for a namespace package), or None."""
    try:
        mod = importlib.import_module(name)
    except (ImportError, AttributeError):
        return None
    if name.partition(".")[0] in sys.builtin_module_names:
        return [name]
    file = getattr(mod, "__file__", None)
    return [file] if file else sorted(mod.__path__)


def ask(names):
    return {n: sut.fork_call(load, n) for n in names}


def run(case, ctx):
    import modulegraph2 as mg2
    root = ctx.dir
    bodies = {**case["bodies"], **case["importers"]}
    for f, text in layout(case).items():
        P.write_file(os.path.join(root, f), text + render(bodies.get(f, [])))
    for f, stmts in case["importers"].items():
        P.write_file(os.path.join(root, f), render(stmts))
    P.write_file(os.path.join(root, "pk/__init__.py"), "")
    P.write_file(os.path.join(root, "_distutils_hack/__init__.py"), SHIM)
    sut.use_path(root)
    install()

    def targets(pkg, stmts):
        """[(name, None | names)] with absolute names."""
        for s in stmts:
            name = s[1]
            if name.startswith("."):
                name = importlib.util.resolve_name(name, pkg) if pkg else None
            yield s, name

    # every node that stands for a file: its name decides what its relative imports are
    base_of = {}
    wanted = set()

    def collect(f, pkg):
        for s, name in targets(pkg, bodies.get(f, [])):
            if name:
                wanted.add(name)
                if s[0] == "from":
                    wanted.update(f"{name}.{n}" for n in s[2])

    for n in case["pre"]:
        try:
            importlib.import_module(n)
        except (ImportError, AttributeError):
            pass
        ctx.label("imported before")
    before = dict(sys.modules)
    for no in range(case.get("builds", 1)):
        # (only the last one is looked at)
        mg = ctx.sut("ModuleGraph()", mg2.ModuleGraph)
        mg.add_excludes(sorted(set(sys.stdlib_module_names) - {"errno", "gc"}))
        for f in case["order"] if not no % 2 else case["order"][::-1]:
            if f == "script":
                ctx.sut(f"add_script (graph {no})", mg.add_script, "script")
            else:
                ctx.sut(f"add_module({f!r}) (graph {no})", mg.add_module, f[:-3].replace("/", "."))
    lost = [n for n, m in before.items() if sys.modules.get(n) is not m]
    ctx.check(not lost, "sys.modules", lambda: f"{lost} are no longer in sys.modules as they were")

    def final(node):
        seen = set()
        while isinstance(node, mg2.AliasNode) and node.identifier not in seen:
            seen.add(node.identifier)
            out = [t for _, t in mg.outgoing(node) if t.identifier == node.actual_module]
            ctx.check(len(out) == 1, "alias", lambda: f"{node!r} has no edge to what it stands for")
            node = out[0]
        return node

    def where(node):
        """The same answer as that of load()."""
        node = final(node)
        if isinstance(node, mg2.MissingModule):
            return None
        if isinstance(node, mg2.BuiltinModule):
            return [node.name]
        if isinstance(node, mg2.NamespacePackage):
            return sorted(str(p) for p in node.search_path)
        return [str(source(node))]

    def source(node):
        return node.init_module.filename if isinstance(node, mg2.Package) else node.filename

    def rel(f):
        return os.path.relpath(f, root) if f else None

    nodes = []
    for node in mg.iter_graph():
        if isinstance(node, mg2.Script):
            nodes.append((node, "script", ""))
        elif isinstance(node, (mg2.SourceModule, mg2.Package)) and source(node) is not None and str(source(node)).startswith(root + "/"):
            f = rel(str(source(node)))
            pkg = node.name if isinstance(node, mg2.Package) else node.name.rpartition(".")[0]
            nodes.append((node, f, pkg))
    for node, f, pkg in nodes:
        collect(f, pkg)
    # (the oracle starts from scratch)
    real = sut.fork_call(fresh, sorted(wanted))

    redirected = 0
    for node, f, pkg in nodes:
        if f not in bodies:
            continue
        need, loose = [], False
        for s, name in targets(pkg, bodies[f]):
            if name is None:
                continue
            need.append((s, name, real[name]))
            if s[0] == "from" and real[name] is not None:
                for n in s[2]:
                    got = real[f"{name}.{n}"]
                    if n in bound(bodies, real[name], root):
                        loose = True
                    elif got is not None:
                        need.append((s, f"{name}.{n}", got))
        out = [(t.identifier, where(t)) for _, t in mg.outgoing(node)]
        found = [w for _, w in out]
        for s, name, got in need:
            redirected += name.partition(".")[0] == "distutils" or ".extern." in name
            ctx.label("redirected:" + ("missing" if got is None else "found" if got and str(got[0]).startswith(root) else "other"))
            ctx.check(got in found, "not-included", lambda: f"{node.identifier} ({f}): {s} loads {name} from {got}; edges to {out}")
        legal = [w for _, _, w in need]
        for ident, w in out:
            if loose or w in legal or ident == node.identifier.rpartition(".")[0]:
                continue
            # names that are no modules
            ctx.check(w is None and any(s[0] == "from" and ident.rpartition(".")[2] in s[2] for s in bodies[f]), "extra", lambda: f"{node.identifier} ({f}): edge to {ident} ({w}) for {bodies[f]}; expected {need}")
    for node in mg.iter_graph():
        if isinstance(node, mg2.AliasNode):
            ctx.check(not isinstance(final(node), mg2.AliasNode), "alias", lambda: f"{node!r} leads to an alias")
    ctx.nontrivial(redirected)


def bound(bodies, files, root):
    """The names that the module in one of *files* gets from its import statements."""
    out = set()
    for f in files:
        for i, s in enumerate(bodies.get(os.path.relpath(f, root), []) if f.startswith(root) else []):
            out |= {s[1].partition(".")[0]} if s[0] == "imp" else {f"z{i}"} if s[0] == "impas" else set(s[2])
    return out


def fresh(names):
    install()
    return ask(names)
