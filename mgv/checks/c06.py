"""C06: packages spread over several search path entries, compared with really importing them."""
import importlib
import importlib.util
import marshal
import os
import pathlib
import sys
import types
import zipfile

from .. import project as P, sut
from .c09 import spelled

try:
    from hypothesis import strategies as st
except ImportError:
    st = None

INIT = {
    "regular": "va = 1\n",
    "empty": "",
    "pkgutil": "__path__ = __import__('pkgutil').extend_path(__path__, __name__)\n",
    "pkgres": "__import__('pkg_resources').declare_namespace(__name__)\n",
    "both": ("try:\n    __import__('pkg_resources').declare_namespace(__name__)\nexcept ImportError:\n"
             "    __path__ = __import__('pkgutil').extend_path(__path__, __name__)\n"),
    "extend": "from pkgutil import extend_path\n__path__ = extend_path(__path__, __name__)\n",
    "import": "import pkgutil\n__path__ = pkgutil.extend_path(__path__, __name__)\n",
    "asname": "import pkgutil as pu\nfrom pkgutil import extend_path as ep\n__path__ = pu.extend_path(__path__, __name__)\n",
    "pkgresimport": "import pkg_resources\npkg_resources.declare_namespace(__name__)\n",
    "pkgresfrom": "from pkg_resources import declare_namespace\ndeclare_namespace(__name__)\n",
    "bothimport": ("try:\n    import pkg_resources\n    pkg_resources.declare_namespace(__name__)\nexcept ImportError:\n"
                   "    from pkgutil import extend_path\n    __path__ = extend_path(__path__, __name__)\n"),
    "function": "def declare():\n    global __path__\n    from pkgutil import extend_path\n    __path__ = extend_path(__path__, __name__)\ndeclare()\n",
    "broken": "__path__ = __import__('pkgutil').extend_path(__path__, __name__)\nraise %s('x')\n",
}
TYPE = {"pkgutil": "pkgutil", "pkgres": "pkg_resources", "both": "pkg_resources", "regular": None, "empty": None,
        "extend": "pkgutil", "import": "pkgutil", "asname": "pkgutil", "pkgresimport": "pkg_resources", "pkgresfrom": "pkg_resources", "bothimport": "pkg_resources", "function": "pkgutil"}


@st.composite
def strategy_(draw):
    g = P.Gen(draw)
    mechs = ["implicit", "pkgutil", "pkgres", "both", "regular", "extend", "empty", "import", "pkgresfrom"]
    default = {}
    entries = []
    names = set()

    def tree(name, depth):
        if name not in default:
            default[name] = g.weighted([("implicit", 40), ("pkgutil", 22), ("pkgres", 18), ("both", 6), ("regular", 10), ("extend", 10), ("import", 4), ("asname", 2), ("pkgresimport", 3), ("pkgresfrom", 3), ("bothimport", 3), ("function", 2)])
        mech = default[name] if not g.chance(15) else g.pick(mechs)
        names.add(name)
        mods = [m for m in ("ma", "mb", "mc") if g.chance(40)]
        for m in mods:
            names.add(f"{name}.{m}")
        node = {"mech": mech, "mods": mods, "pkgs": {}}
        if g.chance(15):
            node["pyc"] = True
        if depth < 3:
            for s in ("sub", "deep"):
                if g.chance(35 if depth == 1 else 20):
                    node["pkgs"][s] = tree(f"{name}.{s}", depth + 1)
        return node

    for _ in range(g.weighted([(2, 5), (3, 4), (1, 1), (4, 2)])):
        e = {"kind": "zip" if g.chance(25) else "dir", "pkgs": {}, "mods": []}
        if e["kind"] == "dir" and g.chance(25):
            e["spell"] = g.pick(["link", "rel", "dots", "slash", "parentlink", "dot"])
        for top in ("na", "nb"):
            if g.chance(75 if top == "na" else 25):
                e["pkgs"][top] = tree(top, 1)
            elif g.chance(6):
                e["mods"].append(top)
        entries.append(e)
    cand = sorted(names) + [f"{n}.zz" for n in sorted(names)[:2]]
    order = draw(st.permutations(cand)) if cand else []
    k = g.int(0, 1)
    return {"entries": entries, "names": list(order), "via": "script" if k else "roots"}


def strategy():
    return strategy_()


def files_of(e):
    out, dirs = {}, []
    for m in e["mods"]:
        out[m + ".py"] = ""

    def rec(path, node):
        dirs.append(path + "/")
        if node["mech"] != "implicit":
            if node.get("pyc"):
                out[path + "/__init__.pyc"] = INIT[node["mech"]]
            else:
                out[path + "/__init__.py"] = INIT[node["mech"]]
        for m in node["mods"]:
            out[f"{path}/{m}.py"] = "vm = 1\n"
        for s, n in node["pkgs"].items():
            rec(f"{path}/{s}", n)

    for n, t in e["pkgs"].items():
        rec(n, t)
    return out, dirs


def stored(file, text):
    if file.endswith(".pyc"):
        return importlib.util.MAGIC_NUMBER + b"\0" * 12 + marshal.dumps(compile(text, file, "exec"))
    return text


def stub():
    import pkgutil  # noqa: F401

    m = types.ModuleType("pkg_resources")

    def declare_namespace(name):
        mod = sys.modules[name]
        mod.__path__ = pkgutil.extend_path(list(mod.__path__), name)
    m.declare_namespace = declare_namespace
    import importlib.machinery
    m.__spec__ = importlib.machinery.ModuleSpec("pkg_resources", None)
    sys.modules["pkg_resources"] = m


def observe(names):
    out = {}
    for n in names:
        try:
            m = importlib.import_module(n)
        except Exception:
            out[n] = None
            continue
        path = getattr(m, "__path__", None)
        kind = "module" if path is None else "ns" if getattr(m, "__file__", None) is None else "package"
        out[n] = [kind, None if path is None else [str(p) for p in path], getattr(m, "__file__", None)]
    # the path of a namespace package may have been extended by later imports
    for n, v in out.items():
        if v and v[1] is not None:
            v[1] = [str(p) for p in sys.modules[n].__path__]
    return out


def run(case, ctx):
    import modulegraph2
    paths = []
    init = {}
    for i, e in enumerate(case["entries"]):
        files, dirs = files_of(e)
        if e["kind"] == "dir":
            base = os.path.join(ctx.dir, f"e{i}")
            os.mkdir(base)
            for d in dirs:
                os.makedirs(os.path.join(base, d), exist_ok=True)
            for f, t in files.items():
                P.write_file(os.path.join(base, f), stored(f, t))
        else:
            base = os.path.join(ctx.dir, f"e{i}.zip")
            with zipfile.ZipFile(base, "w") as zf:
                for d in dirs:
                    zf.writestr(d, "")
                for f, t in files.items():
                    zf.writestr(f, stored(f, t))
        paths.append(spelled(ctx.dir, i, base, e.get("spell")))
        for f, t in files.items():
            init[os.path.realpath(os.path.join(base, f))] = t
    os.chdir(ctx.dir)
    stub()
    sut.use_path(*paths)
    names = case["names"]
    want = sut.fork_call(observe, names)
    mg = modulegraph2.ModuleGraph()
    mg.add_excludes(["pkgutil", "pkg_resources"])
    if case["via"] == "script":
        P.write_file(os.path.join(ctx.dir, "script.py"), "".join(f"import {n}\n" for n in names))
        ctx.sut("add_script", mg.add_script, "script.py")
    else:
        for n in names:
            ctx.sut(f"add_module({n!r})", mg.add_module, n)
    portions = [n for n, v in want.items() if v and v[1] and len(v[1]) > 1]
    ctx.nontrivial(bool(portions) and any(v for n, v in want.items() if n.rpartition(".")[0] in portions))
    for n in names:
        node = mg.find_node(n)
        ctx.check(node is not None, "no-node", lambda: f"no node for {n}")
        cls = type(node).__name__
        w = want[n]
        if w is None:
            ctx.label("not importable")
            ctx.check(cls == "MissingModule", "found-not-importable", lambda: f"{n} is a {cls} but cannot be imported")
            continue
        kind, path, file = w
        ctx.label(kind)
        text = init.get(os.path.realpath(file)) if file else None
        if kind == "module":
            ctx.check(cls == "SourceModule", "class", lambda: f"{n} is a {cls}, importing it gives a module")
            ctx.check(node.filename == pathlib.Path(file), "filename", lambda: f"{n}: filename {node.filename}, imported from {file}")
            continue
        if kind == "ns":
            ctx.check(cls == "NamespacePackage", "class", lambda: f"{n} is a {cls}, importing it gives an implicit namespace package")
        else:
            ctx.check(cls == "Package", "class", lambda: f"{n} is a {cls}, importing it gives a package")
            mech = next(k for k, v in INIT.items() if v == text)
            ctx.label("mech:" + mech)
            if file.endswith(".pyc"):
                ctx.label("namespace without source")
            t = TYPE[mech]
            ctx.check(node.namespace_type == t, "namespace-type", lambda: f"{n}: namespace_type {node.namespace_type!r}, expected {t!r}")
            if t:
                ctx.check(any(x.identifier == t for _, x in mg.outgoing(node)), "namespace-edge", lambda: f"{n} does not depend on {t}")
            ctx.check(node.init_module.filename == pathlib.Path(file), "filename", lambda: f"{n}: {node.init_module.filename} != {file}")
        if len(path) > 1:
            ctx.label("portions:%d" % len(path))
        have = [str(p) for p in node.search_path]
        ctx.check(have == [str(pathlib.Path(p)) for p in path], "search-path", lambda: f"{n}: search_path {have}, interpreter uses {path}")
    whole(case, ctx, want)


def whole(case, ctx, want):
    """import_package() finds what is in the other portions too."""
    import modulegraph2
    tops = sorted({n.split(".")[0] for n in case["names"] if want[n] and want[n][1]})
    mg = modulegraph2.ModuleGraph()
    mg.add_excludes(["pkgutil", "pkg_resources"])
    P.write_file(os.path.join(ctx.dir, "other.py"), "")
    script = ctx.sut("add_script", mg.add_script, "other.py")
    with mg.hook_context():
        for top in tops:
            ctx.sut(f"import_package({top!r})", mg.import_package, script, top)
    ctx.label("import_package", len(tops))
    for n in case["names"]:
        w = want[n]
        if w is None or w[2] is not None and ".zip/" in w[2] or n.split(".")[0] not in tops:
            continue
        if all(isinstance(want.get(p), list) and ".zip" not in str(want[p]) for p in parents(n)):
            ctx.check(n in mg and type(mg.find_node(n)).__name__ != "MissingModule", "import-package", lambda: f"{n} can be imported ({w}), import_package() did not find it")


def parents(name):
    parts = name.split(".")
    return [".".join(parts[:i]) for i in range(1, len(parts))]
