"""C25: SWIG extension modules are found next to their wrapper."""
import os
import sys

from .. import model as M, project as P, sut
from .c19 import pyc

try:
    from hypothesis import strategies as st
except ImportError:
    st = None

SO = ".cpython-312-x86_64-linux-gnu.so"
#: every module that can be a wrapper, with the directory that its extension module would be in
PLACES = {"mw": "", "pw": "pw", "pw.mx": "pw", "pw.qw": "pw/qw", "pw.qw.my": "pw/qw", "nw.mz": "nw", "nw.qv": "nw/qv", "nw.qv.mu": "nw/qv", "nw.pw": "nw/pw"}
PACKAGES = {"pw", "pw.qw", "nw.qv", "nw.pw"}
HELPER = {  # form -> (text, is it a global name of the module)
    "def": ("def swig_import_helper():\n    pass\n", True),
    "usual": ("def swig_import_helper():\n    import errno\n    try:\n        import {n}\n    except ImportError:\n        import {n}\n        return {n}\n{n} = swig_import_helper()\ndel swig_import_helper\n", True),
    "variable": ("swig_import_helper = 1\n", True), "import": ("import errno as swig_import_helper\n", True), "from": ("from errno import E2BIG as swig_import_helper\n", True),
    "class": ("class swig_import_helper: pass\n", True), "if": ("if __name__:\n    def swig_import_helper(): pass\n", True),
    "global": ("def f():\n    global swig_import_helper\n    swig_import_helper = 1\n", True),
    "local": ("def f():\n    def swig_import_helper(): pass\n", False), "method": ("class A:\n    def swig_import_helper(self): pass\n", False),
    "text": ("x = 'swig_import_helper'\n", False), "comment": ("# def swig_import_helper():\n", False), "attribute": ("class A: pass\nA.swig_import_helper = 1\n", False),
    "similar": ("def swig_import_helper_(): pass\ndef _swig_import_helper(): pass\n", False), "no": ("", False), "reads": ("def f():\n    return swig_import_helper\n", False)}
IMPORTS = ["import {n}\n", "import {n} as z\n", "from {n} import v\n", "def g():\n    import {n}\n", "try:\n    import {n}\nexcept ImportError:\n    pass\n", "from {n} import *\n",
           "if __name__ == 1:\n    import {n}\n", "from . import {n}\n", "import _zz\n", "import errno, {n}\n", "class B:\n    import {n}\n"]
FAIL = {"no": "", "raise": "raise RuntimeError\n", "exit": "raise SystemExit\n", "attr": "None.x\n", "missing": "import zzz\n"}
FILES = ["none", "ext", "ext", "ext", "abi3", "plain", "py", "pyc", "pkg", "pkgext", "ext+py", "nsdir", "ext+nsdir", "dangling", "extdir"]


@st.composite
def strategy_(draw):
    g = P.Gen(draw)
    mods = {}
    for name in PLACES:
        if not g.chance(60):
            continue
        target = "_" + name.rpartition(".")[2]
        if g.chance(8):
            target = g.pick(["_zz", "_pw", "_x" + name.rpartition(".")[2], name.rpartition(".")[2] + "_"])
        mods[name] = {"kind": g.weighted([("py", 8), ("pyc", 2), ("invalid", 1)]), "helper": g.weighted([("def", 5), ("usual", 6), *((k, 1) for k in HELPER if k not in ("def", "usual"))]),
                      "target": target, "imports": [g.int(0, len(IMPORTS) - 1) for _ in range(g.int(0 if g.chance(20) else 1, 2))], "fail": g.weighted([("no", 5), ("raise", 2), ("exit", 1), ("attr", 1), ("missing", 1)]),
                      "first": g.chance(50), "beside": g.pick(FILES)}
    top = {t: g.pick(["ext", "py", "nsdir", "pyc", "pkgext"]) for t in {m["target"] for m in mods.values()} if g.chance(15)}
    roots = [["m", n] for n in mods if g.chance(75)]
    for _ in range(g.int(0, 2)):
        if len(roots) > 1:
            i = g.int(1, len(roots) - 1)
            roots[0], roots[i] = roots[i], roots[0]
    if g.chance(30):
        roots.insert(g.int(0, len(roots)), ["s", "script.py"])
    if not roots:
        roots = [["s", "script.py"]]
    return {"mods": mods, "top": {k: top[k] for k in sorted(top)}, "roots": roots, "script": [g.pick(list(PLACES)) for _ in range(g.int(1, 2))],
            "other": [g.pick(list(mods)) for _ in range(g.weighted([(0, 5), (1, 1)]))] if mods else [], "hooks": g.chance(88), "excludes": [g.pick(list(mods))] if mods and g.chance(4) else []}


def strategy():
    return strategy_()


def put(root, folder, name, kind):
    """Creates the file(s) of module *name* in *folder*, returns the extension module's file or None."""
    base = os.path.join(root, folder, name)
    write = P.write_file
    if kind in ("ext", "ext+py", "ext+nsdir"):
        write(base + SO, "")
        if kind == "ext+py":
            write(base + ".py", "x = 1\n")
        if kind == "ext+nsdir":
            os.makedirs(base, exist_ok=True)
        return base + SO
    if kind in ("abi3", "plain"):
        f = base + (".abi3.so" if kind == "abi3" else ".so")
        write(f, "")
        return f
    if kind == "py":
        write(base + ".py", "x = 1\n")
    elif kind == "pyc":
        write(base + ".pyc", pyc("x = 1\n"))
    elif kind == "pkg":
        write(base + "/__init__.py", "")
    elif kind == "pkgext":
        write(base + "/__init__" + SO, "")
    elif kind == "nsdir":
        os.makedirs(base, exist_ok=True)
    elif kind == "dangling":
        os.makedirs(os.path.dirname(base), exist_ok=True)
        os.path.lexists(base + SO) or os.symlink("/nowhere/at/all", base + SO)
    elif kind == "extdir":
        os.makedirs(base + SO, exist_ok=True)
    return None


def text(name, m):
    n = m["target"]
    parts = [HELPER[m["helper"]][0].format(n=n)]
    body = "".join(IMPORTS[i].format(n=n) for i in m["imports"] if not (IMPORTS[i].startswith("from . ") and "." not in name and name not in PACKAGES))
    parts.insert(0 if m["first"] else 1, body)
    out = "".join(parts) + FAIL[m["fail"]]
    return out + ("x = (\n" if m["kind"] == "invalid" else "")


def absolute_import(m):
    """Does the module import the target by its absolute name?"""
    forms = [IMPORTS[i] for i in m["imports"]]
    return m["kind"] != "invalid" and (m["helper"] == "usual" or any("{n}" in f and not f.startswith("from . ") for f in forms))


def run(case, ctx):
    import modulegraph2
    root = ctx.dir
    mods = case["mods"]
    os.makedirs(root + "/nw")
    exts = {}
    for name, m in mods.items():
        path = name.replace(".", "/")
        f = os.path.join(root, path + "/__init__" if name in PACKAGES else path)
        src = text(name, m)
        if m["kind"] == "pyc":
            P.write_file(f + ".pyc", pyc(src))
        else:
            P.write_file(f + ".py", src)
        folder = PLACES[name]
        if folder:
            key = (folder, m["target"])
            if key not in exts:
                exts[key] = put(root, folder, m["target"], m["beside"])
    # packages that are needed but not generated are implicit namespace packages
    for t, kind in case["top"].items():
        put(root, "", t, kind)
    P.write_file(os.path.join(root, "script.py"), "".join(f"import {n}\n" for n in case["script"]))
    P.write_file(os.path.join(root, "other.py"), "".join(f"import {mods[n]['target']}\n" for n in case["other"]))
    os.chdir(root)
    sut.use_path(root)
    before = set(sys.path)
    mg = ctx.sut("ModuleGraph()", modulegraph2.ModuleGraph, use_builtin_hooks=case["hooks"])
    mg.add_excludes(case["excludes"])
    roots = list(case["roots"]) + ([["m", "other"]] if case["other"] else [])
    for k, n in roots:
        ctx.sut(f"add {n}", mg.add_module if k == "m" else mg.add_script, n)
    ctx.check(set(sys.path) == before, "sys.path", "sys.path was changed")
    dump = M.Dump(mg, root)
    want_roots = {n for _, n in roots}
    ctx.check(dump.roots == want_roots, "roots", lambda: f"roots {sorted(dump.roots)}, expected {sorted(want_roots)}")
    outcomes = {}
    for name, m in mods.items():
        if dump.cls.get(name) in (None, "ExcludedModule") or not absolute_import(m):
            continue
        t = m["target"]
        ctx.check(t in dump.out(name), "edge", lambda: f"{name} imports {t}, edges go to {sorted(dump.out(name))}:\n{text(name, m)}")
        file = None
        if case["hooks"] and PLACES[name] and HELPER[m["helper"]][1] and t == "_" + name.rpartition(".")[2]:
            file = exts[PLACES[name], t]
        outcomes.setdefault(t, set()).add(file)
    if case["other"]:
        for n in case["other"]:
            outcomes.setdefault(mods[n]["target"], set()).add(None)
    found = 0
    for t, files in outcomes.items():
        if t not in dump.cls:
            ctx.fail("node", f"no node {t}")
        cls, node = dump.cls[t], dump.nodes[t]
        file = str(node.filename) if node.filename is not None else None
        if t in case["top"]:
            want = {"ext": "ExtensionModule", "py": "SourceModule", "nsdir": "NamespacePackage", "pyc": "BytecodeModule", "pkgext": "Package"}[case["top"][t]]
            ctx.check(cls == want, "top-level", lambda: f"{t} is a {cls}, there is a top-level {want}")
            if want == "ExtensionModule":
                ctx.check(file == os.path.join(root, t + SO), "top-level", lambda: f"{t} is {file}")
            ctx.label("top-level module")
            continue
        if cls == "ExtensionModule":
            ctx.check(file in files, "file", lambda: f"{t} is the extension module {file}, expected {files}")
            ctx.check(node.identifier == node.name == t, "name", lambda: f"{node!r} has identifier {node.identifier} and name {node.name}")
            ctx.check(not dump.out(t), "edges", lambda: f"{t} has edges to {sorted(dump.out(t))}")
            found += 1
            ctx.label("found")
        else:
            ctx.check(cls == "MissingModule", "class", lambda: f"{t} is a {cls}")
            ctx.check(None in files, "not found", lambda: f"{t} is missing, expected {files}: " + "\n".join(f"--- {n}\n{text(n, m)}" for n, m in mods.items() if m["target"] == t))
            ctx.label("missing")
    # nothing else becomes an extension module
    for i, c in dump.cls.items():
        if c == "ExtensionModule" and i not in outcomes and i not in case["top"]:
            d, _, n = i.replace(".", "/").rpartition("/")
            ctx.check(exts.get((d, n)) == str(dump.nodes[i].filename), "extra", lambda: f"extension module {i}: {dump.nodes[i].filename}")
    ctx.nontrivial(bool(outcomes))
    ctx.label("hooks off", not case["hooks"])
