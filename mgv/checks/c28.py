"""C28: has_data_files tells whether a package ships data."""
import os
import sys
import zipfile

from .. import project as P, sut
from .c11 import drop_caps
from .c19 import pyc

try:
    from hypothesis import strategies as st
except ImportError:
    st = None

MODULES = ["a.py", "b.pyc", "c.cpython-312-x86_64-linux-gnu.so", "d.abi3.so", "e.so", "f_.py", "é.py", "a.b.py"]
DATA = ["data.txt", "README", "A.PY", "x.pyx", "y.pyi", "py.typed", ".hidden", "a.py.bak", "é.txt", "pyc", "so", "py", "with space", "l.so.1", "x.pyo", ".gitignore", ".hgignore", "git", "a.pyc~",
        "x.pyd", "z.zip", "__init__.txt", "py.", "__pycache__.txt", "c.cpython-312-x86_64-linux-gnu.so.dbg", "-", "__main__"]
CACHES = ["__pycache__", ".git", ".hg", ".svn"]
DIRS = ["sub", "data", "x.py", "y.so", "z.pyc", "pycache", ".github", "w.abi3.so", "deep", "_pycache_", "hg", "svn.d"]
INITS = ["__init__.py", "__init__.py", "__init__.pyc", "__init__.cpython-312-x86_64-linux-gnu.so"]


@st.composite
def strategy_(draw):
    g = P.Gen(draw)
    kind = g.weighted([("dir", 6), ("zip", 4)])
    # with data somewhere, everything above has data: most trees must not have any
    density = g.pick([0, 0, 6, 25])
    count = [0]

    def tree(depth, package):
        out = {}
        if package:
            out[g.pick(INITS if kind == "dir" else INITS[:3])] = "f"
        for _ in range(g.int(0, 4)):
            count[0] += 1
            if count[0] > 40:
                break
            if g.chance(density):
                out[g.pick(DATA)] = "f"
                continue
            what = g.weighted([("mod", 4), ("dir", 4), ("pkg", 2), ("cache", 3), ("link", 2), ("unreadable", 1)])
            if what == "mod":
                out[g.pick(MODULES)] = "f"
            elif what in ("dir", "pkg") and depth < 4:
                name = g.pick(DIRS if what == "dir" else ["sub", "deep", "qk", "rk"])
                out.setdefault(name, tree(depth + 1, what == "pkg"))
            elif what == "cache":
                name = g.pick(CACHES)
                out[name] = {**tree(depth + 1, False), **({g.pick(DATA): "f"} if g.chance(70) else {})} if depth < 4 else {"data.txt": "f"}
            elif what == "link" and kind == "dir":
                out[g.pick(["link", "link.txt", "link.py", "sub", "lnk_"])] = ["link", g.weighted([("up", 3), ("upup", 2), ("sibling", 2), ("file", 1), ("module", 1), ("outside", 2), ("outdata", 1), ("self", 1), ("nowhere", 1)])]
            elif what == "unreadable" and kind == "dir" and g.chance(30):
                out[g.pick(["locked", "sub"])] = ["locked", tree(depth + 2, False)]
        return out

    names = g.pick([["pk"], ["pk"], ["pk", "pk2"], ["pk", "p"], ["ns.pk"], ["pk", "ns.pk"]])
    case = {"kind": kind, "packages": {n: tree(0, True) for n in names}, "beside": [g.pick(["pk2/data.txt", "data.txt", "pk.txt", "pk.py/x.txt", "pkg/x/data.txt", "Pk/data.txt"]) for _ in range(g.int(0, 2))],
            "where": g.pick(["", "lib", "lib", "rel", "link"]), "prefix": g.pick(["", "", "in", "in/deep", "__pycache__", ".hg/x"]),
            "zipname": g.pick(["z.zip", "e.egg", "noext", "x.py", "é.zip"]), "direntries": g.pick(["no", "first", "last"]), "deflate": g.chance(30), "reverse": g.chance(30), "pre": g.chance(15), "how": g.pick(["add", "add", "import", "rooted"])}
    return case


def strategy():
    return strategy_()


def corpus():
    def one(tree, kind="dir", **kw):
        return {"kind": kind, "packages": {"pk": {"__init__.py": "f", **tree}}, "beside": [], "where": "", "prefix": "", "zipname": "z.zip", "direntries": "no", "deflate": False, "reverse": False, "pre": False, "how": "add", **kw}
    out = []
    for kind in ("dir", "zip"):
        for name in MODULES + DATA:
            out.append(one({name: "f"}, kind))
            out.append(one({"sub": {"deep": {name: "f"}}}, kind))
        for d in CACHES + DIRS:
            out.append(one({d: {"data.txt": "f"}}, kind))
            out.append(one({d: {}}, kind, direntries="first"))
            out.append(one({d: {"a.py": "f", "sub": {"README": "f"}}}, kind))
        out.append(one({}, kind, beside=["pk2/data.txt", "data.txt"]))
        for p in ("__pycache__", ".git", "in"):
            out.append(one({"data.txt": "f"}, kind, prefix=p))
    for t in ("up", "self", "outdata", "nowhere"):
        out.append(one({"link": ["link", t]}))
    return out


def is_module(name):
    return name.endswith((".py", ".pyc", ".so"))


def to_zip(tree, prefix, out, dirs):
    for name, e in tree.items():
        if isinstance(e, dict):
            dirs.append(prefix + name + "/")
            to_zip(e, prefix + name + "/", out, dirs)
        else:
            out.append(prefix + name)


def content(name):
    return pyc("x = 1\n") if name.endswith(".pyc") else b""


def to_dir(tree, path, root, locked):
    os.makedirs(path, exist_ok=True)
    links = []
    for name, e in tree.items():
        p = os.path.join(path, name)
        if e == "f":
            if not os.path.lexists(p):
                with open(p, "wb") as fp:
                    fp.write(content(name))
        elif isinstance(e, dict):
            if not os.path.isfile(p) and not os.path.islink(p):
                to_dir(e, p, root, locked)
        elif e[0] == "locked":
            if not os.path.lexists(p):
                to_dir(e[1], p, root, locked)
                locked.append(p)
        else:
            links.append((p, e[1]))
    for p, target in links:
        if os.path.lexists(p):
            continue
        siblings = sorted(n for n in tree if isinstance(tree[n], dict))
        t = {"up": ".", "upup": "..", "sibling": siblings[0] if siblings else ".", "file": "x.txt", "module": "a.py", "outside": root + "/outside", "outdata": root + "/outdata", "self": os.path.basename(p), "nowhere": "/no/such/thing"}[target]
        if t == "x.txt":
            t = root + "/outdata/x.txt"
        elif t == "a.py":
            t = root + "/outside/a.py"
        elif target == "upup" and os.path.basename(os.path.dirname(path)) not in tree and os.path.dirname(path) == root:
            t = "."
        os.symlink(t, p)


def walk(path, seen, unsure):
    """Does the directory have data? None when that cannot be told."""
    real = os.path.realpath(path)
    if real in seen:
        return False
    seen.add(real)
    result = False
    try:
        names = os.listdir(path)
    except PermissionError:
        unsure.append(path)
        return False
    for name in names:
        p = os.path.join(path, name)
        if os.path.isdir(p):
            if name not in CACHES and walk(p, seen, unsure):
                result = True
        elif not os.path.exists(p):
            # a link to nothing
            unsure.append(p)
        elif not is_module(name):
            result = True
    return result


def packages_below(tree, name):
    yield name, tree
    for n, e in tree.items():
        if isinstance(e, dict) and n.isidentifier() and any(i in e for i in INITS):
            yield from packages_below(e, f"{name}.{n}")


def run(case, ctx):
    import modulegraph2 as mg2
    root = ctx.dir
    for d, f in (("outside", "a.py"), ("outdata", "x.txt")):
        os.makedirs(os.path.join(root, d, "s"))
        with open(os.path.join(root, d, "s", f), "w"):
            pass
        with open(os.path.join(root, d, f), "w"):
            pass
    base = os.path.join(root, "lib" if case["where"] else "top")
    if case["kind"] == "dir" and case["prefix"]:
        base = os.path.join(base, case["prefix"])
    os.makedirs(base)
    locked, expected = [], {}
    if case["kind"] == "dir":
        for name, tree in case["packages"].items():
            to_dir(tree, os.path.join(base, *name.split(".")), root, locked)
        for f in case["beside"]:
            P.write_file(os.path.join(base, f), "")
        entry = base
    else:
        prefix = case["prefix"] + "/" if case["prefix"] else ""
        files, dirs = [], []
        for name, tree in case["packages"].items():
            dirs.append(prefix + name.replace(".", "/") + "/")
            to_zip(tree, dirs[-1], files, dirs)
        files += [prefix + f for f in case["beside"]]
        if case["reverse"]:
            files.reverse()
        seen = set()
        entry = os.path.join(base, case["zipname"])
        with zipfile.ZipFile(entry, "w", zipfile.ZIP_DEFLATED if case["deflate"] else zipfile.ZIP_STORED) as zf:
            if "." in "".join(case["packages"]):
                dirs.append(prefix + "ns/")    # zipimport needs the entry
            order = {"no": files, "first": dirs + files, "last": files + dirs}[case["direntries"]]
            if case["direntries"] == "no" and prefix + "ns/" in dirs:
                order = [prefix + "ns/"] + order
            for n in order:
                if n not in seen:
                    seen.add(n)
                    zf.writestr(n, content(n))
    for p in locked:
        os.chmod(p, 0)
    if locked:
        drop_caps()
    if case["where"] == "rel":
        entry = os.path.relpath(entry, root)
    elif case["where"] == "link":
        os.symlink(base, os.path.join(root, "alias"), True)
        entry = os.path.join(root, "alias", os.path.relpath(entry, base))
    if case["prefix"] and case["kind"] == "zip":
        entry = os.path.join(entry, case["prefix"])
    sut.use_path(entry)
    todo = [x for name, tree in case["packages"].items() for x in packages_below(tree, name)]
    if case["pre"]:
        for name, _ in todo[:2]:
            try:
                __import__(name)
            except ImportError:
                pass
    mg = ctx.sut("ModuleGraph()", mg2.ModuleGraph)
    if case["how"] == "import":
        with open(os.path.join(root, "main_.py"), "w") as fp:
            fp.write("".join(f"import {n}\n" for n, _ in todo))
        ctx.sut("add_script", mg.add_script, os.path.join(root, "main_.py"))
    elif case["how"] == "rooted":
        with open(os.path.join(root, "main_.py"), "w") as fp:
            fp.write("")
        s = ctx.sut("add_script", mg.add_script, os.path.join(root, "main_.py"))
        with mg.hook_context():
            for name in case["packages"]:
                ctx.sut("import_package", mg.import_package, s, name)
        for name, _ in todo:
            ctx.sut("add_module", mg.add_module, name)
    else:
        for name, _ in todo:
            ctx.sut(f"add_module({name!r})", mg.add_module, name)
    for name, tree in todo:
        node = mg.find_node(name)
        ctx.check(isinstance(node, mg2.Package), "not-a-package", lambda: f"{name!r} is {node!r}")
        unsure = []
        if case["kind"] == "dir":
            want = walk(os.path.join(base, *name.split(".")), set(), unsure)
        else:
            inside = prefix + name.replace(".", "/") + "/"
            files = [f[len(inside):] for f in order if f.startswith(inside) and not f.endswith("/")]
            want = any(not is_module(f) and not set(f.split("/")[:-1]) & set(CACHES) for f in files)
            if "ns" == name.partition(".")[0]:
                ctx.label("namespace")
        got = node.has_data_files
        ctx.check(isinstance(got, bool), "type", lambda: f"{got!r}")
        if want:
            ctx.check(got, "data-not-found", lambda: f"{name!r} has data files, has_data_files is {got}")
        elif not unsure:
            ctx.check(not got, "no-data", lambda: f"{name!r} has no data files, has_data_files is {got}")
        ctx.label("data" if want else "unsure" if unsure else "nodata")
        ctx.nontrivial(len(tree) > 1)
    if locked:
        ctx.label("locked")
