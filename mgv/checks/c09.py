"""C09: what a module is and where it lives, compared with the import system."""
import importlib
import importlib.machinery
import importlib.util
import marshal
import os
import pathlib
import sys
import types
import zipfile

from .. import project as P, sut

try:
    from hypothesis import strategies as st
except ImportError:
    st = None

KINDS = ["mod", "pkg", "pyc", "pkgpyc", "ext", "extplain", "extabi", "pkgext", "ns", "nsfile", "dirpy", "stale", "empty"]
SUFFIX = {"ext": ".cpython-312-x86_64-linux-gnu.so", "extplain": ".so", "extabi": ".abi3.so"}


@st.composite
def strategy_(draw):
    g = P.Gen(draw)
    entries = []

    def slot(depth):
        kinds = []
        for _ in range(g.weighted([(1, 6), (2, 4), (3, 1)])):
            k = g.pick(KINDS)
            if k not in kinds:
                kinds.append(k)
        out = {"kinds": kinds, "subs": {}}
        if depth < 2 and any(k in ("pkg", "pkgpyc", "ns", "nsfile", "pkgext", "empty") for k in kinds):
            for s in ("sa", "sb"):
                if g.chance(45):
                    out["subs"][s] = slot(depth + 1)
        return out

    for _ in range(g.int(1, 3)):
        e = {"kind": g.weighted([("dir", 7), ("zip", 2), ("none", 1)]), "names": {}}
        for n in ("ta", "tb", "errno", "encodings"):
            if g.chance({"ta": 80, "tb": 40, "errno": 8, "encodings": 4}[n]):
                e["names"][n] = slot(0)
        if e["kind"] == "dir" and g.chance(40):
            e["spell"] = g.pick(["link", "rel", "dots", "slash", "parentlink", "dot"])
        if e["kind"] == "dir" and g.chance(15):
            e["odd"] = True  # comments that cannot be decoded
        entries.append(e)
    return {"entries": entries, "std": [g.pick(STD) for _ in range(g.int(0, 2))]}


STD = ["json", "json.decoder", "os.path", "xml.etree.ElementTree", "importlib._bootstrap", "encodings.utf_8", "email.mime.text",
       "__phello__.spam", "collections.abc", "concurrent.futures", "_socket", "zipimport", "sys", "_frozen_importlib", "math", "winreg",
       "multiprocessing.dummy.connection", "os.zz", "json.zz.yy", "sys.zz"]


def corpus():
    names = sorted(sys.stdlib_module_names)
    return [{"entries": [], "std": names[i:i + 15]} for i in range(0, len(names), 15)] + [{"entries": [], "std": STD}]


def strategy():
    return strategy_()


def source(tag):
    return f"va = {tag!r}\n"


def pyc(text, flags=0):
    return importlib.util.MAGIC_NUMBER + flags.to_bytes(4, "little") + b"\0" * 8 + marshal.dumps(compile(text, "x", "exec"))


def files_of(slots, prefix, tag):
    """{relative path: bytes or None for a directory}"""
    out = {}
    for name, slot in slots.items():
        base = prefix + name
        for k in slot["kinds"]:
            t = source(f"{tag}:{base}:{k}")
            if k == "mod":
                out[base + ".py"] = t.encode()
            elif k == "stale":
                out.setdefault(base + ".py", t.encode())
                # what runs is the cached code, a hash based file that is not checked
                out[os.path.join(os.path.dirname(base), "__pycache__", name + ".cpython-312.pyc")] = pyc(source(f"{tag}:{base}:cached"), 1)
            elif k == "pkg":
                out[base + "/__init__.py"] = t.encode()
            elif k == "pyc":
                out[base + ".pyc"] = pyc(t)
            elif k == "pkgpyc":
                out[base + "/__init__.pyc"] = pyc(t)
            elif k in SUFFIX:
                out[base + SUFFIX[k]] = b""
            elif k == "pkgext":
                out[base + "/__init__" + SUFFIX["ext"]] = b""
            elif k == "ns":
                out[base + "/"] = None
            elif k == "nsfile":
                out[base + "/data.txt"] = b"x"
            elif k == "dirpy":
                out[base + ".py/"] = None
            elif k == "empty":
                out[base + "/__pycache__/"] = None
        out.update(files_of(slot["subs"], base + "/", tag))
        if slot["subs"]:
            out.setdefault(base + "/", None)
    return out


def write(case, root):
    paths = []
    for i, e in enumerate(case["entries"]):
        files = files_of(e["names"], "", f"e{i}")
        base = os.path.join(root, f"e{i}")
        if e["kind"] == "zip":
            base += ".zip"
            with zipfile.ZipFile(base, "w") as zf:
                dirs = set()
                for f, d in files.items():
                    parts = f.rstrip("/").split("/")
                    for j in range(1, len(parts) + (1 if d is None else 0)):
                        dirs.add("/".join(parts[:j]) + "/")
                for d in sorted(dirs):
                    zf.writestr(d, b"")
                for f, d in files.items():
                    if d is not None and f not in dirs:
                        zf.writestr(f, d)
        elif e["kind"] == "dir":
            os.mkdir(base)
            for f, d in files.items():
                full = os.path.join(base, f)
                if d is None:
                    if not os.path.isdir(full):
                        if os.path.exists(full.rstrip("/")):
                            continue
                        os.makedirs(full)
                elif not os.path.isdir(full):
                    P.write_file(full, d + b"# \xff\n" if e.get("odd") and f.endswith(".py") else d)
        paths.append(spelled(root, i, base, e.get("spell")))
    return paths


def spelled(root, i, base, how):
    """Another way to write the path of a directory on the search path."""
    if how == "link":
        os.symlink(base, base + "link")
        return base + "link"
    if how == "parentlink":
        os.symlink(root, base + "up")
        return os.path.join(base + "up", f"e{i}")
    if how == "rel":
        return f"e{i}"
    if how == "dots":
        return os.path.join(base, "..", f"e{i}")
    if how == "dot":
        return os.path.join(root, ".", f"e{i}")
    if how == "slash":
        return base + "/"
    return base


def module_names(case):
    out = set()

    def rec(slots, prefix):
        for n, s in slots.items():
            out.add(prefix + n)
            rec(s["subs"], prefix + n + ".")

    for e in case["entries"]:
        rec(e["names"], "")
    out |= {"ta.zz", "tz"}
    return sorted(out) if case["entries"] else []


def kind_of(spec):
    ld = spec.loader
    if ld is importlib.machinery.BuiltinImporter:
        return "BuiltinModule"
    if ld is importlib.machinery.FrozenImporter:
        return "FrozenModule"
    if isinstance(ld, importlib.machinery.SourceFileLoader):
        return "SourceModule"
    if isinstance(ld, importlib.machinery.SourcelessFileLoader):
        return "BytecodeModule"
    if isinstance(ld, importlib.machinery.ExtensionFileLoader):
        return "ExtensionModule"
    if type(ld).__name__ == "zipimporter":
        return "SourceModule" if spec.origin.endswith(".py") else "BytecodeModule"
    if ld is None or "Namespace" in type(ld).__name__:
        return "NamespacePackage"
    return "?" + type(ld).__name__


def oracle(names):
    out = {}
    for n in names:
        # packages that are broken extensions cannot be imported, their submodules are looked up
        # in the directory all the same
        parent, _, last = n.rpartition(".")
        try:
            spec = importlib.util.find_spec(n)
        except ModuleNotFoundError:
            spec = None
        except ImportError:
            pinfo = out.get(parent)
            if not pinfo or not pinfo.get("locations"):
                spec = None
            else:
                m = sys.modules[parent] = types.ModuleType(parent)
                m.__path__ = list(pinfo["locations"])
                m.__spec__ = importlib.machinery.ModuleSpec(parent, None, is_package=True)
                spec = importlib.machinery.PathFinder.find_spec(n, m.__path__)
        except ValueError:
            # module without a usable __spec__
            continue
        if spec is None:
            out[n] = None
            continue
        info = {"name": spec.name, "kind": kind_of(spec), "origin": spec.origin, "package": spec.submodule_search_locations is not None,
                "locations": None if spec.submodule_search_locations is None else [str(x) for x in spec.submodule_search_locations]}
        if info["kind"] in ("SourceModule", "BytecodeModule") and n.split(".")[0] in ("ta", "tb"):
            try:
                info["va"] = importlib.import_module(n).va
            except ImportError:
                code = spec.loader.get_code(n)
                ns = {}
                exec(code, ns)
                info["va"] = ns["va"]
        out[n] = info
    return out


def run(case, ctx):
    import modulegraph2
    paths = write(case, ctx.dir)
    os.chdir(ctx.dir)
    for e in case["entries"]:
        if e.get("spell"):
            ctx.label("search path entry written as " + e["spell"])
    sut.use_path(*paths)
    sys.pycache_prefix = None
    names = module_names(case) + [n for n in case["std"]]
    want = sut.fork_call(oracle, names)
    mg = modulegraph2.ModuleGraph(use_stdlib_implies=False)
    P.write_file(os.path.join(ctx.dir, "s.script"), "")
    script = ctx.sut("add_script", mg.add_script, os.path.join(ctx.dir, "s.script"))
    order = names if len(names) % 2 else names[::-1]
    nodes = {}
    for n in order:
        # the imports of these modules do not matter here: import_module() does not process them
        nodes[n] = ctx.sut(f"import_module({n!r})", mg.import_module, script, n)
    amb = False
    for n in names:
        node = nodes[n]
        if n not in want or n == "__main__":
            continue
        w = want[n]
        cls = type(node).__name__
        if w is None:
            ctx.check(cls == "MissingModule", "found", lambda: f"{n} is a {cls}, the import system does not find it")
            ctx.label("missing")
            continue
        if w["name"] != n:
            ctx.check(cls == "AliasNode", "alias", lambda: f"{n} is a {cls}, its spec is for {w['name']}")
            ctx.check(any(t.identifier == w["name"] for _, t in mg.outgoing(node)), "alias", lambda: f"{n} has no edge to {w['name']}")
            ctx.label("alias")
            continue
        ctx.label(w["kind"] + ("/package" if w["package"] and w["kind"] != "NamespacePackage" else ""))
        if w["kind"] == "NamespacePackage":
            ctx.check(cls == "NamespacePackage", "class", lambda: f"{n} is a {cls}, expected a NamespacePackage")
            m = node
        elif w["package"]:
            pk = "FrozenPackage" if w["kind"] == "FrozenModule" else "Package"
            ctx.check(cls == pk, "class", lambda: f"{n} is a {cls}, expected a {pk} ({w})")
            m = node.init_module
            ctx.check(type(m).__name__ == w["kind"], "class", lambda: f"init of {n} is a {type(m).__name__}, expected {w['kind']}")
        else:
            m = node
            ctx.check(cls == w["kind"], "class", lambda: f"{n} is a {cls}, expected {w['kind']} ({w})")
        if w["package"] or w["kind"] == "NamespacePackage":
            have = [str(x) for x in node.search_path]
            # (a pathlib.Path without redundant separators and single dots)
            ctx.check(have == [str(pathlib.Path(x)) for x in w["locations"]], "search-path", lambda: f"{n}: search_path {have}, import system {w['locations']}")
        if w["kind"] in ("SourceModule", "BytecodeModule", "ExtensionModule"):
            ctx.check(m.filename == pathlib.Path(w["origin"]), "filename", lambda: f"{n}: filename {m.filename}, import system {w['origin']}")
            if w["package"]:
                ctx.check(node.filename == pathlib.Path(w["origin"]).parent, "filename", lambda: f"{n}: filename {node.filename}")
        elif w["kind"] != "NamespacePackage":
            ctx.check(m.filename is None, "filename", lambda: f"{n}: {cls} with filename {m.filename}")
        if w["kind"] in ("ExtensionModule", "BuiltinModule"):
            ctx.check(m.code is None, "code", lambda: f"{n}: {cls} has code")
        elif w["kind"] != "NamespacePackage":
            ctx.check(m.code is not None, "code", lambda: f"{n}: {cls} without code")
        if "va" in w:
            ns = {}
            exec(m.code, ns)
            ctx.check(ns["va"] == w["va"], "code", lambda: f"{n}: code of {ns['va']}, import gives {w['va']}")
            if w["va"].endswith("cached"):
                ctx.label("cached code")
    seen = {}
    for e in case["entries"]:
        for n, s in e["names"].items():
            seen[n] = seen.get(n, 0) + len(s["kinds"])
    amb = any(v > 1 for v in seen.values())
    if amb:
        ctx.label("several candidates")
    ctx.nontrivial(any(want.get(n) for n in names) and (amb or bool(case["std"])))
