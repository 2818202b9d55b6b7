"""C27: imports through six.moves lead to the modules that six would load."""
import importlib.util
import os
import sys
import zipfile

from .. import project as P, sut

try:
    from hypothesis import strategies as st
except ImportError:
    st = None

#: names in the move table of any version of six for this interpreter (the oracle asks six itself)
MODULES = """builtins configparser collections_abc copyreg dbm_gnu dbm_ndbm _dummy_thread http_cookiejar http_cookies html_entities html_parser http_client
email_mime_base email_mime_image email_mime_multipart email_mime_nonmultipart email_mime_text BaseHTTPServer CGIHTTPServer SimpleHTTPServer cPickle queue reprlib
socketserver _thread tkinter tkinter_dialog tkinter_filedialog tkinter_scrolledtext tkinter_simpledialog tkinter_tix tkinter_ttk tkinter_constants tkinter_dnd
tkinter_colorchooser tkinter_commondialog tkinter_tkfiledialog tkinter_font tkinter_messagebox tkinter_tksimpledialog urllib_parse urllib_error urllib_request
urllib_response urllib_robotparser urllib xmlrpc_client xmlrpc_server urllib.parse urllib.error urllib.request urllib.response urllib.robotparser""".split()
ATTRS = """cStringIO filter filterfalse input intern map getcwd getcwdb getoutput range reload_module reduce shlex_quote StringIO UserDict UserList UserString xrange zip zip_longest""".split()
UNKNOWN = ["nope", "Queue", "parse", "reduce_", "moves", "html", "six", "urllib.nope", "http.client", "add_module", "name", "urlparse"]
LOCS = ["six", "pk.six", "moves.six", "pk.sub.six", "nsp.six", "pk.moves.six", "moves.moves.six"]
#: places an import statement can be in: (prefix, indent, is_optional, is_global)
PLACES = [("", "", False, True), ("", "", False, True), ("", "", False, True), ("try:\n", " ", True, True), ("def f():\n", " ", True, False), ("if a:\n", " ", True, True), ("class K:\n", " ", False, True)]
TK = ["", "dialog", "filedialog", "scrolledtext", "simpledialog", "tix", "ttk", "constants", "dnd", "colorchooser", "commondialog", "font", "messagebox"]
DIRECT = ["configparser", "html.parser", "queue", "http.client", "urllib.parse", "tkinter.filedialog", "pickle", "collections.abc", "copyreg", "builtins", "_thread", "http.server", "functools", "io"]


@st.composite
def strategy_(draw):
    g = P.Gen(draw)
    locs = [x for x in LOCS if g.chance(70 if x == "six" else 30)] or ["six"]

    def stmt(importer):
        where = g.int(0, len(PLACES) - 1)
        kind = g.weighted([("from", 6), ("import", 3), ("inner", 3), ("moves", 1), ("below", 1), ("direct", 1)])
        loc = g.pick(locs)
        pool = g.weighted([("m", 6), ("a", 4), ("u", 1)])
        name = lambda: g.pick({"m": MODULES, "a": ATTRS, "u": UNKNOWN}[pool])  # noqa: E731
        names = [name() for _ in range(g.weighted([(1, 3), (2, 2), (3, 1)]) if kind == "from" else 1)]
        return {"kind": kind, "loc": loc, "names": names, "as": g.chance(20), "rel": g.chance(40), "place": where, "direct": g.pick(DIRECT), "attr": g.pick(["quote", "parse", "Error", "filedialog", "a_b"])}

    importers = {i: [stmt(i) for _ in range(g.int(1, 5))] for i in ("main", "pk.user", "pk.ini", "script.py") if g.chance(85 if i == "main" else 25)}
    if not importers:
        importers = {"main": [stmt("main")]}
    case = {"locs": {x: g.int(0, 1) for x in locs}, "importers": importers, "tk": [x for x in TK if g.chance(85)] if g.chance(50) else [],
            "pre": [[g.pick(locs), g.pick([m for m in MODULES if "." not in m])] for _ in range(g.weighted([(0, 5), (1, 1), (2, 1)]))],
            "excludes": [g.pick(["configparser", "html", "html.parser", "http.server", "functools", "urllib.parse", "tkinter", "email.mime", "six.moves.queue", "queue"])] if g.chance(15) else []}
    order = list(importers)
    for _ in range(g.int(0, 2)):
        if len(order) > 1:
            i = g.int(1, len(order) - 1)
            order[0], order[i] = order[i], order[0]
    case["order"] = order
    return case


def strategy():
    return strategy_()


def corpus():
    """Every name in every form, alone."""
    def one(kind, name, loc="six", **kw):
        s = {"kind": kind, "loc": loc, "names": [name], "as": False, "rel": False, "place": 0, "direct": "queue", "attr": "quote"}
        s.update(kw)
        return {"locs": {loc: 0}, "importers": {"main": [s]}, "tk": TK if name.startswith("tk") else [], "pre": [], "excludes": [], "order": ["main"]}
    out = []
    for name in MODULES + ATTRS + UNKNOWN:
        for kind in ("from", "import", "inner"):
            out.append(one(kind, name))
    for name in ("configparser", "reduce", "urllib.parse", "tkinter_filedialog", "range"):
        for loc in LOCS[1:]:
            out.append(one("from", name, loc))
            out.append(one("import", name, loc))
    for name in ("tkinter", "tkinter_ttk", "tkinter_filedialog"):
        c = one("from", name)
        out.append({**c, "tk": []})
    for k, v in ATTR_EXCLUDES:
        c = one("from", k)
        out.append({**c, "excludes": [v]})
    return out


ATTR_EXCLUDES = [("html_parser", "html.parser"), ("html_parser", "html"), ("email_mime_text", "email.mime"), ("reduce", "functools"), ("urllib_parse", "urllib.parse"), ("queue", "queue"), ("queue", "six.moves.queue")]


def six_sources():
    import glob
    out = []
    for whl in sorted(glob.glob("/opt/wheelhouse/six-*.whl")):
        with zipfile.ZipFile(whl) as zf:
            out.append(zf.read("six.py"))
    spec = importlib.util.find_spec("pip")
    if spec is not None:
        path = os.path.join(os.path.dirname(spec.origin), "_vendor", "six.py")
        if os.path.exists(path):
            with open(path, "rb") as fp:
                out.append(fp.read())
    if not out:
        raise RuntimeError("no copy of six found")
    return out


def package_of(importer):
    return {"main": None, "script.py": None, "pk.user": "pk", "pk.ini": "pk.ini"}[importer]


def render(importer, s):
    """The text of the import statement."""
    loc = s["loc"]
    pkg = package_of(importer)
    kind = s["kind"]
    relname = None
    if s["rel"] and pkg is not None:
        level, base = 1, pkg
        while base and not loc.startswith(base + "."):
            level, base = level + 1, base.rpartition(".")[0]
        if base:
            relname = "." * level + loc[len(base) + 1:]
    name = s["names"][0]
    z = " as z_" if s["as"] else ""
    if kind == "direct":
        return f"import {s['direct']}{z}"
    if kind == "import":
        return f"import {loc}.moves.{name}{z}"
    if kind == "below":
        return f"import {loc}.moves.{name}.below_{z}"
    src = relname or loc
    if kind == "moves":
        return f"from {src} import moves{z}" if s["as"] else f"import {loc}.moves"
    if kind == "inner":
        return f"from {src}.moves.{name} import {s['attr']}{z}"
    # from: names with dots belong to a module of six.moves
    prefix = name.rpartition(".")[0]
    same = [n.rpartition(".")[2] for n in s["names"] if n.rpartition(".")[0] == prefix]
    return f"from {src}.moves{'.' + prefix if prefix else ''} import " + ", ".join(n + (f" as z{i}" if s["as"] else "") for i, n in enumerate(same))


def ask_six(locs):
    """{name: [kind, real module]} of every copy, according to six."""
    out = {}
    for loc in locs:
        six = importlib.import_module(loc)
        table = {}
        for name, mod in six._importer.known_modules.items():
            name = name[len(loc) + 1:]
            if name == "moves":
                continue
            name = name[len("moves."):]
            if isinstance(mod, six.MovedModule):
                table[name] = ["module", mod.mod]
            elif hasattr(mod, "__path__"):
                table[name] = ["package", name]
            else:
                (real,) = {a.mod for a in mod._moved_attributes}
                table[name] = ["module", real]
        for a in six._moved_attributes:
            if isinstance(a, six.MovedAttribute):
                table[a.name] = ["attribute", a.mod]
            elif a.mod == f"{loc}.moves.urllib":
                table[a.name] = ["package", "urllib"]
        out[loc] = table
    return out


def exists(name):
    """Is there such a module?"""
    try:
        return importlib.util.find_spec(name) is not None
    except ImportError:
        return False


def ask_python(root, case):
    tables = ask_six(case["locs"])
    real = {v[1] for t in tables.values() for v in t.values()} | set(DIRECT)
    return tables, sorted(n for n in real if exists(n)), sorted(n for n in real if exists(n) and importlib.util.find_spec(n).submodule_search_locations is not None)


def run(case, ctx):
    import modulegraph2 as mg2
    root = ctx.dir
    sources = six_sources()
    for loc, version in case["locs"].items():
        P.write_file(os.path.join(root, *loc.split(".")) + ".py", sources[min(version, len(sources) - 1)].decode())
    for pkg in ("pk", "pk/sub", "moves", "pk/moves", "moves/moves"):
        f = os.path.join(root, pkg, "__init__.py")
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if not os.path.exists(f):
            P.write_file(f, "")
    os.makedirs(root + "/nsp", exist_ok=True)
    for name in case["tk"]:
        P.write_file(os.path.join(root, "tkinter", (name or "__init__") + ".py"), "")
    if case["tk"] and "" not in case["tk"]:
        P.write_file(os.path.join(root, "tkinter", "__init__.py"), "")
    for importer, stmts in case["importers"].items():
        text = ""
        for s in stmts:
            prefix, indent = PLACES[s["place"]][:2]
            text += prefix + indent + render(importer, s) + "\n" + ("except: pass\n" if prefix.startswith("try") else "")
        f = os.path.join(root, *importer.split(".")) if importer != "script.py" else os.path.join(root, "script")
        P.write_file(os.path.join(f, "__init__.py") if importer == "pk.ini" else f + ".py", text)
    sut.use_path(root)
    tables, present, packages = sut.fork_call(ask_python, root, case)
    present, packages = set(present), set(packages)

    for loc, name in case["pre"]:
        # six was used before
        try:
            importlib.import_module(f"{loc}.moves.{name}")
        except ImportError:
            pass
    mg = ctx.sut("ModuleGraph()", mg2.ModuleGraph)
    tops = {n.partition(".")[0] for t in tables.values() for _, n in t.values()} | set(x.partition(".")[0] for x in DIRECT)
    excl = [n for n in sys.stdlib_module_names if n not in tops] + case["excludes"]
    mg.add_excludes(excl)
    for importer in case["order"]:
        if importer == "script.py":
            ctx.sut("add_script", mg.add_script, "script.py")
        else:
            ctx.sut(f"add_module({importer!r})", mg.add_module, importer)

    def is_excluded(name):
        return any(name == e or name.startswith(e + ".") for e in case["excludes"])

    def check_real(name, why):
        """The node for the module that is loaded."""
        node = mg.find_node(name)
        ctx.check(node is not None, "not-included", lambda: f"{why} needs {name!r}, that is not in the graph")
        if is_excluded(name):
            ctx.check(isinstance(node, mg2.ExcludedModule), "not-excluded", lambda: f"{why}: {name!r} is excluded, but is {node!r}")
            ctx.label("excluded")
        elif name in present:
            ctx.check(isinstance(node, (mg2.Module, mg2.Package, mg2.NamespacePackage)), "wrong-class", lambda: f"{why}: {name!r} exists, but is {node!r}")
            ctx.check(node.name == name, "wrong-name", lambda: f"{why}: {node!r} for {name!r}")
            ctx.nontrivial()
        else:
            ctx.check(isinstance(node, mg2.MissingModule), "not-missing", lambda: f"{why}: {name!r} does not exist, but is {node!r}")
            ctx.label("absent")
        return node

    def check_moved(loc, name, why):
        """The node for a name in six.moves that is imported as a module; returns its identifier."""
        ident = f"{loc}.moves.{name}"
        kind, real = tables[loc].get(name, [None, None])
        node = mg.find_node(ident)
        ctx.check(node is not None, "not-included", lambda: f"{why}: no node for {ident!r}")
        if is_excluded(ident):
            ctx.check(isinstance(node, mg2.ExcludedModule), "not-excluded", lambda: f"{why}: {node!r}")
            return ident
        if kind in (None, "attribute"):
            ctx.check(isinstance(node, mg2.MissingModule), "not-missing", lambda: f"{why}: six has no module {ident!r}, the node is {node!r}")
            return ident
        ctx.check(isinstance(node, mg2.AliasNode), "not-alias", lambda: f"{why}: {ident!r} is {node!r}")
        out = {t.identifier for _, t in mg.outgoing(node)}
        parent = ident.rpartition(".")[0]
        ctx.check(out == {real, parent}, "wrong-alias", lambda: f"{why}: {ident!r} refers to {sorted(out)}, not to {real!r} and its package")
        check_real(real, why)
        return ident

    # what every importer refers to
    for importer, stmts in case["importers"].items():
        ident = os.path.join(root, "script.py") if importer == "script.py" else importer
        node = mg.find_node(ident)
        ctx.check(isinstance(node, (mg2.SourceModule, mg2.Package, mg2.Script)), "importer", lambda: f"{ident!r} is {node!r}")
        expected = {}
        tolerated = {importer.rpartition(".")[0]}
        for s in stmts:
            why = f"{render(importer, s)!r} in {importer}"
            optional, glob = PLACES[s["place"]][2:]
            loc, kind, name = s["loc"], s["kind"], s["names"][0]
            table = tables[loc]
            ctx.label("form:" + kind)
            z = "z_" if s["as"] else None

            def want(target, in_fromlist, asname):
                if target != importer:
                    expected.setdefault(target, set()).add((optional, glob, in_fromlist, asname))
                else:
                    tolerated.add(importer)

            if kind == "direct":
                want(s["direct"], False, z)
                check_real(s["direct"], why)
            elif kind == "import":
                want(check_moved(loc, name, why), False, z)
            elif kind == "below":
                t = f"{loc}.moves.{name}.below_"
                n = mg.find_node(t)
                ctx.check(isinstance(n, (mg2.ExcludedModule if is_excluded(f"{loc}.moves.{name}") else mg2.MissingModule)), "not-missing", lambda: f"{why}: {n!r}")
                check_moved(loc, name, why)
                want(t, False, z)
            elif kind == "moves":
                if s["as"]:
                    want(loc, False, None)
                    # the name of the package that the module is in, see C04
                    tolerated.add(loc.partition(".")[0] if loc.startswith("moves.") else loc)
                else:
                    want(f"{loc}.moves", False, None)
            elif kind == "inner":
                t = check_moved(loc, name, why)
                want(t, False, None)
                real = table.get(name, [None, None])[1]
                if real in packages or table.get(name, [None])[0] == "package":
                    tolerated.update({f"{real}.{s['attr']}", f"{t}.{s['attr']}"})
            else:
                prefix = name.rpartition(".")[0]
                names = [n for n in s["names"] if n.rpartition(".")[0] == prefix]
                if prefix:
                    want(f"{loc}.moves.{prefix}", False, None)
                    for i, n in enumerate(names):
                        # below six.moves.urllib the real module is used
                        k, real = table.get(n, [None, None])
                        if k == "module" and not is_excluded("urllib"):
                            want(real, True, f"z{i}" if s["as"] else None)
                            check_real(real, why)
                        else:
                            tolerated.update({n, f"{loc}.moves.{n}"})
                else:
                    want(f"{loc}.moves", False, None)
                    for i, n in enumerate(names):
                        k, real = table.get(n, [None, None])
                        asname = f"z{i}" if s["as"] else None
                        if k == "attribute" and not is_excluded(f"{loc}.moves.{n}"):
                            if real == "builtins":
                                tolerated.add("builtins")
                            else:
                                want(real, False, None)
                                check_real(real, why)
                        else:
                            want(check_moved(loc, n, why), True, asname)
        got = {}
        for edges, t in mg.outgoing(node):
            got.setdefault(t.identifier, set()).update((e.is_optional, e.is_global, e.in_fromlist, e.imported_as) for e in edges)
        for t in set(expected) | set(got):
            if t in expected:
                g = got.get(t, set())
                if t in tolerated:
                    ctx.check(expected[t] <= g, "edges", lambda: f"{importer} -> {t}: {sorted(map(str, g))}, not {sorted(map(str, expected[t]))}")
                else:
                    ctx.check(expected[t] == g, "edges", lambda: f"{importer} -> {t}: {sorted(map(str, g))}, not {sorted(map(str, expected[t]))}")
            else:
                ctx.check(t in tolerated, "extra-edge", lambda: f"{importer} -> {t} has no reason: {mg.find_node(t)!r}")
    for loc in case["locs"]:
        n = mg.find_node(f"{loc}.moves")
        if n is not None and not is_excluded(f"{loc}.moves"):
            ctx.check(isinstance(n, mg2.Package) and n.name == f"{loc}.moves" and n.has_data_files is False, "moves", lambda: f"{n!r}")
            ctx.check({t.identifier for _, t in mg.outgoing(n)} == {loc}, "moves-edges", lambda: [t.identifier for _, t in mg.outgoing(n)])
