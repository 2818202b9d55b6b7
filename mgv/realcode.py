"""Source files that are already on this machine as inputs: slices of the top-level statements of
files of the standard library and of the installed tools.

A case names a file and a range of statements; the code itself is read when the case runs."""
import ast
import dis
import os
import sys
import types

from . import model as M, project as P, sut

try:
    from hypothesis import strategies as st
except ImportError:
    st = None

SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_pool = []


def pool():
    """[(path, size)] of all source files, in a fixed order."""
    if not _pool:
        for base in (os.path.dirname(os.__file__), SITE):
            for d, dirs, files in os.walk(base):
                dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "site-packages", "dist-packages"))
                _pool.extend(os.path.join(d, f) for f in sorted(files) if f.endswith(".py"))
    return _pool


def pick(g, names=("target",)):
    """A case (drawn with *g*), or None when there is nothing to pick from."""
    files = pool()
    if not files:
        return None
    a = g.int(0, 60) if g.chance(50) else 0
    return {"real": [g.pick(files), a, a + g.int(1, 80)], "name": g.pick(names)}


def mixed(strategy, percent, make=pick):
    """*strategy*, with some cases of real code."""
    @st.composite
    def cases(draw):
        g = P.Gen(draw)
        case = make(g) if g.chance(percent) else None
        return case if case is not None else draw(strategy)

    return cases()


def text(real):
    """The source text for a case: whole statements, without those from __future__ (None when there
    is no such file, or it is not valid Python)."""
    path, a, b = real
    try:
        with open(path, encoding="utf-8", newline=None) as fp:
            src = fp.read()
        tree = ast.parse(src)
    except (OSError, UnicodeDecodeError, SyntaxError, ValueError, RecursionError):
        return None
    lines = src.encode().split(b"\n")
    out = []
    for s in tree.body[a:b]:
        if isinstance(s, ast.ImportFrom) and s.module == "__future__":
            continue
        first = min([s.lineno, *(d.lineno for d in getattr(s, "decorator_list", ()))])
        part = lines[first - 1:s.end_lineno]
        if first == s.lineno and s.col_offset or part[0][:1] in (b" ", b"\t"):
            continue    # not the first statement on its line
        part[-1] = part[-1][:s.end_col_offset]
        out += part
    res = b"\n".join(out).decode() + "\n"
    try:
        compile(res, "x", "exec", dont_inherit=True)
    except (SyntaxError, ValueError, RecursionError):
        return None
    return res


def body(tree, keep=lambda s: True):
    """Statements in the form used for generated projects (only imports and what they are nested in)."""
    out = []
    for s in tree:
        if isinstance(s, ast.Import):
            if keep(s):
                out.append(["imp", [[x.name, x.asname] for x in s.names]])
        elif isinstance(s, ast.ImportFrom):
            if keep(s):
                if s.names[0].name == "*":
                    out.append(["star", s.level, s.module or ""])
                else:
                    out.append(["frm", s.level, s.module or "", [[x.name, x.asname] for x in s.names]])
        elif isinstance(s, ast.FunctionDef):
            out.append(["def", s.name, body(s.body, keep)])
        elif isinstance(s, ast.AsyncFunctionDef):
            out.append(["adef", s.name, body(s.body, keep)])
        elif isinstance(s, ast.ClassDef):
            out.append(["cls", s.name, body(s.body, keep)])
        elif isinstance(s, ast.If):
            out.append(["if", 1, body(s.body, keep), None, body(s.orelse, keep)])
        elif isinstance(s, (ast.Try, ast.TryStar)):
            out.append(["try", body(s.body, keep), [x for h in s.handlers for x in body(h.body, keep)], body(s.orelse, keep), body(s.finalbody, keep)])
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            out.append(["for", body(s.body, keep) + body(s.orelse, keep)])
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            out.append(["with", body(s.body, keep)])
        elif isinstance(s, ast.Match):
            out.append(["match", [x for c in s.cases for x in body(c.body, keep)]])
    return out


def executed(code):
    """Positions of all import statements for which there is bytecode."""
    out = set()
    for i in dis.get_instructions(code):
        if i.opname == "IMPORT_NAME":
            out.add((i.positions.lineno, i.positions.col_offset))
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            out |= executed(c)
    return out


def named(code):
    """All names that are (looked up, stored) by name.  (Not in here: names in code that the compiler
    leaves out, and the implicit __class__ of methods.)"""
    loads, stores = set(), set()
    for i in dis.get_instructions(code):
        if i.opname in ("LOAD_NAME", "LOAD_GLOBAL", "LOAD_FROM_DICT_OR_GLOBALS"):
            loads.add(i.argval)
        elif i.opname in ("STORE_NAME", "STORE_GLOBAL"):
            stores.add(i.argval)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            a, b = named(c)
            loads |= a
            stores |= b
    return loads, stores


def flat(body_):
    """The body with only what can be seen in bytecode: no conditions, no 'as'."""
    out = []
    for s, roles in P.walk(body_):
        if s[0] == "imp":
            s = ["imp", [[n, None] for n, _ in s[1]]]
        elif s[0] == "frm":
            s = ["frm", s[1], s[2], [[n, None] for n, _ in s[3]]]
        elif s[0] != "star":
            continue
        out.append(["def", "f", [s]] if any(r in ("def", "adef") for r in roles) else s)
    return out


def verify(case, ctx, form="src"):
    """The edges of the module are exactly those that its text demands, with all attributes."""
    import modulegraph2
    src = text(case["real"])
    if src is None:
        ctx.label("no source to use")
        return
    sys.setrecursionlimit(10000)
    name = case["name"]
    parts = name.split(".")
    tree = ast.parse(src)
    if form == "pyc":
        code = compile(src, "x", "exec", dont_inherit=True)
        live = executed(code)
        stmts = flat(body(tree.body, lambda s: (s.lineno, s.col_offset) in live))
    else:
        stmts = body(tree.body)
    mods = [{"name": ".".join(parts[:i]), "kind": "pkg", "body": []} for i in range(1, len(parts))]
    mods.append({"name": name, "kind": "mod", "body": stmts})
    excludes = set()
    n = 0
    for s, roles in P.walk(stmts):
        tops = [x for x, _ in s[1]] if s[0] == "imp" else [s[2]] if s[0] in ("frm", "star") and not s[1] else []
        excludes |= {x.split(".")[0] for x in tops}
        n += s[0] in ("imp", "frm", "star")
        if s[0] in ("imp", "frm", "star"):
            for r in set(roles):
                ctx.label("real code in:" + r)
    excludes.discard(parts[0])
    for m in mods[:-1]:
        P.write_file(os.path.join(ctx.dir, P.module_path(m, None)), "")
    rel = P.module_path(mods[-1], None)
    if form == "pyc":
        import importlib.util
        import marshal
        P.write_file(os.path.join(ctx.dir, rel + "c"), importlib.util.MAGIC_NUMBER + b"\0" * 12 + marshal.dumps(code))
    else:
        P.write_file(os.path.join(ctx.dir, rel), src)
    sut.use_path(ctx.dir)
    mg = ctx.sut("ModuleGraph()", modulegraph2.ModuleGraph)
    ctx.sut("add_excludes", mg.add_excludes, sorted(excludes))
    ctx.sut("add_module", mg.add_module, name)
    ctx.label("real code")
    ctx.nontrivial(n >= 1)
    model = M.Model({"mods": mods}, excludes=excludes)
    if form == "pyc":
        model.EXPECT_CLASS = {**model.EXPECT_CLASS, "mod": ("BytecodeModule",)}
    M.verify(model, M.Dump(mg, ctx.dir), ctx, roots=[name], attributes=True)


# ------------------------------------------------------------------ whole packages

PACKAGES = [
    "_pytest", "jsonschema", "lark", "libcst", "packaging", "attr", "attrs", "click", "requests", "pygments", "rich", "urllib3",
    "werkzeug", "yaml", "networkx", "markdown_it", "mdit_py_plugins", "referencing", "textual", "tomlkit", "typeguard", "idna", "anyio",
    "astroid", "asttokens", "atheris", "bandit", "beartype", "cattr", "cattrs", "charset_normalizer", "coverage", "crosshair", "dateutil",
    "deal", "dill", "doc", "execnet", "flit_core", "graphql", "harfile", "hatchling", "icontract", "isort", "linkify_it", "lsprotocol",
    "markupsafe", "mdurl", "more_itertools", "mpmath", "mutmut", "pathspec", "pip", "platformdirs", "pluggy", "poetry", "pycparser", "pygls",
    "pylint", "pyrate_limiter", "pyright", "pysmt", "pytest", "pytest_asyncio", "schemathesis", "setuptools", "setuptools_scm", "stevedore",
    "tomli", "toml", "tree_sitter", "trove_classifiers", "typeshed_client", "vcs_versioning", "vulture", "wheel", "xdist", "z3", "cffi", "certifi",
]


def tree(top, most):
    """The modules of an installed package: [(name, kind, path or None)], at most *most*."""
    out = []
    for d, dirs, files in os.walk(os.path.join(SITE, top)):
        dirs[:] = sorted(x for x in dirs if x.isidentifier() and x != "__pycache__")
        name = os.path.relpath(d, SITE).replace(os.sep, ".")
        out.append((name, "pkg", os.path.join(d, "__init__.py")) if "__init__.py" in files else (name, "ns", None))
        subs = {f[:-3] for f in files if f.endswith(".py")} - {"__init__"}
        # a package is found before a module of the same name
        out += [(f"{name}.{f}", "mod", os.path.join(d, f + ".py")) for f in sorted(subs) if f.isidentifier() and not (f in dirs and os.path.exists(os.path.join(d, f, "__init__.py")))]
    return out[:most] if out[0][2] or len(out) > 1 else []


def pick_tree(g):
    if not os.path.isdir(SITE):
        return None
    return {"tree": g.pick(PACKAGES), "roots": [g.int(0, 300) for _ in range(g.int(0, 3))], "excl": [g.int(0, 300) for _ in range(g.weighted([(0, 6), (1, 2), (3, 1)]))],
            "form": g.pick(["src", "src", "pyc", "zip"])}


def verify_tree(case, ctx, most=250):
    """The graph of an installed package (with everything else excluded) is the one its text demands."""
    import importlib.util
    import marshal
    import modulegraph2
    import zipfile
    from . import codegen as C
    form = case.get("form", "src")
    files = {}
    sys.setrecursionlimit(10000)
    top = case["tree"]
    mods, excludes, analyses = [], set(), {}
    found = tree(top, most)
    for name, kind, path in found:
        m = {"name": name, "kind": kind, "body": []}
        if kind == "ns":
            mods.append(m)
            files[name.replace(".", "/") + "/"] = b""
            continue
        src = text([path, 0, 1 << 30]) if os.path.getsize(path) < 60000 else None
        if src is None:
            src = "1\n"
        if kind == "pkg":
            # packages are executed when looking for what is in them
            src = "1/0\n" + src
        rel = P.module_path(m, None)
        if form == "pyc":
            code = compile(src, "x", "exec", dont_inherit=True)
            live = executed(code)
            m["body"] = flat(body(ast.parse(src).body, lambda s: (s.lineno, s.col_offset) in live))
            files[rel + "c"] = importlib.util.MAGIC_NUMBER + b"\0" * 12 + marshal.dumps(code)
        else:
            m["body"] = body(ast.parse(src).body)
            files[rel] = src.encode()
        mods.append(m)
        analyses[name] = C.Analysis(src)
        # (not what is in code that the compiler leaves out)
        analyses[name].written &= named(compile(src, "x", "exec", dont_inherit=True))[1]
        excludes |= set(C.imported(src))
    if not mods:
        ctx.label("no source to use")
        return
    names = [m["name"] for m in mods]
    excludes.discard(top)
    excludes |= {names[i % len(names)] for i in case["excl"]} - {top}
    roots = [top] + [names[i % len(names)] for i in case["roots"]]
    roots = [r for r in dict.fromkeys(roots) if not any(M.in_subtree(r, e) for e in excludes)]
    where = ctx.dir
    if form == "zip":
        where = os.path.join(ctx.dir, "all.zip")
        with zipfile.ZipFile(where, "w") as zf:
            for rel, data in files.items():
                zf.writestr(rel, data)
    else:
        for rel, data in files.items():
            if rel.endswith("/"):
                os.makedirs(os.path.join(ctx.dir, rel), exist_ok=True)
            else:
                P.write_file(os.path.join(ctx.dir, rel), data)
    sut.use_path(where)
    ctx.label("form:" + form)
    mg = ctx.sut("ModuleGraph()", modulegraph2.ModuleGraph)
    ctx.sut("add_excludes", mg.add_excludes, sorted(excludes))
    for r in roots:
        ctx.sut(f"add_module({r!r})", mg.add_module, r)
    model = M.Model({"mods": mods}, excludes=excludes)
    for n, a in analyses.items():
        model.mods[n].definite = a.written
        model.mods[n].maybe_extra = a.maybe_written
    if form == "pyc":
        model.EXPECT_CLASS = {**model.EXPECT_CLASS, "mod": ("BytecodeModule",)}
    dump = M.Dump(mg, ctx.dir)
    ctx.label("real package")
    ctx.label("real modules", sum(1 for n in dump.reachable if dump.cls[n] in ("SourceModule", "Package", "NamespacePackage")))
    ctx.nontrivial(len(dump.reachable) > 5)
    M.verify(model, dump, ctx, roots=roots, attributes=True)
