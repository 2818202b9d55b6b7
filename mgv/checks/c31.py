"""C31: the same project as source files and as modules that import hooks supply."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from .. import model as M, project as P, sut
from . import c07

# How the modules of a top-level name get into the interpreter:
#   files    ordinary files
#   inspect  InspectLoader, specs without an origin
#   origin   InspectLoader, specs with an origin that is not a location
#   code     InspectLoader without source code
#   nosource  InspectLoader that cannot get at its source code (and raises an exception)
#   source   SourceLoader for files that only the loader knows
#   entry    the same, by way of a path hook for an entry of sys.path
#   real     SourceLoader for files that exist
FORMS = ["files", "inspect", "origin", "code", "source", "entry", "real", "nosource"]


def post(g, p):
    tops = sorted({m["name"].split(".")[0] for m in p["mods"]})
    p["forms"] = {t: g.weighted([(f, 1 if f == "files" else 3) for f in FORMS]) for t in tops}
    p["pad"] = {}
    p["first"] = g.chance(50)
    # modules with a syntax error, packages that fail in the end
    p["broken"] = sorted({m["name"] for m in p["mods"] if m["kind"] == "mod" and g.chance(6)})
    p["fails"] = sorted({m["name"] for m in p["mods"] if m["kind"] == "pkg" and g.chance(20)})


def strategy():
    return P.project_strategy(post=post, ext=False, extra_roots=True, max_top=4)


def sources(case):
    r = P.Render()
    out = {}
    for m in case["mods"]:
        if m["kind"] == "ns":
            out[m["name"]] = None
            continue
        text = r.source(m.get("body") or [])
        if m["name"] in case["broken"]:
            text += "\nbroken = (\n"
        if m["name"] in case["fails"]:
            text += "\nraise SystemExit(3)\n" if len(text) % 2 else "\nraise KeyError\n"
        out[m["name"]] = text
    return out


def write(case, base, forms, texts):
    for m in case["mods"]:
        form = forms[m["name"].split(".")[0]]
        rel = P.module_path(m, None)
        if form == "files" and rel is None:
            os.makedirs(os.path.join(base, "tree", m["name"].replace(".", "/")), exist_ok=True)
        elif form in ("files", "real") and rel is not None:
            P.write_file(os.path.join(base, "tree" if form == "files" else "real", rel), texts[m["name"]].encode())
    os.makedirs(os.path.join(base, "tree"), exist_ok=True)
    for s in case["scripts"]:
        P.write_file(os.path.join(base, s["name"]), P.Render().source(s["body"]))


class Hooks:
    """Import hooks for the modules of a case."""

    def __init__(self, case, base, texts):
        self.forms, self.texts = case["forms"], texts
        self.kinds = {m["name"]: m["kind"] for m in case["mods"]}
        self.base = base
        self.loaders = {"inspect": Inspect(self), "origin": Inspect(self), "code": Code(self), "nosource": NoSource(self)}
        self.entry = os.path.join(base, "entry")
        self.outer = self

    def form(self, name):
        return self.forms.get(name.split(".")[0], "files") if name in self.texts else "files"

    def location(self, name):
        form = self.form(name)
        root = {"source": "/no/such/place", "entry": self.entry, "real": os.path.join(self.base, "real")}.get(form)
        if root is None:
            return None
        return f"{root}/{name.replace('.', '/')}" + ("/__init__.py" if self.kinds[name] == "pkg" else ".py")

    def spec(self, name):
        form = self.form(name)
        if self.texts[name] is None:
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [self.entry + "/" + name.replace(".", "/")] if form == "entry" else ["somewhere/else"]
            return spec
        if form in self.loaders:
            return importlib.util.spec_from_loader(name, self.loaders[form], origin=f"<table {name}>" if form == "origin" else None)
        path = self.location(name)
        loader = Source(self, name, path)
        return importlib.util.spec_from_file_location(
            name, path, loader=loader, submodule_search_locations=[os.path.dirname(path)] if self.kinds[name] == "pkg" else None)

    def install(self, first):
        finder = Finder(self)
        if first:
            sys.meta_path.insert(0, finder)
            sys.path_hooks.insert(0, self.path_hook)
        else:
            sys.meta_path.append(finder)
            sys.path_hooks.append(self.path_hook)
        sys.path.append(self.entry)

    def path_hook(self, entry):
        if not (entry + "/").startswith(self.entry + "/"):
            raise ImportError(entry)
        return EntryFinder(self, entry[len(self.entry):].strip("/").replace("/", "."))


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, hooks):
        self.hooks = hooks

    def find_spec(self, name, path=None, target=None):
        if self.hooks.form(name) in ("files", "entry"):
            return None
        return self.hooks.spec(name)


class EntryFinder(importlib.abc.PathEntryFinder):
    def __init__(self, hooks, package):
        self.hooks, self.package = hooks, package

    def find_spec(self, name, target=None):
        if name.rpartition(".")[0] != self.package or self.hooks.form(name) != "entry":
            return None
        return self.hooks.spec(name)


class Inspect(importlib.abc.InspectLoader):
    def __init__(self, hooks):
        self.hooks = hooks

    def get_source(self, name):
        try:
            return self.hooks.texts[name]
        except KeyError:
            raise ImportError(name, name=name) from None

    def is_package(self, name):
        if name not in self.hooks.texts:
            raise ImportError(name, name=name)
        return self.hooks.kinds[name] in ("pkg", "ns")


class Code(Inspect):
    def get_source(self, name):
        super().get_source(name)
        return None

    def get_code(self, name):
        return self.source_to_code(Inspect.get_source(self, name), "<code>")


class NoSource(Code):
    def get_source(self, name):
        super().get_source(name)
        raise (ImportError, OSError, SyntaxError, UnicodeDecodeError)[len(name) % 4](*(("utf-8", b"x", 0, 1, "x") if len(name) % 4 == 3 else ("no source",)))


class Source(importlib.abc.SourceLoader):
    def __init__(self, hooks, name, path):
        self.hooks, self.name, self.path = hooks, name, path

    def get_filename(self, name):
        return self.path

    def get_data(self, path):
        if path != self.path:
            raise OSError(path)
        return self.hooks.texts[self.name].encode()


def build(ctx, case, base, hooks):
    if hooks is not None:
        hooks.install(case["first"])
    seen = {}
    out = c07.build(ctx, case, base, [os.path.join(base, "tree")] + ([hooks.entry] if hooks is not None else []), seen)
    out["data"] = sorted(n.identifier for n in seen["mg"].iter_graph() if getattr(n, "has_data_files", False))
    return out


def build_in_child(ctx, case, base, hooks):
    from ..core import Violation

    def guarded():
        try:
            return build(ctx, case, base, hooks)
        except Violation as exc:
            return {"violation": [exc.sig, exc.msg]}

    out = sut.fork_call(guarded)
    if "violation" in out:
        raise Violation(*out["violation"])
    return out


def run(case, ctx):
    kinds = {m["name"]: m["kind"] for m in case["mods"]}
    texts = sources(case)
    base1, base2 = os.path.join(ctx.dir, "one"), os.path.join(ctx.dir, "two")
    write(case, base1, dict.fromkeys(case["forms"], "files"), texts)
    write(case, base2, case["forms"], texts)
    hooks = Hooks(case, base2, texts)
    one = build_in_child(ctx, case, base1, None)
    two = build_in_child(ctx, case, base2, hooks)
    for f in case["forms"].values():
        ctx.label("form:" + f)
    a, b = one["nodes"], two["nodes"]
    model = M.Model(case)
    # for the relation between edges 'code' is a bytecode form, the rest is source
    forms = {t: "pyc" if f in ("code", "nosource") else "src" for t, f in case["forms"].items()}
    hooked = {n for n in set(a) & set(kinds) if hooks.form(n) != "files"}
    ctx.nontrivial(bool(hooked) and sum(map(len, one["edges"].values())) >= 2)
    if any(n.rpartition(".")[0] in case["fails"] for n in hooked):
        ctx.label("submodule of a package that cannot be imported")
    for g in (one, two):
        # there are scripts in the current directory, but no data in a package
        ctx.check(not g["data"], "data", lambda: f"packages without data files have has_data_files set: {g['data']}")
    loose = {i for i in set(a) | set(b) if (a.get(i) or b[i])[0] == "MissingModule" and c07.star_name(model, i)}
    ctx.check(set(a) - loose == set(b) - loose, "nodes",
              lambda: f"reachable only with files: {sorted(set(a) - set(b))}, only with hooks {case['forms']}: {sorted(set(b) - set(a))}")
    for i in set(a) & set(b):
        form, kind = hooks.form(i), kinds.get(i)
        if kind in ("mod", "pkg"):
            want = "InvalidModule" if i in case["broken"] else "BytecodeModule" if form == "code" else "SourceModule"
            # source code that cannot be read: it is there, or it isn't
            ctx.check(b[i][1] == want or form == "nosource" and i not in case["broken"] and b[i][1] == "BytecodeModule", "class", lambda: f"{i} supplied by {form} is a {b[i][1]}, expected {want}")
            ctx.check((b[i][0] == "Package") == (kind == "pkg"), "class", lambda: f"{i} supplied by {form} is a {b[i][0]}")
            loc = hooks.location(i) if form != "files" else os.path.join(base2, "tree", P.module_path({"name": i, "kind": kind}, None))
            ctx.check(b[i][2] == str(loc), "filename", lambda: f"{i} supplied by {form}: filename {b[i][2]}, expected {loc}")
            if i not in case["broken"]:
                ctx.check(a[i][5] == b[i][5] and b[i][5], "code", lambda: f"{i}: not the code of the source")
            ctx.check(a[i][4] == b[i][4], "globals-read", lambda: f"{i}: globals_read {a[i][4]} in a file, {b[i][4]} from {form}")
            star = any(r.kind == "star" for r in model.mods[i].recs)
            ctx.check(a[i][3] == b[i][3] or star, "globals-written", lambda: f"{i}: globals_written {a[i][3]} in a file, {b[i][3]} from {form}")
        else:
            ctx.check(a[i][:2] == b[i][:2], "class", lambda: f"{i}: {a[i][0]} with files, {b[i][0]} otherwise")
        c07.compare_edges(ctx, model, i, forms, one, two)
