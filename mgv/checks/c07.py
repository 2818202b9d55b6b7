"""C07: the same project as source, zipped source, bytecode only and zipped bytecode."""
import importlib.util
import marshal
import os
import sys
import types
import zipfile

from .. import model as M, project as P, realcode as R, sut

FORMS = ["src", "zip", "pyc", "zippyc"]
CLS = {"src": "SourceModule", "zip": "SourceModule", "pyc": "BytecodeModule", "zippyc": "BytecodeModule"}


def post(g, p):
    tops = sorted({m["name"].split(".")[0] for m in p["mods"]})
    p["forms"] = {t: g.pick(["pyc", "zip", "zippyc", "src", "pyc"]) for t in tops}
    # names bound by many constants and classes: see pad()
    p["pad"] = {m["name"]: g.pick([260, 300]) for m in p["mods"] if m["kind"] in ("mod", "pkg") and g.chance(6)}


def strategy():
    return R.mixed(P.project_strategy(post=post, ext=False, extra_roots=True, max_top=4), 20,
                   lambda g: R.pick(g, ["target", "pk.target", "pk.sub.target"]))


def pyc(source, name):
    code = compile(source, name, "exec", dont_inherit=True)
    return importlib.util.MAGIC_NUMBER + b"\0" * 12 + marshal.dumps(code)


def pad(case, name):
    n = case["pad"].get(name)
    return [f"x = ({', '.join(repr('s%d' % i) for i in range(n))})", "y = [%s]" % ", ".join(f"z{i}" for i in range(n))] if n else []


def write(case, base, forms):
    """Write the project, returns the search path entries."""
    tree = os.path.join(base, "tree")
    os.makedirs(tree)
    zips = {}
    r = P.Render()
    for m in case["mods"]:
        top = m["name"].split(".")[0]
        form = forms[top]
        rel = P.module_path(m, None)
        inzip = form.startswith("zip")
        if inzip:
            z = zips.setdefault(form, {})
            if m["kind"] in ("pkg", "ns"):
                z[m["name"].replace(".", "/") + "/"] = b""
        elif m["kind"] == "ns":
            os.makedirs(os.path.join(tree, m["name"].replace(".", "/")), exist_ok=True)
        if rel is None:
            continue
        src = "\n".join(pad(case, m["name"]) + [r.source(m.get("body") or [])])
        data = src.encode()
        if form.endswith("pyc"):
            data = pyc(src, "file")
            rel += "c"
        if inzip:
            zips[form][rel] = data
        else:
            P.write_file(os.path.join(tree, rel), data)
    out = [tree]
    for form, files in zips.items():
        path = os.path.join(base, form + ".zip")
        with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as zf:
            for f, d in files.items():
                zf.writestr(f, d)
        out.append(path)
    for s in case["scripts"]:
        P.write_file(os.path.join(base, s["name"]), r.source(s["body"]))
    return out


def codekey(code):
    if code is None:
        return None

    def norm(c):
        return c.replace(co_filename="x", co_consts=tuple(norm(k) if isinstance(k, types.CodeType) else k for k in c.co_consts))

    return hash_bytes(marshal.dumps(norm(code), 2))


def hash_bytes(b):
    import hashlib
    return hashlib.sha1(b).hexdigest()


def build(ctx, case, base, paths, seen=None):
    os.chdir(base)
    sut.use_path(*paths)
    mg = sut.build(ctx, case, base)
    if seen is not None:
        seen["mg"] = mg
    dump = M.Dump(mg, base)
    nodes = {}
    for i in dump.reachable:
        n = dump.nodes[i]
        m = getattr(n, "init_module", n)
        nodes[i] = [dump.cls[i], type(m).__name__, str(m.filename), sorted(getattr(m, "globals_written", ())),
                    sorted(getattr(m, "globals_read", ())), codekey(getattr(m, "code", None))]
    return {"nodes": nodes, "edges": {i: {t: sorted([list(d) for d in ds], key=repr) for t, ds in dump.out(i).items()} for i in dump.reachable}}


def build_in_child(ctx, case, base, paths):
    from ..core import Violation
    out = sut.fork_call(lambda: _guarded(ctx, case, base, paths))
    if "violation" in out:
        raise Violation(*out["violation"])
    return out


def _guarded(ctx, case, base, paths):
    from ..core import Violation
    try:
        return build(ctx, case, base, paths)
    except Violation as exc:
        return {"violation": [exc.sig, exc.msg]}


def run(case, ctx):
    if "real" in case:
        R.verify(case, ctx, "pyc")
        return
    kinds = {m["name"]: m["kind"] for m in case["mods"]}
    base1, base2 = os.path.join(ctx.dir, "one"), os.path.join(ctx.dir, "two")
    tops = {m["name"].split(".")[0] for m in case["mods"]}
    p1 = write(case, base1, {t: "src" for t in tops})
    p2 = write(case, base2, case["forms"])
    one = build_in_child(ctx, case, base1, p1)
    two = build_in_child(ctx, case, base2, p2)
    for f in case["forms"].values():
        ctx.label("form:" + f)
    if case["pad"]:
        ctx.label("wide code")
    a, b = one["nodes"], two["nodes"]
    model = M.Model(case)
    ctx.nontrivial(any(f != "src" for f in case["forms"].values()) and sum(map(len, one["edges"].values())) >= 2)
    loose = {i for i in set(a) | set(b) if (a.get(i) or b[i])[0] == "MissingModule" and star_name(model, i)}
    ctx.check(set(a) - loose == set(b) - loose, "nodes", lambda: f"reachable only as source: {sorted(set(a) - set(b))}, only as {case['forms']}: {sorted(set(b) - set(a))}")
    for i in set(a) & set(b):
        form = case["forms"].get(i.split(".")[0], "src")
        kind = kinds.get(i)
        if kind in ("mod", "pkg"):
            want = CLS[form]
            ctx.check(b[i][1] == want, "class", lambda: f"{i} stored as {form} is a {b[i][1]}")
            ctx.check((b[i][0] == "Package") == (kind == "pkg"), "class", lambda: f"{i} stored as {form} is a {b[i][0]}")
            rel = P.module_path({"name": i, "kind": kind}, None) + ("c" if form.endswith("pyc") else "")
            loc = os.path.join(base2, "tree" if not form.startswith("zip") else form + ".zip", rel)
            ctx.check(b[i][2] == loc, "filename", lambda: f"{i}: filename {b[i][2]}, expected {loc}")
            ctx.check(a[i][5] == b[i][5] and b[i][5], "code", lambda: f"{i}: code differs from that of the source form")
            ctx.check(a[i][4] == b[i][4], "globals-read", lambda: f"{i}: globals_read {a[i][4]} as source, {b[i][4]} as {form}")
            # what a star import adds depends on the order of processing in a cycle
            star = any(r.kind == "star" for r in model.mods[i].recs)
            ctx.check(a[i][3] == b[i][3] or star and model.mods[i].definite <= set(b[i][3]), "globals-written", lambda: f"{i}: globals_written {a[i][3]} as source, {b[i][3]} as {form}")
        else:
            ctx.check(a[i][:2] == b[i][:2], "class", lambda: f"{i}: {a[i][0]} as source, {b[i][0]} otherwise")
        compare_edges(ctx, model, i, case["forms"], one, two)


def star_name(model, i):
    """Is this the name of something that may get into a package by a star import?  In a cycle that
    depends on the order of imports, which is not the same for source and bytecode."""
    parent, _, name = i.rpartition(".")
    return parent in model.mods and name in model.maybe(parent) and name not in model.mods[parent].definite


class Picture:
    """The parts of a Dump that model.may_be_pending looks at."""

    def __init__(self, g):
        self.nodes, self.edges = g["nodes"], g["edges"]

    def out(self, i):
        return self.edges.get(i, {})


def compare_edges(ctx, model, i, forms, g1, g2):
    bytecode = forms.get(i.split(".")[0], "src").endswith("pyc") and i not in model.scripts
    e1, e2 = g1["edges"], g2["edges"]
    one = {t: {tuple(d) for d in ds} for t, ds in e1[i].items()}
    two = {t: {tuple(d) for d in ds} for t, ds in e2[i].items()}

    def renamed(t):
        # bytecode does not record 'as', so names re-exported under another name are not followed
        return any(d[3] is not None for n in one if forms.get(n.split(".")[0], "src").endswith("pyc")
                   for d in e1.get(n, {}).get(t, ()))

    def cyclic(t):
        # in an import cycle re-exported names are followed only when they are known already,
        # and the two scanners list imports in a different order
        mod = model.mods.get(i) or model.scripts.get(i)
        for r in mod.recs if mod else ():
            n = model.resolve(mod, r.level, r.module) if r.kind == "from" else None
            if n and (t in e1.get(n, ()) or t in e2.get(n, ())):
                if any(M.may_be_pending(model, Picture(g), n, i) for g in (g1, g2)):
                    ctx.label("tolerated: order in a cycle")
                    return True
        return False

    for t in set(one) | set(two):
        if star_name(model, t) and model.kind(t) == "missing":
            continue
        a, b = one.get(t, set()), two.get(t, set())
        if bytecode:
            a = {(not g, g, f, None) for _, g, f, _ in a}
        for d in b - a:
            ctx.check(d[2] and cyclic(t), "edge-extra", lambda: f"{i} -> {t}: {d} not in the graph of the source form (has {sorted(map(repr, a))})")
        for d in a - b:
            ctx.check(d[2] and (renamed(t) or cyclic(t)), "edge-missing",
                      lambda: f"{i} -> {t}: {d} only in the graph of the source form; has {sorted(map(repr, b))}")
