"""C05: relative imports against importlib.util.resolve_name."""
import importlib.util
import os

from .. import model as M, project as P, sut


def post(g, p):
    P.namespace_inits(g, p, 15)
    # (importing what namespace packages depend on takes long)
    p["excludes"] = ["pkgutil", "pkg_resources"]
    # scripts may live in a directory that looks like a package or module
    for s in p["scripts"]:
        if g.chance(50):
            dirs = [m["name"].replace(".", "/") for m in p["mods"] if m["kind"] in ("pkg", "ns")] + ["bin", "a.b"]
            old, s["name"] = s["name"], g.pick(dirs) + "/" + g.pick(["x.y.py", "run", "script0.py"])
            p["roots"] = [[k, s["name"] if n == old else n] for k, n in p["roots"]]


def strategy():
    return P.project_strategy(
        post=post, max_top=2, max_sub=3, nest=1, max_stmts=4, scripts=1, reexport=False, deep=35,
        weights=dict(imp=6, frm=8, rel=60, star=3, set=3, read=0, adef=0, match=0, match2=0, felse=0, welse=0, withs=0, tstar=0))


def expected(mod, level, module):
    if mod.kind == "script":
        return None
    package = mod.name if mod.kind == "pkg" else mod.name.rpartition(".")[0]
    if not package:
        return None
    try:
        return importlib.util.resolve_name("." * level + module, package)
    except ImportError:
        return None


def run(case, ctx):
    P.write_project(case, ctx.dir)
    sut.use_path(ctx.dir)
    mg = sut.build(ctx, case, ctx.dir)
    dump = M.Dump(mg, ctx.dir)
    model = M.Model(case)
    rel = inv = 0
    for i in sorted(dump.reachable):
        mod = model.mods.get(i) or model.scripts.get(i)
        if mod is None or mod.kind not in ("mod", "pkg", "script"):
            continue
        want_invalid = set()
        out = dump.out(i)
        allowed = set()
        for r in mod.recs:
            name = r.module if r.level == 0 else expected(mod, r.level, r.module)
            if name is None:
                want_invalid.add("." * r.level + r.module)
                inv += 1
                continue
            rel += r.level > 0
            if r.level > 1:
                ctx.label("level:%d" % r.level)
            ctx.check(name in out, "relative-edge", lambda: f"{i}: 'from {'.' * r.level}{r.module}' means {name}, edges go to {sorted(out)}")
            allowed.add(name)
            for nm, _ in r.names or ():
                allowed.add(f"{name}.{nm}")
        nstype = getattr(dump.nodes[i], "namespace_type", None)
        if nstype:
            allowed.add(nstype)
            ctx.label("explicit namespace package")
        if "." in i and i not in model.scripts:
            allowed.add(i.rpartition(".")[0])
        have_invalid = {t for t in out if dump.cls[t] == "InvalidRelativeImport"}
        ctx.check(have_invalid == want_invalid, "invalid-relative",
                  lambda: f"{i}: invalid relative imports {sorted(have_invalid)}, expected {sorted(want_invalid)}")
        # anything else can only be a name that another module re-exports
        for t in set(out) - allowed - have_invalid:
            ok = any(nm == t or any(d[3] == nm for d in dump.out(b).get(t, ()))
                     for r in mod.recs if r.kind == "from"
                     for b in [r.module if r.level == 0 else expected(mod, r.level, r.module)] if b
                     for nm, _ in r.names)
            ctx.check(ok, "edge-extra", lambda: f"{i} -> {t} is not the target of any import in {i}")
    for i in dump.nodes:
        if i.startswith("."):
            ctx.check(dump.cls[i] == "InvalidRelativeImport" and not dump.out(i), "invalid-node", lambda: f"{i} is a {dump.cls[i]} with edges {dump.out(i)}")
    ctx.nontrivial(rel + inv >= 2)
    ctx.label("relative", rel)
    ctx.label("invalid", inv)
    for s in case["scripts"]:
        if s["name"] in dump.nodes and any(r.level for r in model.scripts[s["name"]].recs):
            ctx.label("script with relative import")
