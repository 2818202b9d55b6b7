"""C24: add_dependencies_for_source against scripts with the same text."""
import os

from .. import config, core, model as M, project as P, sut

BAD = ["import gc\nx = (\n", "import gc\n  x = 1\n", "import \n", "from errno import (gc\n", "import gc as\n", "x = '\n", "import gc\0\n", "from . import\n", "def f(:\n    import gc\n"]


def post(g, p):
    if g.chance(45):
        config.config(g, p)
    pkgs = [m["name"] for m in p["mods"] if m["kind"] in ("pkg", "ns")]
    if pkgs and g.chance(25):
        p.setdefault("implies", {}).update(ia={"kind": "alias", "target": g.pick(pkgs)}, ib={"kind": "alias", "target": g.pick(["ia"] + pkgs)})
        for s in p["scripts"]:
            s["body"].insert(0, ["frm", 0, g.pick(["ia", "ib"]), [[n, None] for n in sorted({g.pick(["sa", "sb", "qa", "va", "zz"]) for _ in range(g.int(1, 2))})]])
    p["texts"] = [s["name"] for s in p["scripts"] if g.chance(85)]
    p["bad"] = [[g.int(0, len(p["texts"])), g.pick(BAD)] for _ in range(g.weighted([(0, 4), (1, 1)]))]


def strategy():
    return P.project_strategy(post=post, scripts=3, max_stmts=5)


def history(case, kind, texts):
    """Build with the texts as scripts or as source; returns a picture of the graph."""
    import modulegraph2
    mg = modulegraph2.ModuleGraph()
    if case.get("excludes"):
        mg.add_excludes(case["excludes"])
    if case.get("implies"):
        mg.add_implies({k: sut.implies_value(v) for k, v in case["implies"].items()})
    roots = [r for r in case["roots"] if r[0] == "m"]
    for _, n in roots:
        mg.add_module(n)
    steps = [["text", n] for n in case["texts"]]
    for i, text in reversed(case["bad"]):
        steps.insert(i, ["bad", text])
    refused = []
    for k, n in steps:
        if k == "bad":
            if kind == "script":
                continue
            before = shape(mg)
            try:
                mg.add_dependencies_for_source(n)
                refused.append([n, "no exception"])
            except SyntaxError:
                if shape(mg) != before:
                    refused.append([n, "graph was changed"])
        elif kind == "script":
            mg.add_script(n)
        else:
            mg.add_dependencies_for_source(texts[n])
    if case["again"]:
        before = shape(mg)
        for n in case["texts"]:
            if kind == "source":
                mg.add_dependencies_for_source(texts[n])
        if shape(mg) != before:
            refused.append(["the same text again", "graph was changed"])
    return [shape(mg), refused, len(mg._work_stack) if hasattr(mg, "_work_stack") else 0]


def shape(mg):
    d = M.Dump(mg, os.getcwd())
    return {"cls": d.cls, "edges": {a: {b: sorted(map(list, e), key=repr) for b, e in o.items()} for a, o in d.edges.items()}, "roots": sorted(d.roots), "reach": sorted(d.reachable)}


def resolve(model, name):
    """Names are looked up in the module that an alias stands for."""
    seen = set()
    while model.kind(name) == "alias" and name not in seen:
        seen.add(name)
        name = model.implies[name][1]
    return name


def run(case, ctx):
    P.write_project(case, ctx.dir)
    os.chdir(ctx.dir)
    sut.use_path(ctx.dir)
    texts = {}
    for n in case["texts"]:
        with open(n, encoding="utf-8") as fp:
            texts[n] = fp.read()
    model = M.Model(case, case.get("excludes") or (), sut.model_implies(case.get("implies")))
    # repeating a text may pick up names that were not known the first time
    case["again"] = not any(r.kind == "star" for m in {**model.mods, **model.scripts}.values() for r in m.recs)
    try:
        a = sut.fork_call(history, case, "script", texts)[0]
    except RuntimeError as exc:
        # the other properties are about that
        ctx.label("script build failed")
        raise core.Violation("build", str(exc)) from None
    try:
        b, refused, left = sut.fork_call(history, case, "source", texts)
    except RuntimeError as exc:
        raise core.Violation("exception", str(exc)) from None
    ctx.check(not refused, "invalid source", lambda: f"add_dependencies_for_source of {refused[0][0]!r}: {refused[0][1]}")
    before = {n for k, n in case["roots"] if k == "m"}

    # roots: what the imports name
    scripts = [s for s in case["texts"]]
    direct = {t for s in scripts for t in a["edges"].get(s, {}) if a["cls"][t] != "InvalidRelativeImport"}
    extra = set(b["roots"]) - before - direct
    ctx.check(not extra, "roots", lambda: f"{sorted(extra)} are roots, a script depends on {sorted(direct)}")
    must = set()
    for s in scripts:
        for r in model.scripts[s].recs:
            if r.level:
                continue
            must.add(r.module)
            base = resolve(model, r.module)
            for nm, _ in r.names or ():
                must.add(f"{base}.{nm}")
    must &= direct
    loose = {i for i in must if "." in i and model.kind(i) == "missing" and i.rpartition(".")[2] in model.maybe(i.rpartition(".")[0])}
    ctx.check(must - loose <= set(b["roots"]), "roots", lambda: f"{sorted(must - set(b['roots']))} should be roots: a script depends on them")

    # nodes
    def modules(d):
        return {i: d["cls"][i] for i in d["reach"] if d["cls"][i] not in ("Script", "InvalidRelativeImport")}

    x, y = modules(a), modules(b)
    odd = {i for i in set(x) ^ set(y)} | {i for i in set(x) & set(y) if x[i] != y[i]}
    for i in sorted(odd):
        head, _, tail = i.rpartition(".")
        if {x.get(i), y.get(i)} <= {None, "MissingModule"} and head and tail in model.maybe(head):
            ctx.label("name known later")
            continue
        ctx.fail("nodes", f"{i} is {y.get(i)} for the source and {x.get(i)} for the script")
    lost = [i for i in b["roots"] if i not in b["cls"]]
    ctx.check(not lost and not left, "work", lambda: f"unfinished: {lost} {left}")

    # the edges of modules are those of their own imports
    for i in sorted(set(x) & set(y)):
        m = model.mods.get(i)
        if m is not None and not any(r.kind == "star" or r.kind == "from" for r in m.recs):
            ea = {t: e for t, e in a["edges"].get(i, {}).items()}
            eb = {t: e for t, e in b["edges"].get(i, {}).items()}
            ctx.check(ea == eb, "edges", lambda: f"{i}: edges {eb} for the source, {ea} for the script")
    ctx.nontrivial(len(must) >= 2 and len(y) >= 3)
    ctx.label("roots", len(b["roots"]))
    ctx.label("submodule roots", sum("." in i for i in must))
