"""C26: modules compiled with mypyc get the dependencies of their source."""
import os

from .. import core, dists as D, model as M, project as P, sut

try:
    from hypothesis import strategies as st
except ImportError:
    st = None

SUFFIXES = [".cpython-312-x86_64-linux-gnu.so", ".abi3.so", ".so"]
USABLE = ("same", "cookie", "bom", "empty", "crlf")
HELPERS = ["0a1b__mypyc", "ffff__mypyc", "pka.b2__mypyc", "mda.c__mypyc", "__mypyc"]


def post(g, p):
    comp, owner = {}, {}
    for m in p["mods"]:
        if m["kind"] not in ("mod", "pkg", "ext"):
            continue
        owner[m["name"]] = g.weighted([(1, 7), (2, 2), (0, 1)])
        if m["kind"] != "ext" and g.chance(60):
            comp[m["name"]] = [g.pick(SUFFIXES), g.weighted([("same", 12), ("cookie", 2), ("bom", 1), ("empty", 1), ("crlf", 1), ("none", 2), ("bad", 2), ("undecodable", 1), ("badcookie", 1), ("null", 1), ("deep", 1), ("minus", 1), ("plus", 1), ("dir", 1)])]
    p["compiled"], p["owner"] = comp, owner
    names = [g.pick(HELPERS)] if g.chance(88) else []
    if g.chance(20):
        names.append(g.pick(HELPERS))
    p["helpers"] = [[n, g.chance(85)] for n in dict.fromkeys(names)]
    p["hooks"] = g.chance(92)
    p["record"] = g.pick(["both", "both", "so"])
    p["record2"] = g.chance(10)     # the other distribution is compiled as well


def strategy():
    if st is None:
        return None
    rich = P.project_strategy(post=post, scripts=1, max_stmts=4)
    plain = P.project_strategy(post=post, scripts=1, max_stmts=4, star=False, aliases=False, reexport=False)
    return st.one_of(plain, rich)


def usable(case, name):
    c = case["compiled"].get(name)
    return bool(c) and c[1] in USABLE and case["hooks"] and is_mypyc(case, case["owner"].get(name))


def is_mypyc(case, owner):
    return owner == 1 and bool(case["helpers"]) or owner == 2 and case["record2"]


def layout(case, root, plain):
    """Write the project, with compiled modules or with those replaced by their source."""
    owned = {1: [], 2: []}
    r = P.Render(call=False, guard=False)
    for m in case["mods"]:
        name = m["name"]
        rel = P.module_path(m, None)
        if rel is None:
            os.makedirs(os.path.join(root, name.replace(".", "/")), exist_ok=True)
            continue
        files = {}
        src = b"" if m["kind"] == "ext" else r.source(m.get("body") or [], None)
        src = src.encode() if isinstance(src, str) else src
        c = case["compiled"].get(name)
        if c:
            base = rel[: -len(".py")]
            suffix, how = c
            src = {"same": lambda: src, "cookie": lambda: b"# -*- coding: latin-1 -*-\n# \xe9\n" + src, "bom": lambda: b"\xef\xbb\xbf" + src, "empty": lambda: b"", "crlf": lambda: src.replace(b"\n", b"\r\n"),
                   "none": lambda: None, "bad": lambda: src + b"\nx = (\n", "undecodable": lambda: src + b"\nx = '\xe9\xff'\n", "badcookie": lambda: b"# coding: klingon\n" + src,
                   "null": lambda: src + b"\0\n", "deep": lambda: src + b"x = " + b"(" * 300 + b")" * 300 + b"\n", "minus": lambda: src + b"x = " + b"-" * 100000 + b"1\n",
                   "plus": lambda: src + b"x = 1" + b"+1" * 100000 + b"\n", "dir": lambda: None}[how]()
            if plain and usable(case, name):
                files[rel] = src
            else:
                files[base + suffix] = b""
                if how == "dir":
                    os.makedirs(os.path.join(root, rel), exist_ok=True)
                elif src is not None:
                    files[rel] = src
            recorded = [base + suffix] + ([rel] if case["record"] == "both" or plain else [])
        else:
            files[rel] = src
            recorded = [rel]
        for f, data in files.items():
            P.write_file(os.path.join(root, f), data)
        if case["owner"].get(name):
            owned[case["owner"][name]] += recorded
    for n, exists in case["helpers"]:
        f = n.replace(".", "/") + SUFFIXES[0]
        # (a helper in a package that is not there cannot be found)
        if exists and not plain and ("." not in n or os.path.isdir(os.path.join(root, n.split(".")[0]))):
            P.write_file(os.path.join(root, f), "")
        owned[1].append(f)
    if case["record2"]:
        owned[2].append("other__mypyc.so")
    for s in case["scripts"]:
        P.write_file(os.path.join(root, s["name"]), r.source(s["body"], None))
    D.write_dist(root, "dista", "1", owned[1])
    D.write_dist(root, "distb", "1", owned[2])


def build(case, root):
    import modulegraph2
    os.chdir(root)
    sut.use_path(root)
    mg = modulegraph2.ModuleGraph(use_builtin_hooks=case["hooks"])
    for k, n in case["roots"]:
        (mg.add_module if k == "m" else mg.add_script)(n)
    d = M.Dump(mg, root)
    return {"cls": d.cls, "edges": {a: {b: sorted(([*x] for x in e), key=repr) for b, e in o.items()} for a, o in d.edges.items()}, "roots": sorted(d.roots), "reach": sorted(d.reachable),
            "init": {i: type(n.init_module).__name__ for i, n in d.nodes.items() if hasattr(n, "init_module")}, "dist": {i: getattr(getattr(n, "distribution", None), "name", None) for i, n in d.nodes.items()}}


def run(case, ctx):
    a_dir, b_dir = os.path.join(ctx.dir, "plain"), os.path.join(ctx.dir, "compiled")
    layout(case, a_dir, True)
    layout(case, b_dir, False)
    try:
        a = sut.fork_call(build, case, a_dir)
        b = sut.fork_call(build, case, b_dir)
    except RuntimeError as exc:
        raise core.Violation("exception", str(exc)) from None
    model = M.Model(case)
    ctx.check(a["roots"] == b["roots"], "roots", lambda: f"roots {b['roots']}, expected {a['roots']}")
    helpers = {n for n, _ in case["helpers"]} | ({"other__mypyc"} if case["record2"] else set())
    helped = 0
    loose = set()   # nodes that may differ because compiled modules do not tell their global names
    mods = {**model.mods, **model.scripts}
    for i, mod in mods.items():
        for r in mod.recs:
            base = model.resolve(mod, r.level, r.module)
            if base is None or r.kind != "from":
                continue
            for nm, _ in r.names:
                if nm in model.maybe(base) or model.kind(base) in ("mod", "pkg") and vague(case, model, base):
                    loose.add((i, f"{base}.{nm}"))
                    for d in (a, b):
                        for t, deps in d["edges"].get(base, {}).items():
                            if t == nm or any(x[3] == nm for x in deps):
                                loose.add((i, t))
    loose_nodes = {t for _, t in loose}
    direct = [False, True, False, None]
    through, todo = set(), [h for h in helpers if h in b["cls"]]
    while todo:
        i = todo.pop()
        if i not in through:
            through.add(i)
            todo += b["edges"].get(i, ())
    for i in b["reach"]:
        cls, out = b["cls"][i], dict(b["edges"].get(i, {}))
        compiled = i in case["compiled"]
        if compiled:
            ctx.check(cls == "ExtensionModule" or cls == "Package" and b["init"][i] == "ExtensionModule", "class", lambda: f"compiled module {i} is a {cls}")
        if i in helpers:
            ctx.check(cls in ("ExtensionModule", "MissingModule"), "helper", lambda: f"{i} is a {cls}")
            continue
        if i not in a["reach"]:
            ctx.check(i in loose_nodes or i in through, "nodes", lambda: f"{i} ({cls}) is not in the graph of the source")
            continue
        if not compiled and i not in case["owner"]:
            ctx.check(cls == a["cls"][i], "class", lambda: f"{i} is a {cls}, for the source a {a['cls'][i]}")
        want = dict(a["edges"].get(i, {}))
        # the dependency on the helper module
        have = [h for h in helpers if out.get(h) == [direct] or h in out and direct in out[h]]
        own = {n for n, _ in case["helpers"]} if case["owner"].get(i) == 1 else {"other__mypyc"} & helpers
        if usable(case, i):
            helped += 1
            ctx.check(len(set(have) & own) == 1, "helper", lambda: f"{i} has edges to the helpers {have}, expected one of {sorted(own)}")
        else:
            unread = compiled and case["hooks"] and is_mypyc(case, case["owner"].get(i)) and case["compiled"][i][1] not in ("none", "dir")
            ctx.check(not have or unread, "helper", lambda: f"{i} has edges to the helpers {have}")
            if compiled or mods.get(i) is not None and mods[i].kind == "ext":
                inside = {i.rpartition(".")[0]} - {""} if i not in b["roots"] else {i.rpartition(".")[0]} - {""}
                ctx.check(set(out) - set(have) == inside, "no source", lambda: f"{i} has no usable source, edges go to {sorted(out)}")
                ctx.label("without usable source")
                continue
        for h in helpers:
            out.pop(h, None)
        for t in sorted(set(out) | set(want)):
            x, y = out.get(t), want.get(t)
            if x == y or (i, t) in loose:
                continue
            ctx.fail("edges", f"{i} ({cls}) -> {t}: {x}, the source gives {y}")
    gone = set(a["reach"]) - set(b["reach"])
    ctx.check(gone <= loose_nodes, "nodes", lambda: f"{sorted(gone - loose_nodes)} are in the graph of the source only")
    ctx.nontrivial(helped >= 1 and any(len(b["edges"].get(i, {})) >= 3 for i in case["compiled"] if usable(case, i)))
    ctx.label("compiled modules with source", helped)


def vague(case, model, name, seen=()):
    """Can the set of globals of *name* depend on a compiled module?"""
    if name in case["compiled"]:
        return True
    mod = model.mods.get(name)
    if mod is None or name in seen:
        return False
    return any(vague(case, model, model.resolve(mod, r.level, r.module) or "", (*seen, name)) for r in mod.recs if r.kind == "star")
