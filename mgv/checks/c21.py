"""C21: distributions in the graph own their modules."""
import os
import sys
import zipfile

from .. import model as M, project as P, sut
from . import c14, c20

try:
    from hypothesis import strategies as st
except ImportError:
    st = None

SO = c20.SO
MODULES = ["ma.py", "mb.pyc", "mc" + SO, "pa/__init__.py", "pa/sa.py", "pa/qa/__init__.py", "pa/qa/sb.py", "pa/sx" + SO, "pb/__init__.pyc", "pb/sa.py", "pc/__init__" + SO, "pc/sa.py",
           "nsa/sa.py", "nsa/qa/__init__.py", "pf/__init__.py", "pf/sa.py", "bad.py"]
NAMES = ["ma", "mb", "mc", "pa", "pa.sa", "pa.qa", "pa.qa.sb", "pa.sx", "pb", "pb.sa", "pc", "pc.sa", "nsa", "nsa.sa", "nsa.qa", "pf", "pf.sa", "bad", "zza", "errno", "gc"]


@st.composite
def strategy_(draw):
    g = P.Gen(draw)
    entries = []
    for i in range(g.int(1, 3)):
        files = {f: [g.pick(NAMES) for _ in range(g.weighted([(0, 4), (1, 4), (2, 2)]))] for f in MODULES if g.chance(45)}
        dists = []
        for _ in range(g.weighted([(0, 1), (1, 5), (2, 4), (3, 1)])):
            names = [f for f in files if g.chance(50)]
            if g.chance(30):
                names.append(g.pick(MODULES))
            if g.chance(15):
                names.append(f"../p{g.int(0, 2)}/" + g.pick(MODULES))
            if g.chance(15):
                names.append("../p1.zip/ma.py")
            dists.append({"name": g.pick(["dista", "distb", "Dist-C"]), "version": g.pick(["1", "2"]), "dir": "plain", "files": names, "style": "csv", "meta": "plain",
                          "broken": g.weighted([(None, 14), ("norecord", 1), ("nometa", 1), ("badutf8", 1)])})
        entries.append({"kind": g.weighted([("dir", 8), ("zip", 2), ("relative", 2), ("dotdot", 2), ("slash", 1), ("symlink", 1), ("hidden", 1)]), "files": files, "dists": dists})
    ops = []
    for _ in range(g.int(1, 6)):
        k = g.weighted([("dist", 8), ("object", 4), ("module", 8), ("unknown", 2), ("exclude", 1)])
        ops.append([k, {"dist": lambda: g.pick(["dista", "distb", "Dist-C"]), "object": lambda: g.int(0, 9), "module": lambda: g.pick(NAMES),
                        "unknown": lambda: g.pick(["nodist", "", "dist-c", "DISTA", "ma", "dista-1.dist-info"]), "exclude": lambda: g.pick(NAMES)}[k]()])
    return {"entries": entries, "ops": ops}


def strategy():
    return strategy_()


def source(f, imports):
    text = "".join(f"import {n}\n" for n in imports)
    if f == "bad.py":
        text += "x = (\n"
    elif f.startswith("pf/__init__"):
        text += "raise RuntimeError\n"
    return text


def write(case, ctx):
    """Returns (search path, expected distributions per path entry, expected distributions elsewhere)."""
    from .c19 import pyc
    path, want, hidden = [], [], []
    for i, e in enumerate(case["entries"]):
        root = os.path.join(ctx.dir, f"p{i}")
        k = e["kind"]
        ctx.label("entry:" + k)
        data = {f: b"" if f.endswith(".so") else pyc(source(f, imp)) if f.endswith(".pyc") else source(f, imp).encode() for f, imp in e["files"].items()}
        if k == "zip":
            root += ".zip"
            with zipfile.ZipFile(root, "w") as z:
                for f, b in data.items():
                    z.writestr(f, b)
            path.append(root)
            want.append([])
            continue
        os.makedirs(root, exist_ok=True)
        for f, b in data.items():
            P.write_file(os.path.join(root, f), b)
        shown = root
        if k == "symlink":
            shown = os.path.join(ctx.dir, f"link{i}")
            os.symlink(root, shown)
        mine = [m for m in (c20.write(root, f"{i}{j}", d, shown) for j, d in enumerate(e["dists"])) if m]
        if k == "relative":
            shown = f"p{i}"
        elif k == "dotdot":
            os.makedirs(os.path.join(ctx.dir, "up"), exist_ok=True)
            shown = os.path.join(ctx.dir, "up", "..", f"p{i}")
        elif k == "slash":
            shown = root + "/"
        if k == "hidden":
            hidden.append((root, mine))
        else:
            path.append(shown)
            want.append(mine)
    return path, want, hidden


def run(case, ctx):
    import modulegraph2
    path, want, hidden = write(case, ctx)
    sut.use_path(*path)
    flat = [m for w in want for m in w]
    everything = flat + [m for _, ms in hidden for m in ms]
    mg = ctx.sut("ModuleGraph()", modulegraph2.ModuleGraph)
    objects = []
    for p in [path, *([r] for r, _ in hidden)]:
        objects += ctx.sut("all_distributions", lambda: list(modulegraph2.all_distributions(p)))
    roots, added = set(), {}
    for k, arg in case["ops"]:
        ctx.label("op:" + k)
        before = c14.snapshot(mg)
        unchanged = False
        if k == "exclude":
            ctx.sut("add_excludes", mg.add_excludes, [arg])
            unchanged = True
        elif k == "module":
            node = ctx.sut(f"add_module({arg!r})", mg.add_module, arg)
            roots.add(node.identifier)
        elif k == "unknown" or k == "dist" and not any(m["name"] == arg for m in flat):
            try:
                ctx.sut(f"add_distribution({arg!r})", mg.add_distribution, arg, allowed=(ValueError,))
                ctx.fail("no-exception", f"add_distribution({arg!r}) should have failed")
            except ValueError:
                unchanged = True
        else:
            if k == "object":
                if not objects:
                    continue
                obj = objects[arg % len(objects)]
                exp = [m for m in everything if c20.same(obj, m)]
            else:
                obj = arg
                exp = [m for m in next(w for w in want if any(m["name"] == arg for m in w)) if m["name"] == arg]
            node = ctx.sut(f"add_distribution({obj!r})", mg.add_distribution, obj)
            ctx.check(any(c20.same(node, m) for m in exp), "return", lambda: f"add_distribution({arg!r}) returned {c20.shown_dist(node)}, expected {exp}")
            ctx.check(mg.find_node(node) is node and mg.find_node(node.identifier) is node, "node", lambda: f"{node!r} is not a node of the graph")
            if k == "object":
                ctx.check(node.identifier == obj.identifier, "return", lambda: f"add_distribution of {obj.identifier} returned {node.identifier}")
            unchanged = node.identifier in added
            added[node.identifier] = node
            roots.add(node.identifier)
        after = c14.snapshot(mg)
        if unchanged:
            ctx.check(before == after, "changed", lambda: f"{k} {arg!r} changed the graph: {c14.delta(before, after)}")
            ctx.label("no change")
        verify(ctx, mg, modulegraph2, want, roots, added)
    ctx.nontrivial(bool(added) and any(n.distribution for n in mg.nodes() if not hasattr(n, "import_names")))


def verify(ctx, mg, modulegraph2, want, roots, added):
    dep = modulegraph2.DependencyInfo(False, True, False, None)
    have = {n.identifier for n in mg.roots()}
    ctx.check(have == roots, "roots", lambda: f"roots {sorted(have)}, expected {sorted(roots)}")
    owned = {}
    for node in mg.nodes():
        if hasattr(node, "import_names"):
            ctx.check(node.identifier in added, "extra-node", lambda: f"distribution {node.identifier} is a node of the graph")
            continue
        file = node.filename
        if isinstance(node, modulegraph2.Package):
            file = node.init_module.filename
            ctx.check(node.init_module.distribution is node.distribution, "init", lambda: f"{node.name} and its init module have different distributions: {node.distribution} and {node.init_module.distribution}")
        elif isinstance(node, (modulegraph2.NamespacePackage, modulegraph2.FrozenModule)):
            file = None
        owners = []
        if file is not None:
            f = os.path.abspath(file)
            owners = next((o for o in ([m for m in w if f in m["files"]] for w in want) if o), [])
        d = node.distribution
        if not owners:
            if file is not None and not str(os.path.abspath(file)).startswith(ctx.dir):
                # standard library: what is installed in the environment isn't on the path
                pass
            ctx.check(d is None, "owner", lambda: f"{node.name} ({file}) belongs to no distribution, it has {d!r}")
        else:
            ctx.check(d is not None, "owner", lambda: f"{node.name} ({file}) has no distribution, it belongs to {[m['path'] for m in owners]}")
            ctx.check(any(c20.same(d, m) for m in owners), "owner", lambda: f"{node.name} ({file}) belongs to {d.identifier}, expected {[m['path'] for m in owners]}")
            ctx.label("owned module")
            ctx.check(d is mg.find_node(d.identifier) or mg.find_node(d.identifier) is None, "identity", lambda: f"{d!r} is not the node of the graph")
            owned[node.identifier] = d
    for i, node in added.items():
        out = {t.identifier: set(deps) for deps, t in mg.outgoing(node)}
        ctx.check(out == {n: {dep} for n in node.import_names}, "edges", lambda: f"{i} has edges {out}, import names {sorted(node.import_names)}")
    reach = {n.identifier for n in mg.iter_graph()}
    for flag, idents in ((True, reach), (False, {n.identifier for n in mg.nodes()})):
        got = [d.identifier for d in ctx.sut(f"distributions({flag})", lambda: list(mg.distributions(flag)))]
        exp = {d.identifier for n, d in owned.items() if n in idents}
        ctx.check(sorted(got) == sorted(exp), "distributions", lambda: f"distributions({flag}) are {got}, expected {sorted(exp)}")
    ctx.check([d.identifier for d in mg.distributions()] == [d.identifier for d in mg.distributions(True)], "default", "distributions() and distributions(True) differ")
