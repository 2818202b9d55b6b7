"""C14: the graph is well formed and complete after every operation of any history."""
import io
import os

from .. import config, dists, model as M, project as P, sut


class Gen(P.ProjectGen):
    def op(self, p, depth=0):
        names = [m["name"] for m in p["mods"]]
        kinds = [("module", 10), ("script", 4), ("badscript", 2), ("source", 5), ("badsource", 2), ("dist", 4), ("exclude", 3), ("imply", 3), ("badname", 2), ("report", 1), ("query", 1)]
        if depth:
            kinds += [("import", 14), ("package", 8)]
        if depth < 2:
            kinds.append(("ctx", 12))
        k = self.weighted(kinds)
        if k == "module":
            return [k, self.abs_name()]
        if k == "badname":
            return [k, self.int(0, 30), self.pick(["", ".", "..", ".x", "..x.y", "{}..x", ".{}", "{}...", "..{}..x"]).format(self.abs_name()), self.pick(["module", "import", "package"])]
        if k == "script":
            return [k, self.pick([s["name"] for s in p["scripts"]] or ["none.py"])]
        if k == "badscript":
            return [k, self.pick(["broken.py", "none.py", "folder.py"])]
        if k in ("source", "badsource"):
            body = [s for s in self.body({"name": "-", "kind": "script"}, 0, False, True, 3)]
            return [k, body]
        if k == "dist":
            return [k, self.pick(["dista", "distb", "nodist"]), self.chance(30)]
        if k == "exclude":
            return [k, config.gen_excludes(self, p, 2)]
        if k == "imply":
            return [k, config.gen_implies(self, p, 2)]
        if k in ("import", "package"):
            return [k, self.int(0, 30), self.abs_name() if self.chance(70) else self.pick(names).split(".")[0]]
        if k == "ctx":
            return [k, [self.op(p, depth + 1) for _ in range(self.int(0, 3))], self.chance(25)]
        return [k]


def post(g, p):
    p["ops"] = [g.op(p) for _ in range(g.int(1, 8))]
    tops = sorted({m["name"].split(".")[0] for m in p["mods"]})
    p["dists"] = {n: g.pick(tops) for n in ["dista", "distb"] if g.chance(60)}
    if g.chance(25):
        config.config(g, p)
    # a hook that raises an exception when one of these modules is processed
    p["boom"] = []
    if g.chance(30):
        p["boom"] = sorted({g.pick(p["mods"])["name"] for _ in range(g.int(1, 3))})
        p["dists"] = {}
        # use the names again that were involved when the hook failed
        used = [o[-1] for op in p["ops"] if op[0] == "ctx" for o in op[1] if o[0] == "package"]
        if not used and g.chance(70):
            used = [g.pick(p["mods"])["name"].split(".")[0]]
            p["ops"].insert(0, ["ctx", [["module", "gc"], ["package", 0, used[0]]], False])
        p["ops"] += [["module", n] for n in used[:3]]


def strategy():
    return P.project_strategy(gen=Gen, post=post, roots=False, scripts=2, max_stmts=3)


class Boom(Exception):
    pass


class World:
    """The graph under test with what the history says about it."""

    def __init__(self, case, ctx):
        import modulegraph2
        self.case, self.ctx = case, ctx
        self.model = M.Model(case)
        self.files = P.write_project(case, ctx.dir)
        P.write_file(os.path.join(ctx.dir, "broken.py"), "import errno\nx = (\n")
        os.mkdir(os.path.join(ctx.dir, "folder.py"))
        self.dist_names = {}
        self.dist_dirs = {}
        for name, top in case["dists"].items():
            files = [f for f in self.files if f == top + ".py" or f.startswith((top + "/", top + "."))]
            self.dist_names[name] = {m["name"] for m in case["mods"] if P.module_path(m, None) in files}
            self.dist_dirs[name] = dists.write_dist(ctx.dir, name, "1.0", files)
        sut.use_path(ctx.dir)
        self.mg = ctx.sut("ModuleGraph()", modulegraph2.ModuleGraph)
        self.must_roots, self.may_roots = set(), set()
        self.extra = {}
        self.named = {}     # node -> names imported for it by operations
        self.known_dists = set()
        self.boom = set(case.get("boom") or ())
        self.fired = 0
        self.may_extra = {}
        if self.boom:
            self.mg.add_post_processing_hook(self.hook)
        self.configure()

    def hook(self, graph, node):
        if node.identifier in self.boom:
            self.boom.discard(node.identifier)
            self.fired += 1
            raise Boom(node.identifier)

    def settle(self):
        """Let the graph finish the work that was pending when a hook failed."""
        self.ctx.label("hook failed")
        self.model.loose = True
        while True:
            fired = self.fired
            try:
                with self.mg.hook_context():
                    pass
            except Boom:
                continue
            self.ctx.check(fired == self.fired, "hook-exception", "an exception raised by a hook did not reach the caller")
            return

    def configure(self):
        self.exclude(self.case.get("excludes") or [])
        self.imply(self.case.get("implies") or {})

    # -- configuration: has an effect on names that are not in the graph
    def exclude(self, names):
        self.model._maybe = None
        self.ctx.sut("add_excludes", self.mg.add_excludes, names)
        for n in names:
            if self.mg.find_node(n) is None:
                self.model.excludes.add(n)
                self.model.implies.pop(n, None)

    def imply(self, implies):
        self.model._maybe = None
        self.ctx.sut("add_implies", self.mg.add_implies, {k: sut.implies_value(v) for k, v in implies.items()})
        for k, v in sut.model_implies(implies).items():
            if self.mg.find_node(k) is None and k not in self.model.excludes and k != "__main__":
                self.model.implies[k] = v

    def walk(self, name, extra=None):
        """Edges that import_package adds below package *name*."""
        if extra is None:
            extra = self.extra
        todo = [name]
        while todo:
            n = todo.pop()
            if self.model.kind(n) not in ("pkg", "ns"):
                continue
            for m in self.case["mods"]:
                if m["name"].rpartition(".")[0] == n:
                    if m["name"] not in extra.get(n, ()):
                        extra.setdefault(n, set()).add(m["name"])
                    todo.append(m["name"])

    # -- operations
    def do(self, op, depth=0):
        if depth or not self.boom:
            return self.do1(op, depth)
        before, fired = snapshot(self.mg), self.fired
        try:
            self.do1(op, depth)
            self.ctx.check(fired == self.fired, "hook-exception", "an exception raised by a hook did not reach the caller")
        except Boom:
            self.structure()
            self.settle()
            self.kept(op, before, snapshot(self.mg))

    def do1(self, op, depth):
        ctx, mg, model = self.ctx, self.mg, self.model
        k = op[0]
        ctx.label("op:" + k)
        before = snapshot(mg) if depth == 0 else None
        unchanged = False
        if k == "module":
            # (names that were looked for in vain are unreachable nodes)
            present = op[1] in {n.identifier for n in mg.iter_graph()}
            self.may_roots.add(model.target(op[1]))
            node = ctx.sut(f"add_module({op[1]!r})", mg.add_module, op[1], allowed=(Boom,))
            name = model.target(op[1])
            ctx.check(node is mg.find_node(name), "return", lambda: f"add_module returned {node!r}, the graph has {mg.find_node(name)!r}")
            self.must_roots.add(name)
            unchanged = present
        elif k == "script":
            path = os.path.join(ctx.dir, op[1])
            exists = op[1] in self.files
            dup = mg.find_node(path) is not None
            if exists:
                self.may_roots.add(op[1])
            try:
                node = ctx.sut(f"add_script({op[1]!r})", mg.add_script, op[1], allowed=(ValueError, OSError, Boom))
                ctx.check(exists and not dup, "no-exception", lambda: f"add_script({op[1]!r}) should have failed")
                ctx.check(node is mg.find_node(path), "return", lambda: f"add_script returned {node!r}")
                self.must_roots.add(op[1])
            except ValueError as exc:
                ctx.check(exists and dup, "exception:ValueError", lambda: f"add_script({op[1]!r}): {exc!r}")
                ctx.label("duplicate script")
                unchanged = True
            except OSError as exc:
                ctx.check(not exists, "exception:OSError", lambda: f"add_script({op[1]!r}): {exc!r}")
                unchanged = True
        elif k == "badname":
            # something that cannot be the (absolute) name of a module
            nodes = sorted((n for n in mg.nodes() if not hasattr(n, "import_names")), key=lambda n: n.identifier)
            if any(n.identifier.startswith(".") for n in mg.nodes()):
                # (relative imports that lead outside their package are in
                # the graph by names like this)
                return
            here = before or snapshot(mg)
            try:
                if op[3] == "module" or not nodes:
                    mg.add_module(op[2])
                else:
                    (mg.import_module if op[3] == "import" else mg.import_package)(nodes[op[1] % len(nodes)], op[2])
                ctx.fail("no-exception", f"{op} should have failed")
            except ValueError:
                unchanged = True
            after = snapshot(mg)
            ctx.check(here == after, "changed", lambda: f"{op} changed the graph: " + delta(here, after))
        elif k == "badscript":
            try:
                mg.add_script(op[1])
                ctx.fail("no-exception", f"add_script({op[1]!r}) should have failed")
            except (OSError, SyntaxError):
                unchanged = True
        elif k in ("source", "badsource"):
            text = P.Render().source(op[1], None)
            if isinstance(text, bytes):
                text = text.decode()
            if k == "badsource":
                try:
                    mg.add_dependencies_for_source(text + "\nx = (\n")
                    ctx.fail("no-exception", "add_dependencies_for_source with a syntax error should have failed")
                except SyntaxError:
                    unchanged = True
            else:
                try:
                    ctx.sut("add_dependencies_for_source", mg.add_dependencies_for_source, text, allowed=(Boom,))
                    must = self.must_roots
                except Boom:
                    must = self.may_roots
                for r in M.scan(op[1]):
                    if r.level:
                        continue
                    must.add(model.target(r.module))
                    if r.kind != "from":
                        continue
                    base = model.resolved(r.module)
                    bk = model.kind(base)
                    for nm, _ in r.names:
                        sub = f"{base}.{nm}"
                        if bk in ("pkg", "ns"):
                            if model.kind(sub) != "missing" or nm not in model.maybe(base):
                                must.add(model.target(sub))
                            else:
                                self.may_roots.add(sub)
                        elif bk in ("alias", "virtual", "hook", "same"):
                            self.may_roots.add(model.target(sub))
                if must is self.may_roots:
                    raise Boom("source")
        elif k == "dist":
            if op[1] not in self.dist_names:
                try:
                    mg.add_distribution(op[1])
                    ctx.fail("no-exception", f"add_distribution({op[1]!r}) should have failed")
                except ValueError:
                    unchanged = True
            else:
                arg = op[1]
                if op[2]:
                    import modulegraph2
                    arg = ctx.sut("distribution_named", modulegraph2.distribution_named, op[1])
                node = ctx.sut(f"add_distribution({arg!r})", mg.add_distribution, arg)
                ctx.check(mg.find_node(node) is node, "return", lambda: f"add_distribution returned {node!r} which is not in the graph")
                ctx.check(node.name == op[1], "return", lambda: f"add_distribution({op[1]!r}) returned {node!r}")
                i = os.path.relpath(node.identifier, ctx.dir)
                unchanged = op[1] in self.known_dists
                self.known_dists.add(op[1])
                self.must_roots.add(i)
                self.dist_ident = getattr(self, "dist_ident", {})
                self.dist_ident[i] = op[1]
        elif k == "exclude":
            self.exclude(op[1])
            unchanged = True
        elif k == "imply":
            self.imply(op[1])
            unchanged = True
        elif k == "report":
            ctx.sut("report", mg.report, io.StringIO())
            unchanged = True
        elif k == "query":
            ctx.sut("queries", lambda: (list(mg.iter_graph()), list(mg.distributions()), list(mg.distributions(False)), mg.find_node("zzzz"), "zzzz" in mg))
            unchanged = True
        elif k in ("import", "package"):
            nodes = sorted((n for n in mg.nodes() if not hasattr(n, "import_names") and not n.identifier.startswith(".")), key=lambda n: n.identifier)
            if not nodes:
                return
            imp = nodes[op[1] % len(nodes)]
            f = mg.import_module if k == "import" else mg.import_package
            name = model.target(op[2])
            if self.case.get("boom") and k == "package":
                # (a failing hook may end this at any point)
                self.may_extra.setdefault(self.ident(imp), set()).add(name)
                self.walk(name, self.may_extra)
            node = ctx.sut(f"import_{k}({imp.identifier!r}, {op[2]!r})", f, imp, op[2], allowed=(Boom,))
            ctx.check(node is mg.find_node(name), "return", lambda: f"import_{k} returned {node!r}")
            self.extra.setdefault(self.ident(imp), set()).add(name)
            self.named.setdefault(self.ident(imp), set()).add(op[2])
            if k == "package" and not self.case.get("boom"):
                self.walk(name)
        elif k == "ctx":
            if len(op[1]) > 1 or any(o[0] in ("package", "ctx") for o in op[1]):
                model.loose = True
            try:
                ctx.sut("hook_context", self.context, op, depth, allowed=(Boom,))
                ctx.check(not op[2], "swallowed", "hook_context swallowed an exception")
            except Boom as exc:
                if exc.args:
                    raise
                ctx.label("hook context left by an exception")
        if depth == 0:
            after = snapshot(mg)
            if unchanged:
                a, b = (before, after) if k not in ("module",) else ({**before, "roots": 0}, {**after, "roots": 0})
                ctx.check(a == b, "changed", lambda: f"{op} changed the graph: " + delta(a, b))
                ctx.label("no change")
            self.kept(op, before, after)

    def kept(self, op, before, after):
        ctx = self.ctx
        ctx.check(before["roots"] <= after["roots"], "lost-root", lambda: f"{op} removed roots {before['roots'] - after['roots']}")
        for n, ob in before["nodes"].items():
            ctx.check(after["nodes"].get(n) == ob, "lost-node", lambda: f"{op} removed or replaced node {n!r}")
        for e, d in before["edges"].items():
            ctx.check(d <= after["edges"].get(e, set()), "lost-edge", lambda: f"{op} removed {d - after['edges'].get(e, set())} from edge {e}")

    def context(self, op, depth):
        with self.mg.hook_context():
            for o in op[1]:
                self.do(o, depth + 1)
                self.structure()
            if op[2]:
                raise Boom

    def ident(self, n):
        i = n.identifier
        return i[len(self.ctx.dir) + 1:] if i.startswith(self.ctx.dir + "/") else i

    # -- invariants
    def structure(self):
        ctx, mg = self.ctx, self.mg
        nodes = list(mg.nodes())
        idents = [n.identifier for n in nodes]
        ctx.check(len(set(idents)) == len(idents), "identifiers", lambda: f"identifiers are not unique: {sorted(i for i in idents if idents.count(i) > 1)}")
        for n in nodes:
            ctx.check(mg.find_node(n.identifier) is n and mg.find_node(n) is n and n in mg and n.identifier in mg, "find-node", lambda: f"find_node({n.identifier!r}) is {mg.find_node(n.identifier)!r}")
            ctx.check(hasattr(n, "import_names") or n.identifier == n.name, "identifier", lambda: f"{n!r} has identifier {n.identifier!r}")
        known = set(map(id, nodes))
        import modulegraph2
        for s, t, deps in mg.edges():
            ctx.check(id(s) in known and id(t) in known, "edge-ends", lambda: f"edge {s!r} -> {t!r} with an end outside the graph")
            ctx.check(bool(deps), "edge-empty", lambda: f"edge {s.identifier} -> {t.identifier} has no attributes")
            for d in deps:
                ctx.check(isinstance(d, modulegraph2.DependencyInfo), "edge-attribute", lambda: f"edge {s.identifier} -> {t.identifier} has attribute {d!r}")
        for r in mg.roots():
            ctx.check(id(r) in known, "root-node", lambda: f"root {r!r} is not a node")

    def complete(self):
        ctx, mg = self.ctx, self.mg
        d = M.Dump(mg, ctx.dir)
        ctx.check(self.must_roots <= d.roots, "roots", lambda: f"missing roots {sorted(self.must_roots - d.roots)}")
        ctx.check(d.roots <= self.must_roots | self.may_roots, "roots", lambda: f"unexpected roots {sorted(d.roots - self.must_roots - self.may_roots)}")
        di = getattr(self, "dist_ident", {})
        M.verify(self.model, d, ctx, roots=d.roots, extra_edges=self.extra, skip=set(di), may_edges=self.may_extra)
        for i, name in di.items():
            want = {n: {M.DEFAULT} for n in self.dist_names[name]}
            ctx.check(d.out(i) == want, "dist-edges", lambda: f"edges of distribution {name}: {d.out(i)}, expected {want}")
        # what is reachable is what the graph says is reachable
        it = [n for n in mg.iter_graph()]
        ids = {self.ident(n) for n in it}
        ctx.check(len(ids) == len(it) and ids == d.reachable, "iter-graph", lambda: f"iter_graph: {sorted(ids ^ d.reachable)}")


def snapshot(mg):
    return {"nodes": {n.identifier: id(n) for n in mg.nodes()}, "roots": {n.identifier for n in mg.roots()},
            "edges": {(s.identifier, t.identifier): set(d) for s, t, d in mg.edges()}}


def delta(a, b):
    out = []
    for k in a:
        if isinstance(a[k], dict):
            out += [f"{k} {x}: {a[k].get(x)} -> {b[k].get(x)}" for x in sorted(set(a[k]) | set(b[k]), key=str) if a[k].get(x) != b[k].get(x)]
        elif a[k] != b[k]:
            out.append(f"{k}: {a[k]} -> {b[k]}")
    return "; ".join(out)[:1500]


def run(case, ctx):
    w = World(case, ctx)
    done = 0
    for op in case["ops"]:
        w.do(op)
        w.structure()
        w.complete()
        done += 1
    ctx.label(f"operations:{done}")
    ctx.nontrivial(done >= 3 and len(list(w.mg.edges())) >= 2)
