"""C17: post-processing hooks see every node exactly once, fully processed."""
from .. import config, core, model as M, project as P, sut
from . import c14


class Gen(c14.Gen):
    def op(self, p, depth=0):
        if depth == 0 and self.chance(12):
            return ["register", self.hook(p)]
        if depth == 0 and self.chance(40):
            return ["module", self.abs_name()]
        return super().op(p, depth)

    def hook(self, p):
        """{node: [action, ...]} of one hook"""
        out = {}
        for _ in range(self.weighted([(0, 5), (1, 4), (2, 3), (3, 1)])):
            node = self.weighted([(self.pick(p["mods"])["name"], 8), (self.abs_name(), 3), ("script0.py", 1), ("zza", 1)])
            k = self.weighted([("import", 8), ("package", 5), ("add", 3), ("script", 1), ("register", 1), ("source", 1)])
            arg = self.abs_name() if k != "package" else self.pick(p["mods"])["name"]
            if k == "script":
                arg = "script1.py"
            out.setdefault(node, []).append([k, arg])
        return out


def post(g, p):
    p["hooks"] = [g.hook(p) for _ in range(g.int(1, 3))]
    if g.chance(30):
        config.config(g, p)
    tops = sorted({m["name"].split(".")[0] for m in p["mods"]})
    p["dists"] = {n: g.pick(tops) for n in ["dista"] if g.chance(40)}
    p["ops"] = [g.op(p) for _ in range(g.int(1, 5))]


def strategy():
    return P.project_strategy(gen=Gen, post=post, roots=False, scripts=2, max_stmts=3)


class World(c14.World):
    def __init__(self, case, ctx):
        self.seen = []      # (hook number, identifier, edges at that time)
        self.hooks = []     # for every hook: what was in the graph when it was added
        super().__init__(case, ctx)
        for h in case["hooks"]:
            self.register(h)

    def register(self, actions, inner=False):
        no = len(self.hooks)
        # a hook that another hook adds may miss names that are being processed
        self.hooks.append(None if inner else {self.ident(n) for n in self.mg.nodes()})

        def hook(graph, node):
            ctx = self.ctx
            ctx.check(graph is self.mg, "arguments", lambda: f"hook called with {graph!r} as the graph")
            ctx.check(not hasattr(node, "import_names"), "distribution", lambda: f"hook called for distribution {node!r}")
            i = self.ident(node)
            ctx.check(self.mg.find_node(node.identifier) is node, "not-in-graph", lambda: f"hook called for {node!r}, the graph has {self.mg.find_node(node.identifier)!r}")
            self.seen.append((no, i, {self.ident(t): set(d) for d, t in self.mg.outgoing(node)}))
            for k, arg in actions.get(i, []):
                ctx.label("hook action:" + k)
                self.model.loose = True
                if k == "import":
                    self.mg.import_module(node, arg)
                    self.extra.setdefault(i, set()).add(arg)
                elif k == "package":
                    self.extra.setdefault(i, set()).add(arg)
                    self.mg.import_package(node, arg)
                    self.walk(arg)
                elif k == "add":
                    self.mg.add_module(arg)
                    self.must_roots.add(arg)
                elif k == "source":
                    self.mg.add_dependencies_for_source(f"import {arg}\n")
                    self.must_roots.add(arg)
                elif k == "script":
                    if arg in self.files:
                        try:
                            self.mg.add_script(arg)
                            self.must_roots.add(arg)
                        except ValueError:
                            pass
                elif k == "register":
                    self.register({}, inner=True)

        self.mg.add_post_processing_hook(hook)

    def do(self, op, depth=0):
        if op[0] == "register":
            self.register(op[1])
        else:
            super().do(op, depth)


def run(case, ctx):
    w = World(case, ctx)
    for op in case["ops"]:
        w.do(op)
        w.structure()
        w.complete()
        calls(w, ctx)
    ctx.label(f"hooks:{len(w.hooks)}")
    ctx.nontrivial(len({i for _, i, _ in w.seen}) >= 3)


def calls(w, ctx):
    d = M.Dump(w.mg, ctx.dir)
    nodes = {i for i, n in d.nodes.items() if not hasattr(n, "import_names")}
    per = {}
    for no, i, edges in w.seen:
        per.setdefault(no, {}).setdefault(i, []).append(edges)
    for no, old in enumerate(w.hooks):
        got = per.get(no, {})
        twice = [i for i, e in got.items() if len(e) > 1]
        ctx.check(not twice, "twice", lambda: f"hook {no} was called more than once for {twice}")
        if old is not None:
            missed = nodes - old - set(got)
            ctx.check(not missed, "missed", lambda: f"hook {no} was not called for {sorted(missed)}")
            late = set(got) & old
            ctx.check(not late, "again", lambda: f"hook {no} was called for {sorted(late)}, which were complete when it was added")
        unknown = set(got) - nodes
        ctx.check(not unknown, "unknown", lambda: f"hook {no} was called for {sorted(unknown)} which are not in the graph")
        for i, calls in got.items():
            mod = w.model.mods.get(i) or w.model.scripts.get(i)
            final = {t: {x for x in deps if not (x == M.DEFAULT and t in w.extra.get(i, ()))} for t, deps in d.out(i).items()}
            then = {t: {(x.is_optional, x.is_global, x.in_fromlist, x.imported_as) for x in deps} for t, deps in calls[0].items()}
            if mod is None or d.cls[i] not in ("SourceModule", "Package", "Script"):
                continue
            for t, deps in final.items():
                ctx.check(deps <= then.get(t, set()), "incomplete", lambda: f"hook {no} was called for {i} before its edge to {t} {deps - then.get(t, set())} was there")
    # for one node: latest hook first
    order = {}
    for no, i, _ in w.seen:
        order.setdefault(i, []).append(no)
    for i, nos in order.items():
        ctx.check(nos == sorted(nos, reverse=True), "order", lambda: f"{i}: hooks were called in the order {nos}")

