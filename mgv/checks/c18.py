"""C18: missing hooks decide what an unresolvable name becomes."""
from .. import config, core, model as M, project as P, sut
from . import c14

MISSING = ["zza", "zzb", "zza.sa", "zzb.zz"]
CLASSES = ["VirtualNode", "ExtensionModule", "BuiltinModule", "ExcludedModule", "NamespacePackage", "SourceModule"]


class Gen(c14.Gen):
    def abs_name(self):
        if self.chance(12):
            return self.pick(MISSING)
        return super().abs_name()

    def gone(self, p):
        names = [m["name"] for m in p["mods"]]
        return self.weighted([(self.pick(MISSING), 6), (self.pick(names) + "." + self.pick(["zz", "sa", "va"]), 6), (self.pick(names) + ".zz." + self.pick(["yy", "sa"]), 2),
                              (self.pick(names), 1), (self.pick(["errno", "ia", "mda"]), 1)])

    def hook(self, p):
        """name -> [answer, imports]"""
        out = {}
        for _ in range(self.int(0, 4)):
            k = self.weighted([("new", 8), ("same", 5), ("none", 4), ("raise", 1)])
            arg = {"new": lambda: self.pick(CLASSES), "same": lambda: self.pick(p["keep"]), "none": lambda: None, "raise": lambda: None}[k]()
            out[self.gone(p)] = [k, arg, [self.pick(p["mods"])["name"] for _ in range(self.weighted([(0, 6), (1, 2), (2, 1)]))], self.pick(["module", "package"])]
        return out

    def op(self, p, depth=0):
        if depth == 0 and self.chance(12):
            return ["register", self.hook(p)]
        if depth == 0 and self.chance(40):
            return ["module", self.abs_name()]
        return super().op(p, depth)


def post(g, p):
    p["keep"] = [g.pick(["errno", "gc", g.pick(p["mods"])["name"]]) for _ in range(2)]
    p["hooks"] = [g.hook(p) for _ in range(g.int(1, 3))]
    if g.chance(35):
        config.config(g, p)
    p["ops"] = [g.op(p) for _ in range(g.int(1, 5))]
    if g.chance(12):
        # a root that is missing, the hook adds modules that import it as well
        m = g.pick(p["mods"])
        if m["kind"] in ("mod", "pkg"):
            n = g.pick(MISSING)
            m["body"] = [["imp", [[n, None]]], *(m.get("body") or [])]
            k = g.weighted([("none", 3), ("new", 1)])
            g.pick(p["hooks"])[n] = [k, g.pick(CLASSES) if k == "new" else None, [m["name"].split(".")[0]], g.pick(["module", "package", "package"])]
            p["ops"].insert(0, ["module", n])
    p["dists"] = {}


def strategy():
    return P.project_strategy(gen=Gen, post=post, roots=False, scripts=1, max_stmts=4)


class Refused(Exception):
    pass


class World(c14.World):
    def __init__(self, case, ctx):
        super().__init__(case, ctx)
        self.log = []
        self.hooks = []
        self.active, self.nested = [], set()
        self.before = []    # identifiers in the graph when the hook was added
        self.raised = 0
        # the nodes that hooks answer with exist from the start
        for n in case["keep"]:
            self.do(["module", n])
        self.keep = [n for n in case["keep"] if self.model.kind(n) not in ("alias", "virtual", "missing", "excluded")]
        for h in case["hooks"]:
            self.register(h)

    def register(self, answers):
        import modulegraph2
        no = len(self.hooks)
        # names whose fate is sealed
        live = {}
        for n, (k, arg, imports, how) in answers.items():
            if self.mg.find_node(n) is not None or any(self.model.answers.get(m, ("",))[0] == "same" for m in [n]):
                k = "none"
            if k == "same" and arg not in self.keep:
                k = "none"
            live[n] = [k, arg, imports, how]
            if k == "new":
                self.model.answers[n] = ("new", arg)
            elif k == "same":
                self.model.answers[n] = ("same", arg)
            elif k == "raise":
                # (nothing is claimed about the graph afterwards)
                self.model.answers.pop(n, None)
        self.hooks.append(live)
        self.before.append({self.ident(n) for n in self.mg.nodes()})
        ctx, mg = self.ctx, self.mg

        def hook(graph, importing, name):
            ctx.check(graph is mg, "arguments", lambda: f"hook called with {graph!r} as the graph")
            ctx.check(importing is None or mg.find_node(importing.identifier) is importing, "arguments", lambda: f"hook called with {importing!r}, which is not in the graph")
            ctx.check(isinstance(name, str) and (mg.find_node(name) is None or name in self.nested), "found", lambda: f"hook called for {name!r}, the graph has {mg.find_node(name)!r}")
            self.log.append((no, name, None if importing is None else self.ident(importing)))
            k, arg, imports, how = live.get(name, ("none", None, [], ""))
            ctx.label("hook:" + k)
            if name in self.active:
                # (import_package processes other modules before the hook has answered)
                self.nested.add(name)
                ctx.label("hook called while it runs")
            self.active.append(name)
            try:
                return answer(importing, name, k, arg, imports, how)
            finally:
                self.active.pop()

        def answer(importing, name, k, arg, imports, how):
            for other in imports:
                if importing is None and self.keep:
                    # (any node will do)
                    importing = mg.find_node(self.keep[0])
                if importing is not None and other != name and mg.find_node(other) is not None or importing is not None and self.safe(other):
                    self.model.loose = True
                    self.extra.setdefault(self.ident(importing), set()).add(other)
                    if how == "module":
                        mg.import_module(importing, other)
                    else:
                        mg.import_package(importing, other)
                        self.walk(other)
                    ctx.label("hook imports")
            if k == "raise":
                self.raised += 1
                raise Refused(name)
            if k == "same":
                node = mg.find_node(arg)
                ctx.check(node is not None, "lost-node", lambda: f"{arg} is no longer in the graph")
                return node
            if k == "new":
                if mg.find_node(name) is not None:
                    return mg.find_node(name)
                node = self.new(modulegraph2, arg, name)
                mg.add_node(node)
                return node
            return None

        mg.add_missing_hook(hook)

    # (a name that another node stands for isn't in the graph, its fate is sealed all the same)
    def exclude(self, names):
        super().exclude([n for n in names if n not in self.model.answers])

    def imply(self, implies):
        super().imply({k: v for k, v in implies.items() if k not in self.model.answers})

    def safe(self, name):
        """Is *name* found without asking hooks?"""
        parts = name.split(".")
        return all(self.model._kind(".".join(parts[:i + 1])) in ("mod", "pkg", "ns", "ext") and ".".join(parts[:i + 1]) not in self.model.implies for i in range(len(parts)))

    @staticmethod
    def new(mg2, cls, name):
        import pathlib
        if cls == "VirtualNode":
            return mg2.VirtualNode(name, "errno")
        if cls == "ExcludedModule":
            return mg2.ExcludedModule(name)
        c = getattr(mg2, cls)
        if cls == "NamespacePackage":
            return c(name=name, loader=None, distribution=None, filename=None, extension_attributes={}, search_path=[], has_data_files=False)
        return c(name=name, loader=None, distribution=None, filename=None if cls == "BuiltinModule" else pathlib.Path("/nowhere/x"), extension_attributes={}, globals_written=set(), globals_read=set(), code=None)

    def do(self, op, depth=0):
        if op[0] == "register":
            self.register(op[1])
        else:
            super().do(op, depth)


def run(case, ctx):
    w = World(case, ctx)
    for op in case["ops"]:
        try:
            w.do(op)
        except Refused:
            w.raised = -1
        except core.Violation as exc:
            # (an exception of a hook that reached the caller)
            if exc.sig == "exception:Refused" and w.raised:
                w.raised = -1
            else:
                raise
        w.structure()
        if w.raised:
            ctx.check(w.raised == -1, "swallowed", lambda: f"the exception of a hook did not reach the caller of {op}")
            ctx.label("hook raised")
            break
        w.complete()
        calls(w, ctx)
    ctx.label(f"hooks:{len(w.hooks)}")
    ctx.nontrivial(bool(w.log))


def calls(w, ctx):
    d = M.Dump(w.mg, ctx.dir)
    model = w.model
    asked = {}
    for no, name, imp in w.log:
        asked.setdefault(name, []).append(no)
    for name, nos in asked.items():
        i = 0
        while i < len(nos) and name not in w.nested:
            # one round: from the newest hook down to the one that answers
            top = nos[i]
            j = i
            while w.hooks[nos[j]].get(name, ["none"])[0] == "none" and nos[j]:
                j += 1
                ctx.check(j < len(nos) and nos[j] == nos[j - 1] - 1, "order", lambda: f"{name}: hooks were called in order {nos}, that is wrong after #{j - 1}")
            ctx.check(i == 0 or top >= nos[i - 1], "order", lambda: f"{name}: hooks were called in order {nos}")
            answer = w.hooks[nos[j]].get(name, ["none"])[0]
            i = j + 1
            if answer != "same":
                ctx.check(i == len(nos), "asked-again", lambda: f"{name}: hooks {nos} were called although the name is settled")
        k = model._kind(name)
        ctx.check(k == "missing", "found", lambda: f"hooks were called for {name}, which is {k}")
    for i, n in d.nodes.items():
        if d.cls[i] == "MissingModule":
            for no, old in enumerate(w.before):
                if i not in old:
                    ctx.check(no in asked.get(i, []), "not-asked", lambda: f"{i} is missing, hook {no} was not asked (only {asked.get(i)})")
            ctx.check(i not in model.answers, "ignored", lambda: f"{i} is missing, a hook has an answer {model.answers.get(i)}")
    # the importing module mentions the name
    for no, name, imp in w.log:
        if imp is None:
            continue
        ctx.check(mentions(w, d, imp, name), "importing", lambda: f"the hook for {name} was called with {imp}, which does not import it")


def mentions(w, d, imp, name):
    model = w.model
    mod = model.mods.get(imp) or model.scripts.get(imp)
    names = set(w.extra.get(imp, ())) | w.named.get(imp, set()) | set(model.implied_edges(imp))
    imps = model.implies.get(imp)
    names |= set(imps if isinstance(imps, list) else [imps[1]] if imps else [])
    for other, answer in model.answers.items():
        # stands for a missing name with implied actions
        if answer == ("same", imp) and isinstance(model.implies.get(other), list):
            names |= set(model.implies[other])
    for r in mod.recs if mod else []:
        base = model.resolve(mod, r.level, r.module)
        if base is None:
            continue
        names.add(base)
        src = {base}
        for _ in range(20):
            for s in list(src):
                if model.kind(s) == "alias":
                    src.add(model.implies[s][1])
                elif model.kind(s) == "same":
                    src.add(model.answers[s][1])
        for nm, _ in r.names or []:
            names |= {f"{s}.{nm}" for s in src}
    return any(n == name or n.startswith(name + ".") for n in names)

