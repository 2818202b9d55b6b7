"""C15: excluded modules stay out, with everything only they need."""
import os
import shutil

from .. import config, core, model as M, project as P, sut
from . import c14

FORMS = ["list", "tuple", "set", "iter", "dict"]


class Gen(c14.Gen):
    def abs_name(self):
        if self.chance(5):
            return self.pick(["__main__", "__main__", "__main__.sa"])
        if self.chance(6):
            return self.pick(config.NEW)
        return super().abs_name()

    def op(self, p, depth=0):
        if depth == 0 and self.chance(35):
            k = self.pick(["exclude", "exclude", "imply", "exclude-str"])
            return [k, {"exclude": lambda: self.names(p), "imply": lambda: config.gen_implies(self, p, 3), "exclude-str": lambda: self.names(p)[0]}[k]()]
        if depth == 0 and self.chance(35):
            return ["module", self.abs_name()]
        return super().op(p, depth)

    def names(self, p):
        names = [m["name"] for m in p["mods"]]
        return [self.weighted([(self.pick(names), 12), (self.pick(names).split(".")[0], 3), (self.pick(names) + "." + self.pick(["sa", "zz", "va"]), 3),
                               (self.pick(["errno", "gc", "zza", "__main__", "ia", "zzb.sa", "", "a..b", ".sa"]), 4)])
                for _ in range(self.int(1, 3))]


def post(g, p):
    p["excludes"] = g.names(p)
    p["implies"] = config.gen_implies(g, p, 2) if g.chance(40) else {}
    p["implies_first"] = g.chance(50)
    p["form"] = g.pick(FORMS)
    tops = sorted({m["name"].split(".")[0] for m in p["mods"]})
    p["dists"] = {n: g.pick(tops) for n in ["dista"] if g.chance(40)}
    p["ops"] = [g.op(p) for _ in range(g.int(1, 6))]


class World(c14.World):
    def exclude(self, names):
        form = {"list": list, "tuple": tuple, "set": set, "iter": iter, "dict": dict.fromkeys}[self.case.get("form", "list")]
        names = list(names)
        self.ctx.sut("add_excludes", self.mg.add_excludes, form(names))
        for n in names:
            if self.mg.find_node(n) is None:
                self.model.excludes.add(n)
                self.model.implies.pop(n, None)

    def configure(self):
        # excludes win, whatever comes first
        if self.case.get("implies_first"):
            self.imply(self.case["implies"])
            self.exclude(self.case["excludes"])
        else:
            self.exclude(self.case["excludes"])
            self.imply(self.case["implies"])

    def do(self, op, depth=0):
        if op[0] == "exclude-str":
            before = c14.snapshot(self.mg)
            try:
                self.mg.add_excludes(op[1])
                self.ctx.fail("no-exception", f"add_excludes({op[1]!r}) should have failed")
            except TypeError:
                pass
            self.ctx.check(c14.snapshot(self.mg) == before, "changed", "a failing add_excludes changed the graph")
            return
        super().do(op, depth)


def strategy():
    return P.project_strategy(gen=Gen, post=post, roots=False, scripts=1, max_stmts=3)


def run(case, ctx):
    got = None
    ex = {e for e in case["excludes"]} | {"__main__"}
    if all(o[0] in ("module", "script", "exclude-str") for o in case["ops"]) and not case["implies"] and all("." not in e for e in ex) and not ex & {"errno", "gc"}:
        # the same project without the files of the excluded modules: these are missing instead
        ctx.label("compared with deletion")
        sub = core.Ctx(os.path.join(ctx.dir, "other"))
        os.mkdir(sub.dir)
        got = sut.fork_call(build_other, sub, {**case, "excludes": [], "dists": {}, "mods": [m for m in case["mods"] if m["name"].split(".")[0] not in ex]})
        shutil.rmtree(sub.dir)
    w = World(case, ctx)
    for op in case["ops"]:
        w.do(op)
        w.structure()
        w.complete()
    mg, model = w.mg, w.model
    d = M.Dump(mg, ctx.dir)
    hit = 0
    for i in sorted(d.nodes):
        if i.startswith(".") or hasattr(d.nodes[i], "import_names") or i in model.scripts:
            continue
        want = model.kind(i) == "excluded"
        ctx.check((d.cls[i] == "ExcludedModule") == want, "class", lambda: f"{i} is a {d.cls[i]}, excluded: {want}")
        if want:
            hit += 1
            par = i.rpartition(".")[0]
            extra = set(d.out(i)) - {par} - w.extra.get(i, set())
            ctx.check(not extra, "excluded-edges", lambda: f"excluded {i} has edges to {sorted(extra)}")
            ctx.label("excluded submodule" if par and model.kind(par) == "excluded" else "excluded")
            n = d.nodes[i]
            ctx.check(n.filename is None and n.distribution is None and n.loader is None, "attributes", lambda: f"excluded {i}: {n!r}")
    ctx.nontrivial(hit > 0)
    if got is not None:
        gone = ("MissingModule", "ExcludedModule")
        have = {i: [("X" if c == "ExcludedModule" else c), [[t, list(a)] for t, a in e]] for i, (c, e) in d.graph().items()}
        want = {i: [("X" if i.split(".")[0] in ex and c in gone else c), e] for i, (c, e) in got.items()}
        for i in sorted(set(have) | set(want)):
            ctx.check(have.get(i) == want.get(i), "deletion", lambda: f"{i}: {have.get(i)}; in the project without the excluded modules: {want.get(i)}")


def build_other(ctx, case):
    os.chdir(ctx.dir)
    w = c14.World(case, ctx)
    for op in case["ops"]:
        if op[0] != "exclude-str":
            w.do(op)
    return {i: [c, [[t, list(a)] for t, a in e]] for i, (c, e) in M.Dump(w.mg, ctx.dir).graph().items()}
