"""C04: what the names in 'from N import name' refer to."""
from .. import config, model as M, project as P, sut


def post(g, p):
    # names that only implied actions know about are importable as well
    if g.chance(35):
        config.config(g, p, implies=2, excludes=1)
        if g.chance(40):
            config.alias_chain(g, p)


class Gen(P.ProjectGen):
    def abs_name(self):
        if self.chance(8):
            return self.pick(config.NEW)
        return super().abs_name()


def strategy():
    return P.project_strategy(
        gen=Gen, post=post, max_top=3, max_sub=2, nest=1, max_stmts=5, scripts=1,
        weights=dict(imp=22, frm=50, rel=20, star=16, set=12, read=4, adef=0, match=0, match2=0, felse=0, welse=0, withs=0, tstar=0))


def run(case, ctx):
    P.write_project(case, ctx.dir)
    sut.use_path(ctx.dir)
    model = M.Model(case, excludes=case.get("excludes", ()), implies=sut.model_implies(case.get("implies")))
    mg = sut.build(ctx, case, ctx.dir)
    dump = M.Dump(mg, ctx.dir)
    froms = 0
    for i in dump.reachable:
        mod = model.mods.get(i) or model.scripts.get(i)
        if mod is None or dump.cls[i] not in ("SourceModule", "Package", "Script"):
            continue
        froms += sum(r.kind in ("from", "star") for r in mod.recs)
        for r in mod.recs:
            if r.kind == "from":
                base = model.resolve(mod, r.level, r.module)
                ctx.label("from:" + (model.kind(base) if base else "invalid"))
    ctx.nontrivial(froms >= 2)
    M.verify(model, dump, ctx, roots=[n for _, n in case["roots"]], attributes=True)
    # globals: own names, names of from-imports, and those of star-imported modules
    for i in dump.reachable:
        mod = model.mods.get(i) or model.scripts.get(i)
        if mod is None or dump.cls[i] not in ("SourceModule", "Package", "Script"):
            continue
        have = dump.nodes[i].globals_written
        key = ("s", i) if i in model.scripts else i
        own = mod.definite
        ctx.check(own <= have, "globals-missing", lambda: f"{i}: globals_written lacks {sorted(own - have)}")
        extra = have - model.maybe(key)
        ctx.check(not extra, "globals-extra", lambda: f"{i}: globals_written has {sorted(extra)}")
        for r in mod.recs:
            if r.kind != "star":
                continue
            base = model.resolve(mod, r.level, r.module)
            if base and model.kind(base) == "alias":
                base = model.resolved(base)
                ctx.label("star import through an alias")
            if base and model.kind(base) in ("mod", "pkg"):
                want = model.mods[base].definite
                ctx.label("star-globals")
                ctx.check(want <= have, "star-globals", lambda: f"{i} star-imports {base} but lacks {sorted(want - have)}")
