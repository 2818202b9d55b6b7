"""C03: dependency attributes of every edge (reference model, exact sets)."""
from .. import model as M, project as P, realcode as R, sut


def strategy():
    return R.mixed(P.project_strategy(max_top=3, max_sub=2, nest=4, max_stmts=4, async_stmts=True, scripts=1), 15,
                   lambda g: R.pick(g, ["target", "pk.target", "pk.sub.target"]))


def run(case, ctx):
    if "real" in case:
        R.verify(case, ctx)
        return
    P.write_project(case, ctx.dir)
    sut.use_path(ctx.dir)
    mg = sut.build(ctx, case, ctx.dir)
    dump = M.Dump(mg, ctx.dir)
    model = M.Model(case)
    roles = set()
    for m in [*case["mods"], *case["scripts"]]:
        for s, r in P.walk(m.get("body") or []):
            if s[0] in ("imp", "frm", "star"):
                roles |= set(r)
                ctx.label("depth:%d" % len(r))
                for x in set(r):
                    ctx.label("in:" + x)
                if s[0] == "imp" and any(a for _, a in s[1]) or s[0] == "frm" and any(a for _, a in s[3]):
                    ctx.label("as")
    ctx.nontrivial(bool(roles) and any(dump.edges.values()))
    if any(len(d) > 1 for out in dump.edges.values() for d in out.values()):
        ctx.label("several attributes on one edge")
    M.verify(model, dump, ctx, roots=[n for _, n in case["roots"]], attributes=True)
    # the same sets must be visible through every query
    for n in list(mg.nodes()):
        out = {t.identifier: set(d) for d, t in mg.outgoing(n)}
        inc = {t.identifier: set(d) for d, t in mg.incoming(n)}
        for other, deps in out.items():
            data = mg.edge_data(n, mg.find_node(other))
            ctx.check(set(data) == deps, "edge-data", lambda: f"edge_data({n.identifier}, {other}) = {data} but outgoing has {deps}")
            ctx.check(any(t is n and set(d) == deps for d, t in mg.incoming(other)), "incoming",
                      lambda: f"incoming({other}) does not mirror outgoing({n.identifier})")
        for other in inc:
            ctx.check(any(t is n for _, t in mg.outgoing(other)), "outgoing", lambda: f"outgoing({other}) lacks {n.identifier}")
