"""C02: the graph is exactly the static import structure (independent reference model)."""
from .. import model as M, project as P, realcode as R, sut

CPU_LIMIT = 80    # (for whole packages)


def strategy():
    return R.mixed(P.project_strategy(), 2, R.pick_tree)


def dedup_roots(roots):
    out = []
    for r in roots:
        if r not in out:
            out.append(r)
    return out


def run(case, ctx):
    if "tree" in case:
        R.verify_tree(case, ctx)
        return
    case["roots"] = dedup_roots(case["roots"])
    P.write_project(case, ctx.dir)
    sut.use_path(ctx.dir)
    mg = sut.build(ctx, case, ctx.dir)
    dump = M.Dump(mg, ctx.dir)
    model = M.Model(case)
    roots = [n for _, n in case["roots"]]
    ctx.nontrivial(sum(len(v) for v in dump.edges.values()) >= 2)
    ids = [n.identifier.removeprefix(ctx.dir + "/") for n in ctx.sut("iter_graph", lambda: list(mg.iter_graph()))]
    ctx.check(len(ids) == len(set(ids)) and set(ids) == dump.reachable, "iter_graph",
              lambda: f"iter_graph {sorted(ids)} reachable {sorted(dump.reachable)}")
    M.verify(model, dump, ctx, roots=roots, attributes=False)
    # nodes that are not reachable can only be names that were looked up and not found
    for i in set(dump.nodes) - dump.reachable:
        ctx.check(dump.cls[i] == "MissingModule", "unreachable-node", lambda: f"{i} ({dump.cls[i]}) is in the graph but unreachable")
