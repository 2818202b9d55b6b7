"""C13: the same files, configuration and roots always give the same graph."""
import json
import os
import subprocess
import sys

from .. import config, core, model as M, project as P, sut

HELPER = """
import sys, json
sys.dont_write_bytecode = True
job = json.load(sys.stdin)
sys.path.insert(0, job["verif"])
sys.path.insert(0, job["repo"])
import modulegraph2, modulegraph2.__main__
from mgv.checks import c13
print("RESULT" + json.dumps(c13.remote(job)))
"""


def post(g, p):
    if g.chance(40):
        config.config(g, p)
    p["hashseed"] = g.pick([0, 1, 2, 3, 17, 99, 4294967295])
    p["order"] = g.pick(["reverse", "rotate"])
    p["double"] = g.chance(50)
    if g.chance(25):
        ring(g, p)
    if g.chance(50):
        # another graph that the process has built before
        d = {"excludes": [], "implies": {}}
        if g.chance(50):
            d.update(excludes=config.gen_excludes(g, p), implies=config.gen_implies(g, p))
        pool = [["m", m["name"]] for m in p["mods"]] + [["s", s["name"]] for s in p["scripts"]]
        d["roots"] = [r for i, r in enumerate(pool) if g.chance(50)] or pool[:1]
        d["mark"] = g.chance(40)
        p["decoy"] = d


def ring(g, p):
    """Modules that import each other's names in a circle: what they find depends on which one is processed first,
    which only the text of the importing module (or the names in a distribution) may decide."""
    k = g.int(3, 6)
    dist = g.chance(40)
    base = "" if dist else "rg."
    step = g.pick([1, 1, k - 1, 2])
    names = [g.pick(["s", "t", "zq"]) + str(i) for i in range(k)]
    for i, n in enumerate(names):
        j = (i + step) % k
        body = [["imp", [[g.pick(["errno", "gc", "mra"]), f"x{i}"]]], ["frm", 0, base + names[j], [[f"x{j}", g.pick([None, None, f"y{i}"])]]]]
        p["mods"].append({"name": base + n, "kind": "mod", "body": body if g.chance(80) else body[::-1]})
    p["mods"].append({"name": "mra", "kind": "mod", "body": []})
    if dist:
        record = "".join(f"{n}.py,,\n" for n in g.shuffle(names))
        p["files"] = {"ringd-1.dist-info/METADATA": "Metadata-Version: 2.1\nName: ringd\nVersion: 1\n", "ringd-1.dist-info/RECORD": record}
        p["roots"].insert(g.int(0, len(p["roots"])), ["d", "ringd"])
    else:
        some = g.shuffle(names)[:g.int(2, k)]
        p["mods"].append({"name": "rg", "kind": "pkg", "body": []})
        p["mods"].append({"name": "mrg", "kind": "mod", "body": [["frm", 0, "rg", [[n, None] for n in some]]]})
        p["roots"].insert(g.int(0, len(p["roots"])), ["m", "mrg"])


class Gen(P.ProjectGen):
    def roots(self, project, extra=True):
        pool = [["m", m["name"]] for m in project["mods"]] + [["s", s["name"]] for s in project["scripts"]]
        out = []
        for _ in range(self.int(2, min(4, len(pool))) if len(pool) > 1 else 1):
            r = self.pick(pool)
            if r not in out:
                out.append(r)
        return out


def strategy():
    if st_pick is None:
        return None
    rich = P.project_strategy(gen=Gen, post=post, max_stmts=4)
    plain = P.project_strategy(gen=Gen, post=post, max_stmts=4, star=False, aliases=False, reexport=False)
    return st_pick.one_of(rich, plain)


try:
    from hypothesis import strategies as st_pick
except ImportError:
    st_pick = None


def picture(mg, root):
    d = M.Dump(mg, root)
    return {"graph": {k: [v[0], [list(x) for x in v[1]]] for k, v in d.graph().items()}, "roots": sorted(d.roots),
            "globals": {i: [sorted(getattr(n, "globals_written", ())), sorted(getattr(n, "globals_read", ()))] for i, n in d.nodes.items() if i in d.reachable}}


def one_build(ctx, case, root, roots=None, double=False):
    import modulegraph2
    os.chdir(root)
    mg = ctx.sut("ModuleGraph()", modulegraph2.ModuleGraph)
    sut.configure(ctx, case, mg)
    if double and case.get("excludes"):
        ctx.sut("add_excludes", mg.add_excludes, case["excludes"][::-1])
    for k, n in roots or case["roots"]:
        if k == "m":
            ctx.sut("add_module", mg.add_module, n)
            if double:
                ctx.sut("add_module", mg.add_module, n)
        elif k == "d":
            ctx.sut("add_distribution", mg.add_distribution, n)
            if double:
                ctx.sut("add_distribution", mg.add_distribution, n)
        else:
            ctx.sut("add_script", mg.add_script, n)
    return picture(mg, root)


def remote(job):
    sut.use_path(job["root"])
    for m in P.LEAFS:
        sys.modules.pop(m, None)
    return one_build(core.Ctx(job["root"]), job["case"], job["root"])


def difference(a, b):
    out = []
    for part in ("graph", "globals"):
        for k in sorted(set(a[part]) | set(b[part])):
            if a[part].get(k) != b[part].get(k):
                out.append(f"{k}: {a[part].get(k)} / {b[part].get(k)}")
    if a["roots"] != b["roots"]:
        out.append(f"roots {a['roots']} / {b['roots']}")
    return "; ".join(out)[:2000]


def order_free(case):
    """No name that one module may take from the globals of another one refers to a module, and all
    names of modules are known as soon as they are loaded."""
    if case.get("implies") or case.get("excludes"):
        return False
    model = M.Model(case)
    for mod in [*model.mods.values(), *model.scripts.values()]:
        for r in mod.recs:
            if r.kind == "star":
                return False
            if r.kind != "from":
                continue
            base = model.resolve(mod, r.level, r.module)
            target = model.mods.get(base)
            if target is None:
                continue
            for nm, _ in r.names:
                if nm in model.maybe(base) and nm not in target.definite:
                    return False
                for r2 in target.recs:
                    b2 = model.resolve(target, r2.level, r2.module)
                    if b2 is None:
                        continue
                    if r2.kind == "import" and (r2.asname == nm or b2 == nm or b2.split(".")[0] == nm):
                        return False
                    if r2.kind == "from" and any((a or n) == nm and (a or f"{b2}.{n}" != f"{base}.{nm}") for n, a in r2.names):
                        return False
                    if r2.kind == "from" and any(n == nm and b2 != base for n, a in r2.names):
                        return False
    return True


def packages_import(case, root, first=None):
    """What a failing import leaves behind in sys.modules changes the next search, that's Python's behaviour."""
    sut.use_path(root)
    for m in case["mods"]:
        if m["kind"] == "pkg" and first in (None, m["name"]):
            try:
                __import__(m["name"])
            except BaseException:
                return False
    return True


def corpus():
    """Things that projects do not have: a distribution with several candidates for one purpose."""
    out = []
    so = ".cpython-312-x86_64-linux-gnu.so"
    for seed in (0, 1, 2, 3, 17, 99):
        helpers = [f"{c}{i}__mypyc" for i, c in enumerate("abcdef")]
        record = "".join(f"{h}{so},,\n" for h in helpers) + f"cm{so},,\ncm.py,,\n"
        files = {"cm.py": "import errno\n", "cm" + so: "", **{h + so: "" for h in helpers}, "d-1.dist-info/METADATA": "Metadata-Version: 2.1\nName: d\nVersion: 1\n", "d-1.dist-info/RECORD": record}
        out.append({"mods": [], "scripts": [], "roots": [["m", "cm"]], "files": files, "hashseed": seed, "order": "reverse", "double": False})
    return out


def run(case, ctx):
    P.write_project(case, ctx.dir)
    for name, text in case.get("files", {}).items():
        P.write_file(os.path.join(ctx.dir, name), text)
    first = sut.fork_call(guarded, ctx, case, ctx.dir, {})
    same = sut.fork_call(guarded_twice, ctx, case, ctx.dir)
    check(ctx, first)
    check(ctx, same)
    a = first["ok"]
    ctx.nontrivial(sum(len(v[1]) for v in a["graph"].values()) >= 3)
    ctx.check(same["ok"][0] == a, "repeat", lambda: "two builds in two processes differ: " + difference(a, same["ok"][0]))
    if same["ok"][1] != a and not sut.fork_call(packages_import, case, ctx.dir):
        ctx.label("packages that cannot be imported")
    else:
        ctx.check(same["ok"][1] == a, "same-process", lambda: "the second build in one process differs from the first: " + difference(a, same["ok"][1]))
    if case["double"]:
        b = sut.fork_call(guarded, ctx, case, ctx.dir, {"double": True})
        check(ctx, b)
        ctx.label("added twice")
        ctx.check(b["ok"] == a, "twice", lambda: "adding roots and excludes twice makes a difference: " + difference(a, b["ok"]))
    if len(case["roots"]) > 1 and order_free(case):
        roots = case["roots"][::-1] if case["order"] == "reverse" else case["roots"][1:] + case["roots"][:1]
        b = sut.fork_call(guarded, ctx, case, ctx.dir, {"roots": roots})
        check(ctx, b)
        ctx.label("other order of roots")
        ctx.check({**b["ok"], "globals": 0} == {**a, "globals": 0}, "order", lambda: f"adding the roots as {roots} makes a difference: " + difference(a, {**b["ok"], "globals": a["globals"]}))
    if case.get("decoy"):
        b = sut.fork_call(guarded_after_decoy, ctx, case, ctx.dir)
        check(ctx, b)
        ctx.label("another graph first")
        if b["ok"] != a and not all(sut.fork_call(packages_import, case, ctx.dir, m["name"]) for m in case["mods"] if m["kind"] == "pkg"):
            ctx.label("packages that cannot be imported")
        else:
            ctx.check(b["ok"] == a, "other-graph", lambda: f"building another graph ({case['decoy']}) in the same process makes a difference: " + difference(a, b["ok"]))
    env = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"]), PYTHONDONTWRITEBYTECODE="1")
    job = {"verif": core.VERIF, "repo": core.REPO, "case": case, "root": ctx.dir}
    try:
        res = subprocess.run([sys.executable, "-B", "-c", HELPER], input=json.dumps(job), env=env, cwd=ctx.dir, capture_output=True, text=True, timeout=150)
    except subprocess.TimeoutExpired:
        raise core._Died("the fresh process was not done in time")
    lines = [ln for ln in res.stdout.splitlines() if ln.startswith("RESULT")]
    if not lines:
        if "Violation" in res.stderr:
            ctx.fail("fresh-process", res.stderr[-1500:])
        raise RuntimeError(res.stderr)
    b = json.loads(lines[0][6:])
    ctx.check(b == a, "hashseed", lambda: f"with hash seed {case['hashseed']} in a fresh process: " + difference(a, b))


def check(ctx, r):
    if "violation" in r:
        ctx.fail(*r["violation"])


def guarded(ctx, case, root, kw):
    sut.use_path(root)
    for m in P.LEAFS:
        sys.modules.pop(m, None)
    try:
        return {"ok": one_build(ctx, case, root, **kw)}
    except core.Violation as exc:
        return {"violation": [exc.sig, exc.msg]}


def guarded_twice(ctx, case, root):
    r = guarded(ctx, case, root, {})
    if "violation" in r:
        return r
    try:
        return {"ok": [r["ok"], one_build(ctx, case, root)]}
    except core.Violation as exc:
        return {"violation": [exc.sig, exc.msg]}


def mark(graph, node):
    for names in (getattr(node, "globals_written", None), getattr(node, "globals_read", None)):
        if isinstance(names, set):
            names.add("marked")
    if isinstance(getattr(node, "extension_attributes", None), dict):
        node.extension_attributes["marked"] = True


def guarded_after_decoy(ctx, case, root):
    import modulegraph2
    sut.use_path(root)
    for m in P.LEAFS:
        sys.modules.pop(m, None)
    decoy = case["decoy"]
    try:
        mg = ctx.sut("ModuleGraph()", modulegraph2.ModuleGraph)
        if decoy["mark"]:
            mg.add_post_processing_hook(mark)
            mg.add_missing_hook(lambda graph, node, name: None)
        os.chdir(root)
        sut.build(ctx, decoy, root, mg)
        return {"ok": one_build(ctx, case, root)}
    except core.Violation as exc:
        return {"violation": [exc.sig, exc.msg]}
