"""C16: implied actions take effect exactly when their module is used."""
import json
import subprocess
import sys

from .. import config, core, model as M, project as P, sut
from . import c14

# what C code (or __import__) loads when part of the standard library is used, and what aliases really are
PROBES = [
    ["time", "time.strptime('1', '%d')"],
    ["_datetime", "_datetime.datetime.strptime('1', '%d')"],
    ["_json", "[_json.scanstring('\"\\\\q', 1)]"],
    ["_elementtree", "__import__('copy')"],
    ["_elementtree", "_elementtree.Element('a').findall('b')"],
    ["_elementtree", "_elementtree.XMLParser()"],
    ["_pickle", "_pickle.dumps(len)"],
    ["_pickle", "_pickle.loads(b'cos\\ngetcwd\\n.')"],
    ["_operator", "_operator.attrgetter('a').__reduce__()"],
    ["_operator", "_operator.methodcaller('a', b=1).__reduce__()"],
    ["_asyncio", "_asyncio.Future"],
    ["_ssl", "_ssl.OPENSSL_VERSION"],
    ["os", "None"], ["os.path", "None"], ["sysconfig", "sysconfig.get_config_vars()"],
    ["xml.parsers.expat", "None"], ["xml.parsers.expat.model", "None"], ["xml.parsers.expat.errors", "None"],
    ["dbm", "dbm.whichdb('nosuch')"], ["dbm", "dbm.open('x', 'n')"], ["signal", "None"], ["typing", "None"],
    ["_curses", "None"], ["zipimport", "zipimport.zipimporter('z.zip').get_data('z.zip/a')"],
    ["_posixsubprocess", "None"], ["pickle", "pickle.dumps(len)"], ["datetime", "datetime.datetime.strptime('1', '%d')"],
    ["json", "json.loads('1')"], ["subprocess", "subprocess.run(['/bin/true'])"], ["posix", "None"],
]


class Gen(c14.Gen):
    def abs_name(self):
        if self.chance(14):
            return self.weighted([(self.pick(config.NEW), 6), (self.pick(config.NEW) + "." + self.pick(["sa", "va"]), 2)])
        return super().abs_name()

    def op(self, p, depth=0):
        if depth == 0 and self.chance(15):
            return ["imply", config.gen_implies(self, p, 3)]
        if depth == 0 and self.chance(40):
            return ["module", self.abs_name()]
        return super().op(p, depth)


def post(g, p):
    p["implies"] = config.gen_implies(g, p, 4)
    if g.chance(35):
        config.alias_chain(g, p)
    p["excludes"] = config.gen_excludes(g, p, 1) if g.chance(25) else []
    tops = sorted({m["name"].split(".")[0] for m in p["mods"]})
    p["dists"] = {n: g.pick(tops) for n in ["dista"] if g.chance(30)}
    p["ops"] = [g.op(p) for _ in range(g.int(1, 5))]


def strategy():
    return P.project_strategy(gen=Gen, post=post, roots=False, scripts=1, max_stmts=3)


def corpus():
    return [{"probe": PROBES[i::5]} for i in range(5)] + [{"table": i} for i in range(3)]


PROBE = """
import sys, json
name, expr = json.loads(sys.argv[1])
before = set(sys.modules)
ns = {}
try:
    exec("import " + name, ns)
    exec("(" + expr + ")", ns)
except Exception:
    pass
# (modules without a spec are made by other modules)
new = {n: m.__spec__.name for n, m in list(sys.modules.items()) if n not in before and getattr(m, "__spec__", None)}
print(json.dumps([new, getattr(sys.modules.get(name), "__name__", None)]))
"""


def probe(case, ctx):
    """Several probes share a graph (the closure of the standard library takes seconds to build)."""
    import modulegraph2
    P.write_file(ctx.dir + "/z.zip", zipped())
    path = sys.path[:]
    sut.use_path()
    mg = ctx.sut("ModuleGraph()", modulegraph2.ModuleGraph)
    for name, expr in case["probe"]:
        res = subprocess.run([sys.executable, "-I", "-S", "-c", PROBE, json.dumps([name, expr])], cwd=ctx.dir, capture_output=True, text=True, stdin=subprocess.DEVNULL)
        if res.returncode or not res.stdout:
            raise RuntimeError(res.stderr)
        new, real = json.loads(res.stdout)
        if real is None:
            ctx.label("not available here")
            continue
        node = ctx.sut(f"add_module({name!r})", mg.add_module, name)
        d = M.Dump(mg)
        reach = M.static_closure(d, name)
        ctx.label("stdlib probe")
        ctx.nontrivial(bool(new))
        for n, modname in new.items():
            x = n if n in reach else modname
            if n.startswith("_sysconfigdata"):
                # (Debian uses another name than Python and has both modules)
                x = next((i for i in reach if i.startswith("_sysconfigdata")), n)
            ctx.check(x in reach, "stdlib-implied", lambda: f"{expr} after 'import {name}' loads {n}, which is not reachable from {name} in the graph")
            ctx.check(d.cls[x] != "MissingModule", "stdlib-missing", lambda: f"{expr} after 'import {name}' loads {n}, which is missing in the graph")
        if real != name and type(node).__name__ == "AliasNode":
            ctx.check(real in reach or real.rpartition(".")[0] in reach, "stdlib-alias", lambda: f"{name} is {real} in the interpreter, the graph has {node!r}")
    sys.path[:] = path


def zipped():
    import io
    import zipfile
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
        z.writestr("a", "x" * 500)
    return b.getvalue()


def table(case, ctx):
    """The effect of every entry of the table, compared with a graph that does not use it."""
    import modulegraph2
    from modulegraph2._implies import STDLIB_IMPLIES
    sut.use_path()
    mg = ctx.sut("ModuleGraph()", modulegraph2.ModuleGraph)
    plain = ctx.sut("ModuleGraph()", modulegraph2.ModuleGraph, use_stdlib_implies=False)
    keys = sorted(STDLIB_IMPLIES)[case["table"]::3]
    for k in keys:
        v = STDLIB_IMPLIES[k]
        node = ctx.sut(f"add_module({k!r})", mg.add_module, k)
        other = ctx.sut(f"add_module({k!r})", plain.add_module, k)
        out = {t.identifier: set(d) for d, t in mg.outgoing(node)}
        out0 = {t.identifier: set(d) for d, t in plain.outgoing(other)}
        ctx.label("stdlib table")
        ctx.nontrivial()
        dep = modulegraph2.DependencyInfo(*M.DEFAULT)
        if isinstance(v, (modulegraph2.Alias, modulegraph2.Virtual)):
            cls = modulegraph2.AliasNode if isinstance(v, modulegraph2.Alias) else modulegraph2.VirtualNode
            ctx.check(type(node) is cls, "stdlib-class", lambda: f"{k}: {node!r}")
            want = {str(v): {dep}}
            if "." in k:
                want[k.rpartition(".")[0]] = {dep}
            ctx.check(out == want, "stdlib-edges", lambda: f"{k}: {out}, expected {want}")
            continue
        ctx.check(type(node) is type(other), "stdlib-class", lambda: f"{k}: {type(node).__name__} with the table, {type(other).__name__} without it")
        for t in v or ():
            ctx.check(dep in out.get(t, ()), "stdlib-edges", lambda: f"{k}: no edge to {t}")
        for t, deps in out.items():
            ok = out0.get(t, set()) | ({dep} if t in v else set())
            ctx.check(deps <= ok, "stdlib-extra", lambda: f"{k}: edge to {t} {deps} without reason")
        for t, deps in out0.items():
            ctx.check(deps <= out.get(t, set()), "stdlib-lost", lambda: f"{k}: the edge to {t} {deps} is lost")


def run(case, ctx):
    if "probe" in case:
        return probe(case, ctx)
    if "table" in case:
        return table(case, ctx)
    w = c14.World(case, ctx)
    for op in case["ops"]:
        w.do(op)
        w.structure()
        w.complete()
    d = M.Dump(w.mg, ctx.dir)
    hit = 0
    for i, n in d.nodes.items():
        if d.cls[i] in ("AliasNode", "VirtualNode"):
            imp = w.model.implies.get(i)
            got = n.actual_module if d.cls[i] == "AliasNode" else n.providing_module
            want = {"AliasNode": "alias", "VirtualNode": "virtual"}[d.cls[i]]
            ctx.check(imp is not None and tuple(imp) == (want, str(got)), "target", lambda: f"{i}: {n!r}, implied {imp}")
            ctx.label(d.cls[i])
            hit += 1
            if imp[1] in w.model.implies and i != imp[1]:
                ctx.label("chain")
        elif isinstance(w.model.implies.get(i), list) and i in d.reachable:
            ctx.label("implied list")
            hit += 1
        if i not in d.reachable and d.cls[i] != "MissingModule" and not w.model.loose and not any(o[0] == "dist" for o in case["ops"]):
            ctx.fail("unused", f"{i} ({d.cls[i]}) is in the graph but not reachable")
    ctx.nontrivial(hit > 0)
