"""C10: graph building terminates and does not depend on the size of the interpreter stack."""
import importlib.util
import marshal
import os
import zipfile

from .. import project as P, sut

try:
    from hypothesis import strategies as st
except ImportError:
    st = None

CPU_LIMIT = 60
LIMIT = 1000  # the default recursion limit of the interpreter

LINK = ["import", "as", "from-var", "from-mod", "star", "func", "rel", "try", "class"]
TAIL = ["end", "self", "start", "middle", "missing"]
EXPRS = ["binop", "attr", "call", "elif", "not", "lambda", "parens", "pow", "ifexp", "nestdef", "nestasync", "nestclass", "nestif",
         "sub", "cmp", "comp", "decor", "nestfor", "nestwith", "nestmatch", "trychain", "semis"]


@st.composite
def strategy_(draw):
    g = P.Gen(draw)
    shape = g.weighted([("chain", 6), ("expr", 6), ("fan", 2), ("aliases", 2), ("deep", 2), ("dotted", 2), ("wide", 2), ("graph", 3), ("vstar", 1)])
    c = {"shape": shape}
    if shape == "chain":
        c["n"] = g.pick([2, 3, 30, 200, 700, 1300, 2000])
        c["links"] = [g.pick(LINK) for _ in range(g.int(1, 3))]
        c["tail"] = g.pick(TAIL)
        c["forms"] = g.pick(["py", "py", "pyc", "zip"])
        c["pkgs"] = g.chance(25)
        c["root"] = g.pick(["first", "middle", "script", "all"])
    elif shape == "expr":
        c["kind"] = g.pick(EXPRS)
        c["n"] = g.pick([5, 60, 95, 150, 400, 1200, 2400, 2900, 5500, 9000])
        c["form"] = g.pick(["py", "py", "pkg", "script", "pyc", "text"])
        c["where"] = g.pick(["mod", "func"])
    elif shape == "fan":
        c.update(n=g.pick([10, 300, 1500]), dir=g.pick(["out", "in", "both"]), one=g.chance(50), link=g.pick(["import", "from-mod", "rel"]))
    elif shape == "aliases":
        c.update(n=g.pick([1, 2, 3, 20, 100]), tail=g.pick(["mod", "self", "start", "missing"]), use=g.pick(["import", "from", "star", "sub", "root"]),
                 kinds=[g.pick(["alias", "virtual", "list"]) for _ in range(g.int(1, 3))], dotted=g.chance(30))
    elif shape == "deep":
        c.update(n=g.pick([2, 10, 40, 90]), use=g.pick(["abs", "up", "down", "cycle"]), ns=g.chance(30))
    elif shape == "dotted":
        c.update(n=g.pick([2, 100, 400, 900, 3000]), head=g.pick(["missing", "mod", "pkg"]), use=g.pick(["import", "from", "root", "twice"]))
    elif shape == "wide":
        c.update(n=g.pick([100, 300, 70000]), what=g.pick(["names", "imports", "fromnames", "consts", "funcs"]), form=g.pick(["py", "pyc"]))
    elif shape == "graph":
        c.update(n=g.int(2, 9), edges=[[g.int(0, 8), g.int(0, 8), g.pick(["import", "from-mod", "from-var", "star", "pkgfrom", "substar"])] for _ in range(g.int(1, 20))])
    else:
        c.update(n=g.pick([2, 50, 800]), cyc=g.chance(50))
    return c


def strategy():
    return strategy_()


def corpus():
    out = []
    for k in EXPRS:
        for n in (60, 95, 2900, 5500, 9000):
            out.append({"shape": "expr", "kind": k, "n": n, "form": "py", "where": "mod"})
    for link in LINK:
        out.append({"shape": "chain", "n": 1300, "links": [link], "tail": "start", "forms": "py", "pkgs": False, "root": "first"})
    return out


def expr(kind, n):
    def nest(line, end="import errno"):
        return "".join(" " * i + line + "\n" for i in range(n)) + " " * n + end + "\n"
    if kind == "binop":
        return "x = " + "+".join(["a"] * n)
    if kind == "attr":
        return "x = a" + ".b" * n
    if kind == "call":
        return "x = a" + "()" * n
    if kind == "sub":
        return "x = a" + "[0]" * n
    if kind == "elif":
        return "if a: pass\n" + "".join(f"elif a: import errno as e{i}\n" for i in range(n))
    if kind == "not":
        return "x = " + "not " * n + "a"
    if kind == "lambda":
        return "x = " + "lambda: " * n + "a"
    if kind == "parens":
        return "x = " + "(" * n + ")" * n
    if kind == "pow":
        return "x = " + "**".join(["a"] * n)
    if kind == "ifexp":
        return "x = " + " if a else ".join(["a"] * n)
    if kind == "cmp":
        return "x = " + "<".join(["a"] * n)
    if kind == "comp":
        return "x = [a" + " for a in b" * n + "]"
    if kind == "decor":
        return "@d\n" * n + "def f(): pass"
    if kind == "nestdef":
        return nest("def f():")
    if kind == "nestasync":
        return nest("async def f():")
    if kind == "nestclass":
        return nest("class C:")
    if kind == "nestif":
        return nest("if a:")
    if kind == "nestfor":
        return nest("for i in a:")
    if kind == "nestwith":
        return nest("with a:")
    if kind == "nestmatch":
        return "".join(" " * (2 * i) + "match a:\n" + " " * (2 * i + 1) + "case 1:\n" for i in range(n)) + " " * (2 * n) + "import errno\n"
    if kind == "trychain":
        return "try: pass\n" + "".join(f"except E{i}: import errno\n" for i in range(n))
    if kind == "semis":
        return "; ".join(["import errno"] * n)
    raise AssertionError(kind)


def link(kind, mod, pkg):
    if kind == "import":
        return f"import {mod}"
    if kind == "as":
        return f"import {mod} as nx"
    if kind == "from-var":
        return f"from {mod} import va"
    if kind == "from-mod":
        return f"from {pkg} import {mod.rpartition('.')[2]}" if pkg else f"import {mod}"
    if kind == "star":
        return f"from {mod} import *"
    if kind == "func":
        return f"def fa():\n    import {mod}"
    if kind == "class":
        return f"class Ca:\n    from {mod} import va"
    if kind == "try":
        return f"try:\n    import {mod}\nexcept ImportError: pass"
    if kind == "rel":
        return f"from . import {mod.rpartition('.')[2]}" if pkg else f"import {mod}"
    raise AssertionError(kind)


def compiles(src):
    try:
        compile(src, "x", "exec", dont_inherit=True)
        return True
    except (RecursionError, MemoryError, SyntaxError, OverflowError, ValueError):
        return False


def pyc(src):
    return importlib.util.MAGIC_NUMBER + b"\0" * 12 + marshal.dumps(compile(src, "x", "exec", dont_inherit=True))


def graph(ctx):
    import sys
    import modulegraph2
    # leave the code under test as much room as a program would have
    depth = 0
    f = sys._getframe()
    while f:
        depth += 1
        f = f.f_back
    sys.setrecursionlimit(LIMIT + depth)
    return modulegraph2.ModuleGraph()


def ids(mg):
    # iter_graph() of the objectgraph package (not part of this project) is recursive
    out, todo = {}, list(mg.roots())
    while todo:
        n = todo.pop()
        if n.identifier not in out:
            out[n.identifier] = n
            todo.extend(t for _, t in mg.outgoing(n))
    return out


def need(ctx, mg, names, why):
    have = ids(mg)
    lost = [n for n in names if n not in have or type(have[n]).__name__ in ("MissingModule", "InvalidModule")]
    ctx.check(not lost, "unreached", lambda: f"{why}: {len(lost)} of {len(names)} modules are not found in the graph: {lost[:5]}")
    return have


def run(case, ctx):
    ctx.label("shape:" + case["shape"])
    globals()["do_" + case["shape"]](case, ctx)


def do_chain(case, ctx):
    n = case["n"]
    pkg = "pk" if case["pkgs"] else None
    names = [f"{pkg}.m{i}" if pkg else f"m{i}" for i in range(n)]
    files = {}
    if pkg:
        files["pk/__init__.py"] = "x = 1"
    for i, nm in enumerate(names):
        if i + 1 < n:
            nxt = names[i + 1]
        else:
            nxt = {"end": None, "self": nm, "start": names[0], "middle": names[n // 2], "missing": "zz.yy"}[case["tail"]]
        body = "va = 1\n" + (link(case["links"][i % len(case["links"])], nxt, pkg) if nxt and nxt != "zz.yy" else f"import {nxt}" if nxt else "")
        files[nm.replace(".", "/") + ".py"] = body
    put(ctx, files, case["forms"])
    mg = graph(ctx)
    if case["root"] == "script":
        P.write_file(os.path.join(ctx.dir, "s.py"), f"import {names[0]}")
        ctx.sut("add_script", mg.add_script, "s.py")
        want = names
    elif case["root"] == "all":
        for nm in names:
            ctx.sut("add_module", mg.add_module, nm)
        want = names
    else:
        i = 0 if case["root"] == "first" else n // 2
        ctx.sut("add_module", mg.add_module, names[i])
        want = names[i:]
    need(ctx, mg, want, f"chain of {n}")
    ctx.nontrivial(n >= 200 or case["tail"] in ("self", "start", "middle"))


def put(ctx, files, form="py"):
    base = os.path.join(ctx.dir, "tree")
    os.makedirs(base, exist_ok=True)
    if form == "zip":
        base = os.path.join(ctx.dir, "tree.zip")
        with zipfile.ZipFile(base, "w") as zf:
            for f in sorted({os.path.dirname(f) for f in files if "/" in f}):
                zf.writestr(f + "/", "")
            for f, s in files.items():
                zf.writestr(f, s)
    else:
        for f, s in files.items():
            if form == "pyc" and f.endswith(".py"):
                P.write_file(os.path.join(base, f + "c"), pyc(s))
            else:
                P.write_file(os.path.join(base, f), s)
    sut.use_path(base)


def do_expr(case, ctx):
    src = expr(case["kind"], case["n"])
    if case["where"] == "func":
        src = "def outer():\n" + "\n".join(" " + ln for ln in src.splitlines())
    src = "import gc\n" + src + "\n"
    good = compiles(src)
    ctx.label(f"{case['kind']}:{'compiles' if good else 'does not compile'}")
    mg = graph(ctx)
    form = case["form"]
    if form == "pyc":
        try:
            data = pyc(src)
        except (RecursionError, MemoryError, SyntaxError, OverflowError, ValueError):
            return
        P.write_file(os.path.join(ctx.dir, "tree", "mm.pyc"), data)
        sut.use_path(os.path.join(ctx.dir, "tree"))
        try:
            marshal.loads(data[16:])
        except ValueError:
            return
    elif form == "pkg":
        put(ctx, {"mm/__init__.py": src, "mm/sa.py": ""})
    else:
        put(ctx, {"mm.py": src})
    if form in ("script", "text"):
        P.write_file(os.path.join(ctx.dir, "s.py"), src)
        allowed = () if good else (SyntaxError, RecursionError, MemoryError, OverflowError)
        try:
            if form == "script":
                ctx.sut("add_script", mg.add_script, "s.py", allowed=allowed)
            else:
                ctx.sut("add_dependencies_for_source", mg.add_dependencies_for_source, src, allowed=allowed)
        except (SyntaxError, RecursionError, MemoryError, OverflowError):
            ctx.check(not list(mg.nodes()) and not list(mg.roots()), "failed-call", "a failed call changed the graph")
            return
        # the text only has to be parsed
        ctx.check(good or form == "text", "accepted", "a script that does not compile was accepted")
    else:
        node = ctx.sut("add_module", mg.add_module, "mm")
        cls = type(getattr(node, "init_module", node)).__name__
        want = "InvalidModule" if not good else "BytecodeModule" if form == "pyc" else "SourceModule"
        ctx.check(cls == want, "class", lambda: f"{case}: {cls}, expected {want}")
        if form == "pkg":
            ctx.sut("add_module", mg.add_module, "mm.sa")
    if good:
        ctx.check("gc" in ids(mg), "unreached", "import gc was not processed")
        if "import errno" in src:
            ctx.check("errno" in ids(mg), "unreached", "import errno was not processed")
    ctx.nontrivial(case["n"] >= 60)


def do_fan(case, ctx):
    n = case["n"]
    files = {"pk/__init__.py": ""}
    names = [f"pk.m{i}" for i in range(n)]
    for nm in names:
        files[nm.replace(".", "/") + ".py"] = "import pk.hub" if case["dir"] in ("in", "both") else ""
    hub = ""
    if case["dir"] in ("out", "both"):
        if case["one"]:
            hub = "import " + ", ".join(names) if case["link"] == "import" else "from " + ("pk" if case["link"] == "from-mod" else ".") + " import " + ", ".join(x[3:] for x in names)
        else:
            hub = "\n".join(link(case["link"], x, "pk") for x in names)
    files["pk/hub.py"] = hub
    put(ctx, files)
    mg = graph(ctx)
    if case["dir"] == "in":
        for nm in names:
            ctx.sut("add_module", mg.add_module, nm)
    else:
        ctx.sut("add_module", mg.add_module, "pk.hub")
    have = need(ctx, mg, names + ["pk.hub"], "fan")
    ctx.check(len(have) == n + 2, "extra", lambda: f"{len(have)} nodes for {n + 2} modules")
    ctx.nontrivial(n >= 300)


def do_aliases(case, ctx):
    import modulegraph2
    n = case["n"]
    names = [f"al{i}" if not case["dotted"] else f"pk.al{i}" for i in range(n)]
    last = {"mod": "mm", "self": names[-1], "start": names[0], "missing": "zz"}[case["tail"]]
    implies = {}
    for i, nm in enumerate(names):
        k = case["kinds"][i % len(case["kinds"])]
        t = names[i + 1] if i + 1 < n else last
        implies[nm] = {"alias": modulegraph2.Alias, "virtual": modulegraph2.Virtual, "list": lambda x: [x]}[k](t)
    src = {"import": f"import {names[0]}", "from": f"from {names[0]} import va, sa", "star": f"from {names[0]} import *",
           "sub": f"import {names[0]}.sa.sb", "root": ""}[case["use"]]
    put(ctx, {"mm.py": "va = 1", "top.py": src, "pk/__init__.py": ""})
    mg = graph(ctx)
    ctx.sut("add_implies", mg.add_implies, implies)
    ctx.sut("add_module", mg.add_module, names[0] if case["use"] == "root" else "top")
    have = ids(mg)
    for i, nm in enumerate(names):
        if case["kinds"][i % len(case["kinds"])] == "list":
            # these names do not exist, but their implied names are added
            ctx.check(nm in have, "unreached", lambda: f"{nm} is not in the graph")
        else:
            ctx.check(type(have.get(nm)).__name__ in ("AliasNode", "VirtualNode"), "unreached", lambda: f"{nm} is a {type(have.get(nm)).__name__}")
    ctx.check(last in have, "unreached", lambda: f"{last} not reached through {n} aliases")
    ctx.nontrivial(n >= 20 or case["tail"] in ("self", "start"))


def do_deep(case, ctx):
    # the interpreter needs time exponential in the depth of implicit namespace packages
    n = min(case["n"], 12) if case["ns"] else case["n"]
    names = [".".join(["p"] * (i + 1)) for i in range(n)]
    files = {}
    for i, nm in enumerate(names):
        d = nm.replace(".", "/")
        if not case["ns"]:
            files[d + "/__init__.py"] = {"abs": "", "up": "from " + "." * (i + 1) + " import mm" if i else "", "down": f"from . import p" if i + 1 < n else "",
                                         "cycle": f"import {names[-1]}"}[case["use"]] + "\n"
        files[d + "/mm.py"] = {"abs": f"import {names[-1]}", "up": "from " + "." * (i + 1) + " import mm", "down": "from .p import mm" if i + 1 < n else "",
                               "cycle": "from . import mm, p"}[case["use"]] + "\n"
    put(ctx, files)
    mg = graph(ctx)
    ctx.sut("add_module", mg.add_module, names[0] + ".mm")
    want = [names[0], "p.mm"]
    if case["use"] in ("abs", "down") or (case["use"] == "cycle" and not case["ns"]):
        want.append(names[-1])
    need(ctx, mg, want, "deep packages")
    ctx.sut("add_module", mg.add_module, names[-1] + ".mm")
    have = need(ctx, mg, names + [names[-1] + ".mm"], "deep packages")
    for nm in names[1:]:
        ctx.check(any(t.identifier == nm.rpartition(".")[0] for _, t in mg.outgoing(have[nm])), "parent", lambda: f"{nm} has no edge to its parent")
    ctx.nontrivial(n >= 40)


def do_dotted(case, ctx):
    n = case["n"]
    head = {"missing": "zz", "mod": "mm", "pkg": "pk"}[case["head"]]
    name = head + ".a" * n
    src = {"import": f"import {name}", "from": f"from {name} import b, c", "root": "", "twice": f"import {name}\nfrom {name} import b\nimport {name}.d"}[case["use"]]
    put(ctx, {"mm.py": "", "pk/__init__.py": "", "top.py": src})
    mg = graph(ctx)
    ctx.sut("add_module", mg.add_module, name if case["use"] == "root" else "top")
    if case["use"] == "twice":
        ctx.sut("add_module", mg.add_module, name + ".e")
    have = ids(mg)
    ctx.check(type(have.get(name)).__name__ == "MissingModule", "class", lambda: f"{name[:20]}... is a {type(have.get(name)).__name__}")
    node = name
    for _ in range(n):
        parent = node.rpartition(".")[0]
        ctx.check(any(t.identifier == parent for _, t in mg.outgoing(have[node])), "parent", "a part of the name has no edge to its parent")
        node = parent
    ctx.nontrivial(n >= 100)


def do_wide(case, ctx):
    n, what = case["n"], case["what"]
    if what in ("imports", "fromnames", "funcs") and n > 1000:
        n = 3000
    src = {"names": lambda: "[" + ", ".join(f"n{i}" for i in range(n)) + "]\n",
           "imports": lambda: "import " + ", ".join(f"zz{i}" for i in range(n)) + "\n",
           "fromnames": lambda: "from pk import " + ", ".join(f"zz{i}" for i in range(n)) + "\n",
           "consts": lambda: "x = [" + ", ".join(f"f({i}.5)" for i in range(n)) + "]\n",
           "funcs": lambda: "".join(f"def f{i}():\n  import zz{i}\n" for i in range(n))}[what]()
    src += "def last():\n    import errno\n"
    P.write_file(os.path.join(ctx.dir, "tree/pk/__init__.py"), "")
    put(ctx, {"mm.py": src}, case["form"])
    mg = graph(ctx)
    ctx.sut("add_module", mg.add_module, "mm")
    have = need(ctx, mg, ["mm", "errno"], "wide code")
    if what in ("imports", "fromnames", "funcs"):
        pre = "pk." if what == "fromnames" else ""
        lost = [i for i in range(n) if f"{pre}zz{i}" not in have]
        ctx.check(not lost, "unreached", lambda: f"{len(lost)} imported names are not in the graph")
    ctx.nontrivial(True)


def do_graph(case, ctx):
    n = case["n"]
    files = {}
    body = {i: ["va = 1"] for i in range(n)}
    succ = {i: set() for i in range(n)}
    for a, b, k in case["edges"]:
        a, b = a % n, b % n
        succ[a].add(b)
        body[a].append({"import": f"import g{b}.sa", "from-mod": f"from g{b} import sa", "from-var": f"from g{b} import va", "star": f"from g{b} import *",
                        "pkgfrom": f"from g{b}.sa import va, zz", "substar": f"from g{b}.sa import *"}[k])
    for i in range(n):
        files[f"g{i}/__init__.py"] = "\n".join(body[i])
        files[f"g{i}/sa.py"] = f"from . import *\nfrom g{i} import va, sa\n" + "\n".join(body[i][1:])
    put(ctx, files)
    mg = graph(ctx)
    ctx.sut("add_module", mg.add_module, "g0")
    seen, todo = {0}, [0]
    while todo:
        for b in succ[todo.pop()]:
            if b not in seen:
                seen.add(b)
                todo.append(b)
    need(ctx, mg, [f"g{i}" for i in seen], "import graph")
    have = ids(mg)
    ctx.check({x.split(".")[0] for x in have} == {f"g{i}" for i in seen}, "extra", lambda: f"nodes {sorted(have)}")
    ctx.nontrivial(len(seen) >= 3)


def do_vstar(case, ctx):
    n = case["n"]
    files = {f"m{i}.py": f"from m{i + 1} import *\nv{i} = 1\n" for i in range(n - 1)}
    files[f"m{n - 1}.py"] = ("from m0 import *\n" if case["cyc"] else "") + "last = 1\nimport errno\n"
    files["top.py"] = "from m0 import last, errno\n"
    put(ctx, files)
    mg = graph(ctx)
    node = ctx.sut("add_module", mg.add_module, "top")
    have = need(ctx, mg, [f"m{i}" for i in range(n)], "star chain")
    if not case["cyc"]:
        g = have["m0"].globals_written
        ctx.check("last" in g and all(f"v{i}" in g for i in range(n - 1)), "star-globals", f"m0 lacks the names of a chain of {n} star imports")
    ctx.nontrivial(n >= 50)
