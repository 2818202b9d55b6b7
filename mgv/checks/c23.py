"""C23: the command line against the API calls that its arguments stand for."""
import io
import json
import os
import subprocess
import sys

from .. import dists as D, project as P, sut
from .c22 import Dot, Page

try:
    from hypothesis import strategies as st
except ImportError:
    st = None

MODULES = ["ma.py", "mb.py", "mc.py", "pa/__init__.py", "pa/sa.py", "pa/sb.py", "nsa/sa.py", "nsa/sb.py"]
NAMES = ["ma", "mb", "mc", "pa", "pa.sa", "pa.sb", "nsa", "nsa.sa", "nsa.sb"]
TARGETS = NAMES + ["errno", "gc", "zza", "pa.zz", "_weakref"]
SCRIPTS = ["s0.py", "s1", "bin/s2.py", "bad.py", "nofile.py"]
BAD = [["--bogus"], ["-f"], ["-f", "svg"], ["--format=HTML"], ["-x"], ["-q"], ["--output"], ["-fhtm"], ["--exclude-stdlib=ma"]]


@st.composite
def strategy_(draw):
    g = P.Gen(draw)
    dirs = []
    for i in range(3):
        files = {f: [g.pick(TARGETS) for _ in range(g.weighted([(0, 3), (1, 4), (2, 3)]))] for f in MODULES if g.chance(50)}
        dirs.append({"files": files, "dists": [[n, [f for f in files if g.chance(50)]] for n in ("dista", "distb") if g.chance(35)]})
    scripts = {s: [g.pick(TARGETS) for _ in range(g.int(0, 3))] for s in SCRIPTS if s != "nofile.py"}
    path = [g.pick(["p0", "p1", "p2", "./p1", "p0/../p2", "ABS/p0", "ABS/p2", "nodir"]) for _ in range(g.weighted([(0, 1), (1, 4), (2, 4), (3, 2)]))]

    def call():
        opts = []
        for p in path:
            opts.append([[["-p", p]], [["-p" + p]], [["--path", p]], [["--path=" + p]]][g.int(0, 3)][0])
        order = list(opts)  # the order of these matters
        other = []
        modes = [g.weighted([("m", 3), ("s", 3), ("d", 2)]) for _ in range(g.weighted([(0, 3), (1, 6), (2, 1)]))]
        mode = modes[-1] if modes else "m"
        if mode == "d" and not any(d["dists"] for d in dirs) and g.chance(80):
            mode, modes = "m", []
        excludes = [g.pick(TARGETS + ["os", "nsa.zz"]) for _ in range(g.weighted([(0, 5), (1, 4), (2, 2), (3, 1)]))]
        for x in excludes:
            other.append(g.pick([["-x", x], ["-x" + x], ["--exclude", x], ["--exclude=" + x]]))
        stdlib = g.chance(25)
        for _ in range(2 if stdlib and g.chance(15) else 1 if stdlib else 0):
            other.append(["--exclude-stdlib"])
        fmts = [g.pick(["html", "dot"]) for _ in range(g.weighted([(0, 2), (1, 6), (2, 1)]))]
        for f in fmts:
            other.append(["FMT", f, g.int(0, 3)])
        out = g.weighted([(None, 5), ("out.txt", 4), ("ABS/out2", 1), ("nodir/out", 1), ("p0", 1), ("old.txt", 2)])
        if out:
            other.append(g.pick([["-o", out], ["-o" + out], ["--output", out], ["--output=" + out]]))
        for m in modes:
            other.append(["MODE", m, g.int(0, 1)])
        bad = g.chance(8)
        wrong = g.pick(BAD) if bad else []
        tail = wrong if wrong in (["-f"], ["-x"], ["--output"]) else []  # the value is missing
        if wrong and not tail:
            other.append(wrong)
        # a random merge, that keeps the order of paths, of formats and of modes
        seq, fixed = [], {"p": list(order), "f": [o for o in other if o[0] == "FMT"], "m": [o for o in other if o[0] == "MODE"], "x": [o for o in other if o[0] not in ("FMT", "MODE")]}
        pools = [k for k, v in fixed.items() for _ in v]
        for _ in range(len(pools)):
            k = g.pick(pools)
            pools.remove(k)
            seq.append(fixed[k].pop(g.int(0, len(fixed[k]) - 1) if k == "x" else 0))
        if mode == "m":
            names = [g.pick(TARGETS) for _ in range(g.int(1, 3))]
        elif mode == "s":
            names = [g.pick(["s0.py", "s1", "bin/s2.py", "ABS/s0.py"]) for _ in range(g.int(1, 2))]
            if g.chance(15):
                names.append(g.pick(SCRIPTS))
        else:
            have = sorted({n for d in dirs for n, _ in d["dists"]} or {"nodist"})
            names = [g.pick(have) for _ in range(g.int(1, 2))] + (["nodist"] if g.chance(10) else [])
        if g.chance(4):
            names = []
        pos = g.int(0, len(seq))
        seq.insert(pos, ["NAMES"])
        argv = []
        for o in seq:
            if o[0] == "FMT":
                argv += [["-f", o[1]], ["-f" + o[1]], ["--format", o[1]], ["--format=" + o[1]]][o[2]]
            elif o[0] == "MODE":
                argv.append({"m": ["-m", "--module"], "s": ["-s", "--script"], "d": ["-d", "--distribution"]}[o[1]][o[2]])
            elif o[0] == "NAMES":
                argv += names
            else:
                argv += o
        argv += tail
        return {"argv": argv, "mode": mode, "names": names, "excludes": excludes, "stdlib": stdlib, "fmt": fmts[-1] if fmts else "html", "out": out,
                "invalid": bad or not names}

    return {"dirs": dirs, "scripts": scripts, "path": path, "calls": [call() for _ in range(g.weighted([(1, 3), (2, 1)]))], "process": False}


def strategy():
    return strategy_()


def corpus():
    """Some calls in a process of their own."""
    files = {f: ["errno", "pa.sb"] for f in MODULES}
    base = {"dirs": [{"files": files, "dists": [["dista", ["pa/__init__.py", "ma.py"]]]}, {"files": {"ma.py": ["gc"]}, "dists": []}, {"files": {}, "dists": []}],
            "scripts": {s: ["ma", "pa.sa"] for s in SCRIPTS if s != "nofile.py"}, "path": ["p1", "ABS/p0"], "process": True}
    out = []
    for fmt in ("html", "dot"):
        for mode, names in (("m", ["ma", "nsa.sa"]), ("s", ["s1"]), ("d", ["dista"]), ("s", ["bad.py"]), ("s", ["nofile.py"]), ("m", [])):
            for o in (None, "out.txt", "nodir/out"):
                argv = ["-p", "p1", "-pABS/p0", "-f", fmt, {"m": "-m", "s": "-s", "d": "-d"}[mode], *(["-o", o] if o else []), "-x", "errno", *names]
                out.append({**base, "calls": [{"argv": argv, "mode": mode, "names": names, "excludes": ["errno"], "stdlib": False, "fmt": fmt, "out": o, "invalid": not names}]})
    return [c for i, c in enumerate(out) if i % 5 == 0]


def api(path, call):
    """What the arguments stand for."""
    import modulegraph2
    sys.path[:0] = path
    mg = modulegraph2.ModuleGraph()
    mg.add_excludes(call["excludes"])
    if call["stdlib"]:
        mg.add_excludes(sys.stdlib_module_names)
    try:
        for n in call["names"]:
            {"m": mg.add_module, "s": mg.add_script, "d": mg.add_distribution}[call["mode"]](n)
    except (ValueError, OSError, SyntaxError) as exc:
        return {"error": repr(exc)}
    nodes, edges = {}, []
    for n in mg.iter_graph():
        d = getattr(n, "distribution", None)
        nodes[n.identifier] = [type(n).__name__, n.name, d.name if d is not None else None]
        for deps, t in mg.outgoing(n):
            edges.append([n.identifier, t.identifier, all(x.is_optional for x in deps)])
    return {"nodes": nodes, "edges": edges, "roots": [n.identifier for n in mg.roots()]}


def main_calls(argvs, files):
    """Runs main for every argv, in this process."""
    import modulegraph2.__main__ as cli
    res = []
    for argv, (o, e) in zip(argvs, files):
        for fd, name in ((1, o), (2, e)):
            f = os.open(name, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(f, fd)
            os.close(f)
        sys.stdout, sys.stderr = io.TextIOWrapper(io.FileIO(1, "w", closefd=False), "utf-8"), io.TextIOWrapper(io.FileIO(2, "w", closefd=False), "utf-8")
        before, args = list(sys.path), list(argv)
        try:
            cli.main(argv)
            code = 0
        except SystemExit as exc:
            code = 0 if exc.code in (None, 0) else exc.code if isinstance(exc.code, int) else 1
        except BaseException as exc:
            code = repr(exc)
        sys.stdout.flush()
        sys.stderr.flush()
        res.append([code, sys.path == before, argv == args])
    return res


def run(case, ctx):
    for i, d in enumerate(case["dirs"]):
        root = os.path.join(ctx.dir, f"p{i}")
        os.makedirs(root)
        for f, imp in d["files"].items():
            P.write_file(os.path.join(root, f), "".join(f"import {n}\n" for n in imp))
        for n, files in d["dists"]:
            D.write_dist(root, n, "1", files)
    for s, imp in case["scripts"].items():
        P.write_file(os.path.join(ctx.dir, s), "".join(f"import {n}\n" for n in imp) + ("x = (\n" if s == "bad.py" else ""))
    P.write_file(os.path.join(ctx.dir, "old.txt"), "old")
    fix = lambda s: s.replace("ABS", ctx.dir)
    for c in case["calls"]:
        c["argv"], c["names"], c["out"] = [fix(a) for a in c["argv"]], [fix(a) for a in c["names"]], c["out"] and fix(c["out"])
    path = [fix(p) for p in case["path"]]
    os.chdir(ctx.dir)
    sut.use_path()
    logs = [(os.path.join(ctx.dir, f"stdout{i}"), os.path.join(ctx.dir, f"stderr{i}")) for i in range(len(case["calls"]))]
    target = lambda c: c["out"] if c["out"] in ("out.txt", "old.txt", os.path.join(ctx.dir, "out2")) else None
    before = {}
    if case["process"]:
        env = {**os.environ, "PYTHONPYCACHEPREFIX": sys.pycache_prefix or "", "PYTHONPATH": ""}
        (call,) = case["calls"]
        with open(logs[0][0], "wb") as o, open(logs[0][1], "wb") as e:
            p = subprocess.run([sys.executable, "-B", "-m", "modulegraph2", *call["argv"]], stdout=o, stderr=e, env=env, timeout=100)
        results = [[p.returncode, True, True]]
        ctx.label("process of its own")
    else:
        results = sut.fork_call(main_calls, [c["argv"] for c in case["calls"]], logs)
    wants = [sut.fork_call(api, path, c) for c in case["calls"]]
    big = False
    for i, (call, (code, restored, argv), want) in enumerate(zip(case["calls"], results, wants)):
        last = i == len(case["calls"]) - 1
        what = " ".join(call["argv"])
        with open(logs[i][0], encoding="utf-8") as fp:
            text = fp.read()
        with open(logs[i][1], encoding="utf-8") as fp:
            err = fp.read()
        ctx.check(restored, "sys.path", lambda: f"sys.path is not restored after: {what}")
        ctx.check(argv, "argv", lambda: f"the arguments were changed by: {what}")
        out = target(call)
        fails = "invalid arguments" if call["invalid"] else want.get("error") or (f"cannot write {call['out']}" if call["out"] and not out else None)
        ctx.label("fails" if fails else call["mode"] + " " + call["fmt"])
        if fails:
            ctx.check(code != 0, "status", lambda: f"status {code} in spite of {fails}: {what}\n{err}")
            ctx.check(not isinstance(code, str) or not call["invalid"] and "error" in want, "exception", lambda: f"{code} instead of an error message for {fails}: {what}")
            ctx.check(not text, "stdout", lambda: f"output of a failing command: {text[:200]}")
            ctx.check(err or isinstance(code, str), "message", lambda: f"no message for {fails}: {what}")
            if out and not any(target(c) == out for c in case["calls"][:i] + case["calls"][i + 1:]):
                have = open(out).read() if os.path.exists(out) else None
                ctx.check(have == ("old" if out == "old.txt" else None), "output", lambda: f"{out} was written by a failing command: {what}")
            continue
        ctx.check(code == 0, "status", lambda: f"status {code}: {what}\n{err}")
        if out:
            ctx.check(not text, "stdout", lambda: f"text on stdout in spite of -o: {text[:200]}")
            if not last and any(target(c) == out for c in case["calls"][i + 1:]):
                continue
            ctx.check(os.path.isfile(out), "output", lambda: f"no file {out}: {what}")
            with open(out) as fp:
                text = fp.read()
        big |= len(want["nodes"]) >= 3 and bool(call["excludes"] or call["stdlib"] or len(path) > 1)
        compare(ctx, what, call["fmt"], text, want)
    ctx.nontrivial(big)


def compare(ctx, what, fmt, text, want):
    extern = {i for i, (c, _, _) in want["nodes"].items() if c == "PyPIDistribution"}
    nodes = {i: v for i, v in want["nodes"].items() if i not in extern}
    if fmt == "html":
        ctx.check(text.lstrip()[:5].lower() == "<html", "format", lambda: f"not HTML: {text[:60]!r}, {what}")
        page = Page()
        page.feed(text)
        page.close()
        ctx.check(not page.errors, "html-form", lambda: f"{page.errors}\n{text}")
        have = {s["name"]: s["title"] for s in page.sections}
        exp = {i: f"{c} {n}" for i, (c, n, _) in nodes.items()}
        ctx.check(have == exp, "nodes", lambda: f"{what}: nodes {have}, the API gives {exp}")
        got = {(s["name"], h[1:]) for s in page.sections for w, h, _ in s["links"] if w == "Depends on:"}
        edges = {(a, b) for a, b, _ in want["edges"] if a not in extern}
        ctx.check(got == edges, "edges", lambda: f"{what}: edges {sorted(got ^ edges)} differ from those of the API")
        return
    ctx.check(text.split()[:1] == ["digraph"], "format", lambda: f"not DOT: {text[:60]!r}, {what}")
    try:
        g = Dot(text)
    except SyntaxError as exc:
        ctx.fail("dot-form", f"{exc}\n{text}")
    have = {n for n, _ in g.nodes}
    ctx.check(have - extern == set(nodes), "nodes", lambda: f"{what}: nodes {sorted(have)}, the API gives {sorted(nodes)}")
    got = {(a, b, at.get("style") == "dashed") for a, b, at in g.edges}
    edges = {tuple(e) for e in want["edges"]}
    ctx.check(got == edges, "edges", lambda: f"{what}: edges {sorted(got ^ edges)} differ from those of the API")
    roots = {n for n, at in g.nodes if at.get("root") == "true"}
    ctx.check(roots == set(want["roots"]), "roots", lambda: f"{what}: roots {sorted(roots)}, the API gives {sorted(want['roots'])}")
    shapes = {n: at.get("shape") for n, at in g.nodes}
    by = {}
    for i, (c, _, _) in nodes.items():
        by.setdefault(c, set()).add(shapes[i])
    ctx.check(all(len(v) == 1 for v in by.values()), "shapes", lambda: f"shapes {by}")
    groups = {}
    for i, (_, _, d) in nodes.items():
        if d is not None:
            groups.setdefault(d, []).append(i)
    ctx.check(sorted((k, sorted(v)) for k, v in g.clusters) == sorted((k, sorted(v)) for k, v in groups.items()), "clusters", lambda: f"{what}: clusters {g.clusters}, expected {groups}")
