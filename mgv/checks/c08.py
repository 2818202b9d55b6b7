"""C08: globals read and written by a module, against an independent scope analysis."""
import importlib.util
import marshal
import os
import re
import warnings

from .. import codegen as C, project as P, realcode as R, sut

try:
    from hypothesis import strategies as st
except ImportError:
    st = None


@st.composite
def strategy_(draw):
    g = C.CodeGen(draw)
    src = g.module()
    # private names, which get the name of the class in front
    for old, new in g.weighted([([], 75), ([("c", "__q")], 8), ([("b", "__q"), ("c", "__r_")], 6), ([("c", "__q"), ("Ca", "__Ca")], 5),
                                ([("c", "__q"), ("Ca", "___")], 3), ([("d", "__q"), ("a", "___a")], 3)]):
        src = re.sub(r"\b%s\b" % old, new, src)
    pad = g.weighted([(0, 80), (260, 12), (300, 8)])
    return {"src": src, "pad": pad, "form": g.pick(["mod", "pkg", "script", "pyc", "zip"])}


def real(g):
    case = R.pick(g)
    if case is None:
        return None
    return {"real": case["real"], "pad": g.weighted([(0, 80), (260, 12), (300, 8)]), "form": g.pick(["mod", "pkg", "script", "pyc", "zip"])}


def strategy():
    return R.mixed(strategy_(), 15, real)


def corpus():
    body = "class A:\n    global b\n    b = a\n    c = [len, c]\n\ndef f():\n    global g\n    g = lambda: __import__\n"
    return [{"src": body, "pad": n, "form": f} for n in (66000, 255, 256, 257) for f in ("mod", "pyc")]


def run(case, ctx):
    import modulegraph2
    warnings.simplefilter("ignore")
    n = case["pad"]
    src = case["src"] if "src" in case else R.text(case["real"])
    if src is None:
        ctx.label("no source to use")
        return
    if "real" in case:
        ctx.label("real code")
    if n:
        # wide operands: many constants and names before, and names used only behind them
        src = f"pad = ({', '.join(repr('s%d' % i) for i in range(n))})\npad = [{', '.join('n%d' % i for i in range(n))}]\n" + src
    if case["form"] == "pkg":
        # looking for submodules executes the package
        src = "1/0\n" + src
    try:
        code = compile(src, "x", "exec", dont_inherit=True)
    except SyntaxError:
        ctx.label("not valid source")
        return
    want = C.Analysis(src)
    form = case["form"]
    mg = modulegraph2.ModuleGraph()
    P.write_file(os.path.join(ctx.dir, "mdb.py"), "xq = 1\ndef yq(): pass\nimport zzq\n")
    if form == "zip":
        import zipfile
        with zipfile.ZipFile(os.path.join(ctx.dir, "t.zip"), "w") as zf:
            zf.writestr("target.py", src)
    elif form == "pyc":
        P.write_file(os.path.join(ctx.dir, "target.pyc"), importlib.util.MAGIC_NUMBER + b"\0" * 12 + marshal.dumps(code))
    else:
        P.write_file(os.path.join(ctx.dir, {"mod": "target.py", "pkg": "target/__init__.py", "script": "target.script"}[form]), src)
    sut.use_path(ctx.dir, os.path.join(ctx.dir, "t.zip"))
    mg.add_excludes(["importlib", "zipimport"] + (C.imported(src) if case.get("real") else []))
    if form == "script":
        node = ctx.sut("add_script", mg.add_script, "target.script")
    else:
        node = ctx.sut("add_module", mg.add_module, "target")
    ctx.label("form:" + form)
    m = getattr(node, "init_module", node)
    read, written = set(node.globals_read), set(node.globals_written)
    ctx.check(type(m).__name__ in ("SourceModule", "BytecodeModule", "Script"), "class", lambda: f"node is a {type(m).__name__}")
    star = {"xq", "yq", "zzq"} if "mdb" in want.star else set()
    ctx.nontrivial(len(want.read) + len(want.written) >= 3 and ("def " in src or "class " in src or "lambda" in src or " for " in src))
    for k in ("def ", "class ", "lambda", "global ", "nonlocal ", " for ", ":= ", "match ", "type ", "async ", "import *", "__q", "__file__", "__import__"):
        if k in src:
            ctx.label("has:" + k.strip())
    if "real" in case:
        loads, stores = R.named(code)
        want.read &= loads
        want.written &= stores
    ctx.check(want.read <= read, "read-missing", lambda: f"globals_read lacks {sorted(want.read - read)}\n{src[-1500:]}")
    ctx.check(read <= want.maybe_read, "read-extra", lambda: f"globals_read has {sorted(read - want.maybe_read)}\n{src[-1500:]}")
    ctx.check(want.written <= written, "written-missing", lambda: f"globals_written lacks {sorted(want.written - written)}\n{src[-1500:]}")
    ctx.check(star <= written, "star-missing", lambda: f"globals_written lacks {sorted(star - written)} from star import\n{src[-1500:]}")
    ctx.check(written <= want.maybe_written | star, "written-extra", lambda: f"globals_written has {sorted(written - want.maybe_written - star)}\n{src[-1500:]}")
    if hasattr(m, "uses_dunder_import"):
        for attr, name in (("uses_dunder_import", "__import__"), ("uses_dunder_file", "__file__")):
            val = getattr(m, attr)
            ctx.check(val == (name in read), attr, lambda: f"{attr} is {val}, globals_read is {sorted(read)}\n{src[-1500:]}")
