"""C29: scripts are analysed like the interpreter would read them."""
import os
import pathlib
import subprocess
import sys
import types

from .. import model as M, project as P, sut
from .c11 import drop_caps

try:
    from hypothesis import strategies as st
except ImportError:
    st = None

STMTS = {  # text -> {target: (optional, global, in_fromlist, as)}
    "import errno": {"errno": (False, True, False, None)},
    "import gc as g_": {"gc": (False, True, False, "g_")},
    "from errno import E2BIG": {"errno": (False, True, False, None)},
    "import la": {"la": (False, True, False, None)},
    "from pk import sa, zz": {"pk": (False, True, False, None), "pk.sa": (False, True, True, None), "pk.zz": (False, True, True, None)},
    "import pk.sa": {"pk.sa": (False, True, False, None)},
    "from . import sa": {".": (False, True, False, None)},
    "from .pk import sa": {".pk": (False, True, False, None)},
    "from ..pk import sa": {"..pk": (False, True, False, None)},
    "import zza.zzb": {"zza.zzb": (False, True, False, None)},
    "import tool": {"tool": (False, True, False, None)},
    "from tool import x": {"tool": (False, True, False, None)},
    "import run, noext": {"run": (False, True, False, None), "noext": (False, True, False, None)},
    "import é": {"é": (False, True, False, None)},
    "def f_():\n    import la as lb": {"la": (True, False, False, "lb")},
    "try:\n    import pk\nexcept ImportError:\n    import zza": {"pk": (True, True, False, None), "zza": (True, True, False, None)},
    "if x:\n    import gc": {"gc": (True, True, False, None)},
    "class K:\n    import errno as e": {"errno": (False, True, False, "e")},
    "import __main__": {"__main__": (False, True, False, None)},
    "from la import *": {"la": (False, True, False, None)},
    "s = '''a\n\nb'''": {}, "t = 'é€'": {}, "u = 'é'": {}, "# é": {}, "ü = 1": {}, "\fv = 1": {}, "w = 1;": {}, "y = (1,\n  2)": {}, "z = 1 \\\n  + 2": {}, "\tif_ = 1".strip(): {}, "match x:\n    case 1: pass": {},
    "lambda: (yield)": {}, "async def c(): await x": {}, "type X = int": {}, "f'{x!r:>{y}}'": {},
}
INVALID = ["x = (", "import", "  x = 1", "return", "x = '", "from . import *\ndef f(): from la import *", "nonlocal a", "def f(a, a): pass", "x =\x00 1", "await x", "break", "x = 1 \\", "é = '", "\tx\n  y", "from __future__ import nope", "1 = x",
           "import la\nfrom __future__ import annotations", "def f():\n    global a, a\n    a: int = 1\n    global a", "'\\N{nope}'", "print 1", "`x`", "\x1a", "f'{'"]
COOKIES = {  # name -> codec or None
    "latin-1": "latin-1", "iso-8859-15": "iso-8859-15", "cp1252": "cp1252", "utf-8": "utf-8", "utf8": "utf-8", "UTF-8": "utf-8", "ascii": "ascii", "koi8-r": "koi8-r", "shift_jis": "shift_jis", "utf-7": "utf-7", "cp437": "cp437",
    "nope": "utf-8", "rot13": "utf-8", "hex": "utf-8", "utf-16": "utf-16", "utf-8-sig": "utf-8", "utf_8_unix": "utf-8", "latin-1-unix": "latin-1", "undefined": "utf-8", "iso_latin_1": "latin-1", "euc-jp": "euc-jp", "mac-roman": "mac-roman", "gbk": "gbk",
    "utf-8.": "utf-8", "LATIN-1": "latin-1"}
COMMENT = ["# -*- coding: {} -*-", "# coding={}", "#coding:{}", "# vim: set fileencoding={} :", "  # coding: {}", "# xcoding: {}", "\f# coding: {}", "x = 1 # coding: {}", "'coding: {}'", "#\tcoding: {}", "# encoding: utf-8 coding: {}", "# coding : {}", "# coding:{} coding: ascii"]
NAMES = ["tool", "tool.py", "run.py", "sub/tool.py", "sub/noext", "errno", "la.py", "sub/é.py", "a b.py", "x.y.py", "os.py", "sub/deep/run", "-c", "pk.sa", "__main__.py", "sub/../run2.py"]
SPELL = ["plain", "plain", "dot", "abs", "abspath", "pathlib", "double", "up", "link", "dirlink", "custom"]


@st.composite
def strategy_(draw):
    g = P.Gen(draw)

    def content():
        style = g.weighted([("plain", 4), ("cookie", 5), ("bom", 2), ("bomcookie", 1), ("raw", 1)])
        stmts = [g.pick(list(STMTS)) for _ in range(g.int(0, 4))]
        c = {"style": style, "stmts": stmts, "nl": g.weighted([("\n", 6), ("\r\n", 2), ("\r", 1), ("mixed", 1)]), "end": g.weighted([(True, 4), (False, 1)]), "bad": None, "first": g.chance(50)}
        if style in ("cookie", "bomcookie"):
            c["cookie"] = g.pick(list(COOKIES))
            c["comment"] = g.weighted([(COMMENT[0], 4), (COMMENT[1], 2)] + [(x, 1) for x in COMMENT[2:]])
            c["line"] = g.weighted([(1, 4), (2, 3), (3, 1)])
            c["above"] = g.pick(["#!/usr/bin/python", "", "# x", "\f", "import gc", "'''", "  ", "\\"])
        if style == "raw":
            c["raw"] = g.pick(["\xff", "\xe9", "\xc3", "\xed\xa0\x80", "\xef\xbb", "\xff\xfe", "\x80"])
            c["where"] = g.pick(["# {}", "'{}'", "{}", "x = 1 # {}", "b'{}'"])
        if g.chance(25):
            c["bad"] = g.pick(INVALID)
        return c

    ops = []
    for _ in range(g.int(1, 6)):
        k = g.weighted([("write", 3), ("add", 8), ("again", 2), ("chdir", 1), ("module", 1), ("broken", 2)])
        if k == "write":
            ops.append([k, g.pick(NAMES), content()])
        elif k == "add":
            ops.append(["write", g.pick(NAMES), content()])
            ops.append([k, ops[-1][1], g.pick(SPELL)])
        elif k == "again":
            ops.append([k, g.int(0, 5), g.pick(SPELL)])
        elif k == "chdir":
            ops.append([k, g.pick([".", "sub", "sub/deep", "lib"])])
        elif k == "module":
            ops.append([k, g.pick(["tool", "run", "la", "pk.sa", "errno"])])
        else:
            ops.append([k, g.pick(["missing", "directory", "unreadable", "dangling", "loop", "belowfile", "empty", "long", "nodir"]), g.pick(["str", "path"])])
    return {"ops": ops, "path": g.pick(["lib", "lib", "both"])}


def strategy():
    return strategy_()


def corpus():
    base = {"style": "plain", "stmts": ["t = 'é€'", "import gc as g_"], "nl": "\n", "end": True, "bad": None, "first": True}

    def one(**kw):
        return {"ops": [["write", "tool.py", {**base, **kw}], ["add", "tool.py", "plain"], ["again", 0, "plain"]], "path": "lib"}
    out = [one(nl=n, end=e) for n in ("\n", "\r", "\r\n", "mixed") for e in (True, False)]
    out += [one(style="cookie", cookie=c, comment=COMMENT[0], line=n, above="#!/usr/bin/python", stmts=["u = 'é'", "import gc as g_"], nl=nl) for c in COOKIES for n, nl in ((1, "\n"), (2, "\n"), (1, "\r"))]
    out += [one(style="cookie", cookie="latin-1", comment=c, line=n, above=a, stmts=["u = 'é'", "import gc as g_"]) for c in COMMENT for n in (1, 2) for a in ("# x", "import gc")]
    out += [one(style="bom"), one(style="bom", stmts=[]), one(stmts=[], first=False), one(style="bomcookie", cookie="latin-1", comment=COMMENT[0], line=1, above=""), one(style="bomcookie", cookie="utf-8", comment=COMMENT[0], line=1, above="")]
    out += [one(bad=b) for b in INVALID]
    out += [one(stmts=[s]) for s in STMTS]
    out += [one(style="raw", raw=r, where=w) for r in ("\xff", "\xe9") for w in ("# {}", "'{}'", "{}")]
    return out


def render(c):
    """The bytes of a script; its first statement ends the program."""
    lines = []
    if c["style"] in ("cookie", "bomcookie"):
        if c["line"] >= 2:
            lines.append(c["above"])
        if c["line"] == 3:
            lines.append("# more")
        lines.append(c["comment"].format(c["cookie"]))
    lines.append("raise SystemExit(77)")
    lines += c["stmts"]
    if c["style"] == "raw":
        lines.append(c["where"])
    if c["bad"] is not None:
        lines.insert(len(lines) if c["first"] else max(len(lines) - 1, 1), c["bad"])
    text = "\n".join(lines)
    if c["end"]:
        text += "\n"
    codec = COOKIES[c["cookie"]] if "cookie" in c else "utf-8"
    if c["style"] == "bomcookie":
        codec = "utf-8"
    if c["style"] != "raw":
        text = text.replace("\r", "")
    if c["nl"] == "mixed":
        parts = text.split("\n")
        text = "".join(p + ("\r\n", "\n", "\r")[i % 3] for i, p in enumerate(parts[:-1])) + parts[-1]
    else:
        text = text.replace("\n", c["nl"])
    data = text.encode(codec, "replace")
    if c["style"] == "raw":
        data = data.replace(b"{}", c["raw"].encode("latin-1"))
    if c["style"] in ("bom", "bomcookie"):
        data = b"\xef\xbb\xbf" + data
    return data


def accepted(path):
    """What does the interpreter do with the script? True, False or None (something else)."""
    p = subprocess.run([sys.executable, "-I", "-S", "-X", "utf8", "-W", "ignore", path], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    if p.returncode == 77:
        return True
    if p.returncode == 1 and any(x in p.stderr for x in (b"SyntaxError", b"IndentationError", b"TabError")):
        return False
    return None


def picture(mg):
    return (sorted(repr(n) for n in mg.nodes()), sorted((s.identifier, t.identifier, sorted(map(repr, d))) for s in mg.nodes() for d, t in mg.outgoing(s)), sorted(n.identifier for n in mg.roots()))


class Custom:
    def __init__(self, path):
        self.path = path

    def __fspath__(self):
        return self.path


def run(case, ctx):
    import modulegraph2 as mg2
    root = ctx.dir
    lib = os.path.join(root, "lib")
    for name, text in {"la.py": "va = 1\n", "é.py": "", "pk/__init__.py": "", "pk/sa.py": "", "tool.py": "import errno\n"}.items():
        P.write_file(os.path.join(lib, name), text)
    work = os.path.join(root, "work")
    os.makedirs(work + "/sub/deep")
    os.symlink(work, os.path.join(root, "dirlink"))
    os.makedirs(work + "/lib")
    os.chdir(work)
    sut.use_path(lib, *([work] if case["path"] == "both" else []))
    mg = ctx.sut("ModuleGraph()", mg2.ModuleGraph)
    added = {}     # identifier -> data
    history = []
    serial = 0

    def spell(name, how):
        nonlocal serial
        full = os.path.normpath(os.path.join(work, name))
        rel = os.path.relpath(full)
        if how == "plain":
            return rel
        if how == "dot":
            return "./" + rel
        if how == "abs":
            return full
        if how == "abspath":
            return pathlib.Path(full)
        if how == "pathlib":
            return pathlib.Path(rel)
        if how == "double":
            return rel.replace("/", "//") if "/" in rel else ".//" + rel
        if how == "up":
            return os.path.join(root, "work", "sub", "..", os.path.relpath(full, work))
        if how == "link":
            serial += 1
            p = os.path.join(root, f"link{serial}")
            os.symlink(full, p)
            return p
        if how == "dirlink":
            return os.path.join(root, "dirlink", os.path.relpath(full, work))
        return Custom(rel)

    def add(given):
        ident = os.fspath(pathlib.Path.cwd() / given)
        if ident in added:
            before = picture(mg)
            try:
                node = ctx.sut(f"add_script({given!r})", mg.add_script, given, allowed=ValueError)
                ctx.fail("twice", f"add_script({given!r}) was accepted again: {node!r}")
            except ValueError:
                ctx.label("twice")
            ctx.check(picture(mg) == before, "changed", lambda: f"add_script({given!r}) failed, the graph was changed")
            return
        with open(ident, "rb") as fp:
            data = fp.read()
        ok = accepted(ident)
        if ok is None:
            ctx.label("unknown")
        before = picture(mg)
        node = None
        try:
            node = ctx.sut(f"add_script({given!r})", mg.add_script, given, allowed=SyntaxError)
        except SyntaxError as exc:
            ctx.check(ok is not True, "refused", lambda: f"the interpreter accepts {data!r}, add_script raised {exc!r}")
            ctx.check(picture(mg) == before, "changed", lambda: f"add_script({given!r}) failed, the graph was changed")
            ctx.label("invalid")
            return
        if ok is False:
            # undecodable bytes in comments are only noticed when reading a file
            ctx.check(undecodable(data), "accepted", lambda: f"the interpreter does not accept {data!r}, add_script does")
            ctx.label("undecodable comment")
        ctx.nontrivial()
        ctx.label("added")
        added[ident] = data
        history.append(given)
        ctx.check(type(node) is mg2.Script and node.identifier == node.name == ident, "name", lambda: f"{node!r}, expected a Script {ident!r}")
        ctx.check(mg.find_node(ident) is node, "not-found", lambda: f"find_node({ident!r}) is {mg.find_node(ident)!r}")
        ctx.check(node in list(mg.roots()), "root", lambda: f"{ident!r} is not a root")
        ctx.check(node.filename == pathlib.Path(os.path.realpath(ident)), "filename", lambda: f"filename is {node.filename!r}, not {os.path.realpath(ident)!r}")
        ctx.check(isinstance(node.code, types.CodeType), "code", lambda: f"code is {node.code!r}")
        if ok:
            code = compile(data, ident, "exec", dont_inherit=True)
            ctx.check(node.code == code and node.code.co_filename == ident, "code", lambda: f"{data!r}: other code object: {node.code.co_consts} {node.code.co_names} {node.code.co_filename}")

    def undecodable(data):
        try:
            data.decode("utf-8-sig")
        except UnicodeDecodeError:
            return True
        return False

    contents = {}
    for op in case["ops"]:
        k = op[0]
        if k == "write":
            path = os.path.normpath(os.path.join(work, op[1]))
            if os.path.isdir(path):
                continue
            data = render(op[2])
            with open(path, "wb") as fp:
                fp.write(data)
            contents[data] = op[2]
        elif k == "add":
            if os.path.isdir(os.path.join(work, op[1])) or not os.path.lexists(os.path.normpath(os.path.join(work, op[1]))):
                continue
            add(spell(op[1], op[2]))
        elif k == "again":
            if history:
                given = history[op[1] % len(history)]
                if os.path.exists(given):
                    add(given)
        elif k == "chdir":
            os.chdir(os.path.join(work, op[1]))
        elif k == "module":
            ctx.sut(f"add_module({op[1]!r})", mg.add_module, op[1])
        else:
            p = {"missing": os.path.join(work, "nope.py"), "directory": os.path.join(work, "sub"), "dangling": os.path.join(work, "dangling"), "loop": os.path.join(work, "loop"), "belowfile": os.path.join(lib, "la.py", "x"), "empty": "",
                 "long": "x" * 300, "nodir": os.path.join(work, "no", "such", "x.py"), "unreadable": os.path.join(work, "locked.py")}[op[1]]
            if op[1] in ("dangling", "loop") and not os.path.lexists(p):
                os.symlink("/no/such/file" if op[1] == "dangling" else "loop", p)
            if op[1] == "unreadable":
                if not os.path.exists(p):
                    P.write_file(p, "import errno\n")
                    os.chmod(p, 0)
                drop_caps()
            before = picture(mg)
            try:
                node = ctx.sut(f"add_script({p!r})", mg.add_script, pathlib.Path(p) if op[2] == "path" else p, allowed=OSError)
                ctx.fail("unreadable", f"add_script({p!r}) gave {node!r}")
            except OSError:
                ctx.label("unreadable:" + op[1])
            ctx.check(picture(mg) == before, "changed", lambda: f"add_script({p!r}) failed, the graph was changed")
    # the edges
    for ident, data in added.items():
        node = mg.find_node(ident)
        expected = {}
        c = contents[data]
        if readable(c, data):
            for s in c["stmts"]:
                for t, d in STMTS[s].items():
                    expected.setdefault(t, set()).add(d)
            if c.get("above") == "import gc" and c["line"] >= 2:
                expected.setdefault("gc", set()).add((False, True, False, None))
            got = {}
            for edges, t in mg.outgoing(node):
                got.setdefault(t.identifier, set()).update((e.is_optional, e.is_global, e.in_fromlist, e.imported_as) for e in edges)
                ctx.check(not isinstance(t, mg2.Script), "script", lambda: f"{ident} has an edge to the script {t.identifier}")
            ctx.check(got == expected, "edges", lambda: f"{data!r}: edges {got}, expected {expected}")
            ctx.label("edges", len(got))
            kinds = {"errno": mg2.BuiltinModule, "gc": mg2.BuiltinModule, "pk.zz": mg2.MissingModule, ".": mg2.InvalidRelativeImport, ".pk": mg2.InvalidRelativeImport, "..pk": mg2.InvalidRelativeImport, "zza": mg2.MissingModule, "zza.zzb": mg2.MissingModule,
                     "pk": mg2.Package, "pk.sa": mg2.SourceModule, "é": mg2.SourceModule, "__main__": mg2.ExcludedModule}
            if case["path"] == "lib":
                kinds.update(run=mg2.MissingModule, noext=mg2.MissingModule, tool=mg2.SourceModule, la=mg2.SourceModule)
            for t in got:
                if t in kinds:
                    ctx.check(type(mg.find_node(t)) is kinds[t], "class", lambda: f"{t} is {mg.find_node(t)!r}")
    ctx.check({n.identifier for n in mg.nodes() if isinstance(n, mg2.Script)} == set(added), "scripts", lambda: f"scripts {[n.identifier for n in mg.nodes() if isinstance(n, mg2.Script)]}, expected {sorted(added)}")


def readable(c, data):
    """Is the text of the statements what was encoded?"""
    if c["bad"] is not None or c["style"] == "raw" or c.get("above") in ("'''", "\\") or c.get("comment") == "'coding: {}'":
        return False
    try:
        text = compile(data, "x", "exec", dont_inherit=True, flags=0x400)
    except SyntaxError:
        return False
    import ast
    names = {a.name for n in ast.walk(text) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    return ("import é" in c["stmts"]) <= ("é" in names) and not any("?" in s or "\ufffd" in s for s in names) and ("import é" not in c["stmts"] or "é" in names)
