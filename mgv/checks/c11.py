"""C11: nothing that is found in a module file can make graph building fail, or change the rest of the graph."""
import ast
import ctypes
import importlib.util
import marshal
import os
import struct
import sys
import zipfile

from .. import model as M, project as P, sut

try:
    from hypothesis import strategies as st
except ImportError:
    st = None

# sources that Python cannot compile or decode
BAD = [
    "import", "def f(:", "x = (", "'unterminated", "'''unterminated", "\tif 1:\n  x\n\ty", "return = 1", "import errno\nx = \x00", "\x00",
    "from __future__ import nosuchfeature", "from . import *\nnonlocal x", "def f():\n from errno import *", "break", "return 5", "await x\n",
    "a b c", "print 1", "exec 'x'", "x = 0777", "`x`", "\\", "if 1:", "f'{'", "*a", "def f(a, a): pass", "None = 1", "global x; x = 1\ndef f(a):\n global a",
    "# coding: nosuchcodec\nimport errno", "# -*- coding: rot13 -*-\nvzcbeg reeab", "#coding:hex\nx", "#coding: undefined\nx", "import errno\n  import gc",
    "x = " + "(" * 400 + ")" * 400, "x = " + "-" * 20000 + "1", "x = " + "(" * 150 + "lambda: " * 5000 + "1", "x = {" * 120, "for i in x:\n" * 30,
]
BADBYTES = [
    b"import errno\nx = '\xff'", b"\xff\xfeimport errno", b"\xef\xbb\xbf# coding: latin-1\nimport errno\n", b"\xef\xbb\xbf\xef\xbb\xbfimport errno",
    b"\x80\x81", b"# coding: ascii\n# \xe9\nimport errno", b"# coding: utf-16\nimport errno", b"\xed\xa0\x80 = 1", b"\xc0\x80", b"import errno\x00", b"# coding: utf-7\n+",
    "import errno".encode("utf-16"), "import errno".encode("utf-32"), b"\x1f\x8b\x08\x00junk", b"MZ\x90\x00", b"\x7fELF\x02\x01\x01",
    b"# coding: idna\nxn--\xff", b"# coding: unicode_escape\nx = 1\\x", b"#coding:punycode\nx\xff", b"x = 1 # \xf0\x28\x8c\x28",
]
EXC = [
    "raise Exception", "raise ValueError('x')", "raise ValueError", "raise ValueError('__spec__ is None')", "raise ValueError(1)", "raise ImportError('x')",
    "raise ImportError", "raise ModuleNotFoundError('No module named zz', name='zz')", "raise ModuleNotFoundError(\"__path__ attribute not found on 'errno' while trying to find 'errno.zz'\")",
    "raise AttributeError(\"module 'x' has no attribute '__path__'\")", "raise AttributeError", "raise AttributeError(1)", "raise KeyError(__name__)", "raise SystemExit", "raise SystemExit(1)",
    "raise SystemExit('bye')", "raise RecursionError", "raise MemoryError", "raise OSError(2, 'x')", "raise StopIteration", "raise AssertionError", "raise NotImplementedError",
    "raise UnicodeDecodeError('utf-8', b'x', 0, 1, 'x')", "raise SyntaxError('x')", "raise IndentationError", "raise type('E', (Exception,), {'__str__': lambda s: 1 / 0})",
    "raise type('E', (Exception,), {'args': property(lambda s: 1 / 0)})", "raise ExceptionGroup('x', [ValueError('y')])", "raise TypeError", "raise Warning", "(lambda f: f(f))(lambda f: f(f))",
    "1 / 0", "undefined_name", "__import__('errno.zz')", "__import__('zz.yy')", "raise EOFError", "raise NameError(name='x')", "raise ImportWarning('x')", "raise LookupError('__path__')",
]
PYC = ["empty", "short", "magic", "oldmagic", "flags", "headeronly", "truncated", "int", "none", "tuple", "junk", "text", "ref"]
CACHED = ["empty", "short", "magic", "flags", "stale"]
ZIPBAD = ["deflate", "offset", "cut"]


def good_pyc(src="", flags=0):
    return importlib.util.MAGIC_NUMBER + flags.to_bytes(4, "little") + b"\0" * 8 + marshal.dumps(compile(src, "x", "exec", dont_inherit=True))


def bad_pyc(kind, n):
    ok = good_pyc("import errno\nx = 1\n")
    return {
        "empty": b"", "short": ok[:n % 16], "magic": b"\x42\x00\r\n" + ok[4:], "oldmagic": (3394).to_bytes(2, "little") + b"\r\n" + ok[4:],
        "flags": ok[:4] + b"\xf0\0\0\0" + ok[8:], "headeronly": ok[:16], "truncated": ok[: 17 + n % (len(ok) - 17)],
        "int": ok[:16] + marshal.dumps(5), "none": ok[:16] + marshal.dumps(None), "tuple": ok[:16] + marshal.dumps((1, [2], {"a": 3})),
        "junk": ok[:16] + bytes([(n * 7 + i * 13) % 64 + 128 for i in range(20)]), "text": b"import errno\n", "ref": ok[:16] + b"r\xff\xff\0\0",
    }[kind]


def post(g, p):
    if not any(m["kind"] in ("mod", "pkg") for m in p["mods"]):
        p["mods"].append({"name": "pkz", "kind": "pkg", "body": []})
    cands = [m["name"] for m in p["mods"] if m["kind"] in ("mod", "pkg")]
    pkgs = [m["name"] for m in p["mods"] if m["kind"] == "pkg" and any(o["name"].startswith(m["name"] + ".") for o in p["mods"])]
    bad = {}
    for _ in range(g.weighted([(1, 5), (2, 3), (3, 2)])):
        name = g.pick(pkgs) if pkgs and g.chance(50) else g.pick(cands)
        k = g.weighted([("bad", 5), ("bytes", 3), ("mutate", 4), ("random", 2), ("exc", 7), ("pyc", 4), ("cached", 2), ("zip", 2), ("unreadable", 2)])
        if k == "bad":
            v = g.int(0, len(BAD) - 1)
        elif k == "bytes":
            v = g.int(0, len(BADBYTES) - 1)
        elif k == "mutate":
            v = [[g.int(0, 200), g.pick([b"\0", b"(", b"\xff", b"'", b"\n  ", b":", b"\\", b"=", b"{", b"$", b"\x0c", b"\x1a"]).decode("latin1"), g.int(0, 3)] for _ in range(g.int(1, 3))]
        elif k == "random":
            v = [g.int(0, 255) for _ in range(g.int(0, 12))]
        elif k == "exc":
            v = [g.int(0, len(EXC) - 1), g.pick(["start", "end"])]
        elif k == "pyc":
            v = [g.pick(PYC), g.int(0, 300)]
        elif k == "cached":
            v = [g.pick(CACHED), g.int(0, 15)]
        elif k == "zip":
            name = name.split(".")[0]
            v = g.pick(ZIPBAD)
        else:
            v = 0
        if k in ("pyc", "zip") and not any(m["name"] == name and m["kind"] in ("mod", "pkg") for m in p["mods"]):
            continue
        bad[name] = [k, v]
    # the modules below a package in a damaged zip file are not in that zip file
    zipped = tuple(n + "." for n in bad if bad[n][0] == "zip")
    p["bad"] = {n: v for n, v in bad.items() if not (zipped and n.startswith(zipped))}


def strategy():
    return P.project_strategy(post=post, ext=False, max_top=3)


def corpus():
    out = []
    base = {"mods": [{"name": "mda", "kind": "mod", "body": [["imp", [["pka.sa", None]]], ["frm", 0, "pka", [["sa", None], ["zz", None]]], ["imp", [["pka.qa.sb", None]]]]},
                     {"name": "pka", "kind": "pkg", "body": [["imp", [["gc", None]]]]}, {"name": "pka.sa", "kind": "mod", "body": [["imp", [["errno", None]]]]},
                     {"name": "pka.qa", "kind": "pkg", "body": []}, {"name": "pka.qa.sb", "kind": "mod", "body": [["frm", 2, "", [["sa", None]]]]}],
            "scripts": [], "roots": [["m", "mda"]]}
    for where in ("pka", "pka.qa", "pka.sa"):
        for i in range(len(BAD)):
            out.append({**base, "bad": {where: ["bad", i]}})
        for i in range(len(BADBYTES)):
            out.append({**base, "bad": {where: ["bytes", i]}})
        for i in range(len(EXC)):
            out.append({**base, "bad": {where: ["exc", [i, "start"]]}})
        for k in PYC:
            out.append({**base, "bad": {where: ["pyc", [k, 5]]}})
        out.append({**base, "bad": {where: ["unreadable", 0]}})
    return out


def drop_caps():
    """Without CAP_DAC_OVERRIDE even root cannot read files with mode 0."""
    libc = ctypes.CDLL(None, use_errno=True)
    hdr = struct.pack("<II", 0x20080522, 0)
    data = ctypes.create_string_buffer(24)
    if libc.capget(hdr, data):
        return
    w = list(struct.unpack("<6I", data.raw))
    w[0] &= ~((1 << 1) | (1 << 2))
    libc.capset(hdr, struct.pack("<6I", *w))


def compiles(data, path):
    try:
        # the import system does not decode the bytes itself
        compile(data, path, "exec", dont_inherit=True)
        return True
    except (SyntaxError, ValueError, RecursionError, MemoryError, OverflowError, LookupError):
        return False


def parses(data):
    try:
        ast.parse(data)
        return True
    except (SyntaxError, ValueError, RecursionError, MemoryError, OverflowError, LookupError):
        return False


def write(case, base, hostile):
    """Write the project with the hostile contents, or with the harmless equivalents."""
    os.makedirs(base)
    os.chdir(base)
    r = P.Render()
    verdict = {}  # name -> class that is expected for the module (or its init)
    zips = []
    for m in case["mods"]:
        rel = P.module_path(m, None)
        if rel is None:
            os.makedirs(m["name"].replace(".", "/"), exist_ok=True)
            continue
        k, v = case["bad"].get(m["name"], (None, None))
        body = m.get("body") or []
        src = r.source(body).encode()
        if k == "bad":
            data = BAD[v].encode("utf-8")
        elif k == "bytes":
            data = BADBYTES[v]
        elif k == "random":
            data = bytes(v)
        elif k == "mutate":
            b = bytearray(src)
            for pos, ins, cut in v:
                pos %= len(b) + 1
                b[pos:pos + cut] = ins.encode("latin1")
            data = bytes(b)
        if k in ("bad", "bytes", "random", "mutate"):
            good = compiles(data, "x")
            if good:
                # still valid: only the class is known, and it is better not run
                src = data
                verdict[m["name"]] = "SourceModule"
            else:
                verdict[m["name"]] = "InvalidModule"
                if parses(data):
                    # does not get past the compiler, its imports may be used all the same
                    verdict["half"] = True
                src = data if hostile else b""
        elif k == "exc":
            line = f"if bool({int(hostile)}): {EXC[v[0]]}\n".encode()
            src = line + src if v[1] == "start" else src + line
            verdict[m["name"]] = "SourceModule"
        elif k == "pyc":
            verdict[m["name"]] = "InvalidModule"
            src, rel = (bad_pyc(*v) if hostile else good_pyc()), rel + "c"
        elif k == "cached":
            verdict[m["name"]] = "SourceModule"
            if hostile:
                d, f = os.path.split(rel)
                P.write_file(os.path.join(base, d, "__pycache__", f[:-3] + ".cpython-312.pyc"),
                             good_pyc("import gc") if v[0] == "stale" else bad_pyc(*v))
        elif k == "unreadable":
            verdict[m["name"]] = "InvalidModule"
            if not hostile:
                src = b""
        elif k == "zip":
            # a module (or package init) in a damaged zip file
            verdict[m["name"]] = None
            path = os.path.join(base, f"z{len(zips)}.zip")
            text = b"x = 1\n" * 50
            with zipfile.ZipFile(path, "w", zipfile.ZIP_DEFLATED) as zf:
                if m["kind"] == "pkg":
                    zf.writestr(m["name"] + "/", b"")
                zf.writestr(rel, text)
                info = zf.getinfo(rel)
            if hostile:
                raw = bytearray(open(path, "rb").read())
                at = info.header_offset + 30 + len(rel)
                if v == "deflate":
                    raw[at:at + 6] = b"\xff" * 6
                elif v == "offset":
                    raw[info.header_offset:info.header_offset + 4] = b"XXXX"
                elif v == "cut":
                    # as large as before: the central directory is found, the data is zeroed
                    raw[at:at + info.compress_size] = b"\0" * info.compress_size
                open(path, "wb").write(raw)
            zips.append(path)
            continue
        P.write_file(os.path.join(base, rel), src)
        if k == "unreadable" and hostile:
            os.chmod(os.path.join(base, rel), 0)
    for s in case["scripts"]:
        P.write_file(os.path.join(base, s["name"]), r.source(s["body"]))
    return [base] + zips, verdict


def build(ctx, case, base, hostile):
    from ..core import Violation
    try:
        paths, verdict = write(case, base, hostile)
        sys.pycache_prefix = None
        sys.dont_write_bytecode = True
        if any(k == "unreadable" for k, _ in case["bad"].values()):
            drop_caps()
        sut.use_path(*paths)
        mg = sut.build(ctx, case, base)
        dump = M.Dump(mg, base)
        nodes = {i: [dump.cls[i], type(getattr(dump.nodes[i], "init_module", None)).__name__, dump.nodes[i].init_module.code is not None if dump.cls[i] == "Package" else
                     getattr(dump.nodes[i], "code", None) is not None] for i in dump.reachable}
        edges = {i: {t: sorted([list(d) for d in ds], key=repr) for t, ds in dump.out(i).items()} for i in dump.reachable}
        return {"nodes": nodes, "edges": edges, "verdict": verdict}
    except Violation as exc:
        return {"violation": [exc.sig, exc.msg]}


def run(case, ctx):
    one = sut.fork_call(build, ctx, case, os.path.join(ctx.dir, "one"), True)
    two = sut.fork_call(build, ctx, case, os.path.join(ctx.dir, "two"), False)
    for r, what in ((one, "hostile"), (two, "harmless")):
        if "violation" in r:
            ctx.fail(r["violation"][0], f"with the {what} project: {r['violation'][1]}")
    verdict = one["verdict"]
    half = verdict.pop("half", False) or any(one["nodes"].get(n, [0])[0] == "MissingModule" for n, v in verdict.items() if v is None)
    seen = [n for n in case["bad"] if n in one["nodes"]]
    ctx.nontrivial(bool(seen))
    for n in seen:
        ctx.label("met:" + case["bad"][n][0])
    # what still compiles may be run, and leave anything behind
    wild = any(verdict.get(n) == "SourceModule" and case["bad"][n][0] in ("bad", "bytes", "random", "mutate") for n in case["bad"])
    if wild:
        ctx.label("valid after all")
    kinds = {m["name"]: m["kind"] for m in case["mods"]}
    ctx.check(half or set(one["nodes"]) == set(two["nodes"]), "nodes", lambda: f"only with the harmless module: {sorted(set(two['nodes']) - set(one['nodes']))}; only with the hostile: {sorted(set(one['nodes']) - set(two['nodes']))}")
    for i in one["nodes"]:
        a, b = one["nodes"][i], two["nodes"].get(i)
        v = verdict.get(i)
        if i in verdict:
            if v is None:
                # a damaged zip file, the module may not be found at all
                if a[0] == "MissingModule":
                    continue
                v = "InvalidModule"
            if kinds[i] == "pkg":
                want = ["Package", v, v != "InvalidModule"]
            else:
                want = [v, "NoneType", v != "InvalidModule"]
            ctx.check(a == want, "class", lambda: f"{i} ({case['bad'][i]}): (class, class of init, has code) is {a}, expected {want}")
        elif b is not None:
            ctx.check(a == b, "class", lambda: f"{i}: {a}, with harmless modules {b}")
        ctx.check(half or one["edges"][i] == two["edges"][i], "edges", lambda: f"{i}: edges {one['edges'][i]}, with harmless modules {two['edges'][i]}")
