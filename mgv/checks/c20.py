"""C20: installed distributions are read completely and correctly."""
import csv
import importlib.machinery
import io
import os
import pathlib
import sys
import zipfile

from .. import project as P, sut

try:
    from hypothesis import strategies as st
except ImportError:
    st = None

SO = ".cpython-312-x86_64-linux-gnu.so"
FIXED = ["ma.py", "mb.pyc", "mc" + SO, "md.abi3.so", "me.so", "pa/__init__.py", "pa/sa.py", "pa/qa/__init__" + SO, "pa/qa/sb.py", "pb/__init__.pyc",
         "nsa/sa.py", "nsa/qa/sa.abi3.so", "pa/__main__.py", "é/__init__.py", "pa/ü.py", "class.py", "_c__mypyc" + SO, "pa/class/sa.py",
         "my__init__.py", "pa/x__init__" + SO, "my__pycache__/sa.py", "x__pycache__/__init__.pyc", "pa/__init__x.py", "pa/__pycache__x/sa.py", "__init____init__.py",
         "py.py", "pa/so.so", "pa/py/__init__.py", "_" + SO, "pa/_/_.py"]
OTHER = ["pa/__pycache__/sa.cpython-312.pyc", "__pycache__/ma.cpython-312.pyc", "pa/data.txt", "pa/data", "../../../bin/tool", "../../../bin/tool.py", "/opt/x/abs.py",
         "pa/sa.pyi", "pa/sa.py.txt", "me.cpython-311-x86_64-linux-gnu.so", "ma.zz.py", "pa.data/sa.py", "scripts-1.0/x y.txt", "a,b/c,d.txt", 'q"uote/x".txt',
         "pa/, .txt", "\u00a0.txt", " lead.txt", "trail .txt", "pa/.hidden.py", ".py", "pa/.py", "pa/__pycache__/x.py", "pa/sa.pyo", "pa/x.PY", "x.pyw", "../other/ma.py",
         "pa/sub/../up.txt", "pa/q,uote.txt", '"', '""', 'x"', "pa/__init__.pyi", "pa/\u2028.txt", "pa/\x0c.txt", "pa/\x1c.txt", "pa/#.txt"]
LETTERS = 'ab_1é -,".'
VERSIONS = ["1.0", "0", "2.3.4rc1", "1!2.0", "1.0+local.1", "1.0.post1", "2024.1"]
DISTS = ["dista", "distb", "Dist-C", "dist.d", "dist_e"]


@st.composite
def strategy_(draw):
    g = P.Gen(draw)

    def file():
        k = g.weighted([("fixed", 8), ("other", 5), ("made", 3)])
        if k == "fixed":
            return g.pick(FIXED)
        if k == "other":
            return g.pick(OTHER)
        parts = ["".join(g.pick(LETTERS) for _ in range(g.int(1, 3))) for _ in range(g.int(1, 3))]
        return "/".join(p if p.strip(". ") else "x" for p in parts) + g.pick(["", ".py", ".txt", ".pyc", SO, ".so", ".abi3.so"])

    def dist():
        name = g.pick(DISTS)
        return {"name": name, "version": g.pick(VERSIONS), "dir": g.pick(["plain", "plain", "other", "odd"]),
                "files": [file() for _ in range(g.weighted([(0, 1), (2, 4), (5, 4), (12, 2)]))],
                "style": g.pick(["csv", "csv", "crlf", "raw", "quoteall", "noeol"]),
                "meta": g.pick(["plain", "order", "case", "body", "utf8", "crlf", "bare", "folded", "twice"]),
                "broken": g.weighted([(None, 12), ("nometa", 1), ("norecord", 1), ("noname", 1), ("noversion", 1), ("badutf8", 1), ("file", 1), ("emptymeta", 1), ("metadir", 1), ("binmeta", 1), ("dangling", 1)])}

    entries = []
    for _ in range(g.int(1, 4)):
        k = g.weighted([("dir", 12), ("slash", 2), ("dotdot", 2), ("relative", 2), ("symlink", 2), ("missing", 1), ("file", 1), ("zip", 1), ("cwd", 1), ("again", 1)])
        entries.append({"kind": k, "dists": [dist() for _ in range(g.weighted([(0, 2), (1, 6), (2, 4), (4, 1)]))], "junk": g.chance(30)})
    return {"entries": entries, "path": g.chance(50)}


def strategy():
    return strategy_()


def record(files, style):
    out = io.StringIO()
    if style == "raw":
        # wheel used to write such files
        out.write("".join(f"{f},sha256=abc_-,{len(f)}\n" for f in files))
    else:
        w = csv.writer(out, lineterminator="\r\n" if style == "crlf" else "\n", quoting=csv.QUOTE_ALL if style == "quoteall" else csv.QUOTE_MINIMAL)
        for i, f in enumerate(files):
            w.writerow([f, "sha256=abc" if i % 3 else "", "1" if i % 3 else ""])
    text = out.getvalue()
    return text.rstrip("\n") if style == "noeol" else text


def metadata(d):
    n, v = d["name"], d["version"]
    k = d["meta"]
    head = {"plain": f"Metadata-Version: 2.1\nName: {n}\nVersion: {v}\n",
            "order": f"Version: {v}\nLicense: MIT\nMetadata-Version: 2.1\nName: {n}\n",
            "case": f"metadata-version: 2.1\nNAME: {n}\nversion: {v}\n",
            "body": f"Metadata-Version: 2.1\nName: {n}\nVersion: {v}\n\nName: wrong\nVersion: 99\n",
            "utf8": f"Metadata-Version: 2.1\nAuthor: J\u00fcrgen\nName: {n}\nVersion: {v}\nSummary: \u20ac\n",
            "crlf": f"Metadata-Version: 2.1\r\nName: {n}\r\nVersion: {v}\r\n",
            "bare": f"Name: {n}\nVersion: {v}",
            "folded": f"Metadata-Version: 2.1\nDescription: a\n        Name: wrong\n        Version: 99\nName: {n}\nVersion: {v}\n",
            "twice": f"Metadata-Version: 2.1\nName: {n}\nVersion: {v}\nRequires-Dist: other\nRequires-Dist: name\nClassifier: Name :: x\n"}[k]
    return head


def write(root, no, d, shown=None):
    """Returns the expected distribution or None; *shown* is the directory as it is on the path."""
    shown = shown or root
    base = {"plain": f"{d['name']}-{d['version']}", "other": f"d{no}", "odd": f"x {no},y"}[d["dir"]]
    path = os.path.join(root, f"{base}.dist-info")
    if os.path.lexists(path):
        path = os.path.join(root, f"{base}-{no}.dist-info")
    b = d["broken"]
    if b == "file":
        P.write_file(path, "x")
        return None
    if b == "dangling":
        os.symlink("/nonexistent", path)
        return None
    os.makedirs(path)
    files = [f for f in d["files"] if not (d["style"] == "raw" and f.startswith('"') and f.endswith('"'))]
    rel = os.path.basename(path)
    files = files + [rel + "/METADATA", rel + "/RECORD"]
    meta = metadata(d)
    if b == "noname":
        meta = "\n".join(ln for ln in meta.splitlines() if not ln.lower().startswith("name:")) + "\n"
    elif b == "noversion":
        meta = "\n".join(ln for ln in meta.splitlines() if not ln.lower().startswith("version:")) + "\n"
    elif b == "emptymeta":
        meta = ""
    elif b == "binmeta":
        meta = "\0\1\2"
    if b == "metadir":
        os.mkdir(os.path.join(path, "METADATA"))
    elif b != "nometa":
        P.write_file(os.path.join(path, "METADATA"), meta.encode())
    rec = record(files, d["style"]).encode()
    if b == "badutf8":
        rec = b"ma.py,,\n\xff\xfe.py,,\n"
    if b != "norecord":
        P.write_file(os.path.join(path, "RECORD"), rec)
    if b:
        return None
    return {"name": d["name"], "version": d["version"], "files": sorted({os.path.normpath(os.path.join(shown, f)) for f in files}), "imports": sorted(imports(files)), "path": path}


def imports(files):
    """Names of the modules and packages among the files."""
    out = set()
    for f in files:
        parts = f.split("/")
        for suffix in importlib.machinery.all_suffixes():
            stem = parts[-1][:-len(suffix)]
            if parts[-1].endswith(suffix) and "." not in stem and stem:
                break
        else:
            continue
        names = parts[:-1] + [stem]
        if len(names) > 1 and stem == "__init__":
            names.pop()
        if any(not n or "." in n for n in names) or "__pycache__" in names:
            continue
        out.add(".".join(names))
    return out


def run(case, ctx):
    import modulegraph2
    path, want = [], []         # want: list of lists, one per entry
    roots = []
    for i, e in enumerate(case["entries"]):
        root = os.path.join(ctx.dir, f"p{i}")
        k = e["kind"]
        ctx.label("entry:" + k)
        if k == "missing":
            path.append(root)
            want.append([])
            continue
        if k == "file":
            P.write_file(root, "x")
            path.append(root)
            want.append([])
            continue
        if k == "zip":
            with zipfile.ZipFile(root, "w") as z:
                z.writestr("zz-1.0.dist-info/METADATA", "Name: zz\nVersion: 1\n")
                z.writestr("zz-1.0.dist-info/RECORD", "")
            path.append(root)
            want.append([])
            continue
        if k == "again" and path:
            path.append(path[0])
            want.append([])
            continue
        if k == "cwd":
            root = os.path.join(ctx.dir, "cwd")
        os.makedirs(root, exist_ok=True)
        shown = root
        if k == "symlink":
            shown = os.path.join(ctx.dir, f"link{i}")
            os.symlink(root, shown)
        mine = [write(root, f"{i}{j}", d, shown) for j, d in enumerate(e["dists"])]
        for d in e["dists"]:
            if d["broken"]:
                ctx.label("broken:" + d["broken"])
        if e["junk"]:
            P.write_file(os.path.join(root, "zz-1.0.egg-info", "PKG-INFO"), "Name: zz\nVersion: 1\n")
            os.makedirs(os.path.join(root, "zz.dist-info.txt"))
            os.makedirs(os.path.join(root, ".dist-info"), exist_ok=True)
            os.makedirs(os.path.join(os.fsencode(root), b"\xff.dist-info"), exist_ok=True)
        if k == "slash":
            shown = root + "/"
        elif k == "dotdot":
            os.makedirs(os.path.join(ctx.dir, "up"), exist_ok=True)
            shown = os.path.join(ctx.dir, "up", "..", f"p{i}")
        elif k == "relative":
            shown = os.path.relpath(root, ctx.dir)
        elif k == "cwd":
            shown = ""
        path.append(shown)
        want.append([m for m in mine if m])
    if any(e["kind"] == "cwd" for e in case["entries"]):
        os.makedirs(os.path.join(ctx.dir, "cwd"), exist_ok=True)
        os.chdir(os.path.join(ctx.dir, "cwd"))
        path = [os.path.relpath(os.path.join(ctx.dir, p)) if p and not p.startswith("/") else p for p in path]
        # several entries can be the same directory
        first = True
        total = []
        for i, p in enumerate(path):
            if p == "":
                total += want[i]
                if not first:
                    want[i] = []
                first = False
        for i, p in enumerate(path):
            if p == "":
                want[i] = total
                break
    argument = path if case["path"] else None
    if argument is None:
        sut.use_path(*path)
    everything = ctx.sut("all_distributions", lambda: list(modulegraph2.all_distributions(argument)))
    flat = [m for w in want for m in w]
    check_list(ctx, everything, want, path, case["path"])
    ctx.nontrivial(len(flat) >= 1 and sum(len(m["imports"]) for m in flat) >= 2)
    ctx.label("distributions", len(flat))

    # by name: the first one on the path
    for name in [*DISTS, "nodist", "", "zz", "DISTA"]:
        got = ctx.sut(f"distribution_named({name!r})", modulegraph2.distribution_named, name, argument)
        entry = next((w for w in want if any(m["name"] == name for m in w)), None)
        if entry is None:
            if got is not None and argument is None and not got.identifier.startswith(ctx.dir):
                continue
            ctx.check(got is None, "named", lambda: f"distribution_named({name!r}) returned {got!r}")
        else:
            ctx.check(got is not None, "named", lambda: f"distribution_named({name!r}) returned None")
            ctx.check(any(same(got, m) for m in entry if m["name"] == name), "named", lambda: f"distribution_named({name!r}) returned {shown_dist(got)}, the first one on the path is {entry}")

    # by file
    from modulegraph2 import _distributions
    for_file = getattr(_distributions, "distribution_for_file", None)
    names = sorted({f for m in flat for f in m["files"]})[:12] + [os.path.join(ctx.dir, "p0", "nofile.py"), os.path.join(ctx.dir, "p0", "pa")]
    for f in names:
        owners = next((o for o in ([m for m in w if f in m["files"]] for w in want) if o), [])
        for dist in everything:
            mine = next((m for m in flat if same(dist, m)), None)
            if mine:
                for arg in (f, pathlib.Path(f)):
                    ctx.check(ctx.sut("contains_file", dist.contains_file, arg) == (f in mine["files"]), "contains-file", lambda: f"{dist.name}.contains_file({arg!r}) is {f not in mine['files']}")
        if for_file is not None:
            got = ctx.sut("distribution_for_file", for_file, f, path)
            ctx.check(any(same(got, m) for m in owners) if owners else got is None, "for-file", lambda: f"distribution_for_file({f!r}) is {shown_dist(got)}, expected one of {owners}")


def same(dist, m):
    return dist is not None and (dist.name, dist.version, sorted(dist.files), sorted(dist.import_names)) == (m["name"], m["version"], m["files"], m["imports"])


def shown_dist(d):
    return None if d is None else {"name": d.name, "version": d.version, "files": sorted(d.files), "imports": sorted(d.import_names)}


def check_list(ctx, got, want, path, explicit):
    flat = [m for w in want for m in w]
    mine = [d for d in got if explicit or any(d.name == n for n in DISTS)]
    # every distribution is what its files say
    pos = []
    for d in mine:
        i = next((i for i, w in enumerate(want) for m in w if same(d, m)), None)
        if i is None:
            near = [m for m in flat if m["name"] == d.name] or flat
            ctx.fail("content", f"distribution {d.identifier}: {shown_dist(d)}, expected one of {near}")
        pos.append(i)
        ctx.check(isinstance(d.extension_attributes, dict), "attributes", lambda: f"{d!r}")
    for w in want:
        for m in w:
            ctx.check(any(same(d, m) for d in mine), "lost", lambda: f"distribution {m['path']} was not found; found {[d.identifier for d in mine]}")
    # path order (an entry can be listed twice)
    firsts = []
    for p in pos:
        if p not in firsts:
            firsts.append(p)
    ctx.check(firsts == sorted(firsts), "order", lambda: f"distributions are not in path order: {[d.identifier for d in mine]}, path {path}")
    idents = {}
    for d in mine:
        ctx.check(idents.setdefault(d.identifier, d) is d, "identifier", lambda: f"identifier {d.identifier!r} is not unique")
