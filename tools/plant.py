"""usage: tools/plant.py SPEC.py  -- SPEC defines BUGS: id -> dict(property, needs, breaks, edits, demo).

Writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo.py, meta.json). An edit is
(file, old text, new text); the old text must occur once."""
import json, os, runpy, shutil, subprocess, sys, tempfile

HEAD = '''"""Exits with status 0 when the property holds for this input."""
import os, sys, tempfile, shutil, atexit, pathlib
sys.dont_write_bytecode = True
ROOT = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, ROOT, True)


def write(**files):
    """write(a_b__init__="...") is too clever: use put() for paths."""
    for name, text in files.items():
        put(name + ".py", text)


def put(path, data):
    path = pathlib.Path(ROOT, path)
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_bytes(data if isinstance(data, bytes) else data.encode())
    return str(path)


def expect(cond, *what):
    if not cond:
        print("FAILED:", *what)
        sys.exit(1)


def info(edges):
    """The attributes of the dependencies on a node."""
    return sorted((e.is_optional, e.is_global, e.in_fromlist, e.imported_as or "") for e in edges)


sys.path.insert(0, ROOT)
'''
for bid, b in runpy.run_path(sys.argv[1])["BUGS"].items():
    if len(sys.argv) > 2 and bid not in sys.argv[2:]:
        continue
    dst = f"/verif/seeded/{bid}"
    shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
    tmp = tempfile.mkdtemp(prefix="plantsrc.")
    subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
    for file, old, new in b["edits"]:
        p = f"{tmp}/r/modulegraph2/{file}"
        s = open(p).read()
        assert s.count(old) == 1, (bid, file, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", tmp + "/r", "diff"], capture_output=True, text=True).stdout
    open(dst + "/patch.diff", "w").write(diff)
    # the removed lines must be lines of the original repository
    base = {f: subprocess.run(["git", "-C", "/repo", "show", f"1d58fb0:modulegraph2/{f}"], capture_output=True, text=True).stdout.splitlines()
            for f in {e[0] for e in b["edits"]}}
    removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    orig = [l for l in removed if any(l in x for x in base.values()) and l.strip()]
    print(bid, f"{len(removed)} removed, {len(orig)} original", "" if orig and len(orig) == len([l for l in removed if l.strip()]) else "<<<<< CHECK: " + repr([l for l in removed if l not in orig]))
    open(dst + "/demo.py", "w").write(HEAD + b["demo"])
    open(dst + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(dst + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
    shutil.rmtree(tmp)
