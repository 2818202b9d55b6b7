"""Generated projects: JSON-able descriptions of sets of Python modules, their rendering to
files, and Hypothesis strategies that construct them.

A project is {"mods": [{"name", "kind", "body"}...], "scripts": [{"name", "body"}...]}.
Module kinds: mod (plain module), pkg (package with __init__), ns (implicit namespace
package), ext (extension module file).  Bodies are lists of statements:

  ["imp", [[dotted, asname|None], ...]]
  ["frm", level, module, [[name, asname|None], ...]]
  ["star", level, module]
  ["set", name]                    name = 1
  ["read", name]                   lambda: name
  ["glob", name]                   (inside a function) global name; name = 1
  ["def", name, body] ["adef", name, body] ["cls", name, body]
  ["if", truth, body, elifbody|None, elsebody|None]
  ["try", body, handlerbody, elsebody|None, finalbody|None]
  ["tstar", body, handlerbody, elsebody|None, finalbody|None]
  ["for"|"while"|"with"|"match"|"felse"|"welse"|"afor"|"awith"|"match2"|"withs", body]
"""
import os

try:
    from hypothesis import strategies as st
except ImportError:  # pragma: no cover - only the orchestrator imports without hypothesis
    st = None

EXT = ".cpython-312-x86_64-linux-gnu.so"


# ------------------------------------------------------------------ rendering

def _alias(n, a):
    return n if a is None else f"{n} as {a}"


class Render:
    def __init__(self, call=False, guard=False):
        self.call = call
        self.guard = guard

    def block(self, body, ind):
        pad = "    " * ind
        if not body:
            return [pad + "pass"]
        out = []
        for s in body:
            out += self.stmt(s, ind)
        return out

    def stmt(self, s, ind):
        if self.guard and s[0] in ("imp", "frm", "star"):
            pad = "    " * ind
            return [pad + "try:"] + self._stmt(s, ind + 1) + [pad + "except Exception: pass"]
        return self._stmt(s, ind)

    def _stmt(self, s, ind):
        pad = "    " * ind
        k = s[0]
        if k == "imp":
            return [pad + "import " + ", ".join(_alias(n, a) for n, a in s[1])]
        if k == "frm":
            return [pad + f"from {'.' * s[1]}{s[2]} import " + ", ".join(_alias(n, a) for n, a in s[3])]
        if k == "star":
            return [pad + f"from {'.' * s[1]}{s[2]} import *"]
        if k == "set":
            return [pad + f"{s[1]} = 1"]
        if k == "read":
            return [pad + f"(lambda: {s[1]})"]
        if k == "glob":
            return [pad + f"global {s[1]}", pad + f"{s[1]} = 1"]
        if k in ("def", "adef"):
            out = [pad + ("async " if k == "adef" else "") + f"def {s[1]}{'[T]' if s[1] == 'fg' else ''}():"] + self.block(s[2], ind + 1)
            if self.call:
                # the name may be rebound by nested statements, calling it must not matter
                call = f"{s[1]}()" if k == "def" else f"{s[1]}().send(None)"
                out += [pad + "try:", pad + "    " + call, pad + "except (StopIteration, TypeError, AttributeError): pass"]
            return out
        if k == "cls":
            return [pad + f"class {s[1]}{'[T]' if s[1] == 'Cg' else ''}:"] + self.block(s[2], ind + 1)
        if k == "if":
            out = [pad + f"if bool({int(bool(s[1]))}):"] + self.block(s[2], ind + 1)
            if s[3] is not None:
                out += [pad + "elif bool(1):"] + self.block(s[3], ind + 1)
            if s[4] is not None:
                out += [pad + "else:"] + self.block(s[4], ind + 1)
            return out
        if k in ("try", "tstar"):
            out = [pad + "try:"] + self.block(s[1], ind + 1)
            if s[2] is not None:
                out += [pad + ("except Exception:" if k == "try" else "except* Exception:")] + self.block(s[2], ind + 1)
                if s[3] is not None:
                    out += [pad + "else:"] + self.block(s[3], ind + 1)
            if s[4] is not None or s[2] is None:
                out += [pad + "finally:"] + self.block(s[4] or [], ind + 1)
            return out
        if k == "for":
            return [pad + "for _i in (1,):"] + self.block(s[1], ind + 1)
        if k == "while":
            return [pad + "while bool(1):"] + self.block(s[1], ind + 1) + [pad + "    break"]
        if k == "with":
            return [pad + "with memoryview(b''):"] + self.block(s[1], ind + 1)
        if k == "match":
            return [pad + "match 1:", pad + "    case 1:"] + self.block(s[1], ind + 2)
        if k == "match2":
            return [pad + "match [1, {}]:", pad + "    case 1: pass", pad + "    case [_, {'a': 1}] if len: pass",
                    pad + "    case _:"] + self.block(s[1], ind + 2)
        if k == "felse":
            return [pad + "for _i in ():", pad + "    pass", pad + "else:"] + self.block(s[1], ind + 1)
        if k == "welse":
            return [pad + "while bool(0):", pad + "    pass", pad + "else:"] + self.block(s[1], ind + 1)
        if k == "withs":
            return [pad + "with (memoryview(b''), memoryview(b'')):"] + self.block(s[1], ind + 1)
        if k == "afor":
            return [pad + "async for _i in _i:"] + self.block(s[1], ind + 1)
        if k == "awith":
            return [pad + "async with _i:"] + self.block(s[1], ind + 1)
        raise AssertionError(s)

    def source(self, body, mark=None):
        lines = []
        if mark:
            lines += mark
        lines += self.block(body, 0)
        return "\n".join(lines) + "\n"


PLAIN = ("for", "while", "with", "match", "felse", "welse", "withs", "match2", "afor", "awith")


def substatements(s):
    """The nested bodies of a statement, as (role, body)."""
    k = s[0]
    if k in ("def", "adef", "cls"):
        return [(k, s[2])]
    if k == "if":
        return [("if", b) for b in s[2:5] if b is not None]
    if k in ("try", "tstar"):
        return [("try", b) for b in s[1:4] if b is not None] + ([("final", s[4])] if s[4] is not None else [])
    if k in PLAIN:
        return [("plain", s[1])]
    return []


def walk(body, roles=()):
    for s in body:
        yield s, roles
        for role, sub in substatements(s):
            yield from walk(sub, roles + (role,))


def module_path(mod, kinds):
    """Relative path of the file of a module (None for namespace packages)."""
    rel = mod["name"].replace(".", "/")
    if mod["kind"] == "pkg":
        return rel + "/__init__.py"
    if mod["kind"] == "mod":
        return rel + ".py"
    if mod["kind"] == "ext":
        return rel + EXT
    return None


def write_file(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if isinstance(data, str):
        data = data.encode("utf-8")
    with open(path, "wb") as fp:
        fp.write(data)


def write_project(project, root, call=False, guard=False, mark=None):
    """Write the files below *root*; returns {relative path: source}."""
    r = Render(call=call, guard=guard)
    files = {}
    for m in project["mods"]:
        rel = module_path(m, None)
        if rel is None:
            os.makedirs(os.path.join(root, m["name"].replace(".", "/")), exist_ok=True)
            continue
        src = b"" if m["kind"] == "ext" else r.source(m.get("body") or [], mark(m["name"]) if mark else None)
        if m.get("tail"):
            src += m["tail"] + "\n" if isinstance(src, str) else m["tail"].encode() + b"\n"
        files[rel] = src
        write_file(os.path.join(root, rel), src)
    for s in project.get("scripts", []):
        src = r.source(s["body"], mark(s["name"]) if mark else None)
        files[s["name"]] = src
        write_file(os.path.join(root, s["name"]), src)
    return files


# ------------------------------------------------------------------ generation

NAMESPACE = [
    "__path__ = __import__('pkgutil').extend_path(__path__, __name__)",
    "x1 = __import__('gc') and 'pkg_resources'",
    "x1 = lambda: __import__('pkg_resources').declare_namespace(__name__)",
    "from pkgutil import extend_path\n__path__ = extend_path(__path__, __name__)",
    "x1 = (__import__, 'pkgutil')",
    "x1 = 'pkgutil'",
]


def namespace_inits(g, p, pct=20):
    """Let some packages declare that they are a namespace package (without importing anything)."""
    for m in p["mods"]:
        if m["kind"] == "pkg" and g.chance(pct):
            m["tail"] = g.pick(NAMESPACE)


TOP = ["mda", "pka", "mdb", "pkb", "mdc", "pkc", "mdd"]
SUBS = ["sa", "sb", "sc"]
SUBP = ["qa", "qb"]
VARS = ["va", "vb"]
LEAFS = ["errno", "gc"]
KIND_OF = {"m": "mod", "p": "pkg"}


class Gen:
    """Draw helper: every random choice goes through Hypothesis, simplest choice first."""

    def __init__(self, draw):
        self.draw = draw

    def int(self, a, b):
        return self.draw(st.integers(a, b))

    def pick(self, seq):
        return seq[self.draw(st.integers(0, len(seq) - 1))]

    def shuffle(self, seq):
        rest, out = list(seq), []
        while rest:
            out.append(rest.pop(self.int(0, len(rest) - 1)))
        return out

    def chance(self, pct):
        # shrinks towards False
        return self.draw(st.integers(0, 99)) >= 100 - pct

    def weighted(self, pairs):
        total = sum(w for _, w in pairs)
        n = self.draw(st.integers(0, total - 1))
        for v, w in pairs:
            if n < w:
                return v
            n -= w
        raise AssertionError


class ProjectGen(Gen):
    def __init__(self, draw, *, max_top=4, max_stmts=4, ns=True, ext=True, scripts=1, star=True,
                 nest=2, missing=True, relative=True, reexport=True, invalid_relative=True, aliases=True,
                 tstar=True, leafs=True, max_sub=3, async_stmts=False, weights=None, deep=6):
        super().__init__(draw)
        self.o = dict(max_top=max_top, max_stmts=max_stmts, ns=ns, ext=ext, scripts=scripts, star=star, nest=nest,
                      missing=missing, relative=relative, reexport=reexport, invalid_relative=invalid_relative,
                      aliases=aliases, tstar=tstar, leafs=leafs, max_sub=max_sub, async_stmts=async_stmts)
        self.weights = weights or {}
        self.mods = []
        # a few projects are a chain of packages instead of a bush
        self.deep = self.int(3, 7) if self.chance(deep) else 0

    # -- layout
    def layout(self):
        n = self.int(1, self.o["max_top"])
        names = TOP[:]
        for _ in range(n):
            nm = self.pick(names)
            names.remove(nm)
            self.subtree(nm, 0, nm.startswith("p"))
        return self.mods

    def subtree(self, name, depth, is_pkg):
        if not is_pkg:
            kind = "ext" if (self.o["ext"] and self.chance(7)) else "mod"
            self.mods.append({"name": name, "kind": kind})
            return
        kind = "ns" if (self.o["ns"] and self.chance(18)) else "pkg"
        me = {"name": name, "kind": kind}
        self.mods.append(me)
        count = self.int(1 if kind == "ns" else 0, self.o["max_sub"])
        pool = SUBS + (SUBP if depth < 2 else [])
        if depth < self.deep:
            nm = self.pick(SUBP)
            pool = [x for x in SUBS + SUBP if x != nm] if depth == 0 else SUBS
            count = self.int(0, 1)
            self.subtree(f"{name}.{nm}", depth + 1, True)
        for _ in range(count):
            if not pool:
                break
            nm = self.pick(pool)
            pool = [p for p in pool if p != nm]
            self.subtree(f"{name}.{nm}", depth + 1, nm in SUBP)

    # -- statements
    def abs_name(self):
        names = [m["name"] for m in self.mods]
        w = [("mod", 70)]
        if self.o["leafs"]:
            w.append(("leaf", 8))
        if self.o["missing"]:
            w += [("missing", 8), ("missing_sub", 10), ("missing_deep", 4)]
        k = self.weighted(w)
        if k == "mod":
            return self.pick(names)
        if k == "leaf":
            return self.pick(LEAFS)
        if k == "missing":
            return self.pick(["zza", "zzb"])
        if k == "missing_sub":
            return self.pick(names) + "." + self.pick(["zz", "sa", "va"])
        return self.pick(names) + ".zz." + self.pick(["yy", "sa"])

    def rel_target(self, me):
        """(level, module) of a relative import from module *me*."""
        pkg = me["name"].split(".") if me["kind"] == "pkg" else me["name"].split(".")[:-1]
        if not pkg or (self.o["invalid_relative"] and self.chance(12)):
            if not self.o["invalid_relative"]:
                return None
            level = len(pkg) + self.int(1, 2)
            return level, self.pick(["", "sa", "mda", "qa.sa"])
        level = self.int(1, len(pkg))
        base = ".".join(pkg[: len(pkg) - level + 1])
        inside = [m["name"][len(base) + 1:] for m in self.mods if m["name"].startswith(base + ".")]
        opts = [""] + inside + (["zz", "sa.zz"] if self.o["missing"] else [])
        return level, self.pick(opts)

    def from_names(self, me, target):
        kids = [m["name"].rsplit(".", 1)[1] for m in self.mods if target and m["name"].rpartition(".")[0] == target]
        n = self.weighted([(1, 6), (2, 3), (3, 1)])
        out = []
        for _ in range(n):
            w = [("var", 3), ("sub", 2)]
            if kids:
                w.append(("kid", 7))
            if self.o["reexport"]:
                w.append(("top", 2))
            if self.o["missing"]:
                w.append(("zz", 1))
            k = self.weighted(w)
            nm = {"var": lambda: self.pick(VARS), "sub": lambda: self.pick(SUBS + SUBP),
                  "kid": lambda: self.pick(kids), "zz": lambda: "zz",
                  "top": lambda: self.pick([m["name"].split(".")[0] for m in self.mods] + LEAFS[:1])}[k]()
            out.append([nm, self.asname()])
        seen, res = set(), []
        for x in out:
            if tuple(x) not in seen:
                seen.add(tuple(x))
                res.append(x)
        return res

    def asname(self):
        if self.o["aliases"] and self.chance(22):
            return self.pick(VARS + SUBS + ["xa", "xb"] + (["mda"] if self.o["reexport"] else []))
        return None

    def statement(self, me, depth, in_def, at_module):
        w = [("imp", 22), ("frm", 30)]
        if self.o["relative"]:
            w.append(("rel", 16))
        if at_module and self.o["star"]:
            w.append(("star", 7))
        w += [("set", 10), ("read", 2)]
        if in_def:
            w.append(("glob", 3))
        if depth < self.o["nest"]:
            w += [("def", 6), ("adef", 2), ("cls", 4), ("if", 5), ("try", 6), ("for", 2), ("while", 1), ("with", 2), ("match", 2),
                  ("felse", 1), ("welse", 1), ("withs", 1), ("match2", 1)]
            if in_def == "a" and self.o["async_stmts"]:
                w += [("afor", 4), ("awith", 4)]
        if self.weights:
            w = [(k, self.weights.get(k, n)) for k, n in w if self.weights.get(k, n)]
            if self.o["tstar"]:
                w.append(("tstar", 2))
        k = self.weighted(w)
        names = [m["name"] for m in self.mods]
        if k == "imp":
            n = self.weighted([(1, 8), (2, 2)])
            return ["imp", [[self.abs_name(), self.asname()] for _ in range(n)]]
        if k == "frm":
            t = self.abs_name()
            return ["frm", 0, t, self.from_names(me, t)]
        if k == "rel":
            r = self.rel_target(me)
            if r is None:
                return ["set", self.pick(VARS)]
            pkg = me["name"].split(".") if me["kind"] == "pkg" else me["name"].split(".")[:-1]
            base = ".".join(pkg[: len(pkg) - r[0] + 1]) if r[0] <= len(pkg) else ""
            t = (base + "." + r[1]).strip(".") if base else ""
            if at_module and self.o["star"] and self.chance(12):
                return ["star", r[0], r[1]]
            return ["frm", r[0], r[1], self.from_names(me, t)]
        if k == "star":
            return ["star", 0, self.abs_name()]
        if k == "set":
            return ["set", self.pick(VARS + SUBS + ["mda", "qa"])]
        if k == "read":
            return ["read", self.pick(VARS + ["__file__", "len"])]
        if k == "glob":
            return ["glob", self.pick(VARS + SUBS)]
        if k in ("def", "adef"):
            return [k, self.pick(["fa", "fb", "fg"] + VARS), self.body(me, depth + 1, "a" if k == "adef" else "d", False, 2)]
        if k == "cls":
            return ["cls", self.pick(["Ca", "Cb", "Cg"] + VARS), self.body(me, depth + 1, "d" if in_def else False, False, 2)]
        if k == "if":
            return ["if", self.chance(50), self.body(me, depth + 1, in_def, at_module, 2),
                    self.body(me, depth + 1, in_def, at_module, 1) if self.chance(30) else None,
                    self.body(me, depth + 1, in_def, at_module, 2) if self.chance(50) else None]
        if k in ("try", "tstar"):
            body = self.body(me, depth + 1, in_def, at_module, 2)
            handler = self.body(me, depth + 1, in_def, at_module, 2) if k == "tstar" or not self.chance(10) else None
            orelse = self.body(me, depth + 1, in_def, at_module, 1) if handler is not None and self.chance(30) else None
            final = self.body(me, depth + 1, in_def, at_module, 1) if handler is None or self.chance(30) else None
            return [k, body, handler, orelse, final]
        return [k, self.body(me, depth + 1, in_def, at_module, 2)]

    def body(self, me, depth, in_def, at_module, most):
        n = self.int(0 if depth == 0 else 1, most)
        out = []
        declared = set()
        for _ in range(n):
            s = self.statement(me, depth, in_def, at_module)
            out.append(s)
        return fix_globals(out) if depth == 0 else out

    def project(self):
        self.layout()
        for m in self.mods:
            if m["kind"] in ("mod", "pkg"):
                m["body"] = self.body(m, 0, False, True, self.o["max_stmts"])
        scripts = []
        for i in range(self.int(0, self.o["scripts"]) if self.o["scripts"] else 0):
            me = {"name": f"script{i}", "kind": "script"}
            scripts.append({"name": f"script{i}.py", "body": self.body(me, 0, False, True, self.o["max_stmts"])})
        return {"mods": self.mods, "scripts": scripts}

    def roots(self, project, extra=True):
        names = [m["name"] for m in project["mods"]]
        pool = [["m", n] for n in names] + [["s", s["name"]] for s in project["scripts"]]
        n = self.int(1, min(3, len(pool)))
        out = []
        for _ in range(n):
            r = self.pick(pool)
            if r not in out:
                out.append(r)
        if extra and self.chance(6):
            out.append(["m", self.pick(["zzr", names[0] + ".zz"])])
        return out


BIND = {"imp", "frm", "set", "def", "adef", "cls"}


def bound_names(s):
    k = s[0]
    if k == "imp":
        return {a or n.split(".")[0] for n, a in s[1]}
    if k == "frm":
        return {a or n for n, a in s[3]}
    if k in ("set", "def", "adef", "cls"):
        return {s[1]}
    if k in ("for", "felse", "afor"):
        return {"_i"}
    return set()


def fix_globals(body):
    """Turn 'global x' declarations that Python would reject (name used before, or bound in the
    same function) into plain assignments."""

    def scope(body, is_func):
        used = set()

        def visit(stmts):
            out = []
            for s in stmts:
                s = list(s)
                if s[0] == "glob":
                    if not is_func or s[1] in used:
                        s = ["set", s[1]]
                    used.add(s[1])
                elif s[0] == "read":
                    used.add(s[1])
                else:
                    used.update(bound_names(s))
                if s[0] in ("def", "adef", "cls"):
                    s[2] = scope(s[2], s[0] != "cls")
                elif s[0] == "if":
                    for i in (2, 3, 4):
                        if s[i] is not None:
                            s[i] = visit(s[i])
                elif s[0] in ("try", "tstar"):
                    # (the compiler looks at the else part before the handlers)
                    for i in (1, 3, 2, 4):
                        if s[i] is not None:
                            s[i] = visit(s[i])
                elif s[0] in PLAIN:
                    s[1] = visit(s[1])
                out.append(s)
            return out

        return visit(body)

    return scope(body, False)


def project_strategy(post=None, roots=True, extra_roots=True, gen=None, **opts):
    @st.composite
    def strat(draw):
        g = (gen or ProjectGen)(draw, **opts)
        p = g.project()
        if roots:
            p["roots"] = g.roots(p, extra=extra_roots)
        if post:
            post(g, p)
        return p

    return strat()
