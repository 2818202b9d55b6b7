"""Generated Python source with rich scoping, and an independent scope analysis on the AST."""
import ast

from .project import Gen

try:
    from hypothesis import strategies as st
except ImportError:
    st = None

NAMES = ["a", "b", "c", "len", "print", "__file__", "__import__", "__name__", "d"]
ITER = ["i", "j", "a", "d", "len"]


class CodeGen(Gen):
    """Every generated text compiles; code that the compiler would throw away is not generated."""

    def __init__(self, draw, star=True, tparams=True):
        super().__init__(draw)
        self.star = star
        self.tparams = tparams

    # -- expressions: returns text.  sc: dict(kind, walrus, iters)
    def expr(self, sc, depth=0):
        w = [("name", 50), ("const", 8)]
        if depth < 3:
            w += [("attr", 5), ("call", 8), ("bin", 6), ("sub", 3), ("tuple", 4), ("lambda", 7), ("comp", 9), ("ifexp", 3),
                  ("fstr", 4), ("compare", 3), ("bool", 3), ("star", 2), ("dict", 2), ("slice", 1)]
            if sc["walrus"]:
                w.append(("walrus", 4))
            if sc.get("yield"):
                w.append(("yield", 3))
            if sc.get("await"):
                w.append(("await", 3))
        k = self.weighted(w)
        e = lambda: self.expr(sc, depth + 1)  # noqa: E731
        if k == "name":
            return self.pick(NAMES + ["i"])
        if k == "const":
            return self.pick(["1", "'s'", "None", "(1, 2)", "...", "'a'"])
        if k == "attr":
            return f"{self.atom(sc, depth)}.{self.pick(NAMES)}"
        if k == "call":
            return f"{self.atom(sc, depth)}({e()}, {self.pick(NAMES)}={e()})"
        if k == "bin":
            return f"({e()} + {e()})"
        if k == "compare":
            return f"({e()} < {self.pick(NAMES)} in {e()})"
        if k == "bool":
            return f"({self.pick(NAMES)} and {e()} or not {self.pick(NAMES)})"
        if k == "sub":
            return f"{self.atom(sc, depth)}[{e()}]"
        if k == "slice":
            return f"{self.atom(sc, depth)}[{e()}:{e()}]"
        if k == "tuple":
            return f"[{e()}, {e()}]"
        if k == "star":
            return f"[*{self.pick(NAMES)}, {e()}]"
        if k == "dict":
            return "{%s: %s, **%s}" % (e(), e(), self.pick(NAMES))
        if k == "fstr":
            return "f'{%s}x{%s!r:>{%s}}'" % (self.pick(NAMES), self.pick(NAMES), self.pick(NAMES))
        if k == "ifexp":
            return f"({e()} if {self.pick(NAMES)} else {e()})"
        if k == "walrus":
            return f"({self.pick(['a', 'b', 'c', 'w'])} := {e()})"
        if k == "yield":
            return f"(yield {e()})"
        if k == "await":
            return f"(await {e()})"
        if k == "lambda":
            p = self.pick(["", "a", "a, b=%s" % e(), "*d, **c", "*, len=%s" % e()])
            inner = dict(kind="func", walrus=True)
            return f"(lambda {p}: {self.expr(inner, depth + 1)})"
        # comprehension
        inner = dict(sc, walrus=False, **{"yield": False})
        first = self.expr(dict(inner), depth + 1)
        it1 = self.pick(ITER)
        # a walrus in a comprehension binds in the containing function; not allowed in a class body
        elt_sc = dict(inner)
        cond = f" if {self.pick(NAMES)} < {self.expr(elt_sc, depth + 1)}" if self.chance(40) else ""
        second = f" for {self.pick(ITER)} in {self.expr(elt_sc, depth + 1)}" if self.chance(20) else ""
        elt = self.expr(elt_sc, depth + 1)
        if sc["walrus"] and sc["kind"] != "class" and self.chance(12):
            elt = f"(w := {elt})"
        form = self.pick(["[%s]", "{%s}", "list(%s)", "{1: %s}"])
        return form % f"{elt} for {it1} in {first}{cond}{second}"

    def atom(self, sc, depth):
        return self.pick(NAMES)

    def target(self, sc):
        return self.pick(["a", "b", "c", "d", "e", "a", "b", "__file__", "len"])

    # -- statements
    def block(self, sc, ind, depth, most):
        out = []
        for _ in range(self.int(1, most)):
            out += self.stmt(sc, ind, depth)
        return out

    def stmt(self, sc, ind, depth):
        pad = "    " * ind
        e = lambda: self.expr(sc)  # noqa: E731
        w = [("assign", 20), ("expr", 14), ("aug", 5), ("unpack", 4), ("imp", 6), ("from", 6), ("ann", 4), ("del", 2),
             ("attrset", 3), ("assert", 2)]
        if sc["kind"] == "module" and depth == 0 and self.star:
            w.append(("star", 2))
        if self.tparams:
            w.append(("type", 2))
        if depth < 4:
            w += [("def", 14), ("class", 12), ("if", 5), ("for", 5), ("while", 2), ("try", 5), ("with", 4), ("match", 4)]
        if sc["kind"] == "func":
            w.append(("return", 3))
        k = self.weighted(w)
        sub = lambda m=2: self.block(sc, ind + 1, depth + 1, m)  # noqa: E731
        if k == "assign":
            return [f"{pad}{self.target(sc)} = {e()}"]
        if k == "expr":
            return [f"{pad}{e()}" if self.chance(50) else f"{pad}({e()}).x"]
        if k == "aug":
            return [f"{pad}{self.target(sc)} += {e()}"]
        if k == "unpack":
            return [f"{pad}({self.target(sc)}, *{self.target(sc)}), z.q = {e()}"]
        if k == "attrset":
            return [f"{pad}{self.pick(NAMES)}.{self.pick(NAMES)} = {e()}"]
        if k == "assert":
            return [f"{pad}assert {self.pick(NAMES)}, {e()}"]
        if k == "imp":
            return [f"{pad}import {self.pick(['zza', 'zza.b', 'zza as b', 'zzb.c as d', 'len'])}"]
        if k == "from":
            return [f"{pad}from {self.pick(['zza', 'mdb', '.x'])} import {self.pick(['a', 'e as b', 'f', 'a as c, b'])}"]
        if k == "star":
            return [f"{pad}from {self.pick(['mdb', 'zza'])} import *"]
        if k == "ann":
            t = self.target(sc)
            if t in sc.get("declared", ()):
                return [f"{pad}{t} = {e()}"]
            if sc["kind"] == "func":
                return [f"{pad}{t}: int = {e()}"]
            if self.chance(30):
                return [f"{pad}{t}: {self.expr(dict(sc, walrus=False, **{'yield': False, 'await': False}))}"]
            return [f"{pad}{t}: {self.expr(dict(sc, walrus=False, **{'yield': False, 'await': False}))} = {e()}"]
        if k == "del":
            t = self.target(sc)
            return [f"{pad}{t} = 1", f"{pad}del {t}"]
        if k == "type":
            t = self.target(sc)
            p = self.pick(["", "[T]", "[T: %s]" % self.pick(NAMES), "[*a]"])
            plain = dict(kind="func", walrus=False)
            return [f"{pad}type {t}{p} = {self.expr(plain)}"]
        if k == "return":
            return [f"{pad}if {self.pick(NAMES)}: return {e() if not sc.get('agen') else ''}"]
        if k == "if":
            out = [f"{pad}if {self.cond(sc)}:"] + sub()
            if self.chance(30):
                out += [f"{pad}elif {self.cond(sc)}:"] + sub(1)
            if self.chance(40):
                out += [f"{pad}else:"] + sub()
            return out
        if k == "for":
            a = "async " if sc.get("await") and self.chance(30) else ""
            return [f"{pad}{a}for {self.target(sc)} in {e()}:"] + sub() + ([f"{pad}else:"] + sub(1) if self.chance(25) else [])
        if k == "while":
            return [f"{pad}while {self.cond(sc)}:"] + sub()
        if k == "with":
            a = "async " if sc.get("await") and self.chance(30) else ""
            return [f"{pad}{a}with {e()} as {self.target(sc)}, {self.pick(NAMES)}:"] + sub()
        if k == "try":
            star = "*" if self.chance(20) else ""
            out = [f"{pad}try:"] + sub()
            if star or not self.chance(20):
                as_ = f" as {self.target(sc)}" if self.chance(50) else ""
                sub_sc = dict(sc)
                out += [f"{pad}except{star} {self.pick(['Exception', 'a', 'len'])}{as_}:"]
                if star:
                    out += [f"{pad}    {self.target(sc)} = {e()}"]
                else:
                    out += self.block(sub_sc, ind + 1, depth + 1, 2)
                if self.chance(25):
                    out += [f"{pad}else:"] + sub(1)
                if self.chance(25):
                    out += [f"{pad}finally:"] + sub(1)
            else:
                out += [f"{pad}finally:"] + sub(1)
            return out
        if k == "match":
            pat = self.pick(["[a, *b]", "{'k': c, **d}", "len() as e", "a.x", "str(x=b) | str(b)", "1 | 2"])
            return [f"{pad}match {self.pick(NAMES)}:", f"{pad}    case {pat} if {self.pick(NAMES)}:"] + self.block(sc, ind + 2, depth + 1, 1) + [
                f"{pad}    case _:", f"{pad}        pass"]
        if k == "def":
            return self.func(sc, ind, depth)
        if k == "class":
            return self.cls(sc, ind, depth)
        raise AssertionError(k)

    def cond(self, sc):
        return f"{self.pick(NAMES)} < {self.expr(sc, 2)}" if self.chance(40) else self.pick(NAMES)

    def tp(self):
        return self.pick(["[T]", "[T, *a]", "[d: %s]" % self.pick(NAMES), "[T: (%s, b)]" % self.pick(NAMES)]) if self.tparams and self.chance(10) else ""

    def func(self, sc, ind, depth):
        pad = "    " * ind
        name = self.pick(["fa", "fb", "a", "b", "__file__"])
        async_ = self.chance(20)
        params = self.pick([[], ["a"], ["b", "c"], ["e"], ["len"]])
        sig = []
        ann_sc = dict(kind="func", walrus=False)
        for p in params:
            s = p
            if self.chance(25):
                s += ": " + self.expr(dict(ann_sc), 2)
            sig.append(s)
        if self.chance(25):
            sig.append("*, k=" + self.expr(dict(sc, **{"yield": False, "await": False}), 2))
        ret = " -> " + self.expr(dict(ann_sc), 2) if self.chance(15) else ""
        out = []
        if self.chance(15):
            out.append(f"{pad}@{self.pick(NAMES)}")
        tp = self.tp()
        if tp and any(p in tp for p in ()):
            tp = ""
        out.append(f"{pad}{'async ' if async_ else ''}def {name}{tp}({', '.join(sig)}){ret}:")
        inner = dict(kind="func", walrus=True, params=list(params) + ["k"])
        inner["yield"] = self.chance(20)
        inner["await"] = async_
        inner["agen"] = async_ and inner["yield"]
        declared = []
        body = []
        if self.chance(30):
            g = [n for n in ("a", "b", "c", "__file__") if n not in params]
            g = sorted({self.pick(g) for _ in range(self.int(1, 2))})
            declared += g
            body.append(f"{pad}    global {', '.join(g)}")
        outer = [p for p in sc.get("params", ()) if p not in params and p not in declared and p != "k" and p not in sc.get("declared", ())]
        if sc["kind"] == "func" and outer and not tp and self.chance(40):
            declared.append(outer[0])
            body.append(f"{pad}    nonlocal {outer[0]}")
        inner["declared"] = declared
        body += self.block(inner, ind + 1, depth + 1, 3)
        return out + body

    def cls(self, sc, ind, depth):
        pad = "    " * ind
        out = []
        if self.chance(15):
            out.append(f"{pad}@{self.pick(NAMES)}")
        tp = self.tp()
        base_sc = dict(kind="func" if tp else sc["kind"], walrus=not tp and sc["walrus"])
        bases = self.pick(["", f"({self.expr(dict(base_sc), 2)})", f"(a, metaclass={self.pick(NAMES)})"])
        out.append(f"{pad}class {self.pick(['Ca', 'a', 'b'])}{tp}{bases}:")
        inner = dict(kind="class", walrus=True, declared=[])
        body = []
        if self.chance(20):
            g = [self.pick(["a", "b", "__file__"])]
            inner["declared"] = g
            body.append(f"{pad}    global {g[0]}")
        return out + body + self.block(inner, ind + 1, depth + 1, 3)

    def module(self, most=6):
        sc = dict(kind="module", walrus=True)
        lines = []
        if self.chance(10):
            lines.append('"""doc"""')
        n = self.int(1, most)
        for _ in range(n):
            lines += self.stmt(sc, 0, 0)
        return "\n".join(lines) + "\n"


# ------------------------------------------------------------------ scope analysis

class Scope:
    def __init__(self, kind, parent):
        self.kind, self.parent = kind, parent    # module, func, class, comp, tp
        self.bound, self.globals, self.nonlocals = set(), set(), set()
        self.loads, self.stores = set(), set()
        self.kids = []
        if parent is not None:
            parent.kids.append(self)


class Mangle(ast.NodeTransformer):
    """Private names in classes: __a in class C is _C__a."""

    def __init__(self):
        self.cls = None
        self.loose = False
        self.forms = set()
        self.classes = set()

    def visit_Module(self, n):
        self.classes = {k.name for k in ast.walk(n) if isinstance(k, ast.ClassDef)}
        self.generic_visit(n)
        return n

    def name(self, x, cls=""):
        if cls == "":
            cls = self.cls
        if x is None or not x.startswith("__") or x.endswith("__") or "." in x:
            return x
        self.forms |= {x} | {"_" + c.lstrip("_") + x for c in self.classes}
        return x if cls is None or not cls.strip("_") else "_" + cls.lstrip("_") + x

    def visit_Name(self, n):
        n.id = self.name(n.id)
        return n

    def visit_arg(self, n):
        n.arg = self.name(n.arg)
        return self.generic_visit(n)

    def visit_FunctionDef(self, n):
        n.name = self.name(n.name)
        return self.generic_visit(n)

    visit_AsyncFunctionDef = visit_ExceptHandler = visit_MatchAs = visit_MatchStar = visit_FunctionDef
    visit_TypeVar = visit_ParamSpec = visit_TypeVarTuple = visit_FunctionDef

    def visit_MatchMapping(self, n):
        n.rest = self.name(n.rest)
        return self.generic_visit(n)

    def visit_Global(self, n):
        n.names = [self.name(x) for x in n.names]
        return n

    visit_Nonlocal = visit_Global

    def visit_Import(self, n):
        for a in n.names:
            bound = a.asname or a.name.split(".")[0]
            if self.name(bound) != bound:
                a.asname = self.name(bound)
        return n

    visit_ImportFrom = visit_Import

    def visit_ClassDef(self, n):
        self.loose |= bool(n.type_params)
        name = n.name
        n.decorator_list = [self.visit(x) for x in n.decorator_list]
        n.bases = [self.visit(x) for x in n.bases]
        n.keywords = [self.visit(x) for x in n.keywords]
        n.name = self.name(name)
        old, self.cls = self.cls, name
        n.type_params = [self.visit(x) for x in n.type_params]
        n.body = [self.visit(x) for x in n.body]
        self.cls = old
        return n


class Analysis(ast.NodeVisitor):
    """Global names surely and possibly read and written by a module."""

    def __init__(self, source):
        self.root = self.cur = Scope("module", None)
        self.from_names = set()
        self.star = []
        tree = ast.parse(source)
        mangle = Mangle()
        for s in mangle.visit(tree).body:
            self.visit(s)
        self.read, self.maybe_read = set(), {"__annotations__"}
        self.written, self.maybe_written = set(), {"__doc__", "__annotations__"}
        self.resolve(self.root)
        self.maybe_read |= self.read
        self.maybe_written |= self.written | self.from_names
        if mangle.loose:
            # CPython 3.12 goes on using the name of a generic class behind that class
            self.read -= mangle.forms
            self.written -= mangle.forms
            self.maybe_read |= mangle.forms
            self.maybe_written |= mangle.forms

    def store(self, name):
        sc = self.cur
        sc.bound.add(name)
        sc.stores.add(name)

    def load(self, name):
        self.cur.loads.add(name)

    def within(self, kind):
        return _Within(self, Scope(kind, self.cur))

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.load(n.id)
        elif isinstance(n.ctx, ast.Store):
            self.store(n.id)
        else:
            self.cur.bound.add(n.id)

    def visit_Global(self, n):
        self.cur.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.cur.nonlocals.update(n.names)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.load(n.target.id)
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        if isinstance(n.target, ast.Name) and n.value is None:
            self.cur.bound.add(n.target.id)
        else:
            self.visit(n.target)
        if n.value is not None:
            self.visit(n.value)
        if self.cur.kind in ("module", "class"):
            self.visit(n.annotation)

    def visit_Import(self, n):
        for a in n.names:
            self.store(a.asname or a.name.split(".")[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            if a.name == "*":
                self.star.append(n.module)
            else:
                self.from_names.add(a.name)
                self.store(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.store(n.name)
        self.generic_visit(n)

    def visit_MatchAs(self, n):
        if n.name:
            self.store(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.store(n.name)

    def visit_MatchMapping(self, n):
        if n.rest:
            self.store(n.rest)
        self.generic_visit(n)

    def visit_NamedExpr(self, n):
        sc = self.cur
        while sc.kind == "comp":
            sc = sc.parent
        sc.bound.add(n.target.id)
        sc.stores.add(n.target.id)
        self.visit(n.value)

    def type_params(self, params):
        for p in params:
            self.store(p.name)
        for p in params:
            if getattr(p, "bound", None) is not None:
                with self.within("ann"):
                    self.visit(p.bound)

    def visit_FunctionDef(self, n):
        for d in n.decorator_list:
            self.visit(d)
        self.store(n.name)
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
            self.visit(d)

        def rest():
            args = n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [a for a in (n.args.vararg, n.args.kwarg) if a]
            for a in args:
                if a.annotation is not None:
                    self.visit(a.annotation)
            if n.returns is not None:
                self.visit(n.returns)
            with self.within("func"):
                for a in args:
                    self.cur.bound.add(a.arg)
                for s in n.body:
                    self.visit(s)

        self.generic_scope(n.type_params, rest)

    visit_AsyncFunctionDef = visit_FunctionDef

    def generic_scope(self, params, rest):
        if params:
            with self.within("tp"):
                self.type_params(params)
                rest()
        else:
            rest()

    def visit_TypeAlias(self, n):
        self.store(n.name.id)

        def rest():
            with self.within("ann"):
                self.visit(n.value)
        self.generic_scope(n.type_params, rest)

    def visit_ClassDef(self, n):
        for d in n.decorator_list:
            self.visit(d)
        self.store(n.name)

        def rest():
            for b in n.bases:
                self.visit(b)
            for k in n.keywords:
                self.visit(k.value)
            with self.within("class"):
                self.cur.bound |= {"__module__", "__qualname__"}
                for s in n.body:
                    self.visit(s)
        self.generic_scope(n.type_params, rest)

    def visit_Lambda(self, n):
        for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
            self.visit(d)
        with self.within("func"):
            for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [a for a in (n.args.vararg, n.args.kwarg) if a]:
                self.cur.bound.add(a.arg)
            self.visit(n.body)

    def comp(self, n, elts):
        self.visit(n.generators[0].iter)
        with self.within("comp"):
            for i, g in enumerate(n.generators):
                self.visit(g.target)
                if i:
                    self.visit(g.iter)
                for c in g.ifs:
                    self.visit(c)
            for e in elts:
                self.visit(e)

    def visit_ListComp(self, n):
        self.comp(n, [n.elt])

    visit_SetComp = visit_GeneratorExp = visit_ListComp

    def visit_DictComp(self, n):
        self.comp(n, [n.key, n.value])

    # -- resolution
    def lookup(self, sc, name):
        """global / local / maybe (a class namespace may have it) for *name* used in *sc*."""
        if sc.kind == "module" or name in sc.globals:
            return "global"
        # annotation scopes directly in a class see the names of the class (CPython 3.12 looks
        # there even for the names of type parameters)
        up = sc
        hidden = False
        while up.kind in ("tp", "ann"):
            hidden |= name in up.bound
            up = up.parent
            if up.kind == "class" and name in up.globals:
                return "maybe" if hidden else "global"
            if up.kind == "class" and name in up.bound:
                return "maybe"
        if name in sc.bound and name not in sc.nonlocals:
            return "maybe" if sc.kind == "class" else "local"
        sc = sc.parent
        while sc is not None and sc.kind != "module":
            if sc.kind == "class":
                pass
            elif name in sc.globals:
                return "global"
            elif name in sc.bound and name not in sc.nonlocals:
                return "local"
            sc = sc.parent
        return "global"

    def comp_targets(self, sc):
        while sc.kind == "comp":
            sc = sc.parent
        out, todo = set(), [k for k in sc.kids if k.kind == "comp"]
        while todo:
            k = todo.pop()
            out |= k.bound
            todo += [x for x in k.kids if x.kind == "comp"]
        return out

    def resolve(self, sc):
        for n in sc.loads:
            r = self.lookup(sc, n)
            if r == "global" and sc.kind == "comp" and n in self.comp_targets(sc):
                # CPython 3.12 confuses the variables of inlined comprehensions in one function
                r = "maybe"
            if r == "global":
                self.read.add(n)
            elif r == "maybe":
                self.maybe_read.add(n)
        for n in sc.stores:
            if sc.kind == "module" or n in sc.globals:
                self.written.add(n)
        for k in sc.kids:
            self.resolve(k)


class _Within:
    def __init__(self, a, sc):
        self.a, self.sc = a, sc

    def __enter__(self):
        self.old, self.a.cur = self.a.cur, self.sc

    def __exit__(self, *exc):
        self.a.cur = self.old


def imported(source):
    """First parts of the absolute names that are imported."""
    out = set()
    for n in ast.walk(ast.parse(source)):
        if isinstance(n, ast.Import):
            out |= {a.name.split(".")[0] for a in n.names}
        elif isinstance(n, ast.ImportFrom) and not n.level:
            out.add(n.module.split(".")[0])
    return sorted(out - {"mdb", "target"})
