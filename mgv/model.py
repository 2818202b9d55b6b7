"""Reference model: what the graph of a generated project must, may and must not contain.

The model works on the structured statements of the project (never on the code under test's
parsers).  verify() checks every *actual* reachable node locally: its class, and that its
out-edges contain all demanded dependency records and nothing that is not allowed.  By
induction over the reachable set this fixes the whole graph."""
import sys

from . import project as P

BUILTIN_LEAFS = {"errno", "gc"}
DEFAULT = (False, True, False, None)


class Rec:
    __slots__ = ("kind", "level", "module", "names", "in_def", "in_if", "in_try", "asname", "in_class")

    def __init__(self, kind, level, module, names, roles, asname=None):
        self.kind, self.level, self.module, self.names, self.asname = kind, level, module, names, asname
        self.in_def = any(r in ("def", "adef") for r in roles)
        self.in_if = "if" in roles
        self.in_try = "try" in roles
        self.in_class = "cls" in roles

    def dep(self, fromlist, asname):
        return (self.in_def or self.in_if or self.in_try, not self.in_def, fromlist, asname)


def scan(body):
    out = []
    for s, roles in P.walk(body):
        if s[0] == "imp":
            for n, a in s[1]:
                out.append(Rec("import", 0, n, None, roles, a))
        elif s[0] == "frm":
            out.append(Rec("from", s[1], s[2], [tuple(x) for x in s[3]], roles))
        elif s[0] == "star":
            out.append(Rec("star", s[1], s[2], None, roles))
    return out


class Mod:
    def __init__(self, name, kind, body):
        self.name, self.kind = name, kind
        self.body = body or []
        self.recs = scan(self.body)
        # names certainly in the module's globals: bound by statements at module level
        # (outside functions and classes), or declared global
        self.definite = set()
        self.only_var = set()
        self.maybe_extra = set()
        for s, roles in P.walk(self.body):
            modlevel = not any(r in ("def", "adef", "cls") for r in roles)
            if s[0] == "glob":
                self.definite.add(s[1])
            if modlevel:
                self.definite |= P.bound_names(s)
            if s[0] == "frm":
                # the name lists of from-imports count, whatever the scope (documented over-approximation)
                self.maybe_extra |= {n for n, _ in s[3]}
                if modlevel:
                    self.definite |= {n for n, _ in s[3]}


class Model:
    def __init__(self, project, excludes=(), implies=None, bytecode=False):
        self.mods = {}
        for m in project["mods"]:
            self.mods[m["name"]] = Mod(m["name"], m["kind"], m.get("body"))
        self.scripts = {s["name"]: Mod(s["name"], "script", s["body"]) for s in project.get("scripts", [])}
        self.excludes = set(excludes)
        self.bytecode = bytecode
        self.implies = dict(implies or {})
        for e in self.excludes | {"__main__"}:
            self.implies.pop(e, None)
        self._maybe = None
        # several modules may have been unprocessed at a time (names imported together in a hook context)
        self.loose = False
        # what missing hooks answer: name -> ("new", class name) or ("same", identifier of another node)
        self.answers = {}

    # ---- names
    def kind(self, name):
        """mod/pkg/ns/ext/builtin/missing/excluded/alias/virtual/hook/same of a dotted absolute name."""
        k = self._kind(name)
        if k == "missing" and name in self.answers:
            return "hook" if self.answers[name][0] == "new" else "same"
        return k

    def target(self, name):
        """The node that stands for *name*."""
        if name in self.answers and self.kind(name) == "same":
            return self.answers[name][1]
        return name

    def resolved(self, name):
        """The name that *name* stands for after following aliases."""
        hops = 0
        while self.kind(name) in ("alias", "same") and hops < 50:
            name = self.implies[name][1] if self.kind(name) == "alias" else self.answers[name][1]
            hops += 1
        return name

    def _kind(self, name):
        head, _, tail = name.rpartition(".")
        pk = None
        if head:
            pk = self.kind(head)
            if pk == "hook" and self.answers[head][1] == "ExcludedModule":
                pk = "excluded"
            if pk == "missing":
                # an excluded name below a missing one is just missing
                return "missing"
        if name in self.excludes or name == "__main__":
            return "excluded"
        if pk == "excluded":
            return "excluded"
        imp = self.implies.get(name)
        if imp is not None and not isinstance(imp, list):
            return imp[0]  # "alias" / "virtual"
        if head and pk not in ("pkg", "ns", "alias", "virtual", "hook", "same"):
            return "missing"
        # below an alias or virtual module only what really exists can be found
        if name in self.mods:
            return self.mods[name].kind
        if not head and name in BUILTIN_LEAFS:
            return "builtin"
        return "missing"

    def implied_edges(self, name):
        """Targets of the edges that an implied action adds to the node of *name*."""
        imp = self.implies.get(name)
        if imp is None or name in self.excludes:
            return []
        head = name.rpartition(".")[0]
        if head and self.kind(head) in ("missing", "excluded"):
            return []
        return [self.target(t) for t in (imp if isinstance(imp, list) else [imp[1]])]

    def resolve(self, mod, level, module):
        """Absolute name of an import in *mod*, or None when it leaves the top-level package."""
        if level == 0:
            return module
        if mod.kind == "script":
            return None
        pkg = mod.name.split(".")
        if mod.kind not in ("pkg", "ns"):
            pkg = pkg[:-1]
        if level > len(pkg):
            return None
        base = pkg[: len(pkg) - level + 1]
        return ".".join(base + ([module] if module else []))

    # ---- globals
    def maybe(self, name):
        """Names that may be in the globals of module *name* (star imports closed over)."""
        if self._maybe is None:
            self._maybe = {}
            allm = {**self.mods, **{("s", n): s for n, s in self.scripts.items()}}
            cur = {k: set(m.definite | m.maybe_extra) for k, m in allm.items()}
            changed = True
            while changed:
                changed = False
                for k, m in allm.items():
                    for r in m.recs:
                        if r.kind == "star":
                            t = self.resolve(m, r.level, r.module)
                            t = t and self.resolved(t)
                            if t in cur and not cur[t] <= cur[k]:
                                cur[k] |= cur[t]
                                changed = True
            self._maybe = cur
        return self._maybe.get(name, set())

    EXPECT_CLASS = {
        "mod": ("SourceModule",), "pkg": ("Package",), "ns": ("NamespacePackage",), "ext": ("ExtensionModule",),
        "builtin": ("BuiltinModule",), "missing": ("MissingModule",), "excluded": ("ExcludedModule",),
        "alias": ("AliasNode",), "virtual": ("VirtualNode",), "script": ("Script",),
    }


class Dump:
    """A plain-data picture of a graph (identifiers, classes, edges with attributes)."""

    def __init__(self, mg, root=None):
        # scripts are named after their full path, show that relative to *root*
        def ident(n):
            i = n.identifier
            return i[len(root) + 1:] if root and i.startswith(root + "/") else i

        self.cls, self.nodes, self.edges = {}, {}, {}
        for n in mg.nodes():
            self.nodes[ident(n)] = n
            self.cls[ident(n)] = type(n).__name__
        for s, t, deps in mg.edges():
            self.edges.setdefault(ident(s), {})[ident(t)] = {
                (d.is_optional, d.is_global, d.in_fromlist, d.imported_as) for d in deps
            }
        self.roots = {ident(n) for n in mg.roots()}
        seen = set(self.roots)
        todo = list(self.roots)
        while todo:
            for t in self.edges.get(todo.pop(), {}):
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        self.reachable = seen

    def out(self, i):
        return self.edges.get(i, {})

    def graph(self):
        """Comparable value of the reachable graph."""
        return {
            i: (self.cls[i], sorted((t, sorted(map(repr, d))) for t, d in self.out(i).items()))
            for i in sorted(self.reachable)
        }

    def diff(self, other, what=("this", "other")):
        a, b = self.graph(), other.graph()
        out = []
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                out.append(f"{k}: {what[0]}={a.get(k)} {what[1]}={b.get(k)}")
        if self.roots != other.roots:
            out.append(f"roots: {what[0]}={sorted(self.roots)} {what[1]}={sorted(other.roots)}")
        return out


def can_reach(dump, start, goal):
    seen, todo = {start}, [start]
    while todo:
        n = todo.pop()
        if n == goal:
            return True
        for t in dump.out(n):
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return False


def static_closure(dump, start):
    seen, todo = {start}, [start]
    while todo:
        for t in dump.out(todo.pop()):
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return seen


def in_subtree(name, top):
    return name == top or name.startswith(top + ".")


def reaching(dump, ident):
    """All nodes from which *ident* can be reached."""
    cache = dump.__dict__.setdefault("_reaching", {})
    if ident not in cache:
        rev = dump.__dict__.get("_rev")
        if rev is None:
            rev = dump._rev = {}
            for s, outs in dump.edges.items():
                for t in outs:
                    rev.setdefault(t, set()).add(s)
        seen, todo = {ident}, [ident]
        while todo:
            for t in rev.get(todo.pop(), ()):
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        cache[ident] = seen
    return cache[ident]


def may_be_pending(model, dump, src, ident):
    """Can the imports of *src* be unprocessed when those of *ident* are looked at?  That needs a
    cycle: *ident* is reached from *src* or from a module below it (packages are entered before
    their modules), or both are named in one from-import."""
    before = reaching(dump, ident)
    if any(in_subtree(n, src) for n in before):
        return True
    for k in dump.nodes:
        mod = model.scripts.get(k) or model.mods.get(k)
        if mod is None:
            continue
        for r in mod.recs:
            if r.kind == "from" and len(r.names) > 1:
                base = model.resolve(mod, r.level, r.module)
                subs = {f"{base}.{nm}" for nm, _ in r.names}
                if any(in_subtree(x, src) for x in subs) and any(x in before for x in subs):
                    return True
    return False


class Expect:
    """Demands on the out-edges of one node: must[target] = set of deps, may likewise,
    anyof = list of alternatives [(target, dep), ...] of which at least one must be there."""

    def __init__(self):
        self.must, self.may, self.anyof = {}, {}, []
        self.labels = []

    def add(self, tgt, dep):
        self.must.setdefault(tgt, set()).add(dep)

    def allow(self, tgt, dep):
        self.may.setdefault(tgt, set()).add(dep)


def expect_edges(model, dump, ident, mod, attr_exact=True):
    e = Expect()
    for r in mod.recs:
        base = model.resolve(mod, r.level, r.module)
        if base is None:
            e.add("." * r.level + r.module, r.dep(False, None))
            e.labels.append("invalid-relative")
            continue
        e.add(model.target(base), r.dep(False, r.asname))
        bk = model.kind(base)
        if r.level:
            e.labels.append("relative")
        if r.kind == "import":
            if bk == "missing":
                e.labels.append("missing")
            continue
        if r.kind == "star":
            e.labels.append("star")
            continue
        # 'from alias import name' looks at the aliased module
        src = model.resolved(base)
        bk = model.kind(src)
        if bk == "hook" and model.answers[src][1] == "NamespacePackage":
            bk = "ns"
        if bk in ("missing", "excluded", "virtual", "alias", "hook", "same"):
            continue
        target = model.mods.get(src)
        definite = target.definite if target is not None else set()
        maybe = model.maybe(src)
        pkgish = bk in ("pkg", "ns")
        # the target may still be unprocessed when this import is looked at
        cyclic = model.loose or may_be_pending(model, dump, src, ident)
        for nm, asname in r.names:
            dep = r.dep(True, asname)
            sub = f"{src}.{nm}"
            exists = pkgish and model.kind(sub) != "missing"
            sub = model.target(sub)
            cand = [t for t, deps in dump.out(src).items()
                    if t == nm or any(d[3] == nm for d in deps)]
            if nm not in maybe:
                if pkgish:
                    e.add(sub, dep)
                    e.labels.append("from-submodule" if exists else "from-missing")
                else:
                    e.labels.append("from-nothing")
                continue
            for t in cand:
                e.allow(t, dep)
            if cand:
                e.labels.append("re-export")
            if pkgish and exists:
                e.allow(sub, dep)
                if not cand:
                    e.add(sub, dep)
                    e.labels.append("global-and-submodule")
                else:
                    e.anyof.append([(t, dep) for t in cand] + [(sub, dep)])
            else:
                if pkgish and nm not in definite:
                    # the name only appears in the globals once the target is processed
                    e.allow(sub, dep)
                if cand and not cyclic and nm in definite:
                    e.anyof.append([(t, dep) for t in cand])
                    e.labels.append("re-export-demanded")
                if not cand:
                    e.labels.append("from-variable")
    return e


def verify(model, dump, ctx, roots=(), extra_edges=None, attributes=True, skip=(), may_edges=None):
    """Check the reachable part of *dump* against the model."""
    extra_edges = extra_edges or {}
    for r in roots:
        ctx.check(r in dump.roots, "root-missing", lambda: f"{r!r} was added but is not a root: {sorted(dump.roots)}")
    ctx.check(set(dump.roots) == set(roots), "roots", lambda: f"roots {sorted(dump.roots)} expected {sorted(roots)}")
    for i in sorted(dump.reachable):
        cls = dump.cls[i]
        if i in skip:
            continue
        if i in model.scripts:
            mod, kind = model.scripts[i], "script"
        elif i.startswith("."):
            ctx.check(cls == "InvalidRelativeImport", "class", lambda: f"{i}: class {cls}")
            ctx.check(not dump.out(i), "edges-extra", lambda: f"{i} has edges {dump.out(i)}")
            continue
        else:
            kind = model.kind(i)
            mod = model.mods.get(i)
        if kind == "same":
            # another node stands for this name
            ctx.fail("class", f"{i} is a {cls}, the missing hook answered with {model.answers[i]}")
        want = model.EXPECT_CLASS[kind] if kind != "hook" else (model.answers[i][1],)
        ctx.check(cls in want, "class", lambda: f"node {i!r} is a {cls}, expected {want[0]}")
        if kind in ("mod", "pkg", "script"):
            e = expect_edges(model, dump, i, mod)
            for lb in set(e.labels):
                ctx.label(lb)
        else:
            e = Expect()
        if kind != "script" and "." in i:
            e.add(model.target(i.rpartition(".")[0]), DEFAULT)
        for t in [*extra_edges.get(i, ()), *model.implied_edges(i)]:
            e.add(t, DEFAULT)
        for t in (may_edges or {}).get(i, ()):
            e.allow(t, DEFAULT)
        for name, answer in model.answers.items():
            # a node that stands for a missing submodule
            if answer == ("same", i) and "." in name and model.kind(name) == "same":
                e.allow(model.target(name.rpartition(".")[0]), DEFAULT)
            if answer == ("same", i):
                for t in model.implied_edges(name):
                    e.allow(t, DEFAULT)
        have = dump.out(i)
        if not attributes:
            for t in e.must:
                ctx.check(t in have, "edge-missing", lambda: f"{i} -> {t} missing; has {sorted(have)}")
            for t in have:
                ctx.check(t in e.must or t in e.may, "edge-extra", lambda: f"{i} -> {t} not justified by any import")
            for alts in e.anyof:
                ctx.check(any(t in have for t, _ in alts), "edge-missing", lambda: f"{i} -> any of {sorted({t for t, _ in alts})} missing")
            continue
        for t, deps in e.must.items():
            for d in deps:
                ctx.check(t in have, "edge-missing", lambda: f"{i} -> {t} missing (needs {d}); has {sorted(have)}")
                ctx.check(d in have[t], "attribute-missing",
                          lambda: f"{i} -> {t}: no (is_optional,is_global,in_fromlist,as)={d}; has {sorted(map(repr, have[t]))}")
        for t, deps in have.items():
            ok = e.must.get(t, set()) | e.may.get(t, set())
            ctx.check(bool(ok), "edge-extra", lambda: f"{i} -> {t} not justified by any import in {i}; {sorted(map(repr, deps))}")
            for d in deps:
                ctx.check(d in ok, "attribute-extra", lambda: f"{i} -> {t}: unexpected attribute {d}; allowed {sorted(map(repr, ok))}")
        for alts in e.anyof:
            ctx.check(any(t in have and d in have[t] for t, d in alts), "edge-missing",
                      lambda: f"{i}: none of {alts} present; has { {t: sorted(map(repr, d)) for t, d in have.items()} }")
    return dump
