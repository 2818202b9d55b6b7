"""C22: reports show exactly the reachable graph."""
import html.parser
import io
import os
import pathlib
import re

from .. import project as P, sut

try:
    from hypothesis import strategies as st
except ImportError:
    st = None

CLASSES = ["Script", "SourceModule", "BytecodeModule", "ExtensionModule", "BuiltinModule", "FrozenModule", "InvalidModule", "Package", "FrozenPackage", "NamespacePackage",
           "MissingModule", "ExcludedModule", "InvalidRelativeImport", "AliasNode", "VirtualNode"]
PIECES = ["a", "b", "pk", ".", "mod", "é", "日本", " ", "  ", "<", ">", "&", "&amp;", '"', "'", "\\", "\\\\", '\\"', "\\n", "%", "%41", "#", ";", "{", "}", "[", "]", "->", "--", "/", "//", "/*", "*/",
          "</a>", "<h2>", "<!--", "-->", "=", ",", "$", "{0}", "%s", "x" * 30, "\t", "\n", "\u2028", "\u00a0", "digraph", "subgraph", "\\G", "(", ")", "|"]


@st.composite
def strategy_(draw):
    g = P.Gen(draw)
    newline = g.chance(25)

    def name():
        if g.chance(40):
            return ".".join(g.pick(["pka", "pkb", "sa", "sb", "mod"]) for _ in range(g.int(1, 3)))
        return "".join(p for p in (g.pick(PIECES) for _ in range(g.int(1, 6))) if newline or p != "\n")

    nodes, seen = [], set()
    for _ in range(g.int(1, 12)):
        n = name()
        if g.chance(25) and nodes:
            n = nodes[-1]["name"] + "." + n
        cls = g.pick(CLASSES)
        if not n.strip() or n in seen:
            continue
        if cls in ("Script",):
            n = "/s/" + n
        if cls == "InvalidRelativeImport":
            n = "." + n
        if n in seen:
            continue
        seen.add(n)
        nodes.append({"cls": cls, "name": n, "file": g.pick([None, None, "/f/" + name()]), "dist": g.weighted([(None, 6), (g.pick([0, 1, 2]), 3)])})
    k = len(nodes)
    edges = []
    if k:
        for _ in range(g.int(0, 20)):
            edges.append([g.int(0, k - 1), g.int(0, k - 1), [[g.chance(50), g.chance(50), g.chance(30), g.pick([None, "xa"])] for _ in range(g.int(1, 2))]])
    return {"nodes": nodes, "edges": edges, "roots": [g.int(0, k - 1) for _ in range(g.int(0, 3))] if k else [],
            "dists": [name() for _ in range(3)], "distnodes": [[g.int(0, 2), [g.int(0, k - 1) for _ in range(g.int(0, 2))] if k else [], g.chance(80)] for _ in range(g.weighted([(0, 5), (1, 3), (2, 1)]))]}


def strategy():
    return strategy_()


def corpus():
    """Every piece in every position of a tiny graph."""
    out = []
    for p in PIECES:
        for n in (p, "a" + p, p + "a", "a" + p + "b", p + p):
            if n.strip():
                out.append({"nodes": [{"cls": "Script", "name": "/s/" + n, "file": None, "dist": 0}, {"cls": "MissingModule", "name": n, "file": None, "dist": None}, {"cls": "SourceModule", "name": "x" + n, "file": "/f/" + n, "dist": 0}],
                            "edges": [[0, 1, [[True, True, False, None]]], [0, 2, [[False, True, False, None]]], [2, 1, [[False, True, False, None]]]], "roots": [0],
                            "dists": [n, "b", "c"], "distnodes": []})
    return out


def make(case, ctx):
    import modulegraph2 as mg2
    mg = ctx.sut("ModuleGraph()", mg2.ModuleGraph)
    dists = [mg2.PyPIDistribution(f"/d{i}/{n}.dist-info", n, "1", set(), set(), {}) for i, n in enumerate(case["dists"])]
    nodes = []
    for spec in case["nodes"]:
        cls, name = spec["cls"], spec["name"]
        file = pathlib.Path(spec["file"]) if spec["file"] else None
        dist = dists[spec["dist"]] if spec["dist"] is not None else None
        c = getattr(mg2, cls)
        if cls == "Script":
            node = c(name, None)
        elif cls in ("MissingModule", "ExcludedModule", "InvalidRelativeImport"):
            node = c(name)
        elif cls in ("AliasNode", "VirtualNode"):
            node = c(name, "other")
        elif cls == "NamespacePackage":
            node = c(name=name, loader=None, distribution=dist, filename=file, extension_attributes={}, search_path=[], has_data_files=False)
        else:
            kw = dict(name=name, loader=None, distribution=dist, filename=file, extension_attributes={})
            if cls in ("Package", "FrozenPackage"):
                init = mg2.SourceModule(name=name, loader=None, distribution=dist, filename=file, extension_attributes={}, globals_written=set(), globals_read=set(), code=None)
                node = c(**kw, init_module=init, search_path=[], has_data_files=False, namespace_type=None)
            else:
                node = c(**kw, globals_written=set(), globals_read=set(), code=None)
        mg.add_node(node)
        nodes.append(node)
    deps = {}
    for i, j, ds in case["edges"]:
        for d in ds:
            mg.add_edge(nodes[i], nodes[j], mg2.DependencyInfo(*d))
            deps.setdefault((i, j), set()).add(tuple(d))
    for r in case["roots"]:
        mg.add_root(nodes[r])
    dn = {}
    for d, targets, root in case["distnodes"]:
        if d not in dn:
            dn[d] = set()
            mg.add_node(dists[d])
        if root:
            mg.add_root(dists[d])
        for t in targets:
            mg.add_edge(dists[d], nodes[t], mg2.DependencyInfo(False, True, False, None))
            dn[d].add(t)
    # what can be reached (by our own search)
    roots = set(case["roots"])
    todo = list(roots) + [t for d, targets, root in case["distnodes"] for t in dn[d] if any(x[0] == d and x[2] for x in case["distnodes"])]
    reach = set()
    while todo:
        i = todo.pop()
        if i not in reach:
            reach.add(i)
            todo += [b for (a, b) in deps if a == i]
    return mg, nodes, dists, deps, dn, roots, reach


def run(case, ctx):
    import modulegraph2 as mg2
    from modulegraph2 import __main__ as cli
    mg, nodes, dists, deps, dn, roots, reach = make(case, ctx)
    ident = {i: n.identifier for i, n in enumerate(nodes)}
    want = {ident[i] for i in reach}
    edges = {(ident[a], ident[b]) for a, b in deps if a in reach}
    ctx.nontrivial(len(reach) >= 2 and bool(edges))
    ctx.label("unreachable nodes", len(nodes) - len(reach))

    # text
    out = io.StringIO()
    ctx.sut("report", mg.report, out)
    text = out.getvalue()
    if not any("\n" in n for n in ident.values()) and not any("\n" in (s["file"] or "") for s in case["nodes"]):
        lines = [ln for ln in text.split("\n")[1:] if ln]
        ctx.check(len(lines) >= 2 and lines[0].split() == ["Class", "Name", "File"], "report", lambda: f"report starts with {lines[:2]}")
        rows = lines[2:]
        left = list(rows)
        for i in reach:
            n = nodes[i]
            row = re.compile(re.escape(type(n).__name__) + " +" + re.escape(n.identifier) + r"(?: +" + re.escape(str(n.filename)) + ")" if n.filename else re.escape(type(n).__name__) + " +" + re.escape(n.identifier) + " *")
            hit = [r for r in left if row.fullmatch(r)]
            ctx.check(hit, "report", lambda: f"no row for {n!r} in the report:\n{text}")
            left.remove(hit[0])
        ctx.check(not left, "report", lambda: f"rows for no reachable node: {left}")

    # HTML
    out = io.StringIO()
    ctx.sut("HTML", cli.print_graph, out, cli.OutputFormat.HTML, mg)
    page = Page()
    page.feed(out.getvalue())
    page.close()
    ctx.check(not page.errors, "html-form", lambda: f"{page.errors}\n{out.getvalue()}")
    anchors = [s["name"] for s in page.sections]
    ctx.check(sorted(anchors) == sorted(want), "html-nodes", lambda: f"sections for {anchors}, reachable {sorted(want)}")
    by = {n.identifier: n for n in nodes}
    extern = {d.identifier for d in dists}
    for s in page.sections:
        n = by[s["name"]]
        ctx.check(s["title"] == f"{type(n).__name__} {n.name}", "html-title", lambda: f"title {s['title']!r} of {n!r}")
        for what, exp in (("Depends on:", {b for a, b in edges if a == s["name"]}), ("Used by:", {a for a, b in edges if b == s["name"]})):
            links = [(h, t) for w, h, t in s["links"] if w == what]
            got = [h[1:] for h, t in links if not (what == "Used by:" and h[1:] in extern)]
            ctx.check(sorted(got) == sorted(exp), "html-edges", lambda: f"{n.name}: {what} {sorted(got)}, expected {sorted(exp)}")
            for h, t in links:
                ctx.check(h.startswith("#") and (h[1:] in extern or t == by[h[1:]].name), "html-link", lambda: f"link to {h!r} has text {t!r}")
        ctx.check(all(w in ("Depends on:", "Used by:") for w, _, _ in s["links"]), "html-form", lambda: f"{s}")

    # dot
    out = io.StringIO()
    ctx.sut("dot", cli.print_graph, out, cli.OutputFormat.GRAPHVIZ, mg)
    try:
        g = Dot(out.getvalue())
    except SyntaxError as exc:
        ctx.fail("dot-form", f"{exc}\n{out.getvalue()}")
    dist_reach = {dists[d].identifier for d in dn if any(x[0] == d and x[2] for x in case["distnodes"])}
    listed = [n for n, _ in g.nodes if n not in dist_reach]
    ctx.check(sorted(listed) == sorted(want), "dot-nodes", lambda: f"nodes {listed}, reachable {sorted(want)}\n{out.getvalue()}")
    dedges = edges | {(dists[d].identifier, ident[t]) for d in dn for t in dn[d] if dists[d].identifier in dist_reach}
    got = [(a, b) for a, b, _ in g.edges]
    ctx.check(sorted(got) == sorted(dedges), "dot-edges", lambda: f"edges {sorted(got)}, expected {sorted(dedges)}")
    rootset = {ident[i] for i in roots}
    for n, attr in g.nodes:
        if n in by:
            ctx.check((attr.get("root") == "true") == (n in rootset), "dot-root", lambda: f"{n}: {attr}, roots {sorted(rootset)}")
    index = {v: k for k, v in ident.items()}
    for a, b, attr in g.edges:
        if a in index and b in index:
            optional = all(d[0] for d in deps[(index[a], index[b])])
            if attr.get("arrowhead") == "none":
                ctx.check(a.startswith(b + "."), "dot-arrow", lambda: f"{a} -> {b}: {attr}, {b} does not contain {a}")
            ctx.check((attr.get("style") == "dashed") == optional, "dot-style", lambda: f"{a} -> {b}: {attr}, attributes {deps[(index[a], index[b])]}")
    groups = {}
    for i in reach:
        if getattr(nodes[i], "distribution", None) is not None:
            groups.setdefault(nodes[i].distribution.name, []).append(ident[i])
    ctx.check(sorted((k, sorted(v)) for k, v in g.clusters) == sorted((k, sorted(v)) for k, v in groups.items()), "dot-clusters", lambda: f"clusters {g.clusters}, expected {groups}")


class Page(html.parser.HTMLParser):
    """The structure of the HTML report."""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.errors, self.sections = [], [], []
        self.text, self.what, self.href = "", None, None

    def handle_starttag(self, tag, attrs):
        if tag not in ("html", "head", "title", "body", "h1", "h2", "a", "p"):
            self.errors.append(f"tag {tag} {attrs}")
        attrs = dict(attrs)
        if tag == "p":
            self.what, self.text = "", ""
            return
        self.stack.append(tag)
        if tag == "a":
            if "name" in attrs:
                self.sections.append({"name": attrs["name"], "title": None, "links": []})
                self.what = None
            else:
                self.what = self.what or self.text.strip()
                self.href = attrs.get("href", "")
            self.text = ""
        elif tag == "h2":
            self.text = ""

    def handle_endtag(self, tag):
        if not self.stack or self.stack[-1] != tag:
            self.errors.append(f"end of {tag} in {self.stack}")
            return
        self.stack.pop()
        if tag == "h2":
            if not self.sections or self.sections[-1]["title"] is not None:
                self.errors.append("title without anchor")
            else:
                self.sections[-1]["title"] = self.text
        elif tag == "a" and self.href is not None:
            if not self.sections:
                self.errors.append("link outside of a section")
            else:
                self.sections[-1]["links"].append((self.what, self.href, self.text))
            self.href = None
            self.text = ""

    def handle_data(self, data):
        self.text += data

    def handle_comment(self, data):
        self.errors.append(f"comment {data!r}")

    def handle_decl(self, decl):
        self.errors.append(f"declaration {decl!r}")

    def handle_pi(self, data):
        self.errors.append(f"instruction {data!r}")

    def close(self):
        super().close()
        if self.stack:
            self.errors.append(f"open elements {self.stack}")


TOKEN = re.compile(r'\s*(?:(?P<q>"(?:[^"\\]|\\.)*")|(?P<op>->|[{}\[\],;=])|(?P<id>[A-Za-z_0-9.]+))', re.S)


class Dot:
    """Parser for the part of the DOT language that is needed."""

    def __init__(self, text):
        self.tokens, pos = [], 0
        while text[pos:].strip():
            m = TOKEN.match(text, pos)
            if not m:
                raise SyntaxError(f"not DOT: {text[pos:pos + 60]!r}")
            pos = m.end()
            if m["q"] is not None:
                self.tokens.append(("id", re.sub(r'\\([\\"])', r"\1", m["q"][1:-1]), True))
            elif m["op"]:
                self.tokens.append((m["op"], None, False))
            else:
                self.tokens.append(("id", m["id"], False))
        self.nodes, self.edges, self.clusters = [], [], []
        self.i = 0
        self.word("digraph")
        self.take("id")
        self.take("{")
        self.statements(None)
        if self.i != len(self.tokens):
            raise SyntaxError(f"text after the graph: {self.tokens[self.i:][:5]}")

    def peek(self):
        return self.tokens[self.i] if self.i < len(self.tokens) else (None, None, False)

    def take(self, kind):
        t = self.peek()
        if t[0] != kind:
            raise SyntaxError(f"expected {kind}, found {t} at {self.tokens[max(0, self.i - 4):self.i]}")
        self.i += 1
        return t[1]

    def word(self, w):
        if self.peek() != ("id", w, False):
            raise SyntaxError(f"expected {w}, found {self.peek()}")
        self.i += 1

    def attributes(self):
        out = {}
        if self.peek()[0] == "[":
            self.take("[")
            while self.peek()[0] != "]":
                k = self.take("id")
                self.take("=")
                out[k] = self.take("id")
                if self.peek()[0] in (",", ";"):
                    self.i += 1
            self.take("]")
        return out

    def statements(self, cluster):
        while True:
            kind, value, quoted = self.peek()
            if kind == "}":
                self.i += 1
                return
            if kind == ";":
                self.i += 1
                continue
            if (kind, value, quoted) == ("id", "subgraph", False):
                self.i += 1
                self.take("id")
                self.take("{")
                c = [None, []]
                self.statements(c)
                self.clusters.append(tuple(c))
                continue
            a = self.take("id")
            if self.peek()[0] == "=":
                self.i += 1
                v = self.take("id")
                if a == "label" and cluster is not None:
                    cluster[0] = v
            elif self.peek()[0] == "->":
                self.i += 1
                b = self.take("id")
                self.edges.append((a, b, self.attributes()))
            elif cluster is not None:
                self.attributes()
                cluster[1].append(a)
            else:
                self.nodes.append((a, self.attributes()))
