BUGS = {}
def bug(id, prop, needs, breaks, edits, demo):
    BUGS[id] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("c03-repeated-import", "C03",
 "one module imported twice by a module, at positions that differ only in being conditional",
 "the second import of a name in a module is not recorded when it differs only in being inside an if or try",
 [("_ast_tools.py", '''            for nm in node.names:
                yield create_importinfo(
''', '''            for nm in [
                nm for nm in node.names if (nm.name, nm.asname, in_def) not in seen
            ]:
                # Other imports of the name don't add information
                seen.add((nm.name, nm.asname, in_def))
                yield create_importinfo(
'''), ("_ast_tools.py", '''    work_q.append((node, False, False, False))
    while''', '''    work_q.append((node, False, False, False))
    seen: set[tuple[str, str | None, bool]] = set()
    while''')],
 '''
put("m.py", "import errno\\nif x:\\n    import errno\\n")
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_module("m")
got = info(mg.edge_data("m", "errno"))
expect(got == [(False, True, False, ""), (True, True, False, "")], got)
''')
bug("c06-zip-portion", "C06",
 "an implicit namespace package with a portion inside a zip file",
 "portions in zip files are dropped from the search path of namespace packages",
 [("_graphbuilder.py", '''            search_path=[pathlib.Path(loc) for loc in search_path],
            has_data_files=False,
''', '''            # Ignore stale entries
            search_path=[
                pathlib.Path(loc) for loc in search_path if pathlib.Path(loc).is_dir()
            ],
            has_data_files=False,
''')],
 '''
import zipfile
os.makedirs(os.path.join(ROOT, "d/ns"))
put("d/ns/a.py", "")
with zipfile.ZipFile(os.path.join(ROOT, "z.zip"), "w") as zf:
    zf.writestr("ns/", ""); zf.writestr("ns/b.py", "")
sys.path[:0] = [os.path.join(ROOT, "d"), os.path.join(ROOT, "z.zip")]
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_module("ns.b")
n = mg.find_node("ns")
expect([str(p) for p in n.search_path] == [os.path.join(ROOT, "d/ns"), os.path.join(ROOT, "z.zip/ns")], n.search_path)
''')
bug("c07-nested-class", "C07",
 "bytecode-only module with an import in a class nested two deep inside a function",
 "the import is reported as global and not optional",
 [("_bytecode_tools.py", '''    return code in func_codes or any(p in func_codes for p in parents)
''', '''    return code in func_codes or any(p in func_codes for p in parents[-2:])
''')],
 '''
import py_compile
src = put("m.src", "def f():\\n    class A:\\n        class B:\\n            class C:\\n                import errno\\n")
py_compile.compile(src, cfile=os.path.join(ROOT, "m.pyc"))
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_module("m")
got = info(mg.edge_data("m", "errno"))
expect(got == [(True, False, False, "")], got)
''')
bug("c09-optimized-code", "C09",
 "a source module whose code differs when it is compiled with optimization",
 "the code attribute of source modules is compiled without assert statements and docstrings",
 [("_graphbuilder.py", '''            code = inspect_loader.get_code(spec.name)
            assert code is not None
''', '''            if source_code is not None:
                # No need to read the source a second time
                code = compile(
                    source_code, str(spec.origin), "exec", dont_inherit=True, optimize=2
                )
            else:
                code = inspect_loader.get_code(spec.name)
            assert code is not None
''')],
 '''
put("m.py", "'docs'\\nassert len('ab') == 2\\n")
import modulegraph2
mg = modulegraph2.ModuleGraph()
n = mg.add_module("m")
import importlib.util
expect(n.code == importlib.util.find_spec("m").loader.get_code("m"), n.code.co_names)
''')
bug("c10-elif-chain", "C10",
 "an if statement with more than about a thousand elif branches",
 "graph building fails with RecursionError",
 [("_ast_tools.py", '''            for child in ast.iter_child_nodes(node):
                work_q.append((child, in_def, True, in_tryexcept))
''', '''            for child in _branch_nodes(node):
                work_q.append((child, in_def, True, in_tryexcept))
'''), ("_ast_tools.py", '''def extract_ast_info(''', '''def _branch_nodes(node: ast.If) -> Iterator[ast.AST]:
    """
    Yield the nodes in all branches of an if statement
    """
    for child in ast.iter_child_nodes(node):
        if isinstance(child, ast.If):
            yield from _branch_nodes(child)
        else:
            yield child


def extract_ast_info(''')],
 '''
put("m.py", "if x:\\n    pass\\n" + "".join(f"elif x == {i}:\\n    import errno\\n" for i in range(1200)))
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_module("m")
expect(mg.find_node("errno") is not None)
''')
bug("c12-imports-packages", "C12",
 "a package that mentions pkgutil without using __import__ and whose submodules are not imported",
 "packages are executed although no module in them is looked up",
 [("_graphbuilder.py", '''            and "__import__" in node.globals_read
            and any(nm in source_code for nm in ("pkg_resources", "pkgutil"))
        ):''', '''            and node.globals_read & {"__import__", "__path__"}
            and any(nm in source_code for nm in ("pkg_resources", "pkgutil"))
        ):''')],
 '''
put("p/__init__.py", "import pkgutil, builtins\\nbuiltins.demo_ran = True\\nx = list(pkgutil.iter_modules(__path__))\\n")
import modulegraph2, builtins
mg = modulegraph2.ModuleGraph()
mg.add_module("p")
expect(not hasattr(builtins, "demo_ran"))
''')
bug("c14-lost-work", "C14",
 "a hook that raises while import_package is busy, followed by further use of the graph",
 "work that was pending when import_package failed is dropped",
 [("_modulegraph.py", '''            self._work_stack = saved_stack + self._work_stack
''', '''            self._work_stack = saved_stack
''')],
 '''
put("main.py", "")
put("pk/__init__.py", "import pk.b, nope\\n"); put("pk/b.py", "import pk.c\\n"); put("pk/c.py", "")
import modulegraph2
mg = modulegraph2.ModuleGraph()
def hook(g, i, n):
    if n == "nope":
        raise KeyError(n)
mg.add_missing_hook(hook)
main = mg.add_module("main")
try:
    with mg.hook_context():
        mg.import_package(main, "pk")
except KeyError:
    pass
mg._missing_hook.clear()
mg.add_module("pk")
expect(mg.find_node("pk.c") is not None)
''')
bug("c15-implies-first", "C15",
 "a name that is excluded after add_implies was called for it",
 "excluding a name with implied actions has no effect",
 [("_modulegraph.py", '''            self._global_lazy_nodes[nm] = None

    def''', '''            self._global_lazy_nodes.setdefault(nm, None)

    def''')],
 '''
put("a.py", "import errno\\n"); put("main.py", "import a\\n"); put("b.py", "")
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_implies({"a": ("b",)})
mg.add_excludes(["a"])
mg.add_module("main")
expect(type(mg.find_node("a")).__name__ == "ExcludedModule", mg.find_node("a"))
''')
bug("c16-implied-loaded", "C16",
 "an implied name that is already in the graph when its module is used",
 "there is no edge for implied dependencies that were loaded before",
 [("_modulegraph.py", '''                for ref in implied:
                    other = self._find_or_load_module(node, ref)
''', '''                for ref in [ref for ref in implied if self.find_node(ref) is None]:
                    other = self._find_or_load_module(node, ref)
''')],
 '''
put("a.py", ""); put("b.py", ""); put("main.py", "import b\\n")
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_implies({"a": ("b",)})
mg.add_module("main")
mg.add_module("a")
expect(any(n.name == "b" for _, n in mg.outgoing("a")))
''')
bug("c17-early-hook", "C17",
 "a post-processing hook that looks at the dependencies of a node",
 "hooks run before the imports of a node are processed",
 [("_modulegraph.py", '''        if node.identifier not in self._post_processing_seen:
            self._post_processing_seen.add(node.identifier)
            self._work_stack.append((self._post_processing, (self, node)))

        # Schedule work to process import statements.
        for info in imports:
            self._work_stack.append((self._process_import, (node, info)))
''', '''        # Schedule work to process import statements.
        for info in imports:
            self._work_stack.append((self._process_import, (node, info)))

        if node.identifier not in self._post_processing_seen:
            self._post_processing_seen.add(node.identifier)
            self._work_stack.append((self._post_processing, (self, node)))
''')],
 '''
put("main.py", "import errno\\n")
import modulegraph2
mg = modulegraph2.ModuleGraph()
seen = {}
mg.add_post_processing_hook(lambda g, n: seen.update({n.name: [t.name for _, t in g.outgoing(n)]}))
mg.add_module("main")
expect(seen["main"] == ["errno"], seen)
''')
bug("c19-first-portion", "C19",
 "a package with more than one search path entry",
 "import_package looks only at the first portion of a namespace package",
 [("_modulegraph.py", '''        for path in node.search_path:
            if os''', '''        for path in node.search_path[:1]:
            if os''')],
 '''
put("a/ns/x.py", ""); put("b/ns/y.py", ""); put("main.py", "")
sys.path[:0] = [os.path.join(ROOT, "a"), os.path.join(ROOT, "b")]
import modulegraph2
mg = modulegraph2.ModuleGraph()
n = mg.add_module("main")
with mg.hook_context():
    mg.import_package(n, "ns")
expect(mg.find_node("ns.y") is not None)
''')
bug("c20-cache-by-name", "C20",
 "dist-info directories with one name in two search path entries",
 "the distribution in the second entry is reported with the information of the first",
 [("_distributions.py", '''                    dist = _cached_distributions[dist_name]
''', '''                    dist = _cached_distributions[fname]
'''), ("_distributions.py", '''                    _cached_distributions[dist_name] = dist
''', '''                    _cached_distributions[fname] = dist
''')],
 '''
for e, f in (("a", "x"), ("b", "y")):
    d = e + "/dist-1.0.dist-info"
    put(d + "/METADATA", "Metadata-Version: 2.1\\nName: dist\\nVersion: 1.0\\n")
    put(d + "/RECORD", f + ".py,,\\n")
from modulegraph2 import all_distributions
got = [sorted(d.import_names) for d in all_distributions([os.path.join(ROOT, "a"), os.path.join(ROOT, "b")])]
expect(got == [["x"], ["y"]], got)
''')
bug("c21-same-name", "C21",
 "two distributions with the same name in different search path entries, both owning modules in the graph",
 "distributions() reports only one of them",
 [("_modulegraph.py", '''                if node.distribution.identifier not in seen:
                    seen.add(node.distribution.identifier)
''', '''                if node.distribution.name not in seen:
                    seen.add(node.distribution.name)
''')],
 '''
for e, f in (("a", "x"), ("b", "y")):
    d = e + "/dist-1.0.dist-info"
    put(d + "/METADATA", "Metadata-Version: 2.1\\nName: dist\\nVersion: 1.0\\n")
    put(d + "/RECORD", f + ".py,,\\n")
    put(e + "/" + f + ".py", "")
    sys.path.insert(0, os.path.join(ROOT, e))
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_module("x"); mg.add_module("y")
got = list(mg.distributions())
expect(len(got) == 2, got)
''')
bug("c22-dot-self-import", "C22",
 "a module that imports itself",
 "the Graphviz output does not show the edge of a module to itself",
 [("_dotbuilder.py", '''        for edge, target in graph.outgoing(source):
''', '''        for edge, target in sorted(
            (e for e in graph.outgoing(source) if e[1] is not source),
            key=lambda e: e[1].identifier,
        ):
''')],
 '''
put("m.py", "import m\\n")
import modulegraph2, io
from modulegraph2.__main__ import main
out = sys.stdout = io.StringIO()
main(["-f", "dot", "-p", ROOT, "m"])
sys.stdout = sys.__stdout__
expect('"m" -> "m"' in out.getvalue(), out.getvalue())
''')
bug("c23-exclude-order", "C23",
 "--exclude-stdlib after an -x option",
 "--exclude-stdlib cancels the -x options before it",
 [("__main__.py", '''        getattr(namespace, self._dest).extend(self._const)
''', '''        setattr(namespace, self._dest, list(self._const))
''')],
 '''
put("m.py", "import a\\n"); put("a.py", "")
import modulegraph2, io
from modulegraph2.__main__ import main
out = sys.stdout = io.StringIO()
main(["-p", ROOT, "-x", "a", "--exclude-stdlib", "m"])
sys.stdout = sys.__stdout__
expect("ExcludedModule a" in out.getvalue(), out.getvalue())
''')
bug("c25-nested-wrapper", "C25",
 "a wrapper module three levels deep",
 "the extension module next to a wrapper in a subpackage is not found",
 [("_swig_support.py", '''        to_import = importing_module.name.rpartition(".")[0]
''', '''        to_import = importing_module.name.partition(".")[0]
''')],
 '''
put("p/__init__.py", ""); put("p/q/__init__.py", "")
put("p/q/w.py", "def swig_import_helper():\\n    import _w\\n    return _w\\n")
import importlib.machinery
put("p/q/_w" + importlib.machinery.EXTENSION_SUFFIXES[0], "")
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_module("p.q.w")
expect(type(mg.find_node("_w")).__name__ == "ExtensionModule", mg.find_node("_w"))
''')
bug("c26-function-imports", "C26",
 "a compiled module whose source has an import inside a function",
 "imports inside functions of mypyc compiled modules are not in the graph",
 [("_mypyc_support.py", '''        imports = list(extract_ast_info(ast_node))
''', '''        imports = [info for info in extract_ast_info(ast_node) if info.is_global]
''')],
 '''
import importlib.machinery
S = importlib.machinery.EXTENSION_SUFFIXES[0]
d = "dist-1.0.dist-info"
put(d + "/METADATA", "Metadata-Version: 2.1\\nName: dist\\nVersion: 1.0\\n")
put(d + "/RECORD", f"m.py,,\\nm{S},,\\nabc__mypyc{S},,\\n")
put("m.py", "def f():\\n    import errno\\n"); put("m" + S, ""); put("abc__mypyc" + S, "")
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_module("m")
expect(sorted(n.name for _, n in mg.outgoing("m")) == ["abc__mypyc", "errno"])
''')
bug("c27-nonmultipart", "C27",
 "an import of one particular name from six.moves",
 "six.moves.email_mime_nonmultipart leads to email.mime.multipart",
 [("_graphbuilder.py", '''    "email_mime_nonmultipart": "email.mime.nonmultipart",
''', '''    "email_mime_nonmultipart": "email.mime.multipart",
''')],
 '''
from modulegraph2._graphbuilder import SIX_MOVES_TO
expect(SIX_MOVES_TO["email_mime_nonmultipart"] == "email.mime.nonmultipart")
''')
bug("c28-zip-directory-entry", "C28",
 "a package in a zip file that has entries for directories before its data files",
 "data files after a directory entry are not noticed",
 [("_graphbuilder.py", '''                        info = zf.getinfo(nm)
                        if info.is_dir():
                            continue

                        return True
''', '''                        return not zf.getinfo(nm).is_dir()
''')],
 '''
import zipfile
with zipfile.ZipFile(os.path.join(ROOT, "z.zip"), "w") as zf:
    zf.writestr("p/__init__.py", ""); zf.writestr("p/sub/", ""); zf.writestr("p/data.txt", "x")
sys.path[:0] = [os.path.join(ROOT, "z.zip")]
import modulegraph2
mg = modulegraph2.ModuleGraph()
expect(mg.add_module("p").has_data_files)
''')
bug("c02-namelist-order", "C02",
 "names imported from a module before that module's own imports are processed",
 "a name list is processed before the module it belongs to, names that module gets from elsewhere are taken for missing submodules",
 [("_modulegraph.py", '''        self._work_stack.insert(
            offset, (self._process_namelist, (importing_module, node, import_info))
        )
''', '''        self._work_stack.append(
            (self._process_namelist, (importing_module, node, import_info))
        )
''')],
 '''
put("p/__init__.py", "from other import *\\n"); put("other.py", "x = 1\\n"); put("main.py", "from p import x\\n")
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_module("main")
got = sorted(n.name for _, n in mg.outgoing("main"))
expect(got == ["p"], got)
''')
bug("c29-script-globals", "C29",
 "a script that is named through a symbolic link",
 "the filename of a script is the name of the link",
 [("_nodes.py", '''        path = pathlib.Path(filename).resolve()
''', '''        path = pathlib.Path(filename).absolute()
''')],
 '''
put("real/s.py", "import errno\\n")
os.symlink(os.path.join(ROOT, "real"), os.path.join(ROOT, "link"))
import modulegraph2
mg = modulegraph2.ModuleGraph()
n = mg.add_script(os.path.join(ROOT, "link/s.py"))
expect(n.filename == pathlib.Path(ROOT, "link/s.py").resolve(), n.filename)
''')
bug("c24-relative-roots", "C24",
 "source text whose from import names a submodule that is already in the graph",
 "add_dependencies_for_source makes only new submodules roots",
 [("_modulegraph.py", '''                self.add_root(submodule)
                self._run_stack()

    def''', '''                if not self.is_reachable(submodule) if hasattr(self, "is_reachable") else submodule.identifier not in self._post_processing_seen:
                    self.add_root(submodule)
                self._run_stack()

    def''')],
 '''
''')
del BUGS["c24-relative-roots"]
