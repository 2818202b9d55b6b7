BUGS = {}
def bug(id, prop, needs, breaks, edits, demo):
    BUGS[id] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("c03-finally-inherits", "C03", "an import in the finally part of a try statement that is inside another try statement",
 "such an import is not marked as optional",
 [("_ast_tools.py", '''                    for child in children:
                        work_q.append((child, in_def, in_if, in_tryexcept))
''', '''                    for child in children:
                        work_q.append((child, in_def, in_if, False))
''')], '''
put("m.py", "try:\\n    try:\\n        pass\\n    finally:\\n        import errno\\nexcept Exception:\\n    pass\\n")
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_module("m")
got = info(mg.edge_data("m", "errno"))
expect(got == [(True, True, False, "")], got)
''')
bug("c04-suffix-match", "C04", "a name that is a variable of a module which also imports a submodule with the same last component",
 "the importer of the variable gets a dependency on the unrelated submodule",
 [("_modulegraph.py", '''                                any(nm == ed.imported_as for ed in ed_set)
                                or tgt.identifier == nm
''', '''                                any(nm == ed.imported_as for ed in ed_set)
                                or tgt.identifier.rpartition(".")[-1] == nm
''')], '''
put("p/__init__.py", ""); put("p/foo.py", ""); put("n.py", "import p.foo\\nfoo = 1\\n"); put("main.py", "from n import foo\\n")
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_module("main")
got = sorted(t.name for _, t in mg.outgoing("main"))
expect(got == ["n"], got)
''')
bug("c05-nspkg-init", "C05", "a relative import in the __init__ of an explicit namespace package",
 "the relative import is resolved relative to the containing package",
 [("_graphbuilder.py", '''    if isinstance(importing_module, (Package, NamespacePackage)):
        import_level -= 1
''', '''    if isinstance(importing_module, NamespacePackage) or (
        isinstance(importing_module, Package)
        and importing_module.namespace_type is None
    ):
        import_level -= 1
''')], '''
put("p/__init__.py", "__path__ = __import__('pkgutil').extend_path(__path__, __name__)\\nfrom . import a\\n"); put("p/a.py", "")
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_module("p")
expect(mg.find_node("p.a") is not None)
''')
bug("c06-both-mentioned", "C06", "a namespace package with the usual fallback from pkg_resources to pkgutil",
 "the namespace type is pkgutil although the package uses pkg_resources",
 [("_graphbuilder.py", '''            if "pkg_resources" in source_code:
                namespace_type = "pkg_resources"
            else:
                assert "pkgutil" in source_code
                namespace_type = "pkgutil"
''', '''            if "pkgutil" in source_code:
                namespace_type = "pkgutil"
            else:
                assert "pkg_resources" in source_code
                namespace_type = "pkg_resources"
''')], '''
put("pkg_resources.py", "def declare_namespace(name):\\n    pass\\n")
put("p/__init__.py", "try:\\n    __import__('pkg_resources').declare_namespace(__name__)\\nexcept ImportError:\\n    __path__ = __import__('pkgutil').extend_path(__path__, __name__)\\n")
import modulegraph2
mg = modulegraph2.ModuleGraph()
n = mg.add_module("p")
expect(n.namespace_type == "pkg_resources", n.namespace_type)
''')
bug("c09-resolved-extension", "C09", "an extension module found through a search path entry with a symbolic link",
 "the filename of extension modules is not the one that the interpreter uses",
 [("_graphbuilder.py", '''                distribution_for_file(spec.origin, path)
                if spec.origin is not None
                else None
            ),
            extension_attributes={},
            filename=(pathlib.Path(spec.origin) if spec.origin is not None else None),
            globals_read=set(),
''', '''                distribution_for_file(spec.origin, path)
                if spec.origin is not None
                else None
            ),
            extension_attributes={},
            filename=(
                pathlib.Path(spec.origin).resolve() if spec.origin is not None else None
            ),
            globals_read=set(),
''')], '''
import importlib.machinery
f = put("real/ext" + importlib.machinery.EXTENSION_SUFFIXES[0], "")
os.symlink(os.path.join(ROOT, "real"), os.path.join(ROOT, "link"))
sys.path.insert(0, os.path.join(ROOT, "link"))
import modulegraph2
n = modulegraph2.ModuleGraph().add_module("ext")
expect(str(n.filename) == f.replace("real", "link"), n.filename)
''')
bug("c12-spec-lost", "C12", "a module in sys.modules whose __spec__ is None",
 "adding a module of that name removes it from sys.modules",
 [("_modulegraph.py", '''                orig = sys.modules.pop(module_name)
                try:
                    spec = importlib.util.find_spec(module_name)
                finally:
                    assert module_name not in sys.modules
                    sys.modules[module_name] = orig
''', '''                orig = sys.modules.pop(module_name)
                spec = importlib.util.find_spec(module_name)
                if spec is not None:
                    sys.modules[module_name] = orig
''')], '''
import types
m = sys.modules["nosuch"] = types.ModuleType("nosuch")
m.__spec__ = None
import modulegraph2
modulegraph2.ModuleGraph().add_module("nosuch")
expect(sys.modules.get("nosuch") is m)
''')
bug("c13-memoized-scan", "C13", "a module whose names grow while its imports are processed, analysed again in one process",
 "the result of scanning a code object is shared between graphs",
 [("_bytecode_tools.py", '''    return all_imports, all_globals_written, all_globals_read
''', '''    _scanned[code] = all_imports, all_globals_written, all_globals_read
    return _scanned[code]
'''), ("_bytecode_tools.py", '''def extract_bytecode_info(
''', '''_scanned: dict[types.CodeType, tuple[list[ImportInfo], set[str], set[str]]] = {}


def extract_bytecode_info(
'''), ("_bytecode_tools.py", '''    # Note: This code is iterative''', '''    if code in _scanned:
        return _scanned[code]

    # Note: This code is iterative''')], '''
put("p/__init__.py", "from q import *\\n"); put("q.py", "a = 1\\n"); put("main.py", "from p import a\\n")
import modulegraph2
def build(excludes):
    mg = modulegraph2.ModuleGraph()
    mg.add_excludes(excludes)
    mg.add_module("main")
    return sorted(n.name for n in mg.iter_graph())
build([])
got = build(["q"])
expect("p.a" in got, got)
''')
bug("c15-excluded-names", "C15", "names imported from an excluded package",
 "names imported from an excluded module are added to the graph as excluded modules and linked to it",
 [("_modulegraph.py", '''                imported_module, (Package, NamespacePackage, AliasNode, Module)
            ):
                if isinstance(imported_module, AliasNode)''', '''                imported_module,
                (Package, NamespacePackage, AliasNode, Module, ExcludedModule),
            ):
                if isinstance(imported_module, ExcludedModule):
                    for nm in sorted(import_info.import_names):
                        self.add_edge(
                            importing_module,
                            self._find_or_load_module(
                                importing_module, f"{imported_module.identifier}.{nm}"
                            ),
                            from_importinfo(import_info, True, nm.asname),
                        )
                    return

                if isinstance(imported_module, AliasNode)''')], '''
put("a.py", "x = 1\\n"); put("main.py", "from a import x\\n")
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_excludes(["a"])
mg.add_module("main")
expect(sorted(n.name for n in mg.iter_graph()) == ["a", "main"])
''')
bug("c16-later-ignored", "C16", "add_implies called twice for one name",
 "the first implied action of a name stays in effect",
 [("_modulegraph.py", '''                key not in self._global_lazy_nodes
                or self._global_lazy_nodes[key] is not None
            ):
''', '''                key not in self._global_lazy_nodes
                or not self._global_lazy_nodes[key]
            ):
''')], '''
put("a.py", ""); put("b.py", ""); put("c.py", "")
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_implies({"a": ("b",)}); mg.add_implies({"a": ("c",)})
mg.add_module("a")
got = [n.name for _, n in mg.outgoing("a")]
expect(got == ["c"], got)
''')
bug("c17-no-imports", "C17", "a module without any import statement that is not stored as source",
 "post-processing hooks are not called for extension modules, namespace packages and bytecode modules without imports",
 [("_modulegraph.py", '''        self._process_import_list(node, imports)

        return node
''', '''        if imports:
            self._process_import_list(node, imports)

        return node
''')], '''
import modulegraph2
mg = modulegraph2.ModuleGraph()
seen = []
mg.add_post_processing_hook(lambda g, n: seen.append(n.name))
mg.add_module("errno")
expect(seen == ["errno"], seen)
''')
bug("c19-namespace", "C19", "import_package of a package that contains an implicit namespace package",
 "modules in implicit namespace packages below the package are left out",
 [("_modulegraph.py", '''                    self._work_stack.append(
                        (self.import_package, (node, f"{package_name}.{fn.name}"))
                    )
''', '''                    is_package = any(fn.glob("__init__.*"))
                    self._work_stack.append(
                        (
                            self.import_package if is_package else self.import_module,
                            (node, f"{package_name}.{fn.name}"),
                        )
                    )
''')], '''
put("p/__init__.py", ""); put("p/q/r.py", ""); put("main.py", "")
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_module("p")
with mg.hook_context():
    mg.import_package(mg.add_module("main"), "p")
expect(mg.find_node("p.q.r") is not None)
''')
bug("c20-suffix-order", "C20", "an extension module with the .abi3.so suffix, or another suffix that ends in another one",
 "the names of such extension modules are missing from the import names",
 [("_distributions.py", '''        all_suffixes = [".py", ".pyc"] + EXTENSION_SUFFIXES
''', '''        all_suffixes = sorted([".py", ".pyc"] + EXTENSION_SUFFIXES, key=len)
''')], '''
d = "dist-1.0.dist-info"
put(d + "/METADATA", "Metadata-Version: 2.1\\nName: dist\\nVersion: 1.0\\n")
put(d + "/RECORD", "m.abi3.so,,\\n")
from modulegraph2 import all_distributions
(dist,) = all_distributions([ROOT])
expect(dist.import_names == {"m"}, dist.import_names)
''')
bug("c21-unreachable", "C21", "a module with a distribution that is in the graph without being reachable",
 "distributions(reachable=False) leaves out the distributions of unreachable nodes",
 [("_modulegraph.py", '''        for node in self.iter_graph() if reachable else self.nodes():
''', '''        for node in self.iter_graph() if reachable else self.roots():
''')], '''
d = "dist-1.0.dist-info"
put(d + "/METADATA", "Metadata-Version: 2.1\\nName: dist\\nVersion: 1.0\\n")
put(d + "/RECORD", "m.py,,\\n"); put("m.py", ""); put("main.py", "import m\\n")
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_module("main")
got = list(mg.distributions(reachable=False))
expect(len(got) == 1, got)
''')
bug("c22-truncated-class", "C22", "a node whose class has a name of more than 15 characters",
 "the text report cuts off class names",
 [("_modulegraph.py", '''                "%-15s %-25s %s" % (type(m).__name__, m.identifier, m.filename or ""),
''', '''                "%-15.15s %-25s %s" % (type(m).__name__, m.identifier, m.filename or ""),
''')], '''
put("p/q/m.py", "")
import modulegraph2, io
mg = modulegraph2.ModuleGraph()
mg.add_module("p.q.m")
out = io.StringIO()
mg.report(out)
expect("NamespacePackage p.q" in out.getvalue(), out.getvalue())
''')
bug("c23-known-path", "C23", "a -p option for a directory that is on sys.path already, after another one with the same modules",
 "paths that are on sys.path already are not searched first",
 [("__main__.py", '''        for p in args.path[::-1]:
            sys.path.insert(0, p)
''', '''        for p in args.path[::-1]:
            if p not in sys.path:
                sys.path.insert(0, p)
''')], '''
put("a/m.py", "import errno\\n"); put("b/m.py", "import gc\\n")
sys.path[:0] = [os.path.join(ROOT, "a"), os.path.join(ROOT, "b")]
import modulegraph2, io
from modulegraph2.__main__ import main
out = sys.stdout = io.StringIO()
main(["-p", os.path.join(ROOT, "b"), "m"])
sys.stdout = sys.__stdout__
expect("BuiltinModule gc" in out.getvalue(), out.getvalue())
''')
bug("c26-nested-helper", "C26", "a mypyc helper module inside a package",
 "distributions whose helper module is in a package are not recognized",
 [("_mypyc_support.py", '''        if nm.endswith("__mypyc"):
''', '''        if nm.endswith("__mypyc") and "." not in nm:
''')], '''
import importlib.machinery
S = importlib.machinery.EXTENSION_SUFFIXES[0]
d = "dist-1.0.dist-info"
put(d + "/METADATA", "Metadata-Version: 2.1\\nName: dist\\nVersion: 1.0\\n")
put(d + "/RECORD", f"m.py,,\\nm{S},,\\nq/__init__.py,,\\nq/abc__mypyc{S},,\\n")
put("m.py", "import errno\\n"); put("m" + S, ""); put("q/abc__mypyc" + S, ""); put("q/__init__.py", "")
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_module("m")
expect(sorted(n.name for _, n in mg.outgoing("m")) == ["errno", "q.abc__mypyc"])
''')
bug("c14-exception-order", "C14", "a script that cannot be compiled, added to a graph",
 "after a failed add_script the graph has a root without dependencies",
 [("_modulegraph.py", '''        node = Script(os.fspath(script_path), code)
        _, node''', '''        _, node''')], '''
''')
del BUGS["c14-exception-order"]
bug("c18-none-stops", "C18", "several missing hooks of which a newer one has no answer for the name",
 "only the two newest hooks are asked",
 [("_callback_list.py", '''            result = function(*args, **kwds)
            if result is not None:
                return result
''', '''            result = function(*args, **kwds)
            if result is not None or function is self._callbacks[min(2, len(self._callbacks) - 1)]:
                return result
''')], '''
import modulegraph2
mg = modulegraph2.ModuleGraph(use_builtin_hooks=False)
seen = []
for i in range(4):
    mg.add_missing_hook(lambda g, n, name, i=i: seen.append(i))
mg.add_module("nosuch")
expect(seen == [3, 2, 1, 0], seen)
''')
