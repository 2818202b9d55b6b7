BUGS = {}
BUGS["c05-deep-relative"] = dict(property="C05",
 needs="a relative import with four or more dots",
 breaks="relative imports that climb four or more levels are reported as invalid although they stay in the package",
 edits=[("_graphbuilder.py", '''    bits = importing_module.name.rsplit(".", import_level)
''', '''    # Imports hardly ever climb further than this
    bits = importing_module.name.rsplit(".", min(import_level, 3))
''')],
 demo='''
put("p/__init__.py", ""); put("p/a/__init__.py", ""); put("p/a/b/__init__.py", ""); put("p/a/b/c/__init__.py", "")
put("p/a/b/c/m.py", "from ....target import x\\n"); put("p/target.py", "x = 1\\n")
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_module("p.a.b.c.m")
n = mg.find_node("p.target")
expect(n is not None and type(n).__name__ == "SourceModule", n)
''')
BUGS["c20-record-comma"] = dict(property="C20",
 needs="an installed file whose name contains a comma that is not quoted in RECORD",
 breaks="the distribution no longer lists (and no longer owns) files with a comma in their name",
 edits=[("_distributions.py", '''            relpath = ln.rsplit(",", 2)[0]
''', '''            relpath = ln.split(",", 1)[0] if ln[:1] != '"' else ln.rsplit(",", 2)[0]
''')],
 demo='''
d = "dist-1.0.dist-info"
put(d + "/METADATA", "Metadata-Version: 2.1\\nName: dist\\nVersion: 1.0\\n")
put(d + "/RECORD", "pkg/__init__.py,,\\npkg/a,b.txt,,\\n")
from modulegraph2 import all_distributions
(dist,) = all_distributions([ROOT])
expect(dist.contains_file(os.path.join(ROOT, "pkg/a,b.txt")), dist.files)
''')
BUGS["c15-excluded-grandchild"] = dict(property="C15",
 needs="a name two levels below an excluded package, imported before the level between them",
 breaks="names below an excluded package that are more than one level down are looked up again",
 edits=[("_modulegraph.py", '''            elif isinstance(parent_node, ExcludedModule):
                node = ExcludedModule(module_name)
''', '''            elif (
                isinstance(parent_node, ExcludedModule)
                and module_name.count(".") < 3
            ):
                node = ExcludedModule(module_name)
''')],
 demo='''
put("p/__init__.py", ""); put("p/a/__init__.py", ""); put("p/a/b/__init__.py", ""); put("p/a/b/c.py", "import errno\\n")
put("main.py", "import p.a.b.c\\n")
import modulegraph2
mg = modulegraph2.ModuleGraph()
mg.add_excludes(["p"])
mg.add_module("main")
n = mg.find_node("p.a.b.c")
expect(type(n).__name__ == "ExcludedModule" and mg.find_node("errno") is None, n)
''')
BUGS["c03-async-def"] = dict(property="C03",
 needs="an import inside an 'async def'",
 breaks="imports in async functions are reported as global and not optional",
 edits=[("_ast_tools.py", '''        elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
''', '''        elif type(node) is ast.FunctionDef:
''')],
 demo='''
put("m.py", "async def f():\\n    import errno\\n")
import modulegraph2
mg = modulegraph2.ModuleGraph()
n = mg.add_module("m")
es = [e for e, t in mg.outgoing(n) if t.identifier == "errno"]
expect(info(es[0]) == [(True, False, False, "")], es)
''')
BUGS["c18-missing-cached"] = dict(property="C18",
 needs="a missing hook that answers None, and the same name imported below a missing package",
 breaks="names below a missing package are no longer offered to the missing hooks",
 edits=[("_modulegraph.py", '''            elif isinstance(parent_node, MissingModule):
                node = self._create_missing_module(importing_module, module_name)
''', '''            elif isinstance(parent_node, MissingModule):
                node = MissingModule(module_name)
                self.add_node(node)
                self._process_import_list(node, ())
''')],
 demo='''
put("main.py", "import nope.sub\\n")
import modulegraph2
mg = modulegraph2.ModuleGraph()
seen = []
mg.add_missing_hook(lambda g, i, n: seen.append(n))
mg.add_module("main")
expect(seen == ["nope", "nope.sub"], seen)
''')
