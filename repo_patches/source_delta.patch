From b216f5cdf4d543956426b07463ad9313223aee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 01/68] fix: allow importing sub packages of a FakePackage

The import system reads __spec__ of the parent module, without that attribute
looking up modules below an implicit namespace package in a package whose
__init__ cannot be imported failed with an AssertionError.
---
 modulegraph2/_utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modulegraph2/_utilities.py b/modulegraph2/_utilities.py
index 3683de5..1e15b3d 100644
--- a/modulegraph2/_utilities.py
+++ b/modulegraph2/_utilities.py
@@ -67,6 +67,10 @@ class FakePackage:
         """
         self.__path__ = path
 
+        # The import system uses the spec of a parent package
+        # when importing sub packages.
+        self.__spec__ = None
+
 
 def stdlib_module_names() -> list[str]:
     """
-- 
2.43.0


From 4432e640b03cdcab59ed15da373c04170e5a514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 02/68] fix: imports in a try statement with "except*" are
 optional

---
 modulegraph2/_ast_tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_ast_tools.py b/modulegraph2/_ast_tools.py
index 4efc7aa..2e065b9 100644
--- a/modulegraph2/_ast_tools.py
+++ b/modulegraph2/_ast_tools.py
@@ -10,6 +10,9 @@ from typing import Deque
 
 from ._importinfo import ImportInfo, create_importinfo
 
+# "try: ... except*: ..." has its own node type (new in Python 3.11)
+TRY_NODES = (ast.Try, getattr(ast, "TryStar", ast.Try))
+
 
 def extract_ast_info(node: ast.AST) -> Iterator[ImportInfo]:
     """
@@ -61,7 +64,7 @@ def extract_ast_info(node: ast.AST) -> Iterator[ImportInfo]:
             for child in ast.iter_child_nodes(node):
                 work_q.append((child, True, in_if, in_tryexcept))
 
-        elif isinstance(node, (ast.Try)):
+        elif isinstance(node, TRY_NODES):
             for name, children in ast.iter_fields(node):
                 if name == "finalbody":
                     for child in children:
-- 
2.43.0


From 7dcc1c743ad75ae6713ed7017c671be2190fe96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 03/68] fix: look for data files in all subdirectories of a
 package

The result of the first subdirectory was used for the entire package.
---
 modulegraph2/_graphbuilder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 03a2a5d..ab31fbc 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -117,7 +117,8 @@ def _contains_datafiles(directory: pathlib.Path):
                 continue
 
             elif p.is_dir():
-                return _contains_datafiles(p)
+                if _contains_datafiles(p):
+                    return True
 
             else:
                 return True
-- 
2.43.0


From 8a6690bb0205507125ecf533832a8df5243ab8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 04/68] fix: relative imports in a script are always invalid

The path of the script was treated as a dotted module name.
---
 modulegraph2/_graphbuilder.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index ab31fbc..fcf913e 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -30,6 +30,7 @@ from ._nodes import (
     Module,
     NamespacePackage,
     Package,
+    Script,
     SourceModule,
 )
 
@@ -515,6 +516,10 @@ def node_for_spec(
 def relative_package(importing_module: BaseNode, import_level: int):
     assert import_level > 0
 
+    if isinstance(importing_module, Script):
+        # Scripts are not in a package
+        return None
+
     if isinstance(importing_module, (Package, NamespacePackage)):
         import_level -= 1
 
-- 
2.43.0


From 8c0ab85fc30ecf1fc51544b4497ae57b96053564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 05/68] fix: keep all renames when a from-import names
 something twice

"from mod import name, name as other" recorded only one of the two, which one
depended on the hash seed.
---
 modulegraph2/_ast_tools.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/modulegraph2/_ast_tools.py b/modulegraph2/_ast_tools.py
index 2e065b9..17ed746 100644
--- a/modulegraph2/_ast_tools.py
+++ b/modulegraph2/_ast_tools.py
@@ -47,14 +47,20 @@ def extract_ast_info(node: ast.AST) -> Iterator[ImportInfo]:
                 )
 
         elif isinstance(node, ast.ImportFrom):
-            yield create_importinfo(
-                (node.module or "", None),
-                {(nm.name, nm.asname) for nm in node.names},
-                node.level,
-                in_def,
-                in_if,
-                in_tryexcept,
-            )
+            # The same name can be imported more than once with different
+            # renames, an ImportInfo has at most one rename for each name.
+            names = list(dict.fromkeys((nm.name, nm.asname) for nm in node.names))
+            while names:
+                current = dict(reversed(names))
+                yield create_importinfo(
+                    (node.module or "", None),
+                    current.items(),
+                    node.level,
+                    in_def,
+                    in_if,
+                    in_tryexcept,
+                )
+                names = [item for item in names if item not in current.items()]
 
         elif isinstance(node, ast.If):
             for child in ast.iter_child_nodes(node):
-- 
2.43.0


From b496c8ee62a5b596b0f34ece5313dd9c3d64b08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 06/68] fix: modules with undecodable source or damaged
 bytecode are invalid

Source that cannot be decoded and bytecode that cannot be loaded raised an
exception out of add_module instead of resulting in an InvalidModule node. A
package with an __init__ with such source was not recognized as a package,
which hid its submodules.
---
 modulegraph2/_graphbuilder.py | 54 +++++++++++++++++------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index fcf913e..500341b 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -34,6 +34,23 @@ from ._nodes import (
     SourceModule,
 )
 
+# Exceptions raised when the source or bytecode of a module cannot be used:
+# - SyntaxError: invalid source code
+# - ValueError: source that cannot be decoded, null bytes, invalid bytecode
+# - RecursionError, MemoryError, OverflowError: source that's too complex
+#   for the compiler
+# - ImportError, EOFError, TypeError: invalid bytecode
+INVALID_CODE = (
+    SyntaxError,
+    ValueError,
+    RecursionError,
+    MemoryError,
+    OverflowError,
+    ImportError,
+    EOFError,
+    TypeError,
+)
+
 SIX_MOVES_GLOBALS = {"filter", "input", "map", "range", "xrange", "zip"}
 
 SIX_MOVES_TO = {
@@ -233,34 +250,14 @@ def node_for_spec(
         # Likewise for _frozen_importlib_external._NamespaceLoader
 
         inspect_loader = cast(importlib.abc.InspectLoader, loader)
-        try:
-            source_code = inspect_loader.get_source(spec.name)
-        except SyntaxError:
-            node = InvalidModule(
-                name=spec.name,
-                loader=loader,
-                distribution=(
-                    distribution_for_file(spec.origin, path)
-                    if spec.origin is not None
-                    and loader != importlib.machinery.FrozenImporter
-                    else None
-                ),
-                extension_attributes={},
-                filename=(
-                    pathlib.Path(spec.origin)
-                    if spec.origin is not None
-                    and loader != importlib.machinery.FrozenImporter
-                    else None
-                ),
-                globals_written=set(),
-                globals_read=set(),
-                code=None,
-            )
-            return node, []
-
         ast_imports: Iterable[ImportInfo] | None
         node_type: type[Module] | None = None
 
+        try:
+            source_code = inspect_loader.get_source(spec.name)
+        except INVALID_CODE:
+            node_type = InvalidModule
+
         if source_code is not None:
             filename = spec.origin
             assert filename is not None
@@ -273,7 +270,7 @@ def node_for_spec(
                     flags=ast.PyCF_ONLY_AST,
                     dont_inherit=True,
                 )
-            except SyntaxError:
+            except INVALID_CODE:
                 node_type = InvalidModule
                 ast_imports = None
 
@@ -285,13 +282,14 @@ def node_for_spec(
         try:
             code = inspect_loader.get_code(spec.name)
             assert code is not None
-            bytecode_imports, names_written, names_read = extract_bytecode_info(code)
-        except SyntaxError:
+        except INVALID_CODE:
             node_type = InvalidModule
             bytecode_imports = []
             names_written = set()
             names_read = set()
             code = None
+        else:
+            bytecode_imports, names_written, names_read = extract_bytecode_info(code)
 
         if node_type is None:
             if loader == importlib.machinery.FrozenImporter:
-- 
2.43.0


From b9314382073d8e90753bb1eee572e4a153b979cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 07/68] fix: raise SyntaxError for scripts that cannot be
 decoded

As documented for add_script.
---
 modulegraph2/_modulegraph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 413a063..e66a6d8 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -701,7 +701,11 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         with open(script_path, "rb") as fp:
             source_bytes = fp.read()
 
-        source_code = importlib.util.decode_source(source_bytes)
+        try:
+            source_code = importlib.util.decode_source(source_bytes)
+        except UnicodeDecodeError as exc:
+            raise SyntaxError(f"cannot decode {os.fspath(script_path)!r}") from exc
+
         ast_node = compile(
             source_code,
             os.fspath(script_path),
-- 
2.43.0


From 0a95054c006cc25c120b9130cc90d9d0fc7ba0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 08/68] fix: submodules of aliased and virtual modules are
 missing

Importing a submodule of a name that is only known because of add_implies
failed with an AssertionError. Also don't call missing hooks inside the
exception handler for find_spec, that hid exceptions raised by those hooks.
---
 modulegraph2/_modulegraph.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index e66a6d8..5d40cda 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -601,10 +601,6 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 else:  # pragma: nocover
                     raise
 
-            if spec is None:
-                node = self._create_missing_module(importing_module, module_name)
-                return node
-
         except Exception as exc:
             if not isinstance(exc, ModuleNotFoundError) or "No module named" in str(
                 exc
@@ -623,7 +619,11 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 assert parent not in sys.modules
 
                 spec = importlib.util.find_spec(parent)
-                assert spec is not None
+                if spec is None:
+                    # The parent only exists in the graph, for example
+                    # because it is an alias or virtual module.
+                    return self._create_missing_module(importing_module, module_name)
+
                 loader = spec.loader
                 assert isinstance(loader, importlib.abc.InspectLoader)
                 if loader.is_package(spec.name):
@@ -641,6 +641,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 node = self._create_missing_module(importing_module, module_name)
                 return node
 
+        if spec is None:
+            return self._create_missing_module(importing_module, module_name)
+
         node, imports = node_for_spec(spec, sys.path)
 
         if node.name != module_name:
-- 
2.43.0


From 38ed1b31b6ca27a533971a30bb824cf54778f312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 09/68] fix: find submodules of packages that cannot be
 imported

Packages that raise SystemExit when imported aborted graph building, and the
submodules of packages raising ModuleNotFoundError with a custom message were
missing.
---
 modulegraph2/_modulegraph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 5d40cda..14b821c 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -601,10 +601,10 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 else:  # pragma: nocover
                     raise
 
-        except Exception as exc:
-            if not isinstance(exc, ModuleNotFoundError) or "No module named" in str(
-                exc
-            ):
+        except (Exception, SystemExit) as exc:
+            if not isinstance(
+                exc, ModuleNotFoundError
+            ) or "__path__ attribute not found" not in str(exc):
                 # find_spec actually imports parent packages, which can
                 # cause problems when importing fails for some reason.
                 #
-- 
2.43.0


From 16439d82813acd86e19cc02adfe9edf63cde9a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 10/68] fix: ignore all exceptions when importing an explicit
 namespace package

---
 modulegraph2/_graphbuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 500341b..b793091 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -476,7 +476,7 @@ def node_for_spec(
             # the correct submodule search path.
             try:
                 m = importlib.import_module(node.name)
-            except ImportError:
+            except (Exception, SystemExit):
                 pass
             else:
                 spec.submodule_search_locations = getattr(m, "__path__", [])
-- 
2.43.0


From c75e54b73054e960c69c9d37c63339dc414f2d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 11/68] fix: don't crash on SWIG modules that are not in a
 package

The SWIG hook also crashed when importing the package of the SWIG module fails
with something else than an ImportError.
---
 modulegraph2/_swig_support.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_swig_support.py b/modulegraph2/_swig_support.py
index 12b80ca..65bf4dd 100644
--- a/modulegraph2/_swig_support.py
+++ b/modulegraph2/_swig_support.py
@@ -65,10 +65,13 @@ def swig_missing_hook(
         to_import = importing_module.name
     else:
         to_import = importing_module.name.rpartition(".")[0]
+        if not to_import:
+            # Top-level module, the absolute import is the relative import.
+            return None
 
     try:
         spec = importlib.util.find_spec("." + missing_name, to_import)
-    except ImportError:
+    except (Exception, SystemExit):
         # Loading the package may fail if there's and error. This
         # code assumes that's due to the invalid import by swig and
         # adjusts sys.modules for that before retrying.
-- 
2.43.0


From aa5b9659ff1568530282e7f3dbaaf318d258bbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 12/68] fix: scan bytecode for code with more than 65535 names
 or constants

Such code needs more than one EXTENDED_ARG prefix, the bytecode scanner failed
with an AssertionError.
---
 modulegraph2/_bytecode_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index a89f204..7e36211 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -70,11 +70,11 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
     for offset, inst in enumerate(instructions):
         if inst.opname == "IMPORT_NAME":
             from_inst_offset = 1
-            if instructions[offset - from_inst_offset].opname == "EXTENDED_ARG":
+            while instructions[offset - from_inst_offset].opname == "EXTENDED_ARG":
                 from_inst_offset += 1
 
             level_inst_offset = from_inst_offset + 1
-            if instructions[offset - level_inst_offset].opname == "EXTENDED_ARG":
+            while instructions[offset - level_inst_offset].opname == "EXTENDED_ARG":
                 level_inst_offset += 1
 
             assert (
-- 
2.43.0


From eeb41475faf507a32f019fe2e54e09534d31dc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 13/68] fix: recognize class bodies in bytecode when there are
 many constants

The code object for a class was taken for a function when loading it needs an
EXTENDED_ARG instruction, or when the class refers to variables of a function.
---
 modulegraph2/_bytecode_tools.py | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index 7e36211..21100e7 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -6,6 +6,7 @@ and the use of global names.
 
 import collections
 import dis
+import inspect
 import sys
 import types
 from collections.abc import Iterator
@@ -159,28 +160,15 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
                 const_offset = instructions[offset - 2].arg
             assert const_offset is not None
 
-            if sys.version_info[:2] >= (3, 11):
-                if (
-                    offset >= 2
-                    and instructions[offset - 2].opname == "LOAD_BUILD_CLASS"
-                ):
-                    class_codes.add(code.co_consts[const_offset])
-                elif (
-                    offset >= 3
-                    and instructions[offset - 2].opname == "PUSH_NULL"
-                    and instructions[offset - 3].opname == "LOAD_BUILD_CLASS"
-                ):
-                    class_codes.add(code.co_consts[const_offset])
-                else:
-                    func_codes.add(code.co_consts[const_offset])
+            # Class bodies are the only code objects referenced by MAKE_FUNCTION
+            # that don't use optimized local variables. Looking for
+            # LOAD_BUILD_CLASS is not reliable: there can be other instructions
+            # between that one and the code object.
+            child_code = code.co_consts[const_offset]
+            if child_code.co_flags & inspect.CO_OPTIMIZED:
+                func_codes.add(child_code)
             else:
-                if (
-                    offset >= 3
-                    and instructions[offset - 3].opname == "LOAD_BUILD_CLASS"
-                ):
-                    class_codes.add(code.co_consts[const_offset])
-                else:
-                    func_codes.add(code.co_consts[const_offset])
+                class_codes.add(child_code)
 
     return imports, globals_written, globals_read, func_codes, class_codes
 
-- 
2.43.0


From 980297c08d468ef55fa7d120f8eaf7ca581630a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 14/68] fix: class bodies can read and write global variables

A "global" statement in a class body and references to global names in a class
body were ignored, among others for uses_dunder_file and uses_dunder_import.
---
 modulegraph2/_bytecode_tools.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index 21100e7..9e4a0cd 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -66,6 +66,7 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
     globals_read: set[str] = set()
     func_codes: set[types.CodeType] = set()
     class_codes: set[types.CodeType] = set()
+    class_names: set[str] = set()
     fromvalues: list[tuple[str, str | None]] | None
 
     for offset, inst in enumerate(instructions):
@@ -131,19 +132,31 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
             "STORE_NAME",
             "STORE_GLOBAL",
         ):
-            if is_class_code or is_function_code and inst.opname == "STORE_NAME":
-                continue
-
             const_offset = inst.arg
             assert const_offset is not None
-            globals_written.add(code.co_names[const_offset])
 
-        elif inst.opname == "LOAD_NAME":
-            if is_class_code:
+            if inst.opname == "STORE_NAME" and (is_class_code or is_function_code):
+                class_names.add(code.co_names[const_offset])
                 continue
 
+            globals_written.add(code.co_names[const_offset])
+
+        elif inst.opname == "LOAD_NAME":
             const_offset = inst.arg
             assert const_offset is not None
+
+            # A name in a class body refers to a global unless it was set in
+            # the class body itself. The first instructions in a class body
+            # implicitly copy __name__ to __module__.
+            if is_class_code and (
+                code.co_names[const_offset] in class_names
+                or (
+                    code.co_names[const_offset] == "__name__"
+                    and "__module__" not in class_names
+                )
+            ):
+                continue
+
             globals_read.add(code.co_names[const_offset])
 
         elif inst.opname == "LOAD_GLOBAL":
-- 
2.43.0


From 81c9342eb5aab24a94ab50381a341a1a90744f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 15/68] fix: fill globals_read and globals_written of scripts

---
 modulegraph2/_modulegraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 14b821c..b3051a7 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -16,6 +16,7 @@ from typing import TextIO, cast
 from objectgraph import ObjectGraph
 
 from ._ast_tools import extract_ast_info
+from ._bytecode_tools import extract_bytecode_info
 from ._callback_list import CallbackList, FirstNotNone
 from ._depinfo import DependencyInfo, from_importinfo
 from ._distributions import PyPIDistribution, distribution_named
@@ -726,6 +727,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         )
 
         node = Script(os.fspath(script_path), code)
+        _, node.globals_written, node.globals_read = extract_bytecode_info(code)
         self.add_node(node)
         self._process_import_list(node, imports)
         return node
-- 
2.43.0


From 9c0d4f989691290191c6cb5106e4270398711d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 16/68] fix: follow chains of aliases when processing
 from-imports

---
 modulegraph2/_modulegraph.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index b3051a7..bbd0cde 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -959,10 +959,17 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             ):
                 if isinstance(imported_module, AliasNode):
                     importing_module.globals_written.update(import_info.import_names)
-                    node = self._find_module(imported_module.actual_module)
-                    assert node is not None
+                    seen = set()
+                    while (
+                        isinstance(imported_module, AliasNode)
+                        and imported_module.identifier not in seen
+                    ):
+                        # An alias can refer to another alias
+                        seen.add(imported_module.identifier)
+                        node = self._find_module(imported_module.actual_module)
+                        assert node is not None
+                        imported_module = node
 
-                    imported_module = node
                     if not isinstance(
                         imported_module, (Package, NamespacePackage, Module)
                     ):
-- 
2.43.0


From ab14e4231b9c99c7a13b0c1d151cf1defcd765da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 17/68] fix: run post processing hooks for nodes created by
 missing hooks

---
 modulegraph2/_modulegraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index bbd0cde..3c75224 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -400,6 +400,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         """
         node = self._missing_hook(self, importing_module, module_name)
         if node is not None:
+            # Ensure that post processing hooks are called for this node
+            self._process_import_list(node, ())
             return node
 
         node = MissingModule(module_name)
-- 
2.43.0


From fbad5b4e1abe9526c8b6e8d6b8693dca11c7ae6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:06 +0000
Subject: [PATCH 18/68] fix: the mypyc helper module should not be a root of
 the graph

---
 modulegraph2/_mypyc_support.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modulegraph2/_mypyc_support.py b/modulegraph2/_mypyc_support.py
index 2f15688..968ad74 100644
--- a/modulegraph2/_mypyc_support.py
+++ b/modulegraph2/_mypyc_support.py
@@ -8,7 +8,6 @@ import ast
 import modulegraph2
 
 from ._ast_tools import extract_ast_info
-from ._depinfo import DependencyInfo
 from ._nodes import BaseNode, ExtensionModule, Package
 
 # Mypyc compiles Python code in a package to extension
@@ -85,8 +84,7 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
         return
 
     # Add explicit dependency to the mypy helper extension module
-    helper_node = graph.add_module(helper_module)
-    graph.add_edge(node, helper_node, DependencyInfo(False, True, False, None))
+    graph.import_module(node, helper_module)
 
     source_code = source_filename.read_bytes()
 
-- 
2.43.0


From b3e2963adb897796638327457a208e164b115cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 19/68] fix: a damaged distribution should not hide other
 distributions

All distributions in the same directory that were listed after a ".dist-info"
directory without METADATA or RECORD were ignored, and METADATA without a name
raised an exception.
---
 modulegraph2/_distributions.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index a88d681..bdc5998 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -79,11 +79,13 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
         info = BytesParser().parse(meta_fp)
 
     name = info["Name"]
-    assert isinstance(name, str)
     version = info["Version"]
-    assert isinstance(version, str)
+    if not isinstance(name, str) or not isinstance(version, str):
+        raise ValueError(f"Invalid METADATA in {distribution_file!r}")
 
-    with open(os.path.join(distribution_file, "RECORD")) as record_fp:
+    with open(
+        os.path.join(distribution_file, "RECORD"), encoding="utf-8"
+    ) as record_fp:
         all_suffixes = [".py", ".pyc"] + EXTENSION_SUFFIXES
 
         for ln in record_fp:
@@ -152,7 +154,11 @@ def all_distributions(
                     dist = _cached_distributions[dist_name]
 
                 except KeyError:
-                    dist = create_distribution(dist_name)
+                    try:
+                        dist = create_distribution(dist_name)
+                    except (OSError, ValueError):
+                        # Incomplete or damaged distribution
+                        continue
                     _cached_distributions[dist_name] = dist
 
                 yield dist
-- 
2.43.0


From 7ff9c0e0ffc983993d9750ca814229431147e8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 20/68] fix: ignore files that cannot be imported in
 import_names

The RECORD file can refer to scripts outside of site-packages and to python
files in directories that cannot be a package, the "import names" for those
crashed ModuleGraph.add_distribution.
---
 modulegraph2/_distributions.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index bdc5998..2e8b8c9 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -112,13 +112,16 @@ def create_distribution(distribution_file: str) -> PyPIDistribution:
                 if not relpath.endswith(suffix):
                     continue
 
-                if relpath.endswith("/__init__" + suffix):
-                    import_names.append(
-                        relpath[: -len("/__init__") + -len(suffix)].replace("/", ".")
-                    )
-
-                else:
-                    import_names.append(relpath[: -len(suffix)].replace("/", "."))
+                module_path = relpath[: -len(suffix)]
+                if module_path.endswith("/__init__"):
+                    module_path = module_path[: -len("/__init__")]
+
+                # Files outside of the installation directory, and files
+                # with a dot in their path, are not importable.
+                if all(
+                    part and "." not in part for part in module_path.split("/")
+                ):
+                    import_names.append(module_path.replace("/", "."))
 
                 break
 
-- 
2.43.0


From 20aa5b69a2374716203045af44d92d7bb71ffc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 21/68] fix: escape special characters in HTML and Graphviz
 output

Script nodes are named after the path of the script, which can contain any
character.
---
 modulegraph2/_dotbuilder.py  | 16 ++++++++++++----
 modulegraph2/_htmlbuilder.py |  7 ++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/modulegraph2/_dotbuilder.py b/modulegraph2/_dotbuilder.py
index e8605ad..282430b 100644
--- a/modulegraph2/_dotbuilder.py
+++ b/modulegraph2/_dotbuilder.py
@@ -15,6 +15,14 @@ from objectgraph import EDGE_TYPE, NODE_TYPE  # , ObjectGraph
 from ._modulegraph import ModuleGraph
 
 
+def quote(value: str) -> str:
+    """
+    Return *value* as a quoted string in the DOT language
+    """
+    value = value.replace("\\", "\\\\").replace('"', '\\"')
+    return f'"{value}"'
+
+
 def format_attributes(callable, *args):
     """
     Format the results of *callable* in the format expected
@@ -53,22 +61,22 @@ def export_to_dot(
 
     for source in graph.iter_graph():
         print(
-            f'    "{source.identifier}"{format_attributes(format_node, source)}',
+            f"    {quote(source.identifier)}{format_attributes(format_node, source)}",
             file=file,
         )
         for edge, target in graph.outgoing(source):
             print(
-                f'    "{source.identifier}" -> "{target.identifier}"{format_attributes(format_edge, source, target, edge)}',  # noqa: B950
+                f"    {quote(source.identifier)} -> {quote(target.identifier)}{format_attributes(format_edge, source, target, edge)}",  # noqa: B950
                 file=file,
             )
 
     for idx, (group_name, group_icon, group_items) in enumerate(group_nodes(graph)):
         print(f"subgraph cluster_{idx} {{", file=file)
-        print(f'   label = "{group_name}"', file=file)
+        print(f"   label = {quote(group_name)}", file=file)
         print(f"   shape = {group_icon}", file=file)
         print("   style=filled; color=lightgray", file=file)
         for node in group_items:
-            print(f'   "{node.identifier}"', file=file)
+            print(f"   {quote(node.identifier)}", file=file)
 
         print("}", file=file)
         print(file=file)
diff --git a/modulegraph2/_htmlbuilder.py b/modulegraph2/_htmlbuilder.py
index 2caf3c7..86d5702 100644
--- a/modulegraph2/_htmlbuilder.py
+++ b/modulegraph2/_htmlbuilder.py
@@ -7,6 +7,7 @@ Support code for generating HTML output from a module graph
     package, with modulegraph2 specific functionality in this module.
 """
 
+import html
 import operator
 import textwrap
 from typing import TextIO
@@ -52,7 +53,7 @@ def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
             continue
 
         print(
-            f'<a name="{node.identifier}"><h2>{type(node).__name__} {node.name}</h2></a>',  # noqa:E501, B950
+            f'<a name="{html.escape(node.identifier)}"><h2>{type(node).__name__} {html.escape(node.name)}</h2></a>',  # noqa:E501, B950
             file=file,
         )
         outgoing = list(graph.outgoing(node))
@@ -60,7 +61,7 @@ def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
             print("<p>Depends on:", file=file)
             print(
                 ", ".join(
-                    f'<a href="#{target.identifier}">{target.name}</a>'
+                    f'<a href="#{html.escape(target.identifier)}">{html.escape(target.name)}</a>'  # noqa:E501, B950
                     for _, target in outgoing
                 ),
                 file=file,
@@ -71,7 +72,7 @@ def export_to_html(file: TextIO, graph: ModuleGraph) -> None:
             print("<p>Used by:", file=file)
             print(
                 ", ".join(
-                    f'<a href="#{source.identifier}">{source.name}</a>'
+                    f'<a href="#{html.escape(source.identifier)}">{html.escape(source.name)}</a>'  # noqa:E501, B950
                     for _, source in incoming
                     if source.identifier in reachable
                 ),
-- 
2.43.0


From 2ad5df6f4faf588487e7a7b4c27c18172bd29033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 22/68] fix: add_dependencies_for_source with relative and
 global imports

Relative imports in the source raised a ValueError or added unrelated modules,
and importing a global name from a module added a MissingModule root for that
name.
---
 modulegraph2/_modulegraph.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 3c75224..c19c459 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -204,9 +204,27 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             dont_inherit=True,
         )
         for info in extract_ast_info(ast_node):
-            self.add_module(info.import_module)
+            if info.import_level != 0:
+                # Source code that is not part of a package cannot use
+                # relative imports.
+                continue
+
+            node = self.add_module(info.import_module)
+            if not isinstance(node, (Package, NamespacePackage)):
+                # Only packages contain other modules
+                continue
+
             for name in info.import_names:
-                self.add_module(f"{info.import_module}.{name}")
+                submodule = self._find_or_load_module(
+                    None, f"{info.import_module}.{name}", link_missing_to_parent=False
+                )
+                if isinstance(submodule, MissingModule):
+                    if name in node.globals_written:
+                        continue
+                    self.add_edge(submodule, node, DEFAULT_DEPENDENCY)
+
+                self.add_root(submodule)
+                self._run_stack()
 
     def add_distribution(
         self, distribution: PyPIDistribution | str
-- 
2.43.0


From 7f83c585c9bb7bf2f1248f492c5a7b31f6da480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 23/68] fix: import_package should find all modules in a
 package

Only source files in regular packages were found: extension and bytecode
modules and everything in nested namespace packages were ignored, while
__init__ and __pycache__ were added as submodules. It also raised ValueError
for packages that cannot be imported.
---
 modulegraph2/_modulegraph.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index c19c459..e28140f 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -5,9 +5,9 @@ This module contains the definition of the ModuleGraph class.
 import ast
 import contextlib
 import importlib
+import inspect
 import operator
 import os
-import pathlib
 import sys
 from collections.abc import Callable, Iterable, Iterator
 from types import ModuleType
@@ -334,7 +334,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             self._run_stack()
 
         self.add_edge(importing_module, node, DEFAULT_DEPENDENCY)
-        if not isinstance(node, Package):
+        if not isinstance(node, (Package, NamespacePackage)):
             return node
 
         # This is something not natively supported by
@@ -342,13 +342,16 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         # to find submodules by looking in the filesystem.
         #
 
-        spec = importlib.util.find_spec(package_name)
-        assert spec is not None, f"Graph doesn't reflect reality for {package_name}"
-        for path_name in spec.submodule_search_locations or []:
-            path = pathlib.Path(path_name)
-            for fn in path.glob("*.py"):
-                module = fn.stem
-                if not module.isidentifier():
+        for path in node.search_path:
+            if not path.is_dir():
+                continue
+
+            for fn in path.iterdir():
+                module = inspect.getmodulename(fn)
+                if module is None or not module.isidentifier() or fn.is_dir():
+                    continue
+
+                if module == "__init__":
                     continue
 
                 module_node = self._find_or_load_module(
@@ -363,7 +366,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 )
 
             for fn in path.iterdir():
-                if fn.is_dir() and fn.name.isidentifier():
+                if fn.is_dir() and fn.name.isidentifier() and fn.name != "__pycache__":
                     self._work_stack.append(
                         (self.import_package, (node, f"{package_name}.{fn.name}"))
                     )
-- 
2.43.0


From 262d8fa7f63bf4188973cce77481597de1b5e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 24/68] fix: look for submodules that may be hidden by an
 import in a package

"from package import name" ignored the submodule "package.name" when the
package contains an import with the same name, even if that one is
conditional.
---
 modulegraph2/_modulegraph.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index e28140f..9ef4227 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -1003,7 +1003,6 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     if nm in imported_module.globals_written:
                         # Name exists as a global in the imported module,
                         # it is either a global or an imported module.
-                        found_imported = False
                         for ed_set, tgt in self.outgoing(imported_module):
                             if (
                                 any(nm == ed.imported_as for ed in ed_set)
@@ -1014,10 +1013,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                                     tgt,
                                     from_importinfo(import_info, True, nm.asname),
                                 )
-                                found_imported = True
                                 break
 
-                        if found_imported or isinstance(imported_module, Module):
+                        if isinstance(imported_module, Module):
                             # For packages with a source or bytecode ``__init__``
                             # the ``import_names`` attribute already contains
                             # all from-imported names by way of the bytecode and ast
-- 
2.43.0


From 1b41453e2f09ff1143f370987498c3b425228e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:14 +0000
Subject: [PATCH 25/68] fix: name scripts after their full filename

As documented for Script. A script added using a relative path could be
mistaken for a module with the same name.
---
 modulegraph2/_modulegraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 9ef4227..a8ac8a5 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -8,6 +8,7 @@ import importlib
 import inspect
 import operator
 import os
+import pathlib
 import sys
 from collections.abc import Callable, Iterable, Iterator
 from types import ModuleType
@@ -160,6 +161,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
            SyntaxError: If the script is invalid
         """
+        # A relative path can be the name of a module as well.
+        script_path = pathlib.Path.cwd() / script_path
         node = self._find_module(os.fspath(script_path))
         if node is not None:
             raise ValueError(f"adding {script_path!r} multiple times")
-- 
2.43.0


From 2ecfea5f0f53a2a703eb1c096b0e21f43c0886fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 26/68] fix: link missing submodules to their parent

A MissingModule created while looking for a submodule with the name of a global
in a package is not linked to the package, that link was not added either when
the module is imported later on.
---
 modulegraph2/_modulegraph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index a8ac8a5..de9668f 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -834,6 +834,14 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
         node = self._find_module(module_name)
         if node is not None:
+            if isinstance(node, MissingModule) and link_missing_to_parent:
+                # The node might be created without a link to its parent
+                containing_package, _ = split_package(module_name)
+                if containing_package is not None:
+                    parent_node = self._find_or_load_module(
+                        importing_module, containing_package
+                    )
+                    self.add_edge(node, parent_node, DEFAULT_DEPENDENCY)
             return node
 
         containing_package, _ = split_package(module_name)
-- 
2.43.0


From e50b486f1118bcde94c499d3a929f9fd50902f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 27/68] fix: namespace packages in a package that fails after
 importing them

Building the graph failed with a KeyError when a package imports an implicit
namespace package in that package before raising an exception.
---
 modulegraph2/_modulegraph.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index de9668f..7201be4 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -601,7 +601,19 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
         try:
             try:
-                spec = importlib.util.find_spec(module_name)
+                leftover = None
+                parent = module_name.rpartition(".")[0]
+                if parent and parent not in sys.modules:
+                    # The module is still in sys.modules when importing its
+                    # package failed after importing this module. Ignore it,
+                    # the search path of implicit namespace packages cannot be
+                    # used without the containing package.
+                    leftover = sys.modules.pop(module_name, None)
+                try:
+                    spec = importlib.util.find_spec(module_name)
+                finally:
+                    if leftover is not None:
+                        sys.modules[module_name] = leftover
 
             except ValueError as exc:
                 assert "__spec__" in exc.args[0]
-- 
2.43.0


From d197e483d87b4731e1ca27a262862b63d8019c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 28/68] fix: also link missing submodules to their parent when
 added using the API

---
 modulegraph2/_modulegraph.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 7201be4..c54ff7e 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -181,10 +181,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         Args:
            module_name: Name of the module to import.
         """
-        node = self._find_module(module_name)
-        if node is None:
-            node = self._find_or_load_module(None, module_name)
-
+        node = self._find_or_load_module(None, module_name)
         self.add_root(node)
         self._run_stack()
         return node
@@ -301,10 +298,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         Returns
           The graph node for *import_name*.
         """
-        node = self._find_module(import_name)
-        if node is None:
-            node = self._find_or_load_module(importing_module, import_name)
-
+        node = self._find_or_load_module(importing_module, import_name)
         self.add_edge(importing_module, node, DEFAULT_DEPENDENCY)
         return node
 
@@ -328,12 +322,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
         .. versionadded:: 2.3
         """
-        node = self._find_module(package_name)
-
         with self._saved_stack():
-            if node is None:
-                node = self._find_or_load_module(None, package_name)
-
+            node = self._find_or_load_module(None, package_name)
             self._run_stack()
 
         self.add_edge(importing_module, node, DEFAULT_DEPENDENCY)
-- 
2.43.0


From d7f469a6304b957dad8681b1dd226a68cd8846a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:38 +0000
Subject: [PATCH 29/68] fix: process names in a from-import in a fixed order

The graph depended on the hash seed when one of the imported submodules imports
names from another one.
---
 modulegraph2/_modulegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index c54ff7e..f6b245f 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -1012,7 +1012,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                         return
 
                 importing_module.globals_written.update(import_info.import_names)
-                for nm in import_info.import_names:
+                for nm in sorted(import_info.import_names):
                     if nm in imported_module.globals_written:
                         # Name exists as a global in the imported module,
                         # it is either a global or an imported module.
-- 
2.43.0


From 8539df897de35eaabfe2c02d73cb39948dabcd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:23 +0000
Subject: [PATCH 30/68] fix: find modules below an alias in a package that
 cannot be imported

Looking for the package to replace assumed that the direct parent of the module
is the one that failed.
---
 modulegraph2/_modulegraph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index f6b245f..51eedf9 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -644,7 +644,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 # successfully calling node_for_spec on the parent package,
                 # hence we know that find_spec will be successfull and
                 # will find a pacakge with an __init__.py.
+                #
+                # The exception is not necessarily for the direct parent: the
+                # node for that can be an alias or virtual module.
                 parent = module_name.rpartition(".")[0]
+                while "." in parent and parent.rpartition(".")[0] not in sys.modules:
+                    parent = parent.rpartition(".")[0]
                 assert parent not in sys.modules
 
                 spec = importlib.util.find_spec(parent)
-- 
2.43.0


From a230d9752c9fb75acf29a70267d21ad5cadbf6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 31/68] fix: globals read by type aliases and type parameters
 in a class

The bytecode scanner ignored the LOAD_FROM_DICT_OR_GLOBALS instruction.
---
 modulegraph2/_bytecode_tools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index 9e4a0cd..580391a 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -159,6 +159,12 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
 
             globals_read.add(code.co_names[const_offset])
 
+        elif inst.opname == "LOAD_FROM_DICT_OR_GLOBALS":
+            # Type aliases and type parameters in a class body
+            const_offset = inst.arg
+            assert const_offset is not None
+            globals_read.add(code.co_names[const_offset])
+
         elif inst.opname == "LOAD_GLOBAL":
             const_offset = inst.arg
             assert const_offset is not None
-- 
2.43.0


From 9d9dbb304b35c4875aa5af46c9343b9765cdee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:46 +0000
Subject: [PATCH 32/68] fix: type parameter scopes are not functions

Imports in the body of a generic class (PEP 695) were marked as imports in a
function when scanning bytecode.
---
 modulegraph2/_bytecode_tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modulegraph2/_bytecode_tools.py b/modulegraph2/_bytecode_tools.py
index 580391a..39d3945 100644
--- a/modulegraph2/_bytecode_tools.py
+++ b/modulegraph2/_bytecode_tools.py
@@ -184,6 +184,11 @@ def _extract_single(code: types.CodeType, is_function_code: bool, is_class_code:
             # LOAD_BUILD_CLASS is not reliable: there can be other instructions
             # between that one and the code object.
             child_code = code.co_consts[const_offset]
+            if child_code.co_name.startswith("<generic parameters of "):
+                # Scope for the type parameters of a class or function
+                # (PEP 695), executed as part of the surrounding code.
+                continue
+
             if child_code.co_flags & inspect.CO_OPTIMIZED:
                 func_codes.add(child_code)
             else:
-- 
2.43.0


From 2d340d22253b101ceeca14bb709f3457d3f3829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:46 +0000
Subject: [PATCH 33/68] fix: long dotted names exhaust the interpreter stack

---
 modulegraph2/_modulegraph.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 51eedf9..1c58f95 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -845,14 +845,26 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 # The node might be created without a link to its parent
                 containing_package, _ = split_package(module_name)
                 if containing_package is not None:
-                    parent_node = self._find_or_load_module(
-                        importing_module, containing_package
-                    )
+                    parent_node = self._find_module(containing_package)
+                    if parent_node is None:
+                        parent_node = self._find_or_load_module(
+                            importing_module, containing_package
+                        )
                     self.add_edge(node, parent_node, DEFAULT_DEPENDENCY)
             return node
 
         containing_package, _ = split_package(module_name)
         if containing_package is not None:
+            # Load the containing packages from the outside in: names can
+            # have more components than fit on the interpreter stack.
+            pending: list[str] = []
+            name = split_package(containing_package)[0]
+            while name is not None and self._find_module(name) is None:
+                pending.append(name)
+                name = split_package(name)[0]
+            while pending:
+                self._find_or_load_module(importing_module, pending.pop())
+
             parent_node = self._find_or_load_module(
                 importing_module, containing_package
             )
-- 
2.43.0


From 5bfa207b45b531850bbbe01f9da8a6e4e544f024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:19 +0000
Subject: [PATCH 34/68] fix: modules and scripts that cannot be read or decoded
 are invalid

---
 modulegraph2/_graphbuilder.py | 6 ++++++
 modulegraph2/_modulegraph.py  | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index b793091..04a9547 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -11,6 +11,7 @@ import pathlib
 import sys
 import zipfile
 import zipimport
+import zlib
 from collections.abc import Iterable
 from typing import cast
 
@@ -39,7 +40,9 @@ from ._nodes import (
 # - ValueError: source that cannot be decoded, null bytes, invalid bytecode
 # - RecursionError, MemoryError, OverflowError: source that's too complex
 #   for the compiler
+# - LookupError: encodings that are not a text encoding
 # - ImportError, EOFError, TypeError: invalid bytecode
+# - OSError, zlib.error: files that cannot be read
 INVALID_CODE = (
     SyntaxError,
     ValueError,
@@ -49,6 +52,9 @@ INVALID_CODE = (
     ImportError,
     EOFError,
     TypeError,
+    LookupError,
+    OSError,
+    zlib.error,
 )
 
 SIX_MOVES_GLOBALS = {"filter", "input", "map", "range", "xrange", "zip"}
diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 1c58f95..12d6bcd 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -740,7 +740,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
         try:
             source_code = importlib.util.decode_source(source_bytes)
-        except UnicodeDecodeError as exc:
+        except (UnicodeError, LookupError) as exc:
             raise SyntaxError(f"cannot decode {os.fspath(script_path)!r}") from exc
 
         ast_node = compile(
-- 
2.43.0


From 84775efd2c086508a47170baab5add4b9f291403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:47 +0000
Subject: [PATCH 35/68] fix: modules with undecodable comments are valid

---
 modulegraph2/_graphbuilder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 04a9547..d48b1d1 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -259,10 +259,13 @@ def node_for_spec(
         ast_imports: Iterable[ImportInfo] | None
         node_type: type[Module] | None = None
 
+        undecodable = False
         try:
             source_code = inspect_loader.get_source(spec.name)
         except INVALID_CODE:
-            node_type = InvalidModule
+            # Python can import such a module when the problem
+            # is in a comment.
+            undecodable = True
 
         if source_code is not None:
             filename = spec.origin
@@ -300,7 +303,7 @@ def node_for_spec(
         if node_type is None:
             if loader == importlib.machinery.FrozenImporter:
                 node_type = FrozenModule
-            elif source_code is not None:
+            elif source_code is not None or undecodable:
                 node_type = SourceModule
             else:
                 node_type = BytecodeModule
-- 
2.43.0


From b2b27bc6afc6c5eefe69a4894ede06964bcab276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:48 +0000
Subject: [PATCH 36/68] fix: handle all failures when importing the parent of a
 module

---
 modulegraph2/_modulegraph.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 12d6bcd..467b49b 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -620,7 +620,10 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     sys.modules[module_name] = orig
 
             except AttributeError as exc:  # pragma: no branch
-                if "has no attribute '__path__'" in exc.args[0]:  # pragma: no cover
+                if (
+                    parent in sys.modules
+                    and "has no attribute '__path__'" in exc.args[0]
+                ):  # pragma: no cover
                     # In Python 3.6 finding the spec dotted name
                     # that refers to an attribute of a module will
                     # result in an attribute error instead of returning
@@ -630,10 +633,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 else:  # pragma: nocover
                     raise
 
-        except (Exception, SystemExit) as exc:
-            if not isinstance(
-                exc, ModuleNotFoundError
-            ) or "__path__ attribute not found" not in str(exc):
+        except (Exception, SystemExit):
+            if parent and parent not in sys.modules:
                 # find_spec actually imports parent packages, which can
                 # cause problems when importing fails for some reason.
                 #
@@ -660,10 +661,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
                 loader = spec.loader
                 assert isinstance(loader, importlib.abc.InspectLoader)
-                if loader.is_package(spec.name):
-                    path = spec.origin
-                    assert path is not None
-                    assert path.rpartition(os.sep)[-1].startswith("__init__."), path
+                path = spec.origin
+                if (
+                    path is not None
+                    and os.path.basename(path).startswith("__init__.")
+                    and loader.is_package(spec.name)
+                ):
                     path = os.path.dirname(path)
                     sys.modules[parent] = cast(ModuleType, FakePackage([path]))
                     return self._load_module(importing_module, module_name)
-- 
2.43.0


From 6f8c43bc8bb13c5209022a16c4719b11ccb5849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:13 +0000
Subject: [PATCH 37/68] fix: modules below an alias or virtual module in a
 plain module

---
 modulegraph2/_modulegraph.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 467b49b..dfbfe77 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -653,7 +653,13 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     parent = parent.rpartition(".")[0]
                 assert parent not in sys.modules
 
-                spec = importlib.util.find_spec(parent)
+                try:
+                    spec = importlib.util.find_spec(parent)
+                except ImportError:
+                    # The parent of the alias or virtual module is not
+                    # a package.
+                    spec = None
+
                 if spec is None:
                     # The parent only exists in the graph, for example
                     # because it is an alias or virtual module.
-- 
2.43.0


From cf22a22ad0681eb2261cd573172530072e229d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:52 +0000
Subject: [PATCH 38/68] fix: find modules below an alias for a package in a
 package that fails

---
 modulegraph2/_modulegraph.py | 29 +++++++++++++++++------------
 modulegraph2/_utilities.py   | 14 ++++++++++++++
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index dfbfe77..548b4ed 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -38,7 +38,7 @@ from ._nodes import (
     VirtualNode,
 )
 from ._swig_support import swig_missing_hook
-from ._utilities import FakePackage, split_package
+from ._utilities import FakePackage, missing_package, split_package
 
 ProcessingCallback = Callable[["ModuleGraph", BaseNode], None]
 MissingCallback = Callable[["ModuleGraph", BaseNode | None, str], BaseNode | None]
@@ -591,19 +591,26 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
         try:
             try:
-                leftover = None
+                leftovers = {}
                 parent = module_name.rpartition(".")[0]
-                if parent and parent not in sys.modules:
-                    # The module is still in sys.modules when importing its
-                    # package failed after importing this module. Ignore it,
+                missing = missing_package(module_name)
+                if missing is not None:
+                    # Modules are still in sys.modules when importing their
+                    # package failed after importing them. Ignore those,
                     # the search path of implicit namespace packages cannot be
                     # used without the containing package.
-                    leftover = sys.modules.pop(module_name, None)
+                    leftovers = {
+                        name: module
+                        for name, module in sys.modules.items()
+                        if f"{module_name}.".startswith(f"{name}.")
+                        and name.startswith(f"{missing}.")
+                    }
+                    for name in leftovers:
+                        del sys.modules[name]
                 try:
                     spec = importlib.util.find_spec(module_name)
                 finally:
-                    if leftover is not None:
-                        sys.modules[module_name] = leftover
+                    sys.modules.update(leftovers)
 
             except ValueError as exc:
                 assert "__spec__" in exc.args[0]
@@ -634,7 +641,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     raise
 
         except (Exception, SystemExit):
-            if parent and parent not in sys.modules:
+            parent = missing_package(module_name)
+            if parent is not None:
                 # find_spec actually imports parent packages, which can
                 # cause problems when importing fails for some reason.
                 #
@@ -648,9 +656,6 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 #
                 # The exception is not necessarily for the direct parent: the
                 # node for that can be an alias or virtual module.
-                parent = module_name.rpartition(".")[0]
-                while "." in parent and parent.rpartition(".")[0] not in sys.modules:
-                    parent = parent.rpartition(".")[0]
                 assert parent not in sys.modules
 
                 try:
diff --git a/modulegraph2/_utilities.py b/modulegraph2/_utilities.py
index 1e15b3d..6814910 100644
--- a/modulegraph2/_utilities.py
+++ b/modulegraph2/_utilities.py
@@ -47,6 +47,20 @@ def split_package(name: str) -> tuple[str | None, str]:
     return (package if package != "" else None), name
 
 
+def missing_package(name: str) -> str | None:
+    """
+    Return the outermost package containing *name* that is not
+    in :data:`sys.modules`, or ``None`` if all of them are.
+    """
+    package, _, rest = name.partition(".")
+    while rest:
+        if package not in sys.modules:
+            return package
+        head, _, rest = rest.partition(".")
+        package = f"{package}.{head}"
+    return None
+
+
 class FakePackage:
     """
     Instances of these can be used to represent a fake
-- 
2.43.0


From cb90186627e8071b0c81ae21326d38b244fde8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:18 +0000
Subject: [PATCH 39/68] fix: process the modules of a distribution one by one
 and in a fixed order

---
 modulegraph2/_modulegraph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 548b4ed..ad575d4 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -254,11 +254,13 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         self.add_node(distribution)
         self.add_root(distribution)
 
-        for module_name in distribution.import_names:
+        # Process the modules one by one and in a fixed order: the names that a
+        # module exports are known only after processing its imports.
+        for module_name in sorted(distribution.import_names):
             node = self._find_or_load_module(None, module_name)
             self.add_edge(distribution, node, DEFAULT_DEPENDENCY)
+            self._run_stack()
 
-        self._run_stack()
         return distribution
 
     #
-- 
2.43.0


From 9ea3d04f121aedaf2bc2dddc13210dc31371b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:02 +0000
Subject: [PATCH 40/68] fix: implied actions for a package that refer to its
 own missing or excluded modules

---
 modulegraph2/_modulegraph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index ad575d4..1ca7017 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -884,7 +884,11 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             parent_node = self._find_or_load_module(
                 importing_module, containing_package
             )
-            if isinstance(parent_node, MissingModule):
+            # Implied actions for the package can refer to this module
+            node = self._find_module(module_name)
+            if node is not None:
+                pass
+            elif isinstance(parent_node, MissingModule):
                 node = self._create_missing_module(importing_module, module_name)
             elif isinstance(parent_node, ExcludedModule):
                 node = ExcludedModule(module_name)
-- 
2.43.0


From e6fc3b54a47bed986ee83f58ffc379d0c58c5565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 41/68] fix: don't call callbacks again when a callback adds
 another one

---
 modulegraph2/_callback_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_callback_list.py b/modulegraph2/_callback_list.py
index 2bd7cd5..7a79d52 100644
--- a/modulegraph2/_callback_list.py
+++ b/modulegraph2/_callback_list.py
@@ -64,7 +64,7 @@ class CallbackList(Generic[T]):
           args: Positional arguments for the function
           kwds: Keyword arguments for the function
         """
-        for function in self._callbacks:
+        for function in tuple(self._callbacks):
             function(*args, **kwds)
 
 
@@ -113,7 +113,7 @@ class FirstNotNone(Generic[T]):
         Returns:
           The first not :data:`None` result or :data:`None`
         """
-        for function in self._callbacks:
+        for function in tuple(self._callbacks):
             result = function(*args, **kwds)
             if result is not None:
                 return result
-- 
2.43.0


From ef80a88b71487c901c23b3297346b6f31267d022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 42/68] fix: process all work in add_dependencies_for_source

---
 modulegraph2/_modulegraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 1ca7017..9f8e7af 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -220,6 +220,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 )
                 if isinstance(submodule, MissingModule):
                     if name in node.globals_written:
+                        self._run_stack()
                         continue
                     self.add_edge(submodule, node, DEFAULT_DEPENDENCY)
 
-- 
2.43.0


From 96e7d9bc64a4a02133db4d4fe2772ecf332229a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 43/68] fix: from-import through an alias for a name that a
 missing hook resolves to another node

---
 modulegraph2/_modulegraph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 9f8e7af..5713376 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -1040,9 +1040,11 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     ):
                         # An alias can refer to another alias
                         seen.add(imported_module.identifier)
-                        node = self._find_module(imported_module.actual_module)
-                        assert node is not None
-                        imported_module = node
+                        # (or to a name for which a missing hook returned
+                        # another node)
+                        imported_module = self._find_or_load_module(
+                            imported_module, imported_module.actual_module
+                        )
 
                     if not isinstance(
                         imported_module, (Package, NamespacePackage, Module)
-- 
2.43.0


From 851bc01a41e570591f1e1bb18ea64c81f481bd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 44/68] fix: don't add a MissingModule for a name that was
 resolved while calling the hooks

---
 modulegraph2/_modulegraph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 5713376..b00c5d3 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -421,6 +421,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             self._process_import_list(node, ())
             return node
 
+        node = self._find_module(module_name)
+        if node is not None:
+            # Importing a package in one of the hooks can already have resolved
+            # this name.
+            return node
+
         node = MissingModule(module_name)
         self.add_node(node)
         self._process_import_list(node, ())
-- 
2.43.0


From 60a2cb5b71992496cbb60f9b89673502efd87469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 45/68] fix: import_package for a name that a missing hook
 resolves to another package

---
 modulegraph2/_modulegraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index b00c5d3..5c567e4 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -333,6 +333,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         if not isinstance(node, (Package, NamespacePackage)):
             return node
 
+        # A missing hook can return a package with another name
+        package_name = node.identifier
+
         # This is something not natively supported by
         # importlib, because of this the function tries
         # to find submodules by looking in the filesystem.
-- 
2.43.0


From 1482a13a0e03976f55f6929e0c41bbf4595c233c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 46/68] fix: import_package should ignore entries that aren't
 regular files

---
 modulegraph2/_modulegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 5c567e4..0c2b33e 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -347,7 +347,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
 
             for fn in path.iterdir():
                 module = inspect.getmodulename(fn)
-                if module is None or not module.isidentifier() or fn.is_dir():
+                if module is None or not module.isidentifier() or not fn.is_file():
                     continue
 
                 if module == "__init__":
-- 
2.43.0


From eeeb8d8d5d2cd2b8e1ff48f8a57d58ba05b3aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:13 +0000
Subject: [PATCH 47/68] fix: distributions in relative or not normalized search
 path entries

---
 modulegraph2/_distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_distributions.py b/modulegraph2/_distributions.py
index 2e8b8c9..4b89b97 100644
--- a/modulegraph2/_distributions.py
+++ b/modulegraph2/_distributions.py
@@ -57,7 +57,7 @@ class PyPIDistribution:
         Returns:
            True if *filename* is part of this distribution, otherwise False.
         """
-        return os.fspath(filename) in self.files
+        return os.path.abspath(filename) in self.files
 
 
 def create_distribution(distribution_file: str) -> PyPIDistribution:
@@ -146,6 +146,8 @@ def all_distributions(
         path = sys.path
 
     for entry in path:
+        # The import system uses absolute paths for relative entries
+        entry = os.path.abspath(entry)
         try:
             for fname in os.listdir(entry):
                 if not fname.endswith(".dist-info"):
-- 
2.43.0


From 78919e2e8646e3be773e01305e5e6e134276892f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 48/68] fix: add_dependencies_for_source looks for names in the
 target of an alias

---
 modulegraph2/_modulegraph.py | 42 +++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 0c2b33e..efa0999 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -210,13 +210,16 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                 continue
 
             node = self.add_module(info.import_module)
+            if info.import_names:
+                node = self._resolve_alias(node)
+
             if not isinstance(node, (Package, NamespacePackage)):
                 # Only packages contain other modules
                 continue
 
-            for name in info.import_names:
+            for name in sorted(info.import_names):
                 submodule = self._find_or_load_module(
-                    None, f"{info.import_module}.{name}", link_missing_to_parent=False
+                    None, f"{node.identifier}.{name}", link_missing_to_parent=False
                 )
                 if isinstance(submodule, MissingModule):
                     if name in node.globals_written:
@@ -1009,6 +1012,27 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             offset, (self._process_namelist, (importing_module, node, import_info))
         )
 
+    def _resolve_alias(self, node: BaseNode) -> BaseNode:
+        """
+        Return the node that an alias ultimately refers to.
+
+        Args:
+          node: A node, does not have to be an alias
+
+        Returns:
+          The first node that's not an alias, or an alias node when
+          aliases refer to each other.
+        """
+        seen = set()
+        while isinstance(node, AliasNode) and node.identifier not in seen:
+            # An alias can refer to another alias
+            seen.add(node.identifier)
+            # (or to a name for which a missing hook returned
+            # another node)
+            node = self._find_or_load_module(node, node.actual_module)
+
+        return node
+
     def _process_namelist(
         self,
         importing_module: Module | Package,
@@ -1042,19 +1066,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             ):
                 if isinstance(imported_module, AliasNode):
                     importing_module.globals_written.update(import_info.import_names)
-                    seen = set()
-                    while (
-                        isinstance(imported_module, AliasNode)
-                        and imported_module.identifier not in seen
-                    ):
-                        # An alias can refer to another alias
-                        seen.add(imported_module.identifier)
-                        # (or to a name for which a missing hook returned
-                        # another node)
-                        imported_module = self._find_or_load_module(
-                            imported_module, imported_module.actual_module
-                        )
-
+                    imported_module = self._resolve_alias(imported_module)
                     if not isinstance(
                         imported_module, (Package, NamespacePackage, Module)
                     ):
-- 
2.43.0


From b8534420f16e7cf8efd39b1595393460890e75e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 49/68] fix: SWIG hook: ignore namespace packages with the name
 of the extension

---
 modulegraph2/_swig_support.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_swig_support.py b/modulegraph2/_swig_support.py
index 65bf4dd..3bdaa92 100644
--- a/modulegraph2/_swig_support.py
+++ b/modulegraph2/_swig_support.py
@@ -2,6 +2,7 @@
 Support code that deals with SWIG.
 """
 
+import importlib.machinery
 import importlib.util
 import os
 import sys
@@ -99,7 +100,11 @@ def swig_missing_hook(
 
         del sys.modules[to_import]
 
-    if spec is not None:
+    # The search path of an implicit namespace package cannot be used without
+    # the containing package, therefore check the loader first.
+    if spec is not None and isinstance(
+        spec.loader, importlib.machinery.ExtensionFileLoader
+    ):
         node, imports = node_for_spec(spec, sys.path)
         if not isinstance(node, ExtensionModule):
             # Not an extension after all.
-- 
2.43.0


From eb58df341cd916ace7bf17174268c3d183f3a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 50/68] fix: mypyc hook: ignore source that is too complex for
 the compiler

---
 modulegraph2/_mypyc_support.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modulegraph2/_mypyc_support.py b/modulegraph2/_mypyc_support.py
index 968ad74..01e4626 100644
--- a/modulegraph2/_mypyc_support.py
+++ b/modulegraph2/_mypyc_support.py
@@ -8,6 +8,7 @@ import ast
 import modulegraph2
 
 from ._ast_tools import extract_ast_info
+from ._graphbuilder import INVALID_CODE
 from ._nodes import BaseNode, ExtensionModule, Package
 
 # Mypyc compiles Python code in a package to extension
@@ -86,9 +87,8 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
     # Add explicit dependency to the mypy helper extension module
     graph.import_module(node, helper_module)
 
-    source_code = source_filename.read_bytes()
-
     try:
+        source_code = source_filename.read_bytes()
         ast_node = compile(
             source_code,
             str(source_filename),
@@ -96,7 +96,7 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
             flags=ast.PyCF_ONLY_AST,
             dont_inherit=True,
         )
-    except SyntaxError:
+    except INVALID_CODE:
         return
 
     else:
-- 
2.43.0


From 97b1a9ae857ad7346b3729494b51365f03a8588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 51/68] fix: mypyc hook: choose the helper module in a fixed
 order

---
 modulegraph2/_mypyc_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_mypyc_support.py b/modulegraph2/_mypyc_support.py
index 01e4626..c87ae11 100644
--- a/modulegraph2/_mypyc_support.py
+++ b/modulegraph2/_mypyc_support.py
@@ -67,7 +67,7 @@ def mypyc_post_processing_hook(graph: "modulegraph2.ModuleGraph", node: BaseNode
     #
     # The name check can be made stricter if needed
     # by looking at the prefix as well.
-    for nm in node.distribution.import_names:
+    for nm in sorted(node.distribution.import_names):
         if nm.endswith("__mypyc"):
             # Distribution is mypyc compiled
             helper_module = nm
-- 
2.43.0


From d8bec78487f5ddd4c9205ea0eb1fcbcc8d343d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 52/68] fix: six.moves: names that were missing or referred to
 the wrong module

---
 modulegraph2/_graphbuilder.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index d48b1d1..c1ced11 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -62,11 +62,14 @@ SIX_MOVES_GLOBALS = {"filter", "input", "map", "range", "xrange", "zip"}
 SIX_MOVES_TO = {
     "builtins": "builtins",
     "configparser": "configparser",
+    "collections_abc": "collections.abc",
     "copyreg": "copyreg",
     "cPickle": "pickle",
     "cStringIO": "io",
     "dbm_gnu": "dbm.gnu",
-    "_dummy_thread": "_dummy_thread",
+    "dbm_ndbm": "dbm.ndbm",
+    "_dummy_thread": "_thread",
+    "email_mime_image": "email.mime.image",
     "email_mime_multipart": "email.mime.multipart",
     "email_mime_nonmultipart": "email.mime.nonmultipart",
     "email_mime_text": "email.mime.text",
@@ -86,7 +89,7 @@ SIX_MOVES_TO = {
     "_thread": "_thread",
     "tkinter": "tkinter",
     "tkinter_dialog": "tkinter.dialog",
-    "tkinter_filedialog": "tkinter.FileDialog",
+    "tkinter_filedialog": "tkinter.filedialog",
     "tkinter_scrolledtext": "tkinter.scrolledtext",
     "tkinter_simpledialog": "tkinter.simpledialog",
     "tkinter_ttk": "tkinter.ttk",
@@ -105,10 +108,11 @@ SIX_MOVES_TO = {
     "urllib.request": "urllib.request",
     "urllib.response": "urllib.response",
     "urllib.robotparser": "urllib.robotparser",
+    "urllib_parse": "urllib.parse",
+    "urllib_error": "urllib.error",
+    "urllib_request": "urllib.request",
+    "urllib_response": "urllib.response",
     "urllib_robotparser": "urllib.robotparser",
-    "UserDict": "collections.UserDict",
-    "UserList": "collections.UserList",
-    "UserString": "collections.UserString",
     "winreg": "winreg",
     "xmlrpc_client": "xmlrpc.client",
     "xmlrpc_server": "xmlrpc.server",
@@ -117,9 +121,14 @@ SIX_MOVES_TO = {
     "filterfalse": "itertools",
     "getcwd": "os",
     "getcwdb": "os",
+    "getoutput": "subprocess",
     "intern": "sys",
     "reduce": "functools",
     "reload_module": "importlib",
+    "StringIO": "io",
+    "UserDict": "collections",
+    "UserList": "collections",
+    "UserString": "collections",
     "zip_longest": "itertools",
 }
 
-- 
2.43.0


From 0aa49e27b3705f4ba6f6d2a78fdbc3b993147f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 53/68] fix: six.moves: modules in a package that isn't present
 are missing

---
 modulegraph2/_graphbuilder.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index c1ced11..8c04049 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -387,7 +387,12 @@ def node_for_spec(
             except KeyError:
                 return MissingModule(spec.name), ()
 
-            moved_spec = importlib.util.find_spec(actual_name)
+            try:
+                moved_spec = importlib.util.find_spec(actual_name)
+            except ImportError:
+                # The package containing the moved-to name doesn't exist.
+                moved_spec = None
+
             if moved_spec is None:
                 # The moved-to name doesn't actually exist. This
                 # can happen on systems where parts of the stdlib
-- 
2.43.0


From 88e7a89d40ddab3c3ce9c0d514fa8c2ee0c95f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 54/68] fix: six.moves: builtin functions aren't missing
 modules

---
 modulegraph2/_modulegraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index efa0999..e31d96d 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -1131,7 +1131,8 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                                     importing_module, dep_node, DEFAULT_DEPENDENCY
                                 )
                                 continue
-                        elif (
+
+                        if (
                             isinstance(imported_module, Package)
                             and nm in imported_module.globals_written
                         ):
-- 
2.43.0


From fa963e10ce4a43d96b5a3999ed53035012470eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:31 +0000
Subject: [PATCH 55/68] fix: use excludes, implied actions and missing hooks
 for the target of an alias in sys.modules

---
 modulegraph2/_modulegraph.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index e31d96d..98015df 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -718,17 +718,33 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
             alias_node = AliasNode(module_name, node.name)
             self.add_node(alias_node)
             self._process_import_list(alias_node, ())
-            if self.find_node(node) is None:
-                self.add_node(node)
-                self._process_import_list(node, imports)
-
+            target = self.find_node(node)
+            if target is None:
+                parent_node = None
                 containing_package, _ = split_package(node.name)
                 if containing_package is not None:
-                    # Ensure that the aliased node links back to its package
                     parent_node = self._find_or_load_module(None, containing_package)
-                    self.add_edge(node, parent_node, DEFAULT_DEPENDENCY)
 
-            self.add_edge(alias_node, node, DEFAULT_DEPENDENCY)
+                if (
+                    isinstance(node, MissingModule)
+                    or isinstance(parent_node, ExcludedModule)
+                    or node.name in self._global_lazy_nodes
+                    or self.find_node(node) is not None
+                ):
+                    # Excludes, implied actions and missing hooks are also
+                    # used for the aliased module.
+                    target = self._find_or_load_module(alias_node, node.name)
+
+                else:
+                    target = node
+                    self.add_node(node)
+                    self._process_import_list(node, imports)
+
+                if parent_node is not None:
+                    # Ensure that the aliased node links back to its package
+                    self.add_edge(target, parent_node, DEFAULT_DEPENDENCY)
+
+            self.add_edge(alias_node, target, DEFAULT_DEPENDENCY)
             return alias_node
 
         self.add_node(node)
-- 
2.43.0


From 72d4ad871b662f6b39785353554db9195225c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:22 +0000
Subject: [PATCH 56/68] fix: six.moves: attributes of dependencies on modules
 with moved functions

---
 modulegraph2/_modulegraph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 98015df..b45ac3d 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -1144,7 +1144,9 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                                     importing_module, SIX_MOVES_TO[nm]
                                 )
                                 self.add_edge(
-                                    importing_module, dep_node, DEFAULT_DEPENDENCY
+                                    importing_module,
+                                    dep_node,
+                                    from_importinfo(import_info, False, None),
                                 )
                                 continue
 
-- 
2.43.0


From 27cc55f2285ab2ab34bb79da874a9d76553f89c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:26 +0000
Subject: [PATCH 57/68] fix: six.moves: modules below a moved module that
 cannot be imported

---
 modulegraph2/_modulegraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index b45ac3d..5fb2736 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -686,10 +686,10 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     return self._create_missing_module(importing_module, module_name)
 
                 loader = spec.loader
-                assert isinstance(loader, importlib.abc.InspectLoader)
                 path = spec.origin
                 if (
-                    path is not None
+                    isinstance(loader, importlib.abc.InspectLoader)
+                    and path is not None
                     and os.path.basename(path).startswith("__init__.")
                     and loader.is_package(spec.name)
                 ):
-- 
2.43.0


From 19ae699f2fff92d7637c76a3396bc59acfac15cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 58/68] fix: has_data_files: ignore git repositories, look in
 directories with the name of a module

---
 modulegraph2/_graphbuilder.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 8c04049..570ae00 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -142,17 +142,19 @@ def _contains_datafiles(directory: pathlib.Path):
     """
     try:
         for p in directory.iterdir():
-            if any(p.name.endswith(sfx) for sfx in importlib.machinery.all_suffixes()):
-                # Python module is not a data file
-                continue
-
-            elif p.name in ("__pycache__", ".hg", ".svn", ".hg"):
+            if p.name in ("__pycache__", ".hg", ".svn", ".git"):
                 continue
 
             elif p.is_dir():
                 if _contains_datafiles(p):
                     return True
 
+            elif any(
+                p.name.endswith(sfx) for sfx in importlib.machinery.all_suffixes()
+            ):
+                # Python module is not a data file
+                continue
+
             else:
                 return True
 
@@ -171,8 +173,8 @@ def _contains_datafiles(directory: pathlib.Path):
             for nm in zf.namelist():
                 if nm.startswith(path):
                     if any(
-                        part in ("__pycache__", ".hg", ".svn", ".hg")
-                        for part in nm.split("/")
+                        part in ("__pycache__", ".hg", ".svn", ".git")
+                        for part in nm[len(path) :].split("/")  # noqa: E203
                     ):
                         continue
 
-- 
2.43.0


From ecd2e5b385d21e1fc37cfceee3cf9d0b10fb7a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 59/68] fix: has_data_files: don't follow symbolic links to the
 same directory again

---
 modulegraph2/_graphbuilder.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 570ae00..15d04fe 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -133,20 +133,29 @@ SIX_MOVES_TO = {
 }
 
 
-def _contains_datafiles(directory: pathlib.Path):
+def _contains_datafiles(
+    directory: pathlib.Path, visited: set[pathlib.Path] | None = None
+):
     """
     Returns true iff *directory* is contains package data
 
     This works both when *directory* is a path on a filesystem
     and when *directory* points into a zipped directory.
+
+    *visited* contains the directories that were checked already, symbolic
+    links can refer to a containing directory.
     """
+    if visited is None:
+        visited = set()
+    visited.add(directory.resolve())
+
     try:
         for p in directory.iterdir():
             if p.name in ("__pycache__", ".hg", ".svn", ".git"):
                 continue
 
             elif p.is_dir():
-                if _contains_datafiles(p):
+                if p.resolve() not in visited and _contains_datafiles(p, visited):
                     return True
 
             elif any(
-- 
2.43.0


From 7d6ef4e787bf16e47d3b1a692bbcd9ac1082ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:37 +0000
Subject: [PATCH 60/68] fix: has_data_files: ignore unreadable directories
 below a package

---
 modulegraph2/_graphbuilder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 15d04fe..df07f81 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -167,6 +167,10 @@ def _contains_datafiles(
             else:
                 return True
 
+    except PermissionError:
+        # The directory cannot be inspected, it might contain anything
+        return True
+
     except (NotADirectoryError, FileNotFoundError):
         names: list[str] = []
         while not directory.exists():
-- 
2.43.0


From c9e362eeb7da00cf3d89587d8fa126e66c47c886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:44 +0000
Subject: [PATCH 61/68] fix: import_package: ignore directories that cannot be
 read

---
 modulegraph2/_modulegraph.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 5fb2736..0726d79 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -345,12 +345,19 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         #
 
         for path in node.search_path:
-            if not path.is_dir():
+            try:
+                entries = list(path.iterdir())
+            except OSError:
+                # Not a directory, or not readable
                 continue
 
-            for fn in path.iterdir():
+            for fn in entries:
                 module = inspect.getmodulename(fn)
-                if module is None or not module.isidentifier() or not fn.is_file():
+                if (
+                    module is None
+                    or not module.isidentifier()
+                    or not os.path.isfile(fn)
+                ):
                     continue
 
                 if module == "__init__":
@@ -367,8 +374,12 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     (self.import_package, (node, f"{package_name}.{module}"))
                 )
 
-            for fn in path.iterdir():
-                if fn.is_dir() and fn.name.isidentifier() and fn.name != "__pycache__":
+            for fn in entries:
+                if (
+                    os.path.isdir(fn)
+                    and fn.name.isidentifier()
+                    and fn.name != "__pycache__"
+                ):
                     self._work_stack.append(
                         (self.import_package, (node, f"{package_name}.{fn.name}"))
                     )
-- 
2.43.0


From 1743133b4455b7fb7d17390b59dbc3405a3810e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 62/68] fix: import_package: symbolic links to a containing
 directory

---
 modulegraph2/_modulegraph.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 0726d79..17ee91e 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -344,7 +344,20 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         # to find submodules by looking in the filesystem.
         #
 
+        # Symbolic links can refer to a directory that contains them, don't
+        # look for modules in those directories again.
+        containing: set[str] = set()
+        name, _ = split_package(package_name)
+        while name is not None:
+            package = self._find_module(name)
+            if isinstance(package, (Package, NamespacePackage)):
+                containing.update(os.path.realpath(p) for p in package.search_path)
+            name, _ = split_package(name)
+
         for path in node.search_path:
+            if os.path.realpath(path) in containing:
+                continue
+
             try:
                 entries = list(path.iterdir())
             except OSError:
-- 
2.43.0


From 77647134bf257f68e0e1092df2256da98a24b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 63/68] fix: scripts: let the compiler decode the source

---
 modulegraph2/_modulegraph.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 17ee91e..bb8fff3 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -807,22 +807,22 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         with open(script_path, "rb") as fp:
             source_bytes = fp.read()
 
+        # The compiler decodes the source in the same way as the interpreter
         try:
-            source_code = importlib.util.decode_source(source_bytes)
+            ast_node = compile(
+                source_bytes,
+                os.fspath(script_path),
+                "exec",
+                flags=ast.PyCF_ONLY_AST,
+                dont_inherit=True,
+            )
         except (UnicodeError, LookupError) as exc:
             raise SyntaxError(f"cannot decode {os.fspath(script_path)!r}") from exc
 
-        ast_node = compile(
-            source_code,
-            os.fspath(script_path),
-            "exec",
-            flags=ast.PyCF_ONLY_AST,
-            dont_inherit=True,
-        )
         imports = extract_ast_info(ast_node)
 
         code = compile(
-            source_code,
+            source_bytes,
             os.fspath(script_path),
             "exec",
             dont_inherit=True,
-- 
2.43.0


From 9dbcc57120025193fea63b6a4c540c073f960edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 64/68] fix: recognise explicit namespace packages that use
 import statements

The documented way to use pkgutil.extend_path() (using an import statement),
and namespace packages without source, were treated as regular packages
with a single directory.
---
 modulegraph2/_graphbuilder.py | 48 ++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index df07f81..ee30a12 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -9,6 +9,7 @@ import importlib.machinery
 import importlib.util
 import pathlib
 import sys
+import types
 import zipfile
 import zipimport
 import zlib
@@ -503,12 +504,8 @@ def node_for_spec(
         if node_file is not None:
             node_file = node_file.parent
 
-        namespace_type = None
-        if (
-            source_code is not None
-            and "__import__" in node.globals_read
-            and any(nm in source_code for nm in ("pkg_resources", "pkgutil"))
-        ):
+        namespace_type = _explicit_namespace_type(node)
+        if namespace_type is not None:
             # This might be an explicit namespace package using
             # setuptools or pkgutil. Import the package to fetch
             # the correct submodule search path.
@@ -519,12 +516,6 @@ def node_for_spec(
             else:
                 spec.submodule_search_locations = getattr(m, "__path__", [])
 
-            if "pkg_resources" in source_code:
-                namespace_type = "pkg_resources"
-            else:
-                assert "pkgutil" in source_code
-                namespace_type = "pkgutil"
-
         assert spec.submodule_search_locations is not None
         node_class: type[Package]
         if loader == importlib.machinery.FrozenImporter:
@@ -549,6 +540,39 @@ def node_for_spec(
     return node, imports
 
 
+def _explicit_namespace_type(node: Module) -> str | None:
+    """
+    Return the name of the library that is used by the ``__init__``
+    module *node* of a package to declare that the package is a namespace
+    package, or None when it is a regular package.
+    """
+    names: set[str] = set()
+    strings: set[str] = set()
+
+    todo = [] if node.code is None else [node.code]
+    while todo:
+        code = todo.pop()
+        names.update(code.co_names)
+        for value in code.co_consts:
+            if isinstance(value, types.CodeType):
+                todo.append(value)
+            elif isinstance(value, str):
+                strings.add(value)
+
+    for library, function in (
+        ("pkg_resources", "declare_namespace"),
+        ("pkgutil", "extend_path"),
+    ):
+        # The library is imported with an import statement or with
+        # the idiom "__import__('library').function(...)"
+        if function in names and (
+            library in names or ("__import__" in names and library in strings)
+        ):
+            return library
+
+    return None
+
+
 def relative_package(importing_module: BaseNode, import_level: int):
     assert import_level > 0
 
-- 
2.43.0


From 69196c0263f29bfc2030dd580ed5662d7c019079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 65/68] fix: six.moves for a copy of six below a package named
 moves

---
 modulegraph2/_graphbuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index ee30a12..1dacec1 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -397,7 +397,7 @@ def node_for_spec(
             # NOTE: Disabling E203 is necessary due to a conflict between flake8 and
             # black. The formatting from black appears to be more correct.
 
-            relative_name = spec.name[spec.name.find(".moves.") + 7 :]  # noqa: E203
+            relative_name = spec.name[spec.name.rfind(".moves.") + 7 :]  # noqa: E203
             try:
                 actual_name = SIX_MOVES_TO[relative_name]
             except KeyError:
-- 
2.43.0


From cc295ff499ab701cbe0601f82589e56ee5577ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:16 +0000
Subject: [PATCH 66/68] fix: star imports of a module through an alias

The names of the module were not added to the importing module, later
imports of those names from a package resulted in bogus missing modules.
---
 modulegraph2/_modulegraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index bb8fff3..78c03d7 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -1097,6 +1097,7 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
         """
         assert isinstance(importing_module, (Module, Package, Script))
         if import_info.star_import:
+            imported_module = self._resolve_alias(imported_module)
             if isinstance(imported_module, (Package, Module)):
                 importing_module.globals_written.update(imported_module.globals_written)
 
-- 
2.43.0


From f51360c2a05a813224f075d2901d505b5bd0831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:55 +0000
Subject: [PATCH 67/68] fix: vendored names that are not vendored, and
 redirected names after importing them

---
 modulegraph2/_graphbuilder.py | 60 ++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 1dacec1..549a9fb 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -207,6 +207,31 @@ def _contains_datafiles(
     return False
 
 
+def _find_own_spec(name: str) -> importlib.machinery.ModuleSpec | None:
+    """
+    Find the spec for *name* itself.
+
+    The importers for redirected names return the module with another name,
+    after importing such a name the ``__spec__`` of that module is the one for
+    the redirected name.
+
+    Args:
+      name: Absolute module name
+
+    Returns:
+      The spec, or :data:`None` when there is no such module
+    """
+    spec = importlib.util.find_spec(name)
+    if spec is not None and spec.name != name:
+        orig = sys.modules.pop(name)
+        try:
+            importlib.invalidate_caches()
+            spec = importlib.util.find_spec(name)
+        finally:
+            sys.modules[name] = orig
+    return spec
+
+
 def node_for_spec(
     spec: importlib.machinery.ModuleSpec, path: list[str]
 ) -> tuple[BaseNode, Iterable[ImportInfo]]:
@@ -404,7 +429,7 @@ def node_for_spec(
                 return MissingModule(spec.name), ()
 
             try:
-                moved_spec = importlib.util.find_spec(actual_name)
+                moved_spec = _find_own_spec(actual_name)
             except ImportError:
                 # The package containing the moved-to name doesn't exist.
                 moved_spec = None
@@ -415,17 +440,6 @@ def node_for_spec(
                 # are not present, such as some Linux distributions.
                 return MissingModule(actual_name), ()
 
-            if moved_spec.name == spec.name:
-                print(moved_spec.name, spec.name, actual_name, file=sys.stderr)
-                del sys.modules[actual_name]
-                importlib.invalidate_caches()
-                moved_spec = importlib.util.find_spec(actual_name)
-                if moved_spec is None:
-                    # The moved-to name doesn't actually exist. This
-                    # can happen on systems where parts of the stdlib
-                    # are not present, such as some Linux distributions.
-                    return MissingModule(actual_name), ()
-
             assert (
                 spec.name != moved_spec.name
             ), f"Spec and moved_spec are the same ({spec.name})"
@@ -457,16 +471,14 @@ def node_for_spec(
 
         relative_name = spec.name[len(root_name) + 1 :]  # noqa: E203
 
-        try:
-            moved_spec = importlib.util.find_spec(f"{vendor_pkg}.{relative_name}")
-            if moved_spec is not None and moved_spec.name == spec.name:
-                # In pkg_resources the *vendor_pkg* points to the *root_name*
-                # in sys.path. Below is a crude hack to work arount that...
-                del sys.modules[f"{vendor_pkg}.{relative_name}"]
-                importlib.invalidate_caches()
-                moved_spec = importlib.util.find_spec(f"{vendor_pkg}.{relative_name}")
-        except ModuleNotFoundError:
-            moved_spec = importlib.util.find_spec(relative_name)
+        moved_spec = None
+        for name in (f"{vendor_pkg}.{relative_name}", relative_name):
+            try:
+                moved_spec = _find_own_spec(name)
+            except ModuleNotFoundError:
+                continue
+            if moved_spec is not None:
+                break
 
         if moved_spec is None:
             return MissingModule(f"{vendor_pkg}.{relative_name}"), ()
@@ -482,9 +494,7 @@ def node_for_spec(
         # The distutils_hack loader is used by newer versions of setuptools
         # to fully replace the stdlib version of distutils.
         assert spec.name == "distutils", spec.name
-        del sys.modules["setuptools._distutils"]
-        importlib.invalidate_caches()
-        moved_spec = importlib.util.find_spec("setuptools._distutils")
+        moved_spec = _find_own_spec("setuptools._distutils")
         if moved_spec is None:  # pragma: no branch
             return MissingModule("distutils"), ()  # pragma: no cover
         assert (
-- 
2.43.0


From dd9458ebffc34d41714f582d2b3d9e747ffbaf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 68/68] fix: modules from import hooks that are not in a file

Modules found by an import hook need not have an origin or a location in the
filesystem: adding such modules to the graph raised exceptions, treated
origins that are not a location as a filename, and did not find submodules of
packages that cannot be imported.
---
 modulegraph2/_graphbuilder.py | 31 ++++++++++++++++---------------
 modulegraph2/_modulegraph.py  |  6 ++----
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/modulegraph2/_graphbuilder.py b/modulegraph2/_graphbuilder.py
index 549a9fb..7eb5714 100644
--- a/modulegraph2/_graphbuilder.py
+++ b/modulegraph2/_graphbuilder.py
@@ -318,13 +318,10 @@ def node_for_spec(
             undecodable = True
 
         if source_code is not None:
-            filename = spec.origin
-            assert filename is not None
-
             try:
                 ast_node = compile(
                     source_code,
-                    filename,
+                    spec.origin or "<string>",
                     "exec",
                     flags=ast.PyCF_ONLY_AST,
                     dont_inherit=True,
@@ -358,22 +355,18 @@ def node_for_spec(
             else:
                 node_type = BytecodeModule
 
+        # Modules from an import hook don't have to be in a file, and modules
+        # are not in a file when their "origin" is not a location.
+        is_file = spec.origin is not None and spec.has_location
+
         node = node_type(
             name=spec.name,
             loader=loader,
             distribution=(
-                distribution_for_file(spec.origin, path)
-                if spec.origin is not None
-                and loader != importlib.machinery.FrozenImporter
-                else None
+                distribution_for_file(spec.origin, path) if is_file else None
             ),
             extension_attributes={},
-            filename=(
-                pathlib.Path(spec.origin)
-                if spec.origin is not None
-                and loader != importlib.machinery.FrozenImporter
-                else None
-            ),
+            filename=(pathlib.Path(spec.origin) if is_file else None),
             globals_written=names_written,
             globals_read=names_read,
             code=code,
@@ -533,6 +526,14 @@ def node_for_spec(
         else:
             node_class = Package
 
+        has_data_files = False
+        if node_file is not None:
+            try:
+                has_data_files = _contains_datafiles(node_file)
+            except (NotADirectoryError, FileNotFoundError):
+                # The location only means something to the loader
+                pass
+
         package = node_class(
             name=node.name,
             loader=node.loader,
@@ -541,7 +542,7 @@ def node_for_spec(
             filename=node_file,
             init_module=node,
             search_path=[pathlib.Path(loc) for loc in spec.submodule_search_locations],
-            has_data_files=node_file is not None and _contains_datafiles(node_file),
+            has_data_files=has_data_files,
             namespace_type=namespace_type,
         )
 
diff --git a/modulegraph2/_modulegraph.py b/modulegraph2/_modulegraph.py
index 78c03d7..911543f 100644
--- a/modulegraph2/_modulegraph.py
+++ b/modulegraph2/_modulegraph.py
@@ -710,15 +710,13 @@ class ModuleGraph(ObjectGraph[BaseNode | PyPIDistribution, DependencyInfo]):
                     return self._create_missing_module(importing_module, module_name)
 
                 loader = spec.loader
-                path = spec.origin
+                path = spec.submodule_search_locations
                 if (
                     isinstance(loader, importlib.abc.InspectLoader)
                     and path is not None
-                    and os.path.basename(path).startswith("__init__.")
                     and loader.is_package(spec.name)
                 ):
-                    path = os.path.dirname(path)
-                    sys.modules[parent] = cast(ModuleType, FakePackage([path]))
+                    sys.modules[parent] = cast(ModuleType, FakePackage(list(path)))
                     return self._load_module(importing_module, module_name)
 
                 else:
-- 
2.43.0

