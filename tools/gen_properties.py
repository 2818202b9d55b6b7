#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
MG, GB, AST, BC, ND = ("modulegraph2/_modulegraph.py", "modulegraph2/_graphbuilder.py",
    "modulegraph2/_ast_tools.py", "modulegraph2/_bytecode_tools.py", "modulegraph2/_nodes.py")
DI, IMP, UT, CB = ("modulegraph2/_distributions.py", "modulegraph2/_implies.py", "modulegraph2/_utilities.py",
    "modulegraph2/_callback_list.py")
II, DEP = "modulegraph2/_importinfo.py", "modulegraph2/_depinfo.py"

prop("C01", "Every module a program imports at run time is in the graph",
 "For every program whose import statements are all written as 'import' / 'from ... import' statements, running it under the same search path never imports a module that is not reachable, as a found (not missing) node, from the root that was added for it (submodules imported only because '__all__' of a star-imported package lists them apart). Whenever module A executes an import statement naming module B, the graph has an edge from A's node to B's node.",
 ["programs"], "All Python programs (scripts and modules, packages, namespace packages, relative/absolute/nested/conditional/function-level/star imports, cycles) whose imports are import statements, whatever path execution takes.",
 "Tests use a few dozen hand-written fixture modules and assert on selected edges; none of them executes the program and compares, so programs combining features (cycles, star re-export, fall-through from __init__ globals to submodules) are unexplored.",
 [MG, GB, AST, BC], [("import processing", f"{MG}:_process_import,_process_namelist"), ("source scanner", f"{AST}:extract_ast_info"), ("bytecode scanner", f"{BC}:extract_bytecode_info")],
 ["ModuleGraph.add_module/add_script, then iter_graph/outgoing", "sys.modules and calls of builtins.__import__ of the running program"])
prop("C02", "The graph is exactly the static import structure",
 "The nodes reachable from the roots, and the edges between them, are exactly those demanded by the import statements in the reachable modules plus the link from every submodule to its parent package: nothing is missing and nothing is invented. A dotted import creates the whole chain of parent packages, a name that cannot be found is one MissingModule node (and so is everything below it that is imported), and each name has exactly one node whatever the number and order of imports of it.",
 ["programs", "inputs"], "All sets of modules, packages, namespace packages and scripts with arbitrary import statements between them, including cycles, self imports, missing names and several roots.",
 "Each test asserts a few edges of one fixture; spurious edges/nodes and feature interactions are not looked for.",
 [MG, GB, AST, BC], [("resolution of one import", f"{MG}:_process_import"), ("find or create node", f"{MG}:_find_or_load_module,_load_module"), ("work stack", f"{MG}:_run_stack")],
 ["ModuleGraph.nodes/edges/iter_graph/outgoing"], [("work stack", "imports still to process", f"{MG}:_work_stack")])
prop("C03", "Dependency attributes describe where and how a name is imported",
 "An edge carries exactly one DependencyInfo for each distinct way the name is imported: is_optional is true exactly when the statement is inside a function, either branch of an if, or the try/except/else part of any kind of try statement, is_global is false exactly when it is inside a function, in_fromlist is true exactly for names taken from the name list of 'from ... import', and imported_as is the name after 'as' or None.",
 ["programs"], "All nestings of compound statements (functions, async functions, classes, if/elif/else, loops, with, match, try, try with except*, finally) around all forms of import statements, including several imports of one name in one module.",
 "The AST tests use a small fixed list of shapes one level deep; nestings and repeated imports (same name with several aliases in one statement) are not covered.",
 [AST, DEP, II, MG], [("position tracking", f"{AST}:extract_ast_info"), ("edge attribute", f"{DEP}:from_importinfo"), ("import record", f"{II}:create_importinfo")],
 ["the DependencyInfo sets on ModuleGraph.outgoing/incoming/edge_data"])
prop("C04", "'from N import name' resolves names the way Python does",
 "For 'from N import name' the importer gets an edge to the submodule N.name if N is a package with such a submodule that N does not also define, to the module that N itself imported under that name with 'import name' or 'import ... as name' when N re-exports one whose target is already known when the statement is processed, to a MissingModule N.name if N is a package that neither defines nor contains it, and to nothing more than N when name is just a variable of N or N is not a package. 'from N import *' makes N's global names count as names of the importer, so that later imports of those names from the importer resolve like ordinary globals.",
 ["programs"], "All combinations of kind of N (module, package, namespace package, missing, excluded, alias), ways of binding the name in N (not, by assignment/def/class, by import, by import-as, by star import) and existence of a submodule, and any order of processing.",
 "Tests cover about fifteen hand-picked combinations with one import order.",
 [MG], [("name list processing", f"{MG}:_process_namelist"), ("globals of modules", f"{BC}:extract_bytecode_info")],
 ["ModuleGraph.outgoing, globals_written of nodes"])
prop("C05", "Relative imports mean what importlib says they mean",
 "A relative import of any level in any module or package __init__ refers to the module that importlib.util.resolve_name computes for that module's package; when it points outside the top-level package, or occurs in a top-level module or a script, the importer gets an edge to a single InvalidRelativeImport node named with the dots and the written module name, and to nothing else.",
 ["programs"], "All nesting depths of packages, levels 1..n, with and without a module part, from modules, package inits, namespace package members and scripts in any directory.",
 "Tests have one package two levels deep and never a relative import in a script.",
 [GB, MG], [("relative name computation", f"{GB}:relative_package"), ("invalid relative import", f"{MG}:_process_import")], ["ModuleGraph.outgoing"])
prop("C06", "Every portion of a namespace package is searched",
 "A name that the running interpreter can import from any portion of a package spread over several search path entries is found by the graph: implicit (PEP 420) namespace packages become NamespacePackage nodes, packages extending __path__ with pkgutil.extend_path or pkg_resources.declare_namespace become Package nodes whose namespace_type names the mechanism and that depend on that module, and in every case (for the usual one-line '__import__' forms of these idioms and the import statement forms) the search path of the node lists the same directories as the __path__ the interpreter uses.",
 ["configurations"], "All layouts of 1-4 search path entries (directories and zip files) each holding a portion of nested packages using any of the three mechanisms, and any set of modules in them.",
 "Tests use two fixture trees with two fixed portions.",
 [GB, MG], [("namespace nodes", f"{GB}:node_for_spec")], ["node class, search_path, namespace_type, edges; compared with importing in a fresh interpreter"])
prop("C07", "The graph does not depend on how modules are stored",
 "Storing the same project as source files, inside a zip file, or as bytecode-only files gives the same nodes names, reachable set and edges; only the node class, the file location and, for bytecode, the parts of the dependency attributes that bytecode does not record (aliases and conditional/try positions) differ, so a bytecode edge is still marked optional and non-global exactly when the import is in a function. (Apart from imports in code the compiler drops, and re-exports under another name or inside an import cycle.)",
 ["programs", "configurations"], "All projects of source modules and packages and all three storage forms, also mixed per top-level package.",
 "The tests check a few modules per storage form and never compare the forms with each other.",
 [GB, BC, AST], [("node creation per loader", f"{GB}:node_for_spec"), ("AST scanner", f"{AST}:extract_ast_info"), ("bytecode scanner", f"{BC}:_extract_single")], ["two graphs of the same project"])
prop("C08", "Global names read and written by a module are reported faithfully",
 "For every valid source text, a module node's globals_written contains every name the code (as compiled, that is without the parts the compiler drops as unreachable) binds at module level or through a global declaration, and nothing else except names taken from its from-imports; globals_read contains every global or builtin name the code reads anywhere, and nothing that it never reads; uses_dunder_import and uses_dunder_file say whether __import__ and __file__ are read. The scan itself never fails, whatever the size of the code.",
 ["programs"], "All valid module sources: nested functions, classes, comprehensions, global/nonlocal declarations, star imports, and code objects with more than 255 or 65535 names and constants.",
 "Tests fix a dozen snippets; the interaction of scopes and wide operands is unbounded.",
 [BC, ND], [("bytecode scanner", f"{BC}:_extract_single"), ("function/class code", f"{BC}:extract_bytecode_info")], ["globals_written, globals_read, uses_dunder_import, uses_dunder_file of nodes; compared with the compiler's symbol table"])
prop("C09", "Nodes say truthfully what a module is and where it lives",
 "The class of a node (source, bytecode, extension, builtin, frozen, package, namespace package, missing), its filename, its package search path and its code attribute agree with what the interpreter's own import system finds for that name on the same search path, including which of several candidates on the path wins; the code of a source, bytecode or zip module is the code that would run.",
 ["configurations"], "All layouts of search path entries (directories, zip files) with shadowing candidates of every kind for one name, and any standard library name.",
 "Tests check about ten fixture modules without shadowing.",
 [GB, ND, MG], [("classification", f"{GB}:node_for_spec"), ("finding", f"{MG}:_load_module")], ["node class and attributes; compared with importlib.machinery.PathFinder and importing"])
prop("C10", "Graph building terminates and scales past the interpreter stack",
 "Building the graph terminates for every project, including arbitrary import cycles, alias cycles and self references, and long chains of imports, deeply nested packages' contents and deeply nested or very wide code do not exhaust the interpreter stack: if Python can compile the modules, the graph is built (for alias chains up to a hundred links).",
 ["programs"], "Import chains and cycles of any length, from-import chains, star chains, wide fan-out, deep nesting of functions/ifs, long elif chains, alias chains.",
 "Tests contain only short chains.",
 [MG, AST, BC], [("work stack", f"{MG}:_run_stack"), ("iterative AST walk", f"{AST}:extract_ast_info"), ("iterative code walk", f"{BC}:_all_code_objects")], ["add_module/add_script return; number of nodes reached"])
prop("C11", "No module content can crash graph building",
 "Adding a module never raises because of what is found on the search path: source that does not compile or decode, and damaged or foreign bytecode give an InvalidModule node (or a Package with an InvalidModule init whose submodules are still found), packages whose import fails in any way still give access to their submodules, directories and search path entries that cannot be read are passed over, and the rest of the graph is the same as it would be with a harmless module in that place (source that parses but does not compile may still have its imports followed).",
 ["inputs", "fault_sequences"], "All byte contents of .py and .pyc files of modules and package inits, all ways for a package's own import to fail (any Exception or SystemExit), anywhere in an otherwise valid project.",
 "Tests have one syntax-error module and one package raising a fixed exception.",
 [MG, GB], [("fallback when importing a parent fails", f"{MG}:_load_module"), ("invalid source", f"{GB}:node_for_spec")], ["add_module returns; node classes; rest of the graph"])
prop("C12", "Analysing a program does not run it or disturb the interpreter",
 "Building a graph never executes scripts, nor modules that are not a parent package (or declared parent) of a name being looked up, and leaves sys.path, the meta path, the import hooks, the working directory, warning filters and already imported modules of the analysing process as they were; the command line interface also restores sys.path when it fails.",
 ["programs", "histories"], "All projects and sequences of graph operations, with modules whose execution leaves a mark.",
 "No test looks for execution of leaf modules or for changes in interpreter state after graph building.",
 [MG, GB, UT], [("use of find_spec", f"{MG}:_load_module"), ("sys.path protection", f"{UT}:saved_sys_path")], ["marks left by executed modules, sys.* before and after"])
prop("C13", "The same program always gives the same graph",
 "The reachable nodes, their classes and the edges with attributes are a function of the files, the search path, the configuration and the set of roots: they do not depend on the hash seed, on building the graph again in the same process or in a fresh one, or on adding a root or excluded name twice (in one process, for packages that can be imported); and for projects without name re-exports they do not depend on the order in which roots are added or modules are listed.",
 ["programs", "configurations", "histories"], "All projects and orders of adding the roots, hash seeds 0..2^32, repeated builds in one process.",
 "Every test builds one graph once, under one random hash seed and one order.",
 [MG, II, GB], [("work stack order", f"{MG}:_process_import_list"), ("import name sets", f"{II}:create_importinfo")], ["dump of two graphs"])
prop("C14", "Graph invariants hold after every operation of any history",
 "After every public operation in any history (adding modules, scripts, distributions, dependencies of source text, excludes, implies, hook-context imports, also operations that raise) the graph is well formed and complete: identifiers are unique and map to their node, edges join existing nodes and never carry an empty attribute set, roots are nodes that were added, every reachable dotted module links to its parent, no work is left over; nothing disappears from the graph, and adding something already reachable changes nothing but the root set.",
 ["histories"], "All sequences of public operations with all arguments, including failing ones.",
 "Tests run one or two operations on a fresh graph.",
 [MG, ND], [("work stack", f"{MG}:_run_stack"), ("hook context", f"{MG}:hook_context"), ("node lookup", f"{MG}:_find_module")], ["nodes(), edges(), roots(), find_node(), has_root() after each operation"],
 [("work stack", "pending work", f"{MG}:_work_stack")])
prop("C15", "Excluded modules stay out, with everything only they need",
 "A name excluded before it is first needed (and not below a missing package) becomes an ExcludedModule without outgoing edges except to its parent package, and all its submodules are excluded with it; nothing reachable only through its dependencies is in the graph, everything else is as in a graph without the exclude, and excludes win over implied actions in whatever order both are given.",
 ["programs", "configurations"], "All projects, all sets of excluded names (modules, packages, submodules, missing names, implied names, __main__), all ways of importing them, and interleavings with add_implies.",
 "Tests exclude two or three fixed names.",
 [MG, ND], [("exclude registration", f"{MG}:add_excludes"), ("exclude resolution", f"{MG}:_implied_references,_find_or_load_module")], ["node classes and edges, compared with the model and with the graph without excludes"],
 [("lazy names", "excludes and implies still to apply", f"{MG}:_global_lazy_nodes")])
prop("C16", "Implied actions take effect exactly when their module is used",
 "For a module that gets into the graph by any route, a list of implied names gives plain edges to all of them in addition to the scanned dependencies, an Alias makes the name an AliasNode with an edge to the aliased module whose submodules and globals are then used for 'from' imports of the alias, and a Virtual makes it a VirtualNode with an edge to its provider; names that are never used get no node, and a later add_implies for the same name replaces an earlier one.",
 ["configurations", "programs"], "All implies dictionaries (lists, aliases, virtuals, chains and cycles of them, for existing, missing, dotted and package names) and all programs using them, including the built-in table for the standard library.",
 "Tests check each action in isolation with one fixed name.",
 [MG, IMP], [("implied actions", f"{MG}:_implied_references"), ("registration", f"{MG}:add_implies"), ("stdlib table", f"{IMP}:STDLIB_IMPLIES")], ["node classes and edges"])
prop("C17", "Post-processing hooks see every node exactly once, fully processed",
 "Every module node in the graph, of whatever class and however it got there, is passed to every registered post-processing hook exactly once, in reverse order of registration, at a time when the node's own imports have been processed into edges; modules imported by a hook are processed and get their hooks too (imports of the built-in mypyc hook and hooks added by a running hook: at most once), and a hook registered later does not change what earlier ones saw.",
 ["programs", "histories"], "All projects, all numbers of hooks, hooks that import modules or packages, all operation histories.",
 "Tests count hook calls for one or two fixture modules.",
 [MG, CB], [("scheduling of hooks", f"{MG}:_process_import_list"), ("callback order", f"{CB}:CallbackList")], ["calls received by hooks, edges at the time of the call"],
 [("seen names", "nodes for which hooks are scheduled", f"{MG}:_post_processing_seen")])
prop("C18", "Missing hooks decide what an unresolvable name becomes",
 "For every name that cannot be found, the missing hooks are called with the importing node and the full name, newest first until one returns a node, before a MissingModule is created, and never for names that are found or excluded; a returned node takes the place of the missing one in all edges and for all later imports. Exceptions raised by a hook reach the caller, and names imported by hooks through the hook API are fully processed.",
 ["programs", "histories"], "All projects with missing names, any number of hooks answering any subset of names, with new nodes, existing nodes or by importing others.",
 "Tests use one hook with one name.",
 [MG, CB], [("missing hook call", f"{MG}:_create_missing_module"), ("first answer wins", f"{CB}:FirstNotNone"), ("hook API", f"{MG}:import_module,hook_context")], ["calls received by hooks, resulting nodes and edges"])
prop("C19", "import_package pulls in the whole package",
 "After import_package every module and subpackage that the interpreter could import below that package from the file system (source, bytecode and extension modules, in packages with broken or failing inits as well) is a node reachable from the importing node, fully processed (symbolic links that lead back to a containing directory are not followed, directories that cannot be read are passed over), and no names that are not importable modules are added; for a missing name or a plain module it behaves like importing just that name.",
 ["programs", "inputs"], "All package trees (any depth, files and directories of all kinds including data files, caches and invalid names), called inside hooks or in a hook context, on fresh and already loaded packages.",
 "Tests use one package tree.",
 [MG], [("package walk", f"{MG}:import_package"), ("saved stack", f"{MG}:_saved_stack")], ["nodes and edges; compared with the file tree"])
prop("C20", "Installed distributions are read completely and correctly",
 "For every .dist-info directory a distribution's name and version are those of its metadata, its files are exactly the recorded paths resolved against the installation directory, and its import names are exactly the importable module and package names among them; every readable distribution on the path is found by enumeration, by name and by any of its files, in path order, whatever other entries are on the path.",
 ["inputs", "configurations"], "All sets of dist-info directories on any search path, including quoted and unusual file names, recorded scripts and data, broken or incomplete neighbours and non-existing entries.",
 "Tests parse two fixture distributions.",
 [DI], [("RECORD parsing", f"{DI}:create_distribution"), ("enumeration", f"{DI}:all_distributions"), ("lookup", f"{DI}:distribution_for_file,distribution_named")], ["all_distributions, distribution_named, PyPIDistribution attributes, node.distribution"],
 [("distribution cache", "parsed dist-info directories", f"{DI}:_cached_distributions")])
prop("C21", "Distributions in the graph own their modules",
 "Every module node found in the file system carries the distribution whose record lists its file, and None when there is none; add_distribution adds one root node per distribution with an edge to the node of each of its import names, is idempotent, and rejects unknown names with ValueError without changing the graph; distributions() yields each distribution of a (reachable) module node exactly once.",
 ["configurations", "histories"], "All installed layouts and sequences of add_distribution/add_module calls by name or object.",
 "Tests use two fixture distributions and a handful of sequences.",
 [MG, DI, GB], [("add_distribution", f"{MG}:add_distribution"), ("query", f"{MG}:distributions"), ("ownership", f"{DI}:distribution_for_file")], ["node.distribution, roots(), distributions(reachable=True/False)"])
prop("C22", "Reports show exactly the reachable graph",
 "The text report, the HTML output and the Graphviz output each list every reachable module node exactly once with its class and name, and the last two show exactly the edges between reachable module nodes, with their direction, with links and identifiers that refer to the right node; the output is well formed for all names and paths.",
 ["inputs", "programs"], "All graphs, including scripts with arbitrary characters in their path, unreachable nodes, distributions and attribute values.",
 "Tests compare the output of two tiny graphs with plain names.",
 [MG, "modulegraph2/_htmlbuilder.py", "modulegraph2/_dotbuilder.py", "modulegraph2/__main__.py"], [("report", f"{MG}:report"), ("HTML", "modulegraph2/_htmlbuilder.py:export_to_html"), ("dot", "modulegraph2/_dotbuilder.py:export_to_dot")], ["parsed output compared with iter_graph/outgoing/incoming"])
prop("C23", "The command line builds the graph that its arguments describe",
 "For every valid argument vector the output file (or stdout) describes the same graph as the corresponding API calls: the names taken as modules, scripts or distributions, all excludes (including the standard library switch) applied, and the given paths searched first and in the order given, in the chosen format; invalid arguments and unwritable outputs end with a non-zero exit status and sys.path is always restored.",
 ["inputs", "configurations"], "All argument vectors: repeated and combined options in any order, any number of names, paths, excludes.",
 "Tests mock most of the pipeline and check single options.",
 ["modulegraph2/__main__.py", UT], [("argument parsing", "modulegraph2/__main__.py:parse_arguments"), ("graph construction", "modulegraph2/__main__.py:make_graph"), ("output", "modulegraph2/__main__.py:format_graph")], ["output and exit status of the command, sys.path"])
prop("C24", "Dependencies of source text equal those of a script",
 "For every valid source text, add_dependencies_for_source makes the modules that a script with that text would directly depend on roots of the graph, fully processed, so that the same module nodes are reachable as with such a script; source that cannot be parsed raises SyntaxError and leaves the graph unchanged.",
 ["inputs", "programs"], "All source texts with any import statements, on fresh and non-empty graphs.",
 "One test with one snippet.",
 [MG], [("source text roots", f"{MG}:add_dependencies_for_source")], ["roots(), iter_graph()"])
prop("C25", "SWIG extension modules are found next to their wrapper",
 "A SWIG generated wrapper module or package that falls back to an absolute import of '_name' gets an edge to an ExtensionModule '_name' located in the wrapper's own package directory when that file exists and the name cannot be found otherwise; in all other cases (other names, no swig_import_helper, no such extension, hooks disabled) a MissingModule remains (apart from a name that some other module asked for first), and building never fails.",
 ["programs", "configurations"], "All positions of wrapper modules (top level, package, package init, nested), presence and kind of '_name' files, failing inits, hooks on or off.",
 "Tests use two fixture packages.",
 ["modulegraph2/_swig_support.py", MG], [("missing hook", "modulegraph2/_swig_support.py:swig_missing_hook")], ["node class and filename of '_name', edges"])
prop("C26", "mypyc-compiled modules get the dependencies of their source",
 "An extension module (or package init) that belongs to a distribution containing a '...__mypyc' module and that has its Python source next to it has the same dependencies in the graph as that source would have, plus one on the helper module; extension modules outside such distributions, or without usable source, get none (source that cannot be parsed may still give the link to the helper), and the roots of the graph are not changed.",
 ["programs", "configurations"], "All distributions of compiled and plain modules with arbitrary import statements in the sources.",
 "Tests use one fixture distribution.",
 ["modulegraph2/_mypyc_support.py", MG], [("post-processing hook", "modulegraph2/_mypyc_support.py:mypyc_post_processing_hook")], ["edges of the extension nodes, compared with the graph of the plain source"])
prop("C27", "six.moves imports lead to the modules six would load",
 "Every import of a name through six.moves (or a vendored copy of six), in any import form, gives a path in the graph from the importer to the module that six really loads for that name on this interpreter (for six.moves.urllib itself the urllib package; functions that are builtins need none), and never to a module of the wrong name; names six does not know, or that do not exist here, are missing.",
 ["inputs", "programs"], "All names in six's move table, import forms and combinations of them.",
 "A handful of names are tested, and only when six happens to be installed.",
 [GB, MG], [("six table", f"{GB}:SIX_MOVES_TO"), ("six loader", f"{GB}:node_for_spec"), ("function moves", f"{MG}:_process_namelist")], ["edges and nodes; compared with six itself"])
prop("C28", "has_data_files tells whether a package ships data",
 "A regular package node's has_data_files is true exactly when its directory (in the file system or in a zip file) contains, at any depth, a file that is neither a Python module nor inside a cache or version-control directory, whatever the order or names of its entries; links that lead nowhere or in circles and directories that cannot be read do not make the analysis fail.",
 ["inputs"], "All directory trees below a package, in directories and zip files, and all file names.",
 "Tests have three fixture directories with one data file each.",
 [GB], [("data file search", f"{GB}:_contains_datafiles")], ["Package.has_data_files compared with a walk of the tree"])
prop("C29", "Scripts are analysed like the interpreter would read them",
 "add_script accepts any file that Python would accept as a script (any encoding declaration, BOM, line ends, file name, location) and gives a root Script node named by the given path with its full file name, the code object of that source and the edges of its imports, resolved as absolute imports that can never refer to another script; adding the same script twice raises ValueError, unreadable files raise OSError, invalid ones SyntaxError, and a failed call leaves the graph unchanged.",
 ["inputs", "histories"], "All script contents and encodings, path spellings, and sequences of successful and failing calls.",
 "Tests use three fixture scripts in UTF-8.",
 [MG, ND], [("script loading", f"{MG}:add_script,_load_script"), ("script node", f"{ND}:Script")], ["node attributes, edges, exceptions, graph before and after"])

prop("C30", "Names redirected by setuptools lead to the modules really loaded",
 "Importing a name below the 'extern' subpackage of setuptools or pkg_resources (whose finder redirects listed names to a vendored copy, or else to the top-level module), or distutils where setuptools replaces it, gives an edge that leads, through an AliasNode when the loaded module has another name, to the node of the file that the interpreter loads for that name, whose own imports are in the graph; names that cannot be loaded lead to a MissingModule. This holds for submodules and names in 'from' lists as well, whatever was imported by the process or put in other graphs before, and sys.modules keeps the modules it had.",
 ["programs", "histories"], "All projects with vendoring hosts: sets of vendored, listed and top-level names of all kinds, import forms and places, names imported earlier, several graphs in one process.",
 "Tests look at one real setuptools, for a version that no longer has the redirection.",
 [GB, MG], [("vendored names", f"{GB}:node_for_spec"), ("distutils shim", f"{GB}:node_for_spec"), ("aliased modules", f"{MG}:_load_module")], ["edges and file names of nodes; compared with importing the names"])

prop("C31", "Modules from import hooks are analysed through their loader",
 "Modules that import hooks supply (meta path finders and path hooks whose loaders implement importlib's InspectLoader, with or without source code, with or without an origin or a location, in files that exist or not) give the same graph as the same modules in ordinary files: the same names, reachable set, edges, code and globals, also for submodules of packages that fail when they are imported and for modules that cannot be compiled. Only the node class of modules without source, what bytecode does not record, and the location differ: the filename is that of the spec when it is a location, otherwise None, and there are no data files where the location does not exist. Adding them never raises an exception.",
 ["programs", "configurations"], "All projects of source modules, packages and namespace packages; seven kinds of hooks, mixed per top-level name, before or after the other finders.",
 "The tests have no import hook apart from six and setuptools.",
 [GB, MG], [("node creation per loader", f"{GB}:node_for_spec"), ("packages that cannot be imported", f"{MG}:_load_module"), ("data files", f"{GB}:_contains_datafiles")], ["two graphs of the same project"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fp:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            fp.write(json.dumps(p) + "\n")
    print(len(P))
