"""Number of generated cases per worker and the evidence rule of every check (no code under test is imported here)."""
PROJECT = ("Hypothesis builds whole projects by construction: 1-4 top-level names (modules, packages, implicit namespace "
           "packages, extension files) with up to three levels of submodules, bodies of nested import and binding statements, "
           "0-1 scripts and 1-4 roots. ")
BUDGETS = {
    "C01": dict(quick=600, oracle="differential against running the generated program", rule=PROJECT + "The program is run for real. Non-trivial: it loads at least two of the generated modules."),
    "C02": dict(quick=600, oracle="graph compared with an independent reference model of import resolution", rule=PROJECT + "Non-trivial: the graph has at least two edges."),
    "C03": dict(quick=1000, oracle="dependency attributes compared with a reference model (exact sets)",
                rule=PROJECT + "Statements nest up to four levels. Non-trivial: an import statement inside a compound statement and at least one edge."),
    "C04": dict(quick=800, oracle="name resolution compared with a reference model",
                rule=PROJECT + "Weighted towards from-imports and star imports; one in three has implied actions/excludes. Non-trivial: at least two from-imports are processed."),
    "C05": dict(quick=900, oracle="differential against importlib.util.resolve_name",
                rule=PROJECT + "Weighted towards relative imports of level 1..depth+2; scripts also live inside package directories. Non-trivial: at least two relative imports are processed."),
    "C06": dict(quick=500, oracle="differential against importing the same names",
                rule="Hypothesis lays out 1-4 search path entries (directories and zip files) with portions of nested packages using implicit, pkgutil and pkg_resources (stub) namespaces or regular inits. Non-trivial: a package with at least two portions has an importable module.",
                assumptions=["pkg_resources is replaced by a stub whose declare_namespace extends __path__ like the real one"]),
    "C07": dict(quick=600, oracle="metamorphic: graph of the source form compared with zipped and bytecode-only forms",
                rule=PROJECT + "Every top-level package is stored as source, zip, bytecode or zipped bytecode. Non-trivial: at least one is not stored as plain source and the graph has two edges."),
    "C08": dict(quick=1000, oracle="globals compared with an independent scope analysis of the AST",
                rule="Hypothesis builds source text from a grammar of nested scopes (functions, classes, lambdas, comprehensions, walrus, match, type parameters, global/nonlocal), optionally behind hundreds of names and constants, stored as module, package, script, bytecode or in a zip file. Non-trivial: at least three global names and a nested scope."),
    "C09": dict(quick=900, oracle="differential against importlib's specs and importing",
                rule="Hypothesis lays out 1-3 search path entries (directory, zip file, absent) with 1-3 candidates of 13 kinds for each of a few names at two levels, plus standard library names; the corpus is every standard library name. Non-trivial: a name with several candidates or a standard library name is found."),
    "C10": dict(quick=25, oracle="expected reachable set by construction, and Python's own compiler as judge of what must be accepted",
                rule="Hypothesis picks a shape (import chain or cycle of nine link kinds, code nesting of 22 kinds, fan, alias chain or cycle, deep packages, long dotted names, wide code, random cyclic graphs of packages) and its size; the interpreter's recursion limit is the default of 1000 frames above the caller. Non-trivial: the size is beyond the everyday or there is a cycle."),
    "C11": dict(quick=600, oracle="differential: the same project with harmless modules in the place of the hostile ones",
                rule=PROJECT + "One to three modules or package inits get hostile content: uncompilable or undecodable source, mutated or random bytes, damaged bytecode or caches, failing imports (38 kinds), unreadable files, damaged zip files; the corpus puts every fixed content in three places. Non-trivial: a hostile module is in the graph."),
    "C12": dict(quick=700, oracle="invariant over the history: marks left by executed modules, interpreter state before and after every operation",
                rule=PROJECT + "Every module leaves a mark when it is run; package inits may fail; some modules are imported beforehand or have no __spec__; 1-7 operations of nine kinds including failing ones and the command line. Non-trivial: the graph has a module that must not be run."),
    "C13": dict(quick=220, oracle="metamorphic: graphs of repeated builds, fresh processes with other hash seeds, repeated additions and permuted roots must be equal",
                rule=PROJECT + "40% have implied actions and excludes. Every project is built four to six times. Non-trivial: the graph has at least three edges."),
    "C14": dict(quick=650, oracle="stateful: invariants and a reference model of the whole graph after every operation",
                rule=PROJECT + "1-8 operations of eleven kinds (also nested in hook contexts, failing ones, changes of the configuration in between) run on one graph. Non-trivial: at least three operations and two edges."),
    "C15": dict(quick=650, oracle="stateful: reference model of the whole graph; differential against the project without the excluded files",
                rule=PROJECT + "1-3 excludes (modules, packages, submodules, missing and implied names, __main__) in five kinds of iterables, mixed with implied actions, and 1-6 operations that import and configure more. Non-trivial: an excluded node is in the graph."),
    "C16": dict(quick=400, oracle="stateful: reference model of the whole graph; differential against running the standard library",
                rule=PROJECT + "0-4 implied actions (lists, aliases, virtuals, chains and cycles for existing, missing, new and dotted names), replaced and extended between 1-5 operations. The corpus runs code of the standard library that imports from C and compares with the graph. Non-trivial: an implied action took effect."),
    "C17": dict(quick=700, oracle="stateful: log of all hook calls judged by invariants and a reference model of the whole graph",
                rule=PROJECT + "1-3 recording hooks that import modules and packages, add roots or register hooks when they see certain nodes; more are registered between 1-5 operations. Non-trivial: hooks were called for three different nodes."),
    "C18": dict(quick=600, oracle="stateful: log of all hook calls judged by invariants and a reference model that knows the answers",
                rule=PROJECT + "1-3 missing hooks (more are added between operations) answer 0-4 names each with new nodes of six classes, existing nodes, None or an exception, and import other modules. Non-trivial: a hook was called."),
    "C19": dict(quick=700, oracle="differential against what importlib's path finder can find in the file tree",
                rule="Hypothesis builds package trees of up to four levels on one or two search path entries: 20 kinds of files (source, bytecode, extensions of several ABIs, broken ones, links, FIFOs, directories), data files and directories with names like modules, 8 kinds of packages (also failing and namespace packages). import_package is called 1-3 times in a hook context, post-processing hook or missing hook, for packages, modules and missing names, on fresh and preloaded graphs, with excludes. Non-trivial: at least two modules below the package."),
    "C20": dict(quick=900, oracle="what was read compared with what was written",
                rule="Hypothesis writes 0-4 dist-info directories in each of 1-4 search path entries (directories, also relative, linked or not normalized, zip files, plain files, missing ones) with RECORD files in six styles listing up to 12 names (modules, extensions of several ABIs, packages, scripts, data, quotes, commas, odd characters), METADATA files of nine forms and broken neighbours of ten kinds. Non-trivial: a readable distribution with at least two import names."),
    "C21": dict(quick=800, oracle="stateful: ownership computed from the records that were written",
                rule="Hypothesis lays out 1-3 search path entries (directories, also relative, linked or not normalized, zip files, directories that are not on the path) with up to 17 modules that import each other and 0-3 distributions recording parts of them; 1-6 operations add modules and distributions by name or object, unknown names, excludes. Non-trivial: a distribution was added and a module has one."),
    "C22": dict(quick=900, oracle="round trip: the output is parsed and compared with the graph",
                rule="Hypothesis assembles graphs of up to 12 nodes of 15 classes with names, paths and distribution names made of 50 pieces (markup, quotes, backslashes, DOT syntax, white space), random edges and roots, unreachable nodes, distributions as nodes; the corpus has every piece in five positions. Non-trivial: at least two reachable nodes and an edge."),
    "C23": dict(quick=700, oracle="differential: the graph that the API builds for what the arguments stand for",
                rule="Hypothesis writes three directories with modules of the same names but other imports, distributions, scripts, and 1-2 argument vectors for the command: options in every spelling and order, repeated modes and formats, excludes, the standard library switch, paths, outputs (also not writable), invalid arguments. Each vector runs through main() in a fresh process image, a few through 'python -m'. Non-trivial: at least three nodes, and excludes or two paths."),
    "C24": dict(quick=400, oracle="differential: scripts with the same text",
                rule="Hypothesis writes projects with up to three scripts (all import forms, nesting) and excludes and implied actions; the texts are added one after the other, to graphs that may have roots already, as scripts and as source text, with source that cannot be parsed in between. Non-trivial: at least two roots come from the text and three modules are reachable."),
    "C25": dict(quick=900, oracle="reference model: the rule for SWIG wrappers applied to the files that were written",
                rule="Hypothesis makes up to nine modules and package inits (top level, in packages, nested, in namespace packages) that may or may not be SWIG wrappers: 16 forms of the helper, 11 forms of import, inits that fail, other and wrong names, bytecode and invalid files; 15 kinds of files next to them and 5 at top level; other importers, scripts, hooks on or off. Non-trivial: an extension module is imported by its absolute name."),
    "C26": dict(quick=600, oracle="differential: the same project with the source instead of the compiled modules",
                rule="Hypothesis writes projects of which a random part is compiled (extension next to its source; three suffixes; 12 kinds of source, also unusable), owned by a mypyc distribution, another one or none; helper modules that exist or not, one or two, hooks on or off. Non-trivial: a compiled module with usable source has three edges."),
    "C27": dict(quick=50, oracle="differential against six itself (its move table and importer)",
                rule="Hypothesis writes one to five copies of six (two versions; top level, vendored in packages, below a package called moves) and up to four importers with 1-5 imports through six.moves: all 80 names and unknown ones in seven forms and seven places, also relative ones, real modules imported directly; tkinter present in part or absent, six used before by the process, excludes. The corpus has every name in three forms. Non-trivial: a module that six moves to exists and is not excluded."),
    "C28": dict(quick=1300, oracle="reference walk of the tree that was written",
                rule="Hypothesis makes one or two packages with trees of up to 40 files and directories (8 names of modules, 26 of data files, 12 of directories, caches and repositories with content, nested packages, symbolic links also in circles, unreadable directories), in directories (also relative or linked) and zip files (with prefixes, directory entries, any order); a quarter of the trees has no data file outside caches. Non-trivial: the package has more than its init."),
    "C29": dict(quick=500, oracle="differential against the interpreter (accepting the script, its code) and the statements that were written",
                rule="Hypothesis writes scripts from 35 statements and 23 errors in 25 encodings with 13 forms of the declaration on three lines, byte order marks, undecodable bytes, four kinds of line ends; 1-6 operations add them under eleven spellings of 16 names, again, after changing directory or rewriting them, with modules of the same names and nine kinds of paths that cannot be read in between. Non-trivial: a script was added."),
    "C30": dict(quick=300, oracle="differential against the interpreter: the file of the module that it loads for every imported name",
                rule="Hypothesis generates projects with setuptools and/or pkg_resources packages that redirect names of their extern subpackage (real finder code, 2 ways to name the vendoring package, any listed names) to vendored modules, packages and namespace packages or top-level ones, with imports between all of these, setuptools' replacement of distutils, 1-3 importers and names imported before. Non-trivial: a redirected name is imported."),
    "C31": dict(quick=400, oracle="metamorphic: graph of modules that import hooks supply compared with that of ordinary files",
                rule=PROJECT + "Every top-level package is supplied by files or by one of six kinds of import hooks (meta path finders and path hooks; loaders with and without source, origin and location); some modules have a syntax error, some packages fail when imported. Non-trivial: a module from a hook is in the graph, which has two edges."),
}
