#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
A = "analyzer/analyzer.go"; U = "analyzer/util.go"; R = "analyzer/rewrite.go"; G = "analyzer/graph.go"
C = "analyzer/compare.go"; L = "analyzer/load.go"; S = "analyzer/scan.go"; I = "interesting/interesting.go"; CM = "interesting/interesting.cm"
CLI = "cmd/capslock/capslock.go"; GD = "cmd/capslock-git-diff/main.go"

p("C01", "No reachable capability is missed",
  "Whenever code in an analysed package can run, through any chain of Go calls, a function that the capability map gives a capability, the report lists that capability for every function of the analysed packages on that chain (for a generic function, on the chains that do not depend on its type parameters). The calls may be static, go/defer, method, interface, function-value, closure, method-value, embedded, generic, iterator or package-initialisation calls, across any number of packages; a chain is cut only where the map marks a function safe, gives it a capability of its own, or says to ignore that call. Functions declared in the analysed packages count even if nothing in the program calls them (exported API, methods of unexported or generic types, closures that are returned).",
  ["programs", "inputs", "configurations"], "every type-correct multi-package Go program without reflection/unsafe tricks, every capability map",
  "TestExpectedOutput samples about 80 hand-written call paths in testpkgs; combinations of call mechanisms, packages and classifications are unbounded.",
  [A, U, R], [("backward BFS per capability over the VTA call graph", "analyzer.go:forEachPath"), ("call graph construction", "util.go:buildGraph"), ("node classification", "analyzer.go:getNodeCapabilities")],
  ["GetCapabilityInfo", "capslock -output=json"], [("visited", "BFS state per capability", "analyzer.go:forEachPath")])

p("C02", "Every reported capability is backed by a genuine call path",
  "Each entry of the report names a function of one of the queried packages and its package, and its example path is real: it starts at that function, each step is a call that occurs in the body of the previous function at the reported file, line and column (calls without a position in the source, such as those of initialisers, iterators and the callbacks of sort and Once calls, have none) and that can reach the next function, and it ends at a function that has the reported capability. No step passes through a function the map marks safe or gives another capability, or uses a call the map says to ignore, and the textual dependency path is the same sequence of names.",
  ["programs", "configurations"], "every report entry for every program, granularity and capability map",
  "Tests compare a few paths as regular expressions and explicitly ignore call sites.",
  [A, U], [("path reconstruction from BFS state", "analyzer.go:GetCapabilityInfo, intermediatePackages, GetCapabilityStats"), ("call site and package of a path element", "util.go:addFunction, callsitePosition, nodeToPackage")],
  ["CapabilityInfo.path", "CapabilityInfo.dep_path", "CapabilityStats.example_callpath"])

p("C03", "Reports are exact for statically resolved calls",
  "For programs whose calls are all statically resolved, the set of (function, capability) pairs reported equals plain reachability: a function is listed for a capability exactly when it has it or can reach, through included calls, a function that has it, without going on through a function that is safe or has a capability of its own from the map. Functions with no such chain are never listed, a function classified 'unspecified' is analysed as normal even if its package has a capability, and functions outside the queried packages are never listed.",
  ["programs", "configurations"], "every static call graph (cycles, recursion, closures, generics, init) and every assignment of safe/unspecified/capability/ignored-call classifications",
  "Unit tests use one fixed 5-function package with one fixed classifier.",
  [A, I], [("safe / explicit cut-offs", "analyzer.go:forEachPath, mergeCapabilities"), ("category lookup", "interesting.go:FunctionCategory"), ("ignored calls", "interesting.go:IncludeCall")],
  ["GetCapabilityInfo"])

p("C04", "Unsafe, reflect, assembly and cgo code is always flagged",
  "Unless built-in analyses are disabled, a function (innermost declaration or literal, or the package initialiser) that converts an unsafe.Pointer value to a pointer type has UNSAFE_POINTER, one that assigns a value that is or contains a reflect.Value to a variable that is not local has REFLECT, one without a Go body (assembly, linkname) has ARBITRARY_EXECUTION, and cgo call stubs have CGO, whatever aliases, named types, type parameters or nesting are used. Uses that are declared harmless (conversion to uintptr or from a pointer to unsafe.Pointer, reflect.Value copies to non-escaping locals) are not flagged, and a function the map already classifies keeps only that classification.",
  ["programs", "configurations"], "every placement and spelling of such an operation",
  "testpkgs/useunsafe, usereflect, useasm, usecgo contain a couple of dozen fixed spellings.",
  [A, U, CM], [("syntax visitor for unsafe.Pointer conversions", "util.go:visitor.Visit, analyzer.go:findUnsafePointerConversions"), ("store scan for reflect.Value", "analyzer.go:getExtraNodesByCapability, util.go:containsReflectValue"), ("bodyless functions", "analyzer.go:getExtraNodesByCapability"), ("cgo suffixes", "interesting.go:FunctionCategory")],
  ["GetCapabilityInfo", "capslock -output=json"])

p("C05", "Sort and Once.Do call statements are attributed precisely",
  "A plain call statement of sort.Sort, sort.Stable, sort.IsSorted, sort.Slice, sort.SliceStable or (*sync.Once).Do, in any statement list, gives the calling function the capabilities of the callbacks passed in that call, not UNANALYZED and not those of callbacks passed elsewhere. Nothing else in the statement is lost: capabilities of calls made while evaluating the receiver or arguments are still reported, and all other forms (go and defer, calls in expressions or statement headers, receivers with calls, named function types, method values) report UNANALYZED or the callback's capabilities. Calls that merely look alike (other packages, types or functions with the same names, shadowed identifiers) are treated as ordinary calls.",
  ["programs"], "every statement context, receiver and argument expression, and callback",
  "testpkgs/transitive has a dozen fixed examples; argument side effects, statement positions and look-alikes are barely sampled.",
  [R, U], [("rewriting of sort calls", "rewrite.go:rewriteCallsToSort"), ("rewriting of Once.Do, sort.Slice", "rewrite.go:rewriteCallsToOnceDoEtc, util.go:matcher"), ("side-effect test", "util.go:mayHaveSideEffects")],
  ["GetCapabilityInfo"])

p("C06", "Granularities and path omission are views of one relation",
  "Function granularity lists each (function, capability) pair once; package granularity lists exactly the pairs (package, capability) for which some function of that queried package has the capability, once each; intermediate granularity lists exactly the pairs (package, capability) for which some package function lies on a call path from a queried function to the capability, restricted to the requested capability set. Omitting paths removes call paths but never an entry, package or capability, and lists are ordered by capability and then name.",
  ["programs", "configurations"], "every program, classifier, capability set and granularity",
  "Tests fix one or two packages per granularity.",
  [A], [("package de-duplication", "analyzer.go:GetCapabilityInfo"), ("two-sided search", "analyzer.go:intermediatePackages, CapabilityGraph"), ("path omission", "analyzer.go:GetCapabilityInfo")],
  ["GetCapabilityInfo", "capslock -granularity -omit_paths -capabilities"])

p("C07", "All output modes agree on one analysis",
  "For one input, json, machine, verbose, default and graph output describe the same relation: the capability list of machine output, the counts in default output, and the count, direct and transitive numbers in verbose output are those computed from the function-level json entries, and verbose example paths belong to a counted function. An entry is DIRECT exactly when its example path visits no package other than the function's own and the standard library (import paths whose first element has no dot), and count = direct + transitive.",
  ["programs", "configurations"], "every program and classifier, all output modes",
  "Existing tests check json and graph separately on fixed packages; machine, verbose and default output are untested.",
  [A, S, "analyzer/static/default.tmpl", "analyzer/static/verbose.tmpl"], [("aggregation", "analyzer.go:GetCapabilityStats, GetCapabilityCounts"), ("rendering", "scan.go:RunCapslock, static/*.tmpl")],
  ["RunCapslock stdout", "GetCapabilityStats", "GetCapabilityCounts"])

p("C08", "Graph output is exactly the capability subgraph, as valid DOT",
  "Graph output is a well-formed DOT digraph for any function names, and its edges are exactly the included calls that lie on a path from a queried function to a function with a selected capability, plus one edge from each such capability-bearing function on a path to the capability name. With a capability filter (a list or a negated list) the graph is the union of the graphs of the selected capabilities; without one it covers all capabilities.",
  ["programs", "configurations"], "every program, classifier and capability filter",
  "Two small fixed graphs and a handful of expected lines are tested.",
  [A, G], [("two-sided search", "analyzer.go:CapabilityGraph, searchForwardsFromQueriedFunctions, searchBackwardsFromCapabilities"), ("DOT writer", "graph.go:graphBuilder")],
  ["capslock -output=graph", "CapabilityGraph callbacks"])

p("C09", "The same input always produces the same output",
  "Analysing the same packages with the same options gives byte-identical output in every mode, however often it is run, in a new process or again on the already loaded packages, and in whatever order the packages are named. Comparing the same two revisions with capslock-git-diff gives the same output each time.",
  ["schedules", "inputs", "programs", "configurations"], "every program, output mode, repetition and package order (Go map iteration order is the hidden schedule)",
  "Tests run each analysis once and compare unordered facts; map-iteration dependent results pass most of the time.",
  [A, U, G, L], [("sorting of queues and edges", "util.go:byFunction, byCaller, byCallee"), ("sorted result lists", "analyzer.go:GetCapabilityInfo, intermediatePackages, load.go:collectModuleInfo, collectPackageInfo")],
  ["stdout of every output mode"])

p("C10", "Reports do not depend on how the source is written down",
  "Rewriting a program without changing its calls - reordering declarations, splitting files, renaming imports (other than to dot imports), introducing type aliases or parentheses, wrapping statements in blocks, branches or immediately-called closures (that capture no functions or interface values), adding comments - leaves the set of (declared function, capability) pairs unchanged. Adding calls or functions to a program never removes a reported pair.",
  ["programs"], "every program and every combination of such rewrites",
  "Each testpkg exists in one spelling only.",
  [A, U, R], [("syntax visitors and matchers", "util.go, rewrite.go"), ("alias handling", "util.go:nodeToPackage, containsReflectValue, methodMatcher.match")],
  ["GetCapabilityInfo"])

p("C11", "Compare mode reports exactly the capability difference",
  "Comparing a package with a baseline file saved from json output signals a difference (exit status 1) exactly when the (key, capability) sets differ at the chosen granularity, and prints one message for each pair that is new and one for each pair that disappeared, and no others. Comparing with a baseline of the same program finds no difference, at every granularity and with or without call paths in either report; an unreadable or malformed baseline is an error, never 'no difference'.",
  ["programs", "histories", "configurations"], "every pair of program versions and every baseline/compare option combination",
  "TestCompare edits one fixed baseline in three ways.",
  [C, S, CLI], [("keyed maps and diff", "compare.go:populateMap, diffCapabilityInfoLists"), ("difference error", "scan.go:RunCapslock, capslock.go:main")],
  ["RunCapslock(compare)", "capslock -output=compare exit status and stdout"])

p("C12", "capslock-git-diff reports exactly the capabilities added between revisions",
  "capslock-git-diff analyses the two revisions as the user's repository names them (branches, tags, hashes, remote-tracking refs, relative expressions, or '.' for the working tree), in the current subdirectory, and lists the commits between them. It announces every (key, capability) pair present in the second and absent in the first exactly once, with a call path of the report, and nothing else, with a matching summary (counts and capabilities, or that there is none), and exits 1 if there is any, 0 if none, 2 if anything fails. It leaves the repository, its refs, the index, the working tree and the temporary directory as they were.",
  ["histories", "inputs", "configurations", "fault_sequences"], "every repository history, revision spelling, subdirectory, granularity and pair of reports, and every failing command",
  "There are no tests for this command.",
  [GD], [("temporary clone and checkout", "main.go:AnalyzeAtRevision"), ("diff", "main.go:diffCapabilityInfoLists, summarizeNewCapabilities, cover, populateMap")],
  ["stdout, exit status, repository and temp dir state"])

p("C13", "Capability map files are parsed completely or rejected",
  "For every text, loading a capability map either succeeds with every non-comment line in effect exactly as written, or fails with an error naming the file and the first bad line; no line is ever silently dropped, truncated or misattributed. Comments, blank lines and whitespace are insignificant; unknown keywords, unknown capabilities, missing fields and duplicate keys are rejected.",
  ["inputs"], "every byte string as map file",
  "Tests load one three-line map.",
  [I], [("line parser", "interesting.go:parseCapabilityMap")],
  ["interesting.LoadClassifier", "capslock -capability_map"])

p("C14", "Custom capability maps layer correctly over the built-in map",
  "With a custom map, the category of a function is decided by the first that applies of: a cgo suffix of either map, the custom file's entry for the function (func, else unanalyzed), the built-in entry for the function, the custom entry for its package, the built-in entry for its package; calls ignored by either map are ignored, and with the built-in map excluded only the custom file counts. Excluding 'unanalyzed' never yields UNANALYZED and otherwise changes nothing, and building one classifier never changes another, including the default one.",
  ["inputs", "configurations", "histories"], "every custom map, every queried name and call, every sequence of loads",
  "Tests query about a dozen names against one custom map.",
  [I, A], [("merge", "interesting.go:LoadClassifier"), ("lookup order", "interesting.go:FunctionCategory, IncludeCall"), ("noisy copy", "interesting.go:ClassifierExcludingUnanalyzed")],
  ["Classifier.FunctionCategory", "Classifier.IncludeCall", "capslock -capability_map/-disable_builtin/-noisy"])

p("C15", "Capability lists mean exactly the set they name",
  "A capability list string is accepted exactly when it is empty or a comma-separated list of known capability names, with or without the CAPABILITY_ prefix, either all negated with '-' or none; the empty string denotes all capabilities, a plain list exactly the named ones and a negated list exactly the others. Anything else is rejected with an error.",
  ["inputs"], "every string and every capability",
  "TestNewCapabilitySet lists about twenty strings.",
  [G], [("parser and membership", "graph.go:NewCapabilitySet, Has")],
  ["NewCapabilitySet", "CapabilitySet.Has", "capslock -capabilities"])

p("C16", "Standard library operations carry their documented capability",
  "A function that calls an exported standard-library function or method is reported with the capability the documentation gives that operation (files, network, exec, system state, system calls, runtime, reflect, operating system, ...), by whatever chain it is reached, and calling operations that are documented or classified as safe adds none.",
  ["programs", "inputs"], "every exported function and method of the standard library that the map classifies, called through any chain",
  "Tests touch about twenty standard library functions; the map has over 900 entries.",
  [CM, I, A], [("built-in map", "interesting.cm"), ("lookup", "interesting.go:FunctionCategory")],
  ["capslock -output=json on code using the real standard library", "DefaultClassifier"])

p("C17", "The analysed files, packages and modules are those of the build",
  "For any build tags, GOOS and GOARCH, the analysis covers exactly the files the go command would build and lists exactly the remaining Go files of each package as ignored. Package information lists each non-standard-library package of the dependency closure exactly once, sorted, and module information each dependency module with its version exactly once, sorted.",
  ["inputs", "configurations"], "every set of build constraints, file-name suffixes and dependency graphs, and every tag/GOOS/GOARCH choice",
  "One testpkg with six files and a few tag combinations.",
  [L, CLI], [("load configuration", "load.go:LoadPackages"), ("package and module info", "load.go:collectPackageInfo, collectModuleInfo")],
  ["LoadPackages", "json package_info/module_info", "capslock -buildtags -goos -goarch"])

p("C18", "The command line fails closed with the documented exit status",
  "capslock exits 0 after a complete report (or a comparison without difference), 1 only when a comparison found a difference, and 2 with a message on standard error for every error: bad flags or arguments, an unreadable or malformed map or baseline, unknown packages, and any parse, type or import error in a requested package or its dependencies. When it exits 2 it prints no report (unless writing the report or a memory profile is what failed), so a broken analysis can never look like a clean one, and it leaves no temporary directory behind.",
  ["inputs", "configurations", "fault_sequences"], "every combination of flags, arguments and broken or missing inputs",
  "Tests only run successful analyses and one comparison.",
  [CLI, S, C], [("error handling", "capslock.go:run, printErrors, main"), ("argument checks", "scan.go:RunCapslock")],
  ["exit status, stdout, stderr, temp dir"])

p("C19", "Analysis of real code never crashes and stays consistent",
  "For any set of real packages that type-check (standard library, third-party modules, any import closure, any GOOS/GOARCH, any option combination), the analysis completes without panicking and its report satisfies the path, granularity, counting and graph-consistency properties above.",
  ["programs", "configurations"], "every loadable package set and configuration",
  "Tests analyse the small testpkgs only.",
  [A, U, R, G], [("whole pipeline", "analyzer.go, rewrite.go, util.go, graph.go")],
  ["all exported analysis functions"])

p("C20", "Packages outside the current module are analysed at their latest version",
  "When the named packages or patterns are not available in the current module, workspace or directory, capslock reports on them as a new module requiring their latest version (and the dependency versions that selects) would build them; packages the current module does provide are analysed at its version. A baseline file is still found relative to the user's directory, workspace files have no influence on the retrieved packages, and the user's directory and the temporary directory are left as they were. With -force_local_module, or if a package cannot be retrieved or built, it exits 2 without a report.",
  ["inputs", "configurations", "fault_sequences"], "every set of modules and versions available from the module proxy, package patterns and current directories",
  "Needs a module proxy with several versions; no test runs this path.",
  [CLI], [("temporary module", "capslock.go:run, makeTemporaryModule, loadPackages")],
  ["command line, exit status, reported functions and module versions"])

p("C21", "Analyses in one process do not influence one another",
  "Whatever analyses run in one process, one after the other or at the same time on separately loaded packages, with shared or separate configurations, maps and capability lists, each gives exactly the result it gives alone, and there are no data races. An analysis leaves its configuration, package list and set of queried packages as they were, and loading further maps or capability lists affects no other. Repeating an analysis on the same loaded packages gives the same result.",
  ["histories", "schedules", "programs", "configurations"], "every sequence and every concurrent set of analyses, map loads and capability lists in a process",
  "Tests run one analysis after another and never look at what an earlier one left behind; none runs two at once.",
  [A, G, I, L, C], [("process-wide state", "interesting.go:internalMap; load.go:standardLibraryPackages"), ("analysis entry points", "analyzer.go:GetCapabilityInfo, GetCapabilityCounts, GetCapabilityStats, CapabilityGraph")],
  ["GetCapabilityInfo, GetCapabilityCounts, GetCapabilityStats, CapabilityGraph, RunCapslock, LoadClassifier, NewCapabilitySet used from several goroutines"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
