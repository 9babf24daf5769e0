From 7a7cc18d2216163a605717ce7bb21454a0f2fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:12 +0000
Subject: [PATCH 01/22] fix: analyze methods of unexported and generic types

Methods of unexported types and of generic types were left out of the call
graph unless something in the program used them, so their capabilities were
never reported for the package that declares them.
---
 analyzer/util.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index 836da8f..310200e 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -205,10 +205,50 @@ func buildGraph(pkgs []*packages.Package, populateSyntax bool) (*callgraph.Graph
 	ssaProg, _ := ssautil.AllPackages(pkgs, ssaBuilderMode)
 	ssaProg.Build()
 	allFunctions := ssautil.AllFunctions(ssaProg)
+	addDeclaredMethods(pkgs, ssaProg, allFunctions)
 	graph := vta.CallGraph(allFunctions, nil)
 	return graph, ssaProg, allFunctions
 }
 
+// addDeclaredMethods adds to fns the methods of all the types declared in pkgs,
+// and the functions those methods refer to.
+//
+// ssautil.AllFunctions omits the methods of unexported types and of generic
+// types if nothing in the program uses them.  They can still be called by users
+// of the package, for example when a function returns a value of that type.
+func addDeclaredMethods(pkgs []*packages.Package, ssaProg *ssa.Program, fns map[*ssa.Function]bool) {
+	var visit func(fn *ssa.Function)
+	visit = func(fn *ssa.Function) {
+		if fn == nil || fns[fn] {
+			return
+		}
+		fns[fn] = true
+		for _, b := range fn.Blocks {
+			for _, instr := range b.Instrs {
+				for _, op := range instr.Operands(nil) {
+					if f, ok := (*op).(*ssa.Function); ok {
+						visit(f)
+					}
+				}
+			}
+		}
+	}
+	for _, p := range pkgs {
+		scope := p.Types.Scope()
+		for _, name := range scope.Names() {
+			obj, ok := scope.Lookup(name).(*types.TypeName)
+			if !ok || obj.IsAlias() {
+				continue
+			}
+			if named, ok := obj.Type().(*types.Named); ok {
+				for i := 0; i < named.NumMethods(); i++ {
+					visit(ssaProg.FuncValue(named.Method(i)))
+				}
+			}
+		}
+	}
+}
+
 // functionsToRewrite lists the functions and methods like (*sync.Once).Do that
 // rewriteCallsToOnceDoEtc will rewrite to calls to their arguments.
 var functionsToRewrite = []matcher{
-- 
2.43.0


From 78c92098405537c3f569d7f8105e7f6045d7d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:30 +0000
Subject: [PATCH 02/22] fix: apply ignore_edge entries of custom capability
 maps

IncludeCall always consulted the built-in map, so ignore_edge lines in a
custom map had no effect and the built-in ones applied even when the built-in
map was excluded.
---
 interesting/interesting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 19770be..5be9707 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -183,7 +183,7 @@ func LoadClassifier(source string, r io.Reader, excludeBuiltin bool) (*Classifie
 func (c *Classifier) IncludeCall(edge *callgraph.Edge) bool {
 	caller := edge.Caller.Func.String()
 	callee := edge.Callee.Func.String()
-	_, ok := internalMap.ignoredEdges[[2]string{caller, callee}]
+	_, ok := c.ignoredEdges[[2]string{caller, callee}]
 	return !ok
 }
 
-- 
2.43.0


From c4af00772116ade415664ca3bf94522b135ba4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:18 +0000
Subject: [PATCH 03/22] fix: report errors reading a capability map

A read error, or a line too long for the scanner, ended parsing without an
error, so the rest of the map was silently ignored.
---
 interesting/interesting.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 5be9707..00437bb 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -115,6 +115,9 @@ func parseCapabilityMap(source string, r io.Reader) (*Classifier, error) {
 			return nil, fmt.Errorf("%v:%v: unsupported keyword %q", source, line, args[0])
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, fmt.Errorf("%v:%v: %w", source, line+1, err)
+	}
 	return ret, nil
 }
 
-- 
2.43.0


From a35a1b15fafa15749513563dd1bbe7bbb05e2fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:46 +0000
Subject: [PATCH 04/22] fix: never return UNANALYZED when it is excluded

ClassifierExcludingUnanalyzed only dropped the 'unanalyzed' lines of a map,
not 'func' and 'package' lines with the value CAPABILITY_UNANALYZED.
---
 interesting/interesting.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 00437bb..978e1a6 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -144,6 +144,13 @@ func DefaultClassifier() *Classifier {
 func ClassifierExcludingUnanalyzed(classifier *Classifier) *Classifier {
 	withoutUnanalyzed := *classifier
 	withoutUnanalyzed.unanalyzedCategory = nil
+	isUnanalyzed := func(_ string, c cpb.Capability) bool {
+		return c == cpb.Capability_CAPABILITY_UNANALYZED
+	}
+	withoutUnanalyzed.functionCategory = maps.Clone(classifier.functionCategory)
+	maps.DeleteFunc(withoutUnanalyzed.functionCategory, isUnanalyzed)
+	withoutUnanalyzed.packageCategory = maps.Clone(classifier.packageCategory)
+	maps.DeleteFunc(withoutUnanalyzed.packageCategory, isUnanalyzed)
 	return &withoutUnanalyzed
 }
 
-- 
2.43.0


From c1cfda5a31c28488fbaf2b1baadb2cb32b90a83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:06 +0000
Subject: [PATCH 05/22] fix: let a custom map mark functions in the built-in
 map as unanalyzed

An 'unanalyzed' line in a custom map had no effect if the built-in map has a
'func' line for the same function.
---
 interesting/interesting.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interesting/interesting.go b/interesting/interesting.go
index 978e1a6..5f6057f 100644
--- a/interesting/interesting.go
+++ b/interesting/interesting.go
@@ -180,6 +180,10 @@ func LoadClassifier(source string, r io.Reader, excludeBuiltin bool) (*Classifie
 		dst.cgoSuffixes = append(dst.cgoSuffixes, src.cgoSuffixes...)
 	}
 	cc(ret, internalMap)
+	for f := range userClassifier.unanalyzedCategory {
+		// Function entries are looked up before unanalyzed entries.
+		delete(ret.functionCategory, f)
+	}
 	cc(ret, userClassifier)
 	sort.Strings(ret.cgoSuffixes)
 	ret.cgoSuffixes = slices.Compact(ret.cgoSuffixes) // remove duplicates
-- 
2.43.0


From fc09c29ce46f7901c53915cf88de669f3bc99989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:00:10 +0000
Subject: [PATCH 06/22] fix: don't drop calls in other arguments when rewriting
 sort.Slice

sort.Slice(f(), less) was replaced with a call to less, so the capabilities of
f were lost.
---
 analyzer/util.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index 310200e..f0d791d 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -323,9 +323,39 @@ func (m *packageFunctionMatcher) match(typeInfo *types.Info, call *ast.CallExpr)
 		// The function call doesn't have enough arguments.
 		return nil
 	}
+	for i, arg := range call.Args {
+		if i != m.functionTypedParameterIndex && containsCall(typeInfo, arg) {
+			// Rewriting the call would remove this argument, so the analysis would
+			// not see the calls in it.
+			return nil
+		}
+	}
 	return call.Args[m.functionTypedParameterIndex]
 }
 
+// containsCall determines whether evaluating an expression involves a function
+// call, other than to a builtin, or a conversion from an unsafe.Pointer.
+func containsCall(typeInfo *types.Info, e ast.Expr) bool {
+	found := false
+	ast.Inspect(e, func(n ast.Node) bool {
+		switch n := n.(type) {
+		case *ast.FuncLit:
+			return false // a definition doesn't do anything on its own
+		case *ast.CallExpr:
+			if fun := typeInfo.Types[n.Fun]; fun.IsBuiltin() {
+				break
+			} else if fun.IsType() && len(n.Args) == 1 {
+				if b, ok := typeInfo.TypeOf(n.Args[0]).Underlying().(*types.Basic); !ok || b.Kind() != types.UnsafePointer {
+					break
+				}
+			}
+			found = true
+		}
+		return !found
+	})
+	return found
+}
+
 // mayHaveSideEffects determines whether an expression might write to a
 // variable or call a function.  It can have false positives.  It does not
 // consider panicking to be a side effect, so e.g. index expressions do not
-- 
2.43.0


From 19fc232236d7f8f28ef112e2fe1662ac5dafe168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:05 +0000
Subject: [PATCH 07/22] fix: detect unsafe.Pointer conversions through type
 parameters

A generic function can convert a value of a type parameter constrained by
~unsafe.Pointer to a pointer type.  Such functions were not given the
UNSAFE_POINTER capability.
---
 analyzer/util.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/analyzer/util.go b/analyzer/util.go
index f0d791d..b5ca4ee 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -345,7 +345,7 @@ func containsCall(typeInfo *types.Info, e ast.Expr) bool {
 			if fun := typeInfo.Types[n.Fun]; fun.IsBuiltin() {
 				break
 			} else if fun.IsType() && len(n.Args) == 1 {
-				if b, ok := typeInfo.TypeOf(n.Args[0]).Underlying().(*types.Basic); !ok || b.Kind() != types.UnsafePointer {
+				if !mayBeUnsafePointer(typeInfo.TypeOf(n.Args[0])) {
 					break
 				}
 			}
@@ -516,6 +516,31 @@ func containsReflectValue(t types.Type) bool {
 	return rec(t)
 }
 
+// mayBeUnsafePointer returns true if t is equivalent to unsafe.Pointer, or is a
+// type parameter or constraint whose type set may include such a type.
+func mayBeUnsafePointer(t types.Type) bool {
+	switch u := t.Underlying().(type) {
+	case *types.Basic:
+		return u.Kind() == types.UnsafePointer
+	case *types.Interface:
+		for i := 0; i < u.NumEmbeddeds(); i++ {
+			union, ok := u.EmbeddedType(i).(*types.Union)
+			if !ok {
+				if mayBeUnsafePointer(u.EmbeddedType(i)) {
+					return true
+				}
+				continue
+			}
+			for j := 0; j < union.Len(); j++ {
+				if mayBeUnsafePointer(union.Term(j).Type()) {
+					return true
+				}
+			}
+		}
+	}
+	return false
+}
+
 func (v *visitor) Visit(node ast.Node) ast.Visitor {
 	if node == nil {
 		return v // the return value is ignored if node == nil.
@@ -555,7 +580,7 @@ func (v *visitor) Visit(node ast.Node) ast.Visitor {
 			// The argument has no type information.
 			break
 		}
-		if b, ok := argType.Underlying().(*types.Basic); !ok || b.Kind() != types.UnsafePointer {
+		if !mayBeUnsafePointer(argType) {
 			// The argument's type is not equivalent to unsafe.Pointer.
 			break
 		}
-- 
2.43.0


From 72c224c1772f104cb57ba997f0eb18223ca2dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:24 +0000
Subject: [PATCH 08/22] fix: escape backslashes in graph output

Function names can contain backslashes, for example in struct tags in type
arguments.  They made the DOT output malformed.
---
 analyzer/graph.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/analyzer/graph.go b/analyzer/graph.go
index e3de0da..e92be91 100644
--- a/analyzer/graph.go
+++ b/analyzer/graph.go
@@ -117,15 +117,18 @@ func newGraphBuilder(w io.Writer, nodeNamer func(any) string) graphBuilder {
 	return gb
 }
 
+// dotEscaper escapes the contents of a double-quoted string.
+var dotEscaper = strings.NewReplacer(`\`, `\\`, `"`, `\"`)
+
 func (gb *graphBuilder) Edge(from, to interface{}) {
 	if gb.done {
 		panic("done")
 	}
 	gb.Write([]byte("\t"))
 	gb.Write([]byte(`"`))
-	gb.Write([]byte(strings.ReplaceAll(gb.nodeNamer(from), `"`, `\"`)))
+	gb.Write([]byte(dotEscaper.Replace(gb.nodeNamer(from))))
 	gb.Write([]byte(`" -> "`))
-	gb.Write([]byte(strings.ReplaceAll(gb.nodeNamer(to), `"`, `\"`)))
+	gb.Write([]byte(dotEscaper.Replace(gb.nodeNamer(to))))
 	gb.Write([]byte("\"\n"))
 }
 
-- 
2.43.0


From a7b473d1b1757f49ba9849c98b3524f220ace485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:41 +0000
Subject: [PATCH 09/22] fix: compare intermediate packages when paths are
 omitted

With -omit_paths, comparisons at intermediate granularity had no keys and
never found a difference.
---
 analyzer/compare.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/analyzer/compare.go b/analyzer/compare.go
index 2cc3c9e..bfd9aa7 100644
--- a/analyzer/compare.go
+++ b/analyzer/compare.go
@@ -87,6 +87,10 @@ func populateMap(cil *cpb.CapabilityInfoList, g Granularity) capabilitiesMap {
 				m[mk] = ci
 			}
 		case GranularityIntermediate:
+			// The path may have been omitted.
+			if mk.key = ci.GetPackageDir(); mk.key != "" {
+				m[mk] = ci
+			}
 			for _, f := range ci.Path {
 				mk.key = f.GetPackage()
 				if mk.key != "" {
-- 
2.43.0


From 40562da38578dbe62a309e0367c0f831b1135655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:20 +0000
Subject: [PATCH 10/22] fix: make the order of graph output deterministic

The capabilities were visited in map iteration order, so the order of edges in
graph output changed from run to run.
---
 analyzer/analyzer.go |  8 ++++----
 analyzer/util.go     | 11 +++++++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/analyzer/analyzer.go b/analyzer/analyzer.go
index 6e24058..567056b 100644
--- a/analyzer/analyzer.go
+++ b/analyzer/analyzer.go
@@ -359,8 +359,8 @@ func searchForwardsFromQueriedFunctions(
 			outputNode(bfsFromQueries, v, bfsFromCapabilities)
 		}
 		if outputCapability != nil {
-			for c, nodes := range nodesByCapability {
-				if _, ok := nodes[v]; ok {
+			for _, c := range nodesByCapability.sortedCapabilities() {
+				if _, ok := nodesByCapability[c][v]; ok {
 					outputCapability(v, c)
 				}
 			}
@@ -468,9 +468,9 @@ func CapabilityGraph(pkgs []*packages.Package,
 	}
 	if filter != nil {
 		// Consider each capability individually.
-		for c, ns := range nodesByCapability {
+		for _, c := range nodesByCapability.sortedCapabilities() {
 			if filter(c) {
-				search(nodesetPerCapability{c: ns})
+				search(nodesetPerCapability{c: nodesByCapability[c]})
 			}
 		}
 	} else {
diff --git a/analyzer/util.go b/analyzer/util.go
index b5ca4ee..bfceca8 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -12,6 +12,7 @@ import (
 	"go/types"
 	"os"
 	"path"
+	"slices"
 	"strings"
 
 	cpb "github.com/google/capslock/proto"
@@ -53,6 +54,16 @@ func (nc nodesetPerCapability) add(cap cpb.Capability, node *callgraph.Node) {
 	m[node] = struct{}{}
 }
 
+// sortedCapabilities returns the capabilities in nc in a deterministic order.
+func (nc nodesetPerCapability) sortedCapabilities() []cpb.Capability {
+	var caps []cpb.Capability
+	for c := range nc {
+		caps = append(caps, c)
+	}
+	slices.Sort(caps)
+	return caps
+}
+
 // byFunction is a slice of *callgraph.Node that can be sorted using sort.Sort.
 // The ordering is first by package name, then function name.
 type byFunction []*callgraph.Node
-- 
2.43.0


From cef77e842b5bf6da56b26001c85f855329f653ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:38 +0000
Subject: [PATCH 11/22] fix: remove temporary clones made by capslock-git-diff

Every run left two clones of the repository in the temporary directory.
---
 cmd/capslock-git-diff/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index d2189e4..5333398 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -92,6 +92,7 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	if err != nil {
 		return nil, fmt.Errorf("creating temporary directory: %w", err)
 	}
+	defer os.RemoveAll(tmpdir)
 	// Get the location of the .git directory, so we can make a temporary clone.
 	var b bytes.Buffer
 	if err = run(&b, "git", "rev-parse", "--git-dir"); err != nil {
-- 
2.43.0


From bf3957fbd0ec01769643d4aff2b51691b4f10de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:08 +0000
Subject: [PATCH 12/22] fix: resolve capslock-git-diff revisions in the
 original repository

Revisions were looked up in a temporary clone, where origin/main means the
original repository's local branch main.  The wrong commit was analyzed, and
names such as stash entries or refs outside refs/heads could not be used.
---
 cmd/capslock-git-diff/main.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index 5333398..33a1593 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -108,6 +108,14 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	prefix := strings.TrimSuffix(b.String(), "\n")
 	vlog("current path in repository: %q", prefix)
 	b.Reset()
+	// Resolve the revision in the original repository, since branch and
+	// remote-tracking names can have another meaning in the clone.
+	if err = run(&b, "git", "rev-parse", "--verify", "--end-of-options", rev+"^{commit}"); err != nil {
+		return nil, err
+	}
+	commit := strings.TrimSuffix(b.String(), "\n")
+	vlog("commit: %q", commit)
+	b.Reset()
 	// Clone the repo.
 	if err = run(nil, "git", "clone", "--shared", "--no-checkout", "--", gitdir, tmpdir); err != nil {
 		return nil, err
@@ -130,7 +138,7 @@ func AnalyzeAtRevision(rev, pkgname string) (cil *cpb.CapabilityInfoList, err er
 	}
 	vlog("switched to directory %q", tmpdir)
 	// Checkout the revision.
-	if err = run(nil, "git", "checkout", rev, "--"); err != nil {
+	if err = run(nil, "git", "checkout", commit, "--"); err != nil {
 		return nil, err
 	}
 	// Go to the same directory in the clone.
-- 
2.43.0


From 34e20132f08d1e229226205ea10f760a67191171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:27 +0000
Subject: [PATCH 13/22] fix: omit standard library packages for another GOOS
 from package info

The list of standard library packages is that of the host, so packages such as
internal/syscall/windows were listed as non-standard packages when analyzing
with -goos=windows.
---
 analyzer/load.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/analyzer/load.go b/analyzer/load.go
index 5f30575..9824444 100644
--- a/analyzer/load.go
+++ b/analyzer/load.go
@@ -124,8 +124,20 @@ func collectModuleInfo(pkgs []*packages.Package) []*cpb.ModuleInfo {
 func collectPackageInfo(pkgs []*packages.Package) []*cpb.PackageInfo {
 	var out []*cpb.PackageInfo
 	std := standardLibraryPackages()
+	// The dependencies of standard library packages are also in the standard
+	// library.  Those which are specific to another GOOS or GOARCH are not in std.
+	var stdPkgs []*packages.Package
 	forEachPackageIncludingDependencies(pkgs, func(pkg *packages.Package) {
 		if _, ok := std[pkg.PkgPath]; ok {
+			stdPkgs = append(stdPkgs, pkg)
+		}
+	})
+	isStd := make(map[*packages.Package]bool)
+	forEachPackageIncludingDependencies(stdPkgs, func(pkg *packages.Package) {
+		isStd[pkg] = true
+	})
+	forEachPackageIncludingDependencies(pkgs, func(pkg *packages.Package) {
+		if isStd[pkg] {
 			// Skip this package since it is part of the Go standard library.
 			return
 		}
-- 
2.43.0


From cafbb138ba1143a6a8a337d19722cb2ccbe1cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:02 +0000
Subject: [PATCH 14/22] fix: follow interface method calls to methods of
 generic types

The callgraph did not contain calls of methods of instantiated generic types
that were made via an interface, so their capabilities were missing from the
calling functions.
---
 analyzer/util.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index bfceca8..5068b90 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -12,8 +12,10 @@ import (
 	"go/types"
 	"os"
 	"path"
+	"reflect"
 	"slices"
 	"strings"
+	"unsafe"
 
 	cpb "github.com/google/capslock/proto"
 	"golang.org/x/tools/go/callgraph"
@@ -217,10 +219,41 @@ func buildGraph(pkgs []*packages.Package, populateSyntax bool) (*callgraph.Graph
 	ssaProg.Build()
 	allFunctions := ssautil.AllFunctions(ssaProg)
 	addDeclaredMethods(pkgs, ssaProg, allFunctions)
+	restore := stripTypeArgumentsFromMethodNames(allFunctions)
 	graph := vta.CallGraph(allFunctions, nil)
+	restore()
 	return graph, ssaProg, allFunctions
 }
 
+// stripTypeArgumentsFromMethodNames changes the names of methods of
+// instantiated generic types to the names of the methods in their source code,
+// e.g. from "Get[int]" to "Get", and returns a function that undoes this.
+//
+// The vta package finds the methods that an interface method call can reach by
+// comparing the name of the interface method with these names, so it would
+// otherwise not find methods of generic types.
+func stripTypeArgumentsFromMethodNames(fns map[*ssa.Function]bool) (restore func()) {
+	names := make(map[*string]string)
+	for fn := range fns {
+		if fn.Origin() == nil || fn.Origin() == fn || fn.Signature.Recv() == nil {
+			continue
+		}
+		// The name field is not exported, so we use unsafe conversion to write it.
+		f := reflect.ValueOf(fn).Elem().FieldByName("name")
+		if !f.IsValid() || f.Kind() != reflect.String || f.String() != fn.Name() {
+			continue
+		}
+		p := (*string)(unsafe.Pointer(f.UnsafeAddr()))
+		names[p] = *p
+		*p = fn.Origin().Name()
+	}
+	return func() {
+		for p, name := range names {
+			*p = name
+		}
+	}
+}
+
 // addDeclaredMethods adds to fns the methods of all the types declared in pkgs,
 // and the functions those methods refer to.
 //
-- 
2.43.0


From 9e62d14c883fe623be901e0c026e1e8cfa4095d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:20 +0000
Subject: [PATCH 15/22] fix: find all instances of generic types used via
 interfaces

The methods of a generic type that is only instantiated by a method of another
generic type were left out of the callgraph.
---
 analyzer/util.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/analyzer/util.go b/analyzer/util.go
index 5068b90..6ed53a0 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -218,6 +218,12 @@ func buildGraph(pkgs []*packages.Package, populateSyntax bool) (*callgraph.Graph
 	ssaProg, _ := ssautil.AllPackages(pkgs, ssaBuilderMode)
 	ssaProg.Build()
 	allFunctions := ssautil.AllFunctions(ssaProg)
+	// Finding the methods of a generic type can add instances of other generic
+	// types to the program, so we repeat this until there are no new functions.
+	for n := 0; n != len(allFunctions); {
+		n = len(allFunctions)
+		allFunctions = ssautil.AllFunctions(ssaProg)
+	}
 	addDeclaredMethods(pkgs, ssaProg, allFunctions)
 	restore := stripTypeArgumentsFromMethodNames(allFunctions)
 	graph := vta.CallGraph(allFunctions, nil)
-- 
2.43.0


From 9747b880cd7cb4d42f4881a60b0bdab6e58c1d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:06 +0000
Subject: [PATCH 16/22] fix: order functions with the same name
 deterministically

Wrappers for method values, and instances and wrappers for local types, can
have the same name as each other.  The search visited them in random order, so
the example paths could differ between runs.  Number such nodes by their
neighbors in the call graph and use this to break ties.
---
 analyzer/util.go | 67 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 66 insertions(+), 1 deletion(-)

diff --git a/analyzer/util.go b/analyzer/util.go
index 6ed53a0..bc2342f 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -7,9 +7,12 @@
 package analyzer
 
 import (
+	"cmp"
+	"fmt"
 	"go/ast"
 	"go/token"
 	"go/types"
+	"maps"
 	"os"
 	"path"
 	"reflect"
@@ -109,7 +112,68 @@ func (s byCallee) Swap(i, j int) {
 }
 
 func nodeCompare(a, b *callgraph.Node) int {
-	return funcCompare(a.Func, b.Func)
+	if c := funcCompare(a.Func, b.Func); c != 0 {
+		return c
+	}
+	return cmp.Compare(a.ID, b.ID)
+}
+
+// numberNodes sets the IDs of the nodes in graph so that nodes whose functions
+// have the same name can be put in a deterministic order.  For example, each
+// use of a method value has its own wrapper function, with the same name.
+//
+// Those nodes are distinguished by the names and IDs of their neighbors in the
+// graph and the positions of the calls.  This can make more of their neighbors
+// distinguishable, so it is repeated until there are no further changes.
+func numberNodes(graph *callgraph.Graph) {
+	name := func(node *callgraph.Node) string {
+		if node.Func == nil {
+			return ""
+		}
+		return node.Func.String()
+	}
+	byName := make(map[string][]*callgraph.Node)
+	for _, node := range graph.Nodes {
+		node.ID = 0
+		byName[name(node)] = append(byName[name(node)], node)
+	}
+	maps.DeleteFunc(byName, func(_ string, nodes []*callgraph.Node) bool { return len(nodes) == 1 })
+	// describe returns a string containing the ID of a node, and its edges.
+	describe := func(node *callgraph.Node) string {
+		edges := make([]string, 0, len(node.In)+len(node.Out))
+		for _, e := range node.In {
+			edges = append(edges, fmt.Sprintf("in %v %s %d", callsitePosition(e), name(e.Caller), e.Caller.ID))
+		}
+		for _, e := range node.Out {
+			edges = append(edges, fmt.Sprintf("out %v %s %d", callsitePosition(e), name(e.Callee), e.Callee.ID))
+		}
+		slices.Sort(edges)
+		return fmt.Sprintf("%08d\n%s", node.ID, strings.Join(edges, "\n"))
+	}
+	for changed := true; changed; {
+		changed = false
+		descriptions := make(map[*callgraph.Node]string)
+		for _, nodes := range byName {
+			for _, node := range nodes {
+				descriptions[node] = describe(node)
+			}
+		}
+		for _, nodes := range byName {
+			slices.SortFunc(nodes, func(a, b *callgraph.Node) int {
+				return strings.Compare(descriptions[a], descriptions[b])
+			})
+			id := 0
+			for i, node := range nodes {
+				if i > 0 && descriptions[node] != descriptions[nodes[i-1]] {
+					id = i
+				}
+				if node.ID != id {
+					node.ID = id
+					changed = true
+				}
+			}
+		}
+	}
 }
 
 // funcCompare orders by package path, then by whether the function is a
@@ -228,6 +292,7 @@ func buildGraph(pkgs []*packages.Package, populateSyntax bool) (*callgraph.Graph
 	restore := stripTypeArgumentsFromMethodNames(allFunctions)
 	graph := vta.CallGraph(allFunctions, nil)
 	restore()
+	numberNodes(graph)
 	return graph, ssaProg, allFunctions
 }
 
-- 
2.43.0


From af97f7e8611b231a23496965d93da43c6626087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:30:24 +0000
Subject: [PATCH 17/22] fix: report errors from writing json and machine output

---
 analyzer/scan.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/analyzer/scan.go b/analyzer/scan.go
index d603b75..2147e13 100644
--- a/analyzer/scan.go
+++ b/analyzer/scan.go
@@ -57,8 +57,8 @@ func RunCapslock(args []string, output string, pkgs []*packages.Package, queried
 		if err != nil {
 			return fmt.Errorf("internal error: couldn't marshal protocol buffer: %s", err.Error())
 		}
-		fmt.Println(string(b))
-		return nil
+		_, err = fmt.Println(string(b))
+		return err
 	} else if output == "m" || output == "machine" {
 		var cs []string
 		cil := GetCapabilityCounts(pkgs, queriedPackages, config)
@@ -67,7 +67,9 @@ func RunCapslock(args []string, output string, pkgs []*packages.Package, queried
 		}
 		sort.Strings(cs)
 		for _, c := range cs {
-			fmt.Println(c)
+			if _, err := fmt.Println(c); err != nil {
+				return err
+			}
 		}
 		return nil
 	} else if output == "v" || output == "verbose" {
-- 
2.43.0


From 5f602c87b63ac72beb658e15bbfc6f34f2591931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:05 +0000
Subject: [PATCH 18/22] fix: give instances of generic functions the same names
 each time

---
 analyzer/util.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/analyzer/util.go b/analyzer/util.go
index bc2342f..eba1519 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -280,7 +280,17 @@ func buildGraph(pkgs []*packages.Package, populateSyntax bool) (*callgraph.Graph
 		ssaBuilderMode |= ssa.GlobalDebug
 	}
 	ssaProg, _ := ssautil.AllPackages(pkgs, ssaBuilderMode)
-	ssaProg.Build()
+	// Instances of generic functions are named after the type arguments they
+	// were first found with, which can be spelled in different ways using type
+	// aliases.  Building the packages in a fixed order makes the names of
+	// functions the same each time.
+	ssaPkgs := ssaProg.AllPackages()
+	slices.SortFunc(ssaPkgs, func(a, b *ssa.Package) int {
+		return strings.Compare(a.Pkg.Path(), b.Pkg.Path())
+	})
+	for _, p := range ssaPkgs {
+		p.Build()
+	}
 	allFunctions := ssautil.AllFunctions(ssaProg)
 	// Finding the methods of a generic type can add instances of other generic
 	// types to the program, so we repeat this until there are no new functions.
-- 
2.43.0


From e76d4db79c202c5d9e7f84633b990052c49b6b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:48:43 +0000
Subject: [PATCH 19/22] fix: treat packages vendored into the standard library
 as part of it

---
 analyzer/util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/analyzer/util.go b/analyzer/util.go
index eba1519..908575e 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -262,7 +262,10 @@ func callsitePosition(edge *callgraph.Edge) token.Position {
 }
 
 func isStdLib(p string) bool {
-	if strings.Contains(p, ".") {
+	// Only the first element is considered, since the standard library includes
+	// packages such as "vendor/golang.org/x/net/idna".
+	first, _, _ := strings.Cut(p, "/")
+	if strings.Contains(first, ".") {
 		return false
 	}
 	return true
-- 
2.43.0


From 332225fa95696befd77a7426164238b32bc5663f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:38:05 +0000
Subject: [PATCH 20/22] fix: recognise parenthesised sort and Once calls

---
 analyzer/rewrite.go | 6 +++---
 analyzer/util.go    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/analyzer/rewrite.go b/analyzer/rewrite.go
index 5fd782f..e5af44f 100644
--- a/analyzer/rewrite.go
+++ b/analyzer/rewrite.go
@@ -212,12 +212,12 @@ func isCallToSort(typeInfo *types.Info, node ast.Node) ast.Expr {
 		// Not a statement node.
 		return nil
 	}
-	call, ok := expr.X.(*ast.CallExpr)
+	call, ok := ast.Unparen(expr.X).(*ast.CallExpr)
 	if !ok {
 		// Not a function call.
 		return nil
 	}
-	callee, ok := call.Fun.(*ast.SelectorExpr)
+	callee, ok := ast.Unparen(call.Fun).(*ast.SelectorExpr)
 	if !ok {
 		// The function to be called is not a selection, so it can't be a call to
 		// the sort package.  (Unless the user has dot-imported "sort", but we
@@ -262,7 +262,7 @@ func isCallToOnceDoEtc(typeInfo *types.Info, node ast.Node) ast.Expr {
 		// Not a statement node.
 		return nil
 	}
-	call, ok := expr.X.(*ast.CallExpr)
+	call, ok := ast.Unparen(expr.X).(*ast.CallExpr)
 	if !ok {
 		// Not a call expression.
 		return nil
diff --git a/analyzer/util.go b/analyzer/util.go
index 908575e..dcca587 100644
--- a/analyzer/util.go
+++ b/analyzer/util.go
@@ -421,7 +421,7 @@ type methodMatcher struct {
 }
 
 func (m *packageFunctionMatcher) match(typeInfo *types.Info, call *ast.CallExpr) ast.Expr {
-	callee, ok := call.Fun.(*ast.SelectorExpr)
+	callee, ok := ast.Unparen(call.Fun).(*ast.SelectorExpr)
 	if !ok {
 		// The function to be called is not a selection, so it can't be a call to
 		// the relevant package.  (Unless the user has dot-imported the package,
@@ -541,7 +541,7 @@ func mayHaveSideEffects(e ast.Expr) bool {
 }
 
 func (m *methodMatcher) match(typeInfo *types.Info, call *ast.CallExpr) ast.Expr {
-	sel, ok := call.Fun.(*ast.SelectorExpr)
+	sel, ok := ast.Unparen(call.Fun).(*ast.SelectorExpr)
 	if !ok {
 		return nil
 	}
-- 
2.43.0


From 0895ee5f0d0333a8b9c94c55f7716559b118f479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:08:24 +0000
Subject: [PATCH 21/22] fix: do not change the caller's configuration

GetCapabilityInfo and comparisons stored the default granularity in the
Config that the caller passed.  A later comparison with the same Config
then used function instead of package granularity.
---
 analyzer/analyzer.go | 5 ++++-
 analyzer/compare.go  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/analyzer/analyzer.go b/analyzer/analyzer.go
index 567056b..c1432a4 100644
--- a/analyzer/analyzer.go
+++ b/analyzer/analyzer.go
@@ -84,7 +84,10 @@ func GetClassifier(excludeUnanalyzed bool) *interesting.Classifier {
 //     in pkgs to a function with a capability.
 func GetCapabilityInfo(pkgs []*packages.Package, queriedPackages map[*types.Package]struct{}, config *Config) *cpb.CapabilityInfoList {
 	if config.Granularity == GranularityUnset {
-		config.Granularity = GranularityFunction
+		// Use a copy, since the caller may use config again.
+		c := *config
+		c.Granularity = GranularityFunction
+		config = &c
 	}
 	if config.Granularity == GranularityIntermediate {
 		return intermediatePackages(pkgs, queriedPackages, config)
diff --git a/analyzer/compare.go b/analyzer/compare.go
index bfd9aa7..d447536 100644
--- a/analyzer/compare.go
+++ b/analyzer/compare.go
@@ -45,7 +45,10 @@ func GranularityFromString(g string) (Granularity, error) {
 
 func compare(baselineFilename string, pkgs []*packages.Package, queriedPackages map[*types.Package]struct{}, config *Config) (different bool, err error) {
 	if config.Granularity == GranularityUnset {
-		config.Granularity = GranularityPackage
+		// Use a copy, since the caller may use config again.
+		c := *config
+		c.Granularity = GranularityPackage
+		config = &c
 	}
 	compareData, err := os.ReadFile(baselineFilename)
 	if err != nil {
-- 
2.43.0


From 238fd4e6fa12f99b39eaede9020dd2f04d3648e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:42:04 +0000
Subject: [PATCH 22/22] fix: list the commits between revisions that share
 their name with a file

---
 cmd/capslock-git-diff/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/capslock-git-diff/main.go b/cmd/capslock-git-diff/main.go
index 33a1593..b4adc76 100644
--- a/cmd/capslock-git-diff/main.go
+++ b/cmd/capslock-git-diff/main.go
@@ -450,7 +450,7 @@ func printCallPath(fns []*cpb.Function) {
 
 func listCommits(revisions [2]string) {
 	var b bytes.Buffer
-	run(&b, "git", "log", "--no-decorate", "--oneline", "^"+revisions[0], revisions[1])
+	run(&b, "git", "log", "--no-decorate", "--oneline", "^"+revisions[0], revisions[1], "--")
 	lines := strings.Split(b.String(), "\n")
 	if len(lines) <= 120 {
 		os.Stdout.Write(b.Bytes())
-- 
2.43.0

