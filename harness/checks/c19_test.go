package checks

import (
	"fmt"
	"go/ast"
	"go/types"
	"os/exec"
	"sort"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/packages"
	"pgregory.net/rapid"
	"verif/harness/world"
)

// realConfigs are the ways in which real code is loaded.
var realConfigs = [][]string{
	{"GOOS=linux", "GOARCH=amd64", "CGO_ENABLED=0"},
	{"GOOS=windows", "GOARCH=amd64", "CGO_ENABLED=0"},
	{"GOOS=darwin", "GOARCH=arm64", "CGO_ENABLED=0"},
	{"GOOS=linux", "GOARCH=386", "CGO_ENABLED=0"},
	{"GOOS=js", "GOARCH=wasm", "CGO_ENABLED=0"},
	{"CGO_ENABLED=1"},
}

// loadReal loads the standard library and the modules that the repository
// depends on.
func loadReal(env []string) *world.Loaded {
	load := func() (*world.Loaded, error) {
		return world.LoadIn(world.RepoDir(), analyzer.PackagesLoadModeNeeded, append([]string{"GOFLAGS=-mod=readonly"}, env...), "std", "golang.org/x/tools/go/ssa/ssautil", "golang.org/x/tools/go/callgraph/vta", "golang.org/x/tools/go/packages", "google.golang.org/protobuf/encoding/protojson", "google.golang.org/protobuf/proto", "github.com/fatih/color")
	}
	l, err := load()
	if err != nil && env[0] == "CGO_ENABLED=1" {
		env[0] = "CGO_ENABLED=0"
		l, err = load()
	}
	if err != nil {
		panic(fmt.Sprintf("loading real packages: %v", err))
	}
	return l
}

func containsType(t types.Type, match func(types.Type) bool, seen map[types.Type]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if match(t) {
		return true
	}
	in := func(t types.Type) bool { return containsType(t, match, seen) }
	switch t := t.(type) {
	case *types.Alias:
		return in(types.Unalias(t))
	case *types.Named:
		return in(t.Underlying())
	case *types.Pointer:
		return in(t.Elem())
	case *types.Slice:
		return in(t.Elem())
	case *types.Array:
		return in(t.Elem())
	case *types.Chan:
		return in(t.Elem())
	case *types.Map:
		return in(t.Key()) || in(t.Elem())
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if in(t.At(i).Type()) {
				return true
			}
		}
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if in(t.Field(i).Type()) {
				return true
			}
		}
	case *types.TypeParam:
		return true
	}
	return false
}

// sourceCaps returns the capabilities that a function may have because of
// its own source.
func sourceCaps(f *world.FuncInfo) map[world.Cap]bool {
	out := map[world.Cap]bool{}
	if f.Decl != nil && f.Decl.Body == nil {
		out[world.ArbExec] = true
		return out
	}
	info := f.Pkg.TypesInfo
	unsafePtr := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.UnsafePointer
	}
	value := func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value"
	}
	look := func(n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			e, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			t := info.TypeOf(e)
			if id, ok := e.(*ast.Ident); ok && t == nil {
				if o := info.ObjectOf(id); o != nil {
					t = o.Type()
				}
			}
			if t == nil {
				return true
			}
			if !out[world.Unsafe] && containsType(t, unsafePtr, map[types.Type]bool{}) {
				out[world.Unsafe] = true
			}
			if !out[world.Reflect] && containsType(t, value, map[types.Type]bool{}) {
				out[world.Reflect] = true
			}
			return true
		})
	}
	if f.Decl != nil {
		look(f.Decl)
	} else {
		for _, file := range f.Pkg.Syntax {
			for _, d := range file.Decls {
				if g, ok := d.(*ast.GenDecl); ok {
					look(g)
				}
			}
		}
	}
	return out
}

func TestC19_Real(t *testing.T) {
	env := append([]string{}, realConfigs[shard%len(realConfigs)]...)
	if _, err := exec.LookPath("gcc"); err != nil && env[0] == "CGO_ENABLED=1" {
		env[0] = "CGO_ENABLED=0"
	}
	l := loadReal(env)
	fr := world.Builtin()
	pc := world.NewPathChecker(nil, nil)
	{
		ref := loadReal(env)
		pc = world.NewPathChecker(ref.Fset, ref.All)
	}
	caps := map[*world.FuncInfo]map[world.Cap]bool{}
	var pkgs []string
	for _, p := range world.SortedKeys(l.All) {
		if p != "unsafe" {
			pkgs = append(pkgs, p)
		}
	}
	check(t, "random sets of real packages (standard library, golang.org/x/tools, google.golang.org/protobuf), one operating system and architecture per worker, analysed with random options at all granularities; every path must be genuine, granularities, counts, statistics and graph must agree; non-trivial: something is reported",
		60, 10, func(rt *rapid.T, c *Ctx) {
			set := map[string]bool{}
			for i := rapid.IntRange(1, 4).Draw(rt, "npkgs"); i > 0; i-- {
				set[world.Pick(rt, pkgs, "pkg")] = true
			}
			noisy := world.Pct(rt, 30, "noisy")
			disable := world.Pct(rt, 10, "disablebuiltin")
			capText, has := genCapSet(rt)
			q := world.SortedKeys(set)
			text := ""
			desc := func() string {
				return fmt.Sprintf("%v packages %q noisy=%v disable=%v capabilities=%q map:\n%s", env, q, noisy, disable, capText, text)
			}
			var list []*packages.Package
			for _, p := range q {
				list = append(list, l.All[p])
			}
			queried := analyzer.GetQueriedPackages(list)
			capSet, err := analyzer.NewCapabilitySet(capText)
			if err != nil {
				c.Fail(rt, "%q is rejected: %v", capText, err)
			}
			cfg := func(g analyzer.Granularity) *analyzer.Config {
				cl := analyzer.GetClassifier(noisy)
				if text != "" {
					u := loadMap(rt, c, text, false)
					if noisy {
						u = interesting.ClassifierExcludingUnanalyzed(u)
					}
					cl = u
				}
				return &analyzer.Config{Classifier: cl, Granularity: g, DisableBuiltin: disable, CapabilitySet: capSet}
			}
			ref := fr
			if world.Pct(rt, 40, "custom") {
				// Classify functions that are on reported paths.
				var first *cpb.CapabilityInfoList
				guard(rt, c, desc, func() {
					first = analyzer.GetCapabilityInfo(list, queried, cfg(analyzer.GranularityPackage))
				})
				text = customMap(rt, pc, first)
				u, bad := world.ParseRef(text)
				if bad != 0 {
					panic("generator error: " + text)
				}
				ref = fr.Over(u)
			}
			if noisy {
				ref = ref.WithoutUnanalyzed()
			}
			pc.Cls = ref
			pc.Ignored = func(a, b string) bool { return ref.Edges[[2]string{a, b}] }
			pc.Queried = set
			pc.Extra = func(f *world.FuncInfo, name string) map[world.Cap]bool {
				if disable {
					return nil
				}
				if caps[f] == nil {
					caps[f] = sourceCaps(f)
				}
				return caps[f]
			}
			var fn, pk, im, again *cpb.CapabilityInfoList
			var counts *cpb.CapabilityCountList
			var stats *cpb.CapabilityStatList
			graph := ""
			which := world.Uniform(rt, 6, "which")
			guard(rt, c, desc, func() {
				fn = analyzer.GetCapabilityInfo(list, queried, cfg(analyzer.GranularityFunction))
				switch which {
				case 0:
					pk = analyzer.GetCapabilityInfo(list, queried, cfg(analyzer.GranularityPackage))
				case 1:
					im = analyzer.GetCapabilityInfo(list, queried, cfg(analyzer.GranularityIntermediate))
				case 2:
					counts = analyzer.GetCapabilityCounts(list, queried, cfg(0))
				case 3:
					stats = analyzer.GetCapabilityStats(list, queried, cfg(0))
				case 5:
					again = analyzer.GetCapabilityInfo(list, queried, cfg(analyzer.GranularityFunction))
				case 4:
					graph = captureStdout(func() {
						if err := analyzer.RunCapslock(nil, "graph", list, queried, cfg(0)); err != nil {
							c.Fail(rt, "graph output failed: %v\n\n%s", err, desc())
						}
					})
				}
			})
			n := len(fn.GetCapabilityInfo())
			c.Seen(desc(), n > 0)
			c.Class(fmt.Sprintf("with %s", []string{"package granularity", "intermediate granularity", "counts", "statistics", "graph", "repetition"}[which]), true)
			c.Class("custom map", text != "")
			c.Class("built-in analyses disabled", disable)
			c.Class(strings.Join(env, " "), true)
			c.Class("100 entries or more", n >= 100)
			c.Class("1000 entries or more", n >= 1000)
			pairs := pairsOf(fn)
			if len(pairs) != n && !ambiguous(fn) {
				c.Fail(rt, "%d entries for %d pairs of function and capability\n\n%s", n, len(pairs), desc())
			}
			if msg := ordered(fn); msg != "" {
				c.Fail(rt, "list is not ordered: %s\n\n%s", msg, desc())
			}
			for _, ci := range fn.GetCapabilityInfo() {
				if err := pc.Check(ci, false); err != nil {
					c.Fail(rt, "the entry for %s %s is not genuine: %v\npath: %s\n\n%s", ci.GetPackageDir(), ci.GetCapability(), err, sitePath(ci.Path), desc())
				}
				if w := wantType(ci); ci.GetCapabilityType() != w {
					c.Fail(rt, "%v entry should be %v: %v\n\n%s", ci.GetCapabilityType(), w, ci, desc())
				}
			}
			if again != nil && keyPathList(fn) != keyPathList(again) {
				a, b := firstDifference(keyPathList(fn), keyPathList(again))
				c.Fail(rt, "a second analysis differs\nfirst: %s\nthen: %s\n\n%s", a, b, desc())
			}
			if pk != nil {
				if missing, extra := world.Diff(pkgPairsOf(fn), pkgPairsOf(pk)); len(missing)+len(extra) > 0 {
					c.Fail(rt, "package granularity differs from function granularity\n%s\n\n%s", diffText(missing, extra), desc())
				}
				for _, ci := range pk.GetCapabilityInfo() {
					if err := pc.Check(ci, false); err != nil {
						c.Fail(rt, "the entry for %s %s is not genuine: %v\npath: %s\n\n%s", ci.GetPackageDir(), ci.GetCapability(), err, sitePath(ci.Path), desc())
					}
				}
			}
			if im != nil {
				got := pkgPairsOf(im)
				for _, ci := range fn.GetCapabilityInfo() {
					for _, f := range ci.Path {
						if p := f.GetPackage(); p != "" && has(ci.GetCapability()) && !got[p+"|"+ci.GetCapability().String()] {
							c.Fail(rt, "intermediate granularity has no entry for %s %s, which is on this path: %s\n\n%s", p, ci.GetCapability(), sitePath(ci.Path), desc())
						}
					}
				}
				for _, ci := range im.GetCapabilityInfo() {
					if !has(ci.GetCapability()) {
						c.Fail(rt, "%s %s is listed although the capability was not asked for\n\n%s", ci.GetPackageDir(), ci.GetCapability(), desc())
					}
					if err := pc.Check(ci, true); err != nil {
						c.Fail(rt, "the intermediate entry for %s %s is not genuine: %v\npath: %s\n\n%s", ci.GetPackageDir(), ci.GetCapability(), err, sitePath(ci.Path), desc())
					}
				}
			}
			want := statsOf(fn)
			if counts != nil {
				if len(counts.GetCapabilityCounts()) != len(want) {
					c.Fail(rt, "counts: %v, want %d capabilities\n\n%s", counts, len(want), desc())
				}
				for k, v := range counts.GetCapabilityCounts() {
					if want[k] == nil || int(v) != want[k].count {
						c.Fail(rt, "counts: %s is %d, want %+v\n\n%s", k, v, want[k], desc())
					}
				}
			}
			if stats != nil {
				if len(stats.GetCapabilityStats()) != len(want) {
					c.Fail(rt, "statistics: %v, want %d capabilities\n\n%s", stats, len(want), desc())
				}
				for _, st := range stats.GetCapabilityStats() {
					w := want[st.GetCapability().String()]
					if w == nil || int(st.GetCount()) != w.count || int(st.GetDirectCount()) != w.direct || int(st.GetTransitiveCount()) != w.transitive {
						c.Fail(rt, "statistics: %v, want %+v\n\n%s", st, w, desc())
					}
					if err := pc.CheckPath(st.GetCapability(), st.ExampleCallpath); err != nil {
						c.Fail(rt, "the example path for %s is not genuine: %v\npath: %s\n\n%s", st.GetCapability(), err, sitePath(st.ExampleCallpath), desc())
					}
				}
			}
			if graph != "" {
				edges, err := world.ParseDOT(graph)
				if err != nil {
					c.Fail(rt, "graph output is not a DOT digraph: %v\n\n%s", err, desc())
				}
				in := map[string][]string{}
				for e := range edges {
					in[e[1]] = append(in[e[1]], e[0])
				}
				for _, ci := range fn.GetCapabilityInfo() {
					if !has(ci.GetCapability()) {
						continue
					}
					for i := 1; i < len(ci.Path); i++ {
						if e := [2]string{ci.Path[i-1].GetName(), ci.Path[i].GetName()}; edges[e] == 0 {
							c.Fail(rt, "the graph has no edge %q, which is on this path: %s\n\n%s", e, sitePath(ci.Path), desc())
						}
					}
					if e := [2]string{ci.Path[len(ci.Path)-1].GetName(), ci.GetCapability().String()}; edges[e] == 0 {
						c.Fail(rt, "the graph has no edge %q, which ends this path: %s\n\n%s", e, sitePath(ci.Path), desc())
					}
				}
				// Everything in the graph leads to a capability that was asked
				// for.
				reach := map[string]bool{}
				var todo []string
				for _, k := range world.AllCaps {
					if has(k) {
						todo = append(todo, k.String())
					}
				}
				for len(todo) > 0 {
					v := todo[len(todo)-1]
					todo = todo[:len(todo)-1]
					if !reach[v] {
						reach[v] = true
						todo = append(todo, in[v]...)
					}
				}
				var names []string
				for e := range edges {
					names = append(names, e[0])
				}
				sort.Strings(names)
				for _, v := range names {
					if !reach[v] {
						c.Fail(rt, "%s in the graph does not lead to a capability\n\n%s", v, desc())
					}
				}
			}
		})
}

// customMap draws a capability map about functions and calls on the paths of
// a report.
func customMap(rt *rapid.T, pc *world.PathChecker, cil *cpb.CapabilityInfoList) string {
	var b strings.Builder
	seen := map[string]bool{}
	ok := func(s string) bool { return s != "" && !strings.ContainsAny(s, " #\t") && !seen[s] }
	cis := cil.GetCapabilityInfo()
	if len(cis) == 0 {
		return "# empty\n"
	}
	for i := 1 + world.Uniform(rt, 8, "nentries"); i > 0; i-- {
		p := world.Pick(rt, cis, "entry").Path
		k := world.Uniform(rt, len(p), "position")
		if k > 0 && world.Pct(rt, 40, "edge") {
			a, z := p[k-1].GetName(), p[k].GetName()
			if !strings.ContainsAny(a+z, " #\t") && !seen[a+" "+z] {
				seen[a+" "+z] = true
				fmt.Fprintf(&b, "ignore_edge %s %s\n", a, z)
			}
			continue
		}
		f, closure := pc.Lookup(p[k].GetName())
		if f == nil || closure != "" || !ok(f.Name) {
			continue
		}
		seen[f.Name] = true
		if cp := world.Pick(rt, append([]world.Cap{world.Safe, world.Unspecified}, world.AllCaps...), "cap"); cp == world.Unanalyzed {
			fmt.Fprintf(&b, "unanalyzed %s\n", f.Name)
		} else {
			fmt.Fprintf(&b, "func %s %v\n", f.Name, cp)
		}
	}
	return "# custom\n" + b.String()
}

// ambiguous reports whether a name stands for several functions (instances
// with the same name, or closures in them).
func ambiguous(cil *cpb.CapabilityInfoList) bool {
	seen := map[string]bool{}
	for _, ci := range cil.GetCapabilityInfo() {
		k := ci.Path[0].GetName() + "|" + ci.GetCapability().String()
		if seen[k] && !strings.ContainsAny(ci.Path[0].GetName(), "[$") {
			return false
		}
		seen[k] = true
	}
	return true
}
