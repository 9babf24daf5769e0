package checks

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"pgregory.net/rapid"
	"verif/harness/world"
)

// stdlib loads the whole standard library.
func stdlib() *world.Loaded {
	l, err := world.LoadStd(analyzer.PackagesLoadModeNeeded, nil, "std")
	if err != nil {
		panic(fmt.Sprintf("loading the standard library: %v", err))
	}
	return l
}

func public(p string) bool {
	return !strings.HasPrefix(p, "vendor/") && !strings.HasPrefix(p, "internal/") && !strings.Contains(p, "/internal/") && !strings.HasSuffix(p, "/internal")
}

// Hand-written: well-known operations and the capability that the
// documentation gives them.
var wellKnown = map[string]string{
	"os.Open": "FILES", "os.Create": "FILES", "os.ReadFile": "FILES", "os.WriteFile": "FILES", "os.Remove": "FILES", "os.RemoveAll": "FILES",
	"os.Mkdir": "FILES", "os.Rename": "FILES", "os.Chmod": "FILES", "os.Chown": "FILES", "os.Symlink": "FILES", "os.Link": "FILES", "os.Stat": "FILES",
	"os.Getenv": "READ_SYSTEM_STATE", "os.LookupEnv": "READ_SYSTEM_STATE", "os.Environ": "READ_SYSTEM_STATE", "os.Getpid": "READ_SYSTEM_STATE", "os.Getuid": "READ_SYSTEM_STATE",
	"os.Getwd": "READ_SYSTEM_STATE", "os.Hostname": "READ_SYSTEM_STATE", "os.UserHomeDir": "READ_SYSTEM_STATE",
	"os.Setenv": "MODIFY_SYSTEM_STATE", "os.Unsetenv": "MODIFY_SYSTEM_STATE", "os.Clearenv": "MODIFY_SYSTEM_STATE", "os.Chdir": "MODIFY_SYSTEM_STATE",
	"os.StartProcess": "EXEC", "os/exec.Command": "EXEC", "(*os/exec.Cmd).Run": "EXEC", "(*os/exec.Cmd).Start": "EXEC", "(*os/exec.Cmd).Output": "EXEC",
	"os/signal.Notify": "MODIFY_SYSTEM_STATE", "os/signal.Ignore": "MODIFY_SYSTEM_STATE", "os/user.Current": "READ_SYSTEM_STATE", "os/user.Lookup": "READ_SYSTEM_STATE",
	"net.Dial": "NETWORK", "net.Listen": "NETWORK", "net.LookupHost": "NETWORK", "(*net.Dialer).Dial": "NETWORK", "net.DialTimeout": "NETWORK", "net.ListenPacket": "NETWORK",
	"net/http.Get": "NETWORK", "net/http.Post": "NETWORK", "net/http.ListenAndServe": "NETWORK", "(*net/http.Client).Do": "NETWORK", "(*net/http.Server).ListenAndServe": "NETWORK",
	"net.Interfaces": "READ_SYSTEM_STATE", "net.InterfaceAddrs": "READ_SYSTEM_STATE",
	"syscall.Open": "SYSTEM_CALLS", "syscall.Mmap": "SYSTEM_CALLS", "syscall.Kill": "SYSTEM_CALLS", "syscall.Syscall": "SYSTEM_CALLS", "syscall.Exec": "SYSTEM_CALLS",
	"runtime.Goexit": "RUNTIME", "runtime/debug.SetGCPercent": "RUNTIME", "runtime/debug.SetMaxStack": "RUNTIME", "runtime/debug.SetMaxThreads": "RUNTIME", "runtime/debug.SetPanicOnFault": "RUNTIME",
	"reflect.MakeFunc": "REFLECT", "(reflect.Value).Call": "REFLECT", "(reflect.Value).Set": "REFLECT",
	"(*os.File).Read": "FILES", "(*os.File).Write": "FILES", "(*os.File).Chmod": "FILES", "(*os.Process).Kill": "OPERATING_SYSTEM",
	"math.Sin": "SAFE", "time.Now": "SAFE", "fmt.Sprintf": "SAFE", "crypto/sha256.Sum256": "SAFE", "sync/atomic.AddInt32": "SAFE", "net.ParseIP": "SAFE",
}

// TestC16_Table decides the lookup of every exported function and method of
// the standard library, and of every name in the frozen map.
func TestC16_TableX1(t *testing.T) {
	c := newCtx(t, "every exported function and method of the standard library and every name of the map as it was when the check was written, looked up in the default classifier, against an independent reading of that map and a hand-written table; non-trivial: the capability is specified")
	l := stdlib()
	fr := world.Frozen()
	type key struct{ pkg, name string }
	keys := map[key]bool{}
	for _, p := range world.SortedKeys(l.All) {
		if p == "unsafe" {
			continue
		}
		for _, f := range l.All[p].TypesInfo.Defs {
			if f, ok := f.(*types.Func); ok && f.Pkg() != nil && f.Name() != "_" {
				keys[key{p, world.StripArgs(f.FullName())}] = true
			}
		}
	}
	nstd := len(keys)
	for n := range fr.Funcs {
		keys[key{pkgOfName(n), n}] = true
	}
	for n := range fr.Unan {
		keys[key{pkgOfName(n), n}] = true
	}
	for p := range fr.Pkgs {
		keys[key{p, p + ".SomeFunction"}] = true
		keys[key{p, "(*" + p + ".SomeType).SomeMethod"}] = true
		keys[key{p + "/sub", p + "/sub.SomeFunction"}] = true
		keys[key{"x/" + p, "x/" + p + ".SomeFunction"}] = true
	}
	for s := range fr.Suffixes {
		keys[key{"example.com/p", "example.com/p." + s}] = true
		keys[key{"os", "os." + s}] = true
	}
	sorted := make([]key, 0, len(keys))
	for k := range keys {
		sorted = append(sorted, k)
	}
	sort.Slice(sorted, func(i, j int) bool { return sorted[i].name < sorted[j].name })
	noisy := fr.WithoutUnanalyzed()
	for _, k := range sorted {
		want := fr.Category(k.pkg, k.name)
		c.Evaluations++
		c.Seen(k.name, want != world.Unspecified)
		c.Class(want.String(), true)
		for i, cl := range []analyzer.Classifier{interesting.DefaultClassifier(), analyzer.GetClassifier(false), analyzer.GetClassifier(true)} {
			w := want
			if i == 2 {
				w = noisy.Category(k.pkg, k.name)
			}
			if got := cl.FunctionCategory(k.pkg, k.name); got != w {
				c.Fail(t, "%s in package %s is classified %v, want %v (classifier %d: default, GetClassifier(false), GetClassifier(true))", k.name, k.pkg, got, w, i)
			}
		}
		if w, ok := wellKnown[k.name]; ok && want.String() != "CAPABILITY_"+w {
			panic(fmt.Sprintf("hand-written table disagrees with the frozen map for %s: %v", k.name, want))
		}
	}
	for n := range wellKnown {
		if !keys[key{pkgOfName(n), n}] {
			panic("hand-written table: no function " + n)
		}
	}
	c.Class("standard library functions", true)
	c.Classes["standard library functions"] = nstd
}

func pkgOfName(n string) string {
	n = strings.TrimLeft(n, "(*")
	i := strings.LastIndex(n, "/") + 1
	j := strings.Index(n[i:], ".")
	if j < 0 {
		return n
	}
	return n[:i+j]
}

// TestC16_Calls checks random programs that call the standard library.
func TestC16_Calls(t *testing.T) {
	l := stdlib()
	fr := world.Frozen()
	byPkg := map[string][]*world.Op{}
	var pkgs []string
	for _, p := range world.SortedKeys(l.All) {
		if !public(p) || p == "unsafe" {
			continue
		}
		for _, op := range world.Ops(l.All[p].Types) {
			if op.Name == "(*sync.Once).Do" || p == "sort" && fr.Unan[op.Name] {
				continue // these calls are replaced by calls of their arguments
			}
			if fr.Category(p, op.Name) != world.Unspecified {
				byPkg[p] = append(byPkg[p], op)
			}
		}
		if len(byPkg[p]) > 0 {
			pkgs = append(pkgs, p)
		}
	}
	heavy := map[string]bool{"net": true, "net/http": true, "plugin": true, "runtime/cgo": true, "crypto/tls": true, "os/user": true}
	// Several entries make the important packages more likely.
	var weighted []string
	for _, p := range pkgs {
		k := 1
		switch {
		case p == "os":
			k = 6
		case p == "syscall" || p == "reflect" || p == "runtime" || p == "net" || p == "net/http" || strings.HasPrefix(p, "os/"):
			k = 3
		case len(byPkg[p]) > 20:
			k = 2
		}
		for i := 0; i < k; i++ {
			weighted = append(weighted, p)
		}
	}
	check(t, "random programs that call random classified exported functions and methods of the real standard library (up to 60 per program) directly, deferred, in goroutines, closures, through helpers, methods, generic functions, function values, method values and expressions and embedding; every calling function must be reported with exactly the capability of the operation; non-trivial: some operation is not safe",
		110, 20, func(rt *rapid.T, c *Ctx) {
			var chosen []string
			for i := rapid.IntRange(1, 4).Draw(rt, "npkgs"); i > 0; i-- {
				p := world.Pick(rt, weighted, "pkg")
				if heavy[p] && world.Pct(rt, 40, "light") {
					p = "os"
				}
				chosen = append(chosen, p)
			}
			n := 1 + world.Uniform(rt, 60, "nops")
			var b strings.Builder
			imports := map[string]bool{}
			want := map[string]bool{}
			loose := map[string]bool{}
			nontrivial := false
			for i := 0; i < n; i++ {
				ops := byPkg[world.Pick(rt, chosen, "from")]
				op := world.Pick(rt, ops, "op")
				for p := range op.Imports {
					imports[p] = true
				}
				names, how := op.Call(rt, i, &b)
				cat := fr.Category(op.Pkg, op.Name)
				c.Class("how:"+how, true)
				c.Class(cat.String(), true)
				for _, f := range names {
					if cat != world.Safe {
						want["example.com/m."+f+"|"+cat.String()] = true
						nontrivial = true
					}
					if op.Reflect {
						loose["example.com/m."+f+"|"+world.Reflect.String()] = true
					}
				}
			}
			var src strings.Builder
			src.WriteString("package m\n\nimport (\n")
			for _, p := range world.SortedKeys(imports) {
				fmt.Fprintf(&src, "\t%s %q\n", world.Alias(p), p)
			}
			src.WriteString(")\n\n")
			src.WriteString(b.String())
			prog := world.Program{{Path: "example.com/m", Queried: true, Files: []world.File{{Name: "m.go", Src: src.String()}}}}
			w, err := world.LoadOver(l, prog)
			if err != nil {
				panic("generator error: " + err.Error())
			}
			c.Seen(prog.String(), nontrivial)
			noisy := world.Pct(rt, 20, "noisy")
			if noisy {
				// Unanalyzed operations are then analysed like any other.
				for k := range want {
					if strings.HasSuffix(k, world.Unanalyzed.String()) {
						delete(want, k)
					}
				}
			}
			var got map[string]bool
			guard(rt, c, prog.String, func() {
				cil := analyzer.GetCapabilityInfo(w.Queried, analyzer.GetQueriedPackages(w.Queried), &analyzer.Config{Classifier: analyzer.GetClassifier(noisy), Granularity: analyzer.GranularityFunction, OmitPaths: world.Pct(rt, 50, "omit")})
				got = pairsOf(cil)
			})
			for k := range got {
				name, _, _ := strings.Cut(k, "|")
				name = strings.TrimPrefix(name, "example.com/m.")
				// Only the functions whose expectation is known.
				if !strings.HasPrefix(name, "F") && !strings.HasPrefix(name, "h") || strings.Contains(name, "$") || loose[k] {
					delete(got, k)
				}
			}
			for k := range loose {
				delete(want, k)
			}
			missing, extra := world.Diff(want, got)
			if noisy {
				extra = nil
			}
			if len(missing)+len(extra) > 0 {
				c.Fail(rt, "noisy=%v\n%s\n\n%s", noisy, diffText(missing, extra), prog)
			}
		})
}

// TestC16_Std checks the standard library's own exported functions: whatever
// they reach by plain calls must be reported.
func TestC16_Std(t *testing.T) {
	l, ref := stdlib(), stdlib()
	fr := world.Frozen()
	var pkgs []string
	for _, p := range world.SortedKeys(l.All) {
		if p != "unsafe" {
			pkgs = append(pkgs, p)
		}
	}
	prog, _ := ssautil.AllPackages(ref.Queried, ssa.InstantiateGenerics)
	prog.Build()
	memo := map[*ssa.Function]map[world.Cap]bool{}
	check(t, "random sets of packages of the real standard library; for each of their functions, what is certain to be reached by plain static calls in an independently built program must be reported; non-trivial: something is reached",
		60, 10, func(rt *rapid.T, c *Ctx) {
			set := map[string]bool{}
			for i := rapid.IntRange(1, 4).Draw(rt, "npkgs"); i > 0; i-- {
				set[world.Pick(rt, pkgs, "pkg")] = true
			}
			q := world.SortedKeys(set)
			desc := func() string { return fmt.Sprintf("packages %q", q) }
			want := map[string]bool{}
			var list []*packages.Package
			for _, p := range q {
				list = append(list, l.All[p])
				sp := prog.Package(ref.All[p].Types)
				for _, m := range sp.Members {
					if f, ok := m.(*ssa.Function); ok && f.Synthetic == "" && f.TypeParams().Len() == 0 {
						for k := range staticCaps(fr, f, memo) {
							want[f.String()+"|"+k.String()] = true
						}
					}
				}
				for _, f := range declaredMethods(prog, sp) {
					for k := range staticCaps(fr, f, memo) {
						want[f.String()+"|"+k.String()] = true
					}
				}
			}
			c.Seen(desc(), len(want) > 0)
			c.Class("10 or more expected", len(want) >= 10)
			c.Class("100 or more expected", len(want) >= 100)
			var got map[string]bool
			guard(rt, c, desc, func() {
				cil := analyzer.GetCapabilityInfo(list, analyzer.GetQueriedPackages(list), &analyzer.Config{Classifier: analyzer.GetClassifier(false), Granularity: analyzer.GranularityFunction, OmitPaths: true})
				got = pairsOf(cil)
			})
			if missing, _ := world.Diff(want, got); len(missing) > 0 {
				c.Fail(rt, "missing from the report: %q\n\n%s", missing, desc())
			}
		})
}

// declaredMethods lists the methods with source of the package's types.
func declaredMethods(prog *ssa.Program, p *ssa.Package) (out []*ssa.Function) {
	for _, n := range p.Pkg.Scope().Names() {
		tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok || named.TypeParams() != nil || types.IsInterface(named) {
			continue
		}
		for i := 0; i < named.NumMethods(); i++ {
			if f := prog.FuncValue(named.Method(i)); f != nil && f.Blocks != nil {
				out = append(out, f)
			}
		}
	}
	return out
}

// staticCaps returns the capabilities that f reaches by static calls.
func staticCaps(m *world.RefMap, f *ssa.Function, memo map[*ssa.Function]map[world.Cap]bool) map[world.Cap]bool {
	if r, ok := memo[f]; ok {
		return r
	}
	out := map[world.Cap]bool{}
	seen := map[*ssa.Function]bool{}
	name := func(f *ssa.Function) (pkg, n string) {
		o := f
		if f.Origin() != nil {
			o = f.Origin()
		}
		if o.Pkg == nil {
			return "", ""
		}
		return o.Pkg.Pkg.Path(), o.String()
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		pkg, n := name(f)
		if pkg == "" {
			return
		}
		switch c := m.Category(pkg, n); c {
		case world.Safe:
			return
		case world.Unspecified:
		default:
			out[c] = true
			return
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := call.Common().StaticCallee()
				if g == nil {
					continue
				}
				_, gn := name(g)
				if strings.HasPrefix(gn, "sort.") || gn == "(*sync.Once).Do" {
					continue // replaced by the analysis
				}
				if m.Edges[[2]string{f.String(), g.String()}] {
					continue
				}
				visit(g)
			}
		}
	}
	visit(f)
	memo[f] = out
	return out
}
