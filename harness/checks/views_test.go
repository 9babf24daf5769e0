package checks

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"pgregory.net/rapid"
	"verif/harness/world"
)

// The views of one analysis of a program with calls through values.  The
// reference model is a lower bound of its calls, so the views are compared
// with each other as well.

func capNode(n string) (world.Cap, bool) {
	v, ok := cpb.Capability_value[n]
	return world.Cap(v), ok
}

// graphOf returns the edges of graph output.
func graphOf(rt *rapid.T, c *Ctx, l *world.Loaded, cfg analyzer.Config, set string, desc func() string) map[[2]string]int {
	cs, err := analyzer.NewCapabilitySet(set)
	if err != nil {
		c.Fail(rt, "capability list %q rejected: %v", set, err)
	}
	cfg.CapabilitySet = cs
	out, err := run(l, cfg, "graph")
	if err != nil {
		c.Fail(rt, "graph output failed: %v\n\n%s", err, desc())
	}
	edges, err := world.ParseDOT(out)
	if err != nil {
		c.Fail(rt, "graph output is not a DOT digraph: %v\n%s\n\n%s", err, out, desc())
	}
	return edges
}

func TestC06_Dynamic(t *testing.T) {
	check(t, "random program with calls through values, interfaces, closures, generics and iterators, and map: package entries are those of the function entries, intermediate entries cover the known call chains and the reported paths, and are those of the graph of each capability; non-trivial: some pair is expected",
		4000, 20, func(rt *rapid.T, c *Ctx) {
			s := genDynamic(rt, world.Style{})
			setText, has := genCapSet(rt)
			cfg := s.config(rt, c)
			l := mustLoad(s.Prog)
			pc := s.pathChecker(mustLoad(s.Prog))
			cs, err := analyzer.NewCapabilitySet(setText)
			if err != nil {
				c.Fail(rt, "capability list %q rejected: %v", setText, err)
			}
			desc := func() string { return fmt.Sprintf("capabilities=%q\n%s", setText, s) }
			c.Seen(desc(), len(s.Solution.Pairs()) > 0)
			c.Class("capability-list", setText != "")
			get := func(g analyzer.Granularity, omit bool) *cpb.CapabilityInfoList {
				x := cfg
				x.Granularity, x.OmitPaths = g, omit
				if g == analyzer.GranularityIntermediate {
					x.CapabilitySet = cs
				}
				return info(l, x)
			}
			guard(rt, c, desc, func() {
				fn, pk, im := get(analyzer.GranularityFunction, false), get(analyzer.GranularityPackage, false), get(analyzer.GranularityIntermediate, false)
				for g, full := range map[analyzer.Granularity]*cpb.CapabilityInfoList{analyzer.GranularityFunction: fn, analyzer.GranularityPackage: pk, analyzer.GranularityIntermediate: im} {
					if msg := ordered(full); msg != "" {
						c.Fail(rt, "%s granularity: list is not ordered: %s\n\n%s", granNames[g], msg, desc())
					}
					omit := get(g, true)
					a, b := keyList(full), keyList(omit)
					if strings.Join(a, "\n") != strings.Join(b, "\n") {
						c.Fail(rt, "%s granularity: omitting paths changed the entries\nwith:    %q\nwithout: %q\n\n%s", granNames[g], a, b, desc())
					}
				}
				if missing, extra := world.Diff(pkgPairsOf(fn), pkgPairsOf(pk)); len(missing)+len(extra) > 0 {
					c.Fail(rt, "package granularity differs from function granularity\n%s\n\n%s", diffText(missing, extra), desc())
				}
				got := pkgPairsOf(im)
				if len(got) != len(im.CapabilityInfo) {
					c.Fail(rt, "intermediate granularity: %d entries for %d pairs\n\n%s", len(im.CapabilityInfo), len(got), desc())
				}
				if missing, _ := world.Diff(s.Solution.IntermediatePairs(has), got); len(missing) > 0 {
					c.Fail(rt, "intermediate granularity: missing %q\n\n%s", missing, desc())
				}
				caps := map[world.Cap]bool{}
				for _, ci := range fn.CapabilityInfo {
					k := ci.GetCapability()
					if !has(k) {
						continue
					}
					caps[k] = true
					for _, f := range ci.Path {
						if p := f.GetPackage(); p != "" && !got[p+"|"+k.String()] {
							c.Fail(rt, "intermediate granularity has no entry for %s %s, which is on this path: %s\n\n%s", p, k, sitePath(ci.Path), desc())
						}
					}
				}
				for _, ci := range im.CapabilityInfo {
					if !caps[ci.GetCapability()] {
						c.Fail(rt, "intermediate granularity has an entry for %s %s, which no function of a queried package has or which was not asked for\n\n%s", ci.GetPackageDir(), ci.GetCapability(), desc())
					}
				}
				// The packages of each capability are those of its graph.
				for _, k := range world.AllCaps {
					if !caps[k] {
						continue
					}
					nodes := map[string]bool{}
					for e := range graphOf(rt, c, l, cfg, k.String(), desc) {
						for _, n := range e {
							if _, ok := capNode(n); !ok {
								nodes[n] = true
							}
						}
					}
					in := map[string]bool{}
					for n := range nodes {
						pkg, ok := world.WrapperPackage(n)
						if f, _ := pc.Lookup(n); f != nil {
							pkg, ok = f.Pkg.PkgPath, true
						}
						if ok {
							if !got[pkg+"|"+k.String()] {
								c.Fail(rt, "intermediate granularity has no entry for %s %s, but %s is on a path to the capability in the graph\n\n%s", pkg, k, n, desc())
							}
							in[pkg] = true
						}
					}
					for _, ci := range im.CapabilityInfo {
						if ci.GetCapability() == k && !in[ci.GetPackageDir()] {
							// A wrapper can be all there is of a package.
							found := false
							for n := range nodes {
								found = found || strings.Contains(n, ci.GetPackageDir()+".")
							}
							if !found {
								c.Fail(rt, "intermediate granularity has an entry for %s %s, but the graph has no function of that package\n\n%s", ci.GetPackageDir(), k, desc())
							}
						}
					}
				}
			})
		})
}

func TestC07_Dynamic(t *testing.T) {
	check(t, "random program with calls through values and map, printed in every output mode: all must agree with the function-level report; non-trivial: at least one capability is reported",
		3000, 20, func(rt *rapid.T, c *Ctx) {
			s := genDynamic(rt, world.Style{})
			cfg := s.config(rt, c)
			l := mustLoad(s.Prog)
			c.Seen(s.String(), len(s.Solution.Pairs()) > 0)
			guard(rt, c, s.String, func() {
				cil := info(l, cfg)
				if missing, _ := world.Diff(s.Solution.Pairs(), pairsOf(cil)); len(missing) > 0 {
					c.Fail(rt, "capabilities are missing from the report: %q\n\n%s", missing, s)
				}
				if msg := checkOutputs(cil, func(mode string) (string, error) { return run(l, cfg, mode) }); msg != "" {
					c.Fail(rt, "%s\n\n%s", msg, s)
				}
			})
		})
}

func TestC08_Dynamic(t *testing.T) {
	check(t, "random program with calls through values and map, graph output with a random capability list: it leads along the known call chains and has the edges of the reported paths, every edge is a call in the source that is not ignored and does not start at a classified function, every node is reached from a queried function and leads to a capability that was asked for; non-trivial: the graph has an edge",
		8000, 20, func(rt *rapid.T, c *Ctx) {
			s := genDynamic(rt, world.Style{})
			setText, has := genCapSet(rt)
			cfg := s.config(rt, c)
			l := mustLoad(s.Prog)
			pc := s.pathChecker(mustLoad(s.Prog))
			desc := func() string { return fmt.Sprintf("capabilities=%q\n%s", setText, s) }
			guard(rt, c, desc, func() {
				edges := graphOf(rt, c, l, cfg, setText, desc)
				c.Seen(desc(), len(edges) > 0)
				c.Class("capability-list", setText != "")
				c.Class("edges>=10", len(edges) >= 10)
				for p := range s.Solution.Pairs() {
					name, k, _ := strings.Cut(p, "|")
					if v, _ := capNode(k); has(v) && !leads(edges, name, k) {
						c.Fail(rt, "the graph does not lead from %s to %s\n\n%s", name, k, desc())
					}
				}
				for _, ci := range info(l, cfg).CapabilityInfo {
					if !has(ci.GetCapability()) {
						continue
					}
					for i := 1; i < len(ci.Path); i++ {
						if e := [2]string{ci.Path[i-1].GetName(), ci.Path[i].GetName()}; edges[e] == 0 {
							c.Fail(rt, "the graph has no edge %q, which is on this path: %s\n\n%s", e, sitePath(ci.Path), desc())
						}
					}
					if e := [2]string{ci.Path[len(ci.Path)-1].GetName(), ci.GetCapability().String()}; edges[e] == 0 {
						c.Fail(rt, "the graph has no edge %q, which ends this path: %s\n\n%s", e, sitePath(ci.Path), desc())
					}
				}
				checkGraphEdges(rt, c, pc, edges, has, desc)
			})
		})
}

// leads reports whether a graph has a path from one node to another.
func leads(edges map[[2]string]int, from, to string) bool {
	next := map[string][]string{}
	for e := range edges {
		next[e[0]] = append(next[e[0]], e[1])
	}
	seen := map[string]bool{}
	todo := []string{from}
	for len(todo) > 0 {
		v := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if !seen[v] {
			seen[v] = true
			todo = append(todo, next[v]...)
		}
	}
	return seen[to]
}

// checkGraphEdges checks the edges of a graph against the source.
func checkGraphEdges(rt *rapid.T, c *Ctx, pc *world.PathChecker, edges map[[2]string]int, has func(world.Cap) bool, desc func() string) {
	fwd, back := map[string][]string{}, map[string][]string{}
	down, up := map[string]bool{}, map[string]bool{}
	var todoDown, todoUp []string
	for e := range edges {
		fwd[e[0]] = append(fwd[e[0]], e[1])
		back[e[1]] = append(back[e[1]], e[0])
		if f, _ := pc.Lookup(e[0]); f != nil && pc.Queried[f.Pkg.PkgPath] {
			todoDown = append(todoDown, e[0])
		}
		k, ok := capNode(e[1])
		if !ok {
			if err := pc.Edge(e[0], e[1]); err != nil {
				c.Fail(rt, "the graph has the edge %q: %v\n\n%s", e, err, desc())
			}
			if pc.Category(e[0]) != world.Unspecified {
				c.Fail(rt, "the graph has the edge %q, but the caller is classified %v\n\n%s", e, pc.Category(e[0]), desc())
			}
			if pc.Category(e[1]) == world.Safe {
				c.Fail(rt, "the graph has the edge %q, but the callee is classified safe\n\n%s", e, desc())
			}
			continue
		}
		if !has(k) {
			c.Fail(rt, "the graph has the edge %q for a capability that was not asked for\n\n%s", e, desc())
		}
		todoUp = append(todoUp, e[1])
		cat := pc.Category(e[0])
		f, _ := pc.Lookup(e[0])
		if cat != k && (cat != world.Unspecified || f == nil || !pc.Extra(f, e[0])[k]) {
			c.Fail(rt, "the graph has the edge %q, but the function does not have that capability\n\n%s", e, desc())
		}
	}
	walk := func(todo []string, next map[string][]string, seen map[string]bool) {
		for len(todo) > 0 {
			v := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			if !seen[v] {
				seen[v] = true
				todo = append(todo, next[v]...)
			}
		}
	}
	walk(todoDown, fwd, down)
	walk(todoUp, back, up)
	for e := range edges {
		if !down[e[0]] {
			c.Fail(rt, "%s in the graph is not reached from a function of a queried package\n\n%s", e[0], desc())
		}
		if !up[e[0]] {
			c.Fail(rt, "%s in the graph does not lead to a capability\n\n%s", e[0], desc())
		}
	}
}

func TestC11_Dynamic(t *testing.T) {
	base := filepath.Join(scratch(t), "base.json")
	check(t, "json report of a random program with calls through values saved as baseline, compared with the same or a changed version of the program: the differences are those between the two reports; non-trivial: something is reported for at least one version",
		4000, 20, func(rt *rapid.T, c *Ctx) {
			s := genDynamic(rt, world.Style{})
			s2 := &staticCase{Prog: s.Prog, Model: s.Model, Abs: s.Abs, Queried: s.Queried, Mode: s.Mode, MapText: s.MapText, Ref: s.Ref, Noisy: s.Noisy, Disable: s.Disable, Cfg: s.Cfg, NoEdges: true}
			same := world.Pct(rt, 20, "same")
			if !same {
				s.Abs.Mutate(rt)
				s2.Prog, s2.Model = s.Abs.Render(rt, world.Style{Fancy: true, Dynamic: true})
			}
			if same || world.Pct(rt, 70, "samemap") {
				s2.Solution = s2.Model.Solve(s2.Ref, s2.Queried, s2.Disable)
			} else {
				s2.classify(rt)
			}
			g := world.Pick(rt, granularities, "gran")
			ob, oc := world.Pct(rt, 40, "omitbase"), world.Pct(rt, 40, "omitcur")
			cfgB, cfgC := s.config(rt, c), s2.config(rt, c)
			cfgB.Granularity, cfgB.OmitPaths = g, ob
			cfgC.Granularity, cfgC.OmitPaths = g, oc
			desc := func() string {
				return fmt.Sprintf("granularity=%s; omit_paths: baseline %v, comparison %v\n==== baseline ====\n%s\n==== compared ====\n%s", granNames[g], ob, oc, s, s2)
			}
			var out string
			var before, after map[string]bool
			var err error
			guard(rt, c, desc, func() {
				keys := pkgPairsOf
				if g == analyzer.GranularityFunction {
					keys = pairsOf
				}
				a, b := cfgB, cfgC
				if g == analyzer.GranularityUnset {
					// The default of a comparison is package granularity.
					a.Granularity, b.Granularity = analyzer.GranularityPackage, analyzer.GranularityPackage
				}
				before, after = keys(info(mustLoad(s.Prog), a)), keys(info(mustLoad(s2.Prog), b))
				var js string
				js, err = run(mustLoad(s.Prog), cfgB, "json")
				if err != nil {
					c.Fail(rt, "json output failed: %v\n\n%s", err, desc())
				}
				if err := os.WriteFile(base, []byte(js), 0o644); err != nil {
					panic(err)
				}
				out, err = run(mustLoad(s2.Prog), cfgC, "compare", base)
			})
			wantNew, wantGone := minus(after, before), minus(before, after)
			c.Seen(desc(), len(before)+len(after) > 0)
			c.Class("granularity:"+granNames[g], true)
			c.Class("has-new", len(wantNew) > 0)
			c.Class("has-gone", len(wantGone) > 0)
			differs := len(wantNew)+len(wantGone) > 0
			var dfe analyzer.DifferenceFoundError
			if err != nil && !errors.As(err, &dfe) {
				c.Fail(rt, "comparison failed: %v\n\n%s", err, desc())
			}
			if (err != nil) != differs {
				c.Fail(rt, "difference signalled: %v, expected new %q gone %q\n%s\n\n%s", err != nil, world.SortedKeys(wantNew), world.SortedKeys(wantGone), out, desc())
			}
			checkMessages(rt, c, out, wantNew, wantGone, desc)
		})
}
