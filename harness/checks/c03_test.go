package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	"pgregory.net/rapid"
	"verif/harness/world"
)

// staticCase is a generated program with exact ground truth and a classifier.
type staticCase struct {
	Prog     world.Program
	Model    *world.Model
	Ref      *world.RefMap // effective classification
	MapText  string        // user map; "" for the default classifier
	Mode     string        // default, user, merged, custom
	Noisy    bool
	Disable  bool
	Cfg      analyzer.Config
	Abs      *world.Abstract
	Queried  map[string]bool
	Solution *world.Solution

	NoEdges     bool // no ignored calls, no entries that apply to closures only
	NoInstEdges bool // no ignored calls of or by instances of generic functions
}

func (s *staticCase) String() string {
	return s.header() + s.Prog.String()
}

func (s *staticCase) header() string {
	return fmt.Sprintf("classifier: %s noisy=%v disable_builtin=%v\n-- map --\n%s", s.Mode, s.Noisy, s.Disable, s.MapText)
}

// genMap draws classifications for the functions, packages and calls of m.
// If text is set, only names that can be written in a map file are used.
func genMap(t *rapid.T, m *world.Model, text bool) *world.RefMap {
	r := world.NewRefMap()
	caps := append([]world.Cap{world.Safe, world.Safe, world.Unspecified, world.Files, world.Network, world.Unanalyzed, world.Unanalyzed}, world.RealCaps...)
	pkgs := map[string]bool{}
	listed := map[string]bool{}
	for _, x := range m.Nodes {
		pkgs[x.Pkg] = true
		if x.Class != "" && !(text && strings.ContainsAny(x.Class, "# ")) {
			listed[x.Class] = true
		}
	}
	for _, n := range world.SortedKeys(listed) {
		if strings.Contains(n, ".Lng") && !world.Pct(t, 1, "classifylong") {
			continue
		}
		if world.Pct(t, 25, "classify") {
			r.Funcs[n] = world.Pick(t, caps, "cap")
		} else if world.Pct(t, 5, "unan") {
			r.Unan[n] = true
		}
	}
	for _, p := range world.SortedKeys(pkgs) {
		if world.Pct(t, 17, "classifypkg") {
			r.Pkgs[p] = world.Pick(t, caps, "pkgcap")
		}
	}
	es := map[string][2]string{}
	for e := range m.Edges {
		k := e[0] + " " + e[1]
		if !(text && (strings.Contains(k, "#") || strings.Count(k, " ") > 1)) {
			es[k] = e
		}
	}
	for _, k := range world.SortedKeys(es) {
		if strings.Contains(k, ".Lng") && !world.Pct(t, 5, "ignorelong") {
			continue
		}
		if world.Pct(t, 10, "ignore") {
			r.Edges[es[k]] = true
		}
		if world.Pct(t, 3, "ignorerev") {
			r.Edges[[2]string{es[k][1], es[k][0]}] = true
		}
	}
	if world.Pct(t, 6, "suffix") {
		r.Suffixes[world.Pick(t, []string{".M1", ".F2", "F0", "$1", ").M0"}, "suffixv")] = true
	}
	return r
}

func genStatic(t *rapid.T, st world.Style) *staticCase {
	a := world.GenAbstract(t)
	prog, m := a.Render(t, st)
	s := &staticCase{Prog: prog, Model: m, Abs: a, Queried: a.QueriedSet()}
	s.classify(t)
	return s
}

// genMap draws a map and applies the restrictions of the case.
func (s *staticCase) genMap(t *rapid.T, text bool) *world.RefMap {
	r := genMap(t, s.Model, text)
	for e := range r.Edges {
		if s.NoEdges || s.NoInstEdges && strings.Contains(e[0]+e[1], "[") {
			delete(r.Edges, e)
		}
	}
	if s.NoEdges {
		delete(r.Suffixes, "$1")
		// A function can be exempted from the category of its package, but not
		// its closures.
		for f, c := range r.Funcs {
			if c == world.Unspecified {
				delete(r.Funcs, f)
			}
		}
	}
	return r
}

func (s *staticCase) classify(t *rapid.T) {
	s.Mode = world.Pick(t, []string{"default", "user", "merged", "custom", "custom"}, "mode")
	s.Noisy = s.Mode != "custom" && world.Pct(t, 20, "noisy")
	if s.Mode == "user" || s.Mode == "custom" {
		s.Disable = world.Pct(t, 30, "disable")
	}
	switch s.Mode {
	case "default":
		s.Ref = builtin
		s.Cfg.Classifier = analyzer.GetClassifier(s.Noisy)
	case "user", "merged":
		um := s.genMap(t, true)
		s.MapText = um.Text()
		s.Ref = um
		if s.Mode == "merged" {
			s.Ref = builtin.Over(um)
		}
	case "custom":
		s.Ref = s.genMap(t, false)
		s.MapText = s.Ref.Text()
		s.Cfg.Classifier = s.Ref
	}
	if s.Noisy {
		s.Ref = s.Ref.WithoutUnanalyzed()
	}
	s.Cfg.DisableBuiltin = s.Disable
	s.Solution = s.Model.Solve(s.Ref, s.Queried, s.Disable)
}

// config returns the analysis configuration, loading the user map if any.
func (s *staticCase) config(rt fataler, c *Ctx) analyzer.Config {
	cfg := s.Cfg
	if s.Mode == "user" || s.Mode == "merged" {
		cl := loadMap(rt, c, s.MapText, s.Mode == "user")
		if s.Noisy {
			cl = interesting.ClassifierExcludingUnanalyzed(cl)
		}
		cfg.Classifier = cl
	}
	return cfg
}

func (s *staticCase) classes(c *Ctx) {
	c.Class("mode:"+s.Mode, true)
	c.Class("has-cycle-or-recursion", hasCycle(s.Model))
	n := 0
	for range s.Solution.Pairs() {
		n++
	}
	c.Class("pairs>=1", n >= 1)
	c.Class("pairs>=5", n >= 5)
	c.Class("pairs>=15", n >= 15)
	c.Class("pairs>=60", n >= 60)
	c.Class("caps>=3", len(s.Solution.Reach) >= 3)
	c.Class("cut-by-safe-or-explicit", s.Solution.Cuts())
	c.Class("ignored-edge-matters", s.Solution.IgnoredMatters())
}

func hasCycle(m *world.Model) bool {
	out := map[string][]string{}
	for e := range m.Edges {
		out[e[0]] = append(out[e[0]], e[1])
	}
	state := map[string]int{}
	var visit func(n string) bool
	visit = func(n string) bool {
		state[n] = 1
		for _, w := range out[n] {
			if state[w] == 1 || (state[w] == 0 && visit(w)) {
				return true
			}
		}
		state[n] = 2
		return false
	}
	for n := range m.Nodes {
		if state[n] == 0 && visit(n) {
			return true
		}
	}
	return false
}

func TestC03_Exact(t *testing.T) {
	check(t, "random multi-package program with only static calls (functions, methods, generics, closures, init, go/defer, recursion) and random map (safe, unspecified, capability, package, unanalyzed, ignored call, cgo suffix); non-trivial: at least one pair expected and at least one queried function without some capability another one has",
		48000, 20, func(rt *rapid.T, c *Ctx) {
			s := genStatic(rt, world.Style{Fancy: true, Shuffle: true})
			want := s.Solution.Pairs()
			l := mustLoad(s.Prog)
			cfg := s.config(rt, c)
			var got map[string]bool
			guard(rt, c, s.String, func() { got = pairsOf(info(l, cfg)) })
			c.Seen(s.String(), len(want) > 0)
			s.classes(c)
			if missing, extra := world.Diff(want, got); len(missing)+len(extra) > 0 {
				c.Fail(rt, "function-level report differs from reachability\n%s\n\n%s", diffText(missing, extra), s)
			}
		})
}
