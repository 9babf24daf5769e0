package checks

import (
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"pgregory.net/rapid"
	"verif/harness/world"
)

// pathChecker returns a path checker for a case; l must not have been analysed.
func (s *staticCase) pathChecker(l *world.Loaded) *world.PathChecker {
	pc := world.NewPathChecker(l.Fset, l.All)
	pc.Cls = s.Ref
	pc.Ignored = func(a, b string) bool { return s.Ref.Edges[[2]string{a, b}] }
	pc.Queried = s.Queried
	pc.Extra = func(f *world.FuncInfo, name string) map[world.Cap]bool {
		if s.Disable {
			return nil
		}
		if n := s.Model.Nodes[name]; n != nil {
			return n.Extra
		}
		if n := s.Model.Nodes[f.Name]; n != nil {
			if _, cl := pc.Lookup(name); cl == "" {
				return n.Extra
			}
		}
		return nil
	}
	return pc
}

func (s *staticCase) checkPaths(rt *rapid.T, c *Ctx, exact bool) {
	pc := s.pathChecker(mustLoad(s.Prog))
	l := mustLoad(s.Prog)
	cfg := s.config(rt, c)
	gran := world.Pick(rt, []analyzer.Granularity{analyzer.GranularityFunction, analyzer.GranularityPackage, analyzer.GranularityIntermediate}, "granularity")
	cfg.Granularity = gran
	var cil *cpb.CapabilityInfoList
	var stats *cpb.CapabilityStatList
	guard(rt, c, s.String, func() {
		cil = info(l, cfg)
		if world.Pct(rt, 25, "stats") {
			stats = analyzer.GetCapabilityStats(l.Queried, analyzer.GetQueriedPackages(l.Queried), &cfg)
		}
	})
	long := 0
	modelled := func(p []*cpb.Function) string {
		if !exact {
			return ""
		}
		for i := 1; i < len(p); i++ {
			if e := [2]string{p[i-1].GetName(), p[i].GetName()}; !s.Model.Edges[e] {
				return e[0] + " does not call " + e[1]
			}
		}
		return ""
	}
	for _, ci := range cil.CapabilityInfo {
		long = max(long, len(ci.Path))
		if err := pc.Check(ci, gran == analyzer.GranularityIntermediate); err != nil {
			c.Fail(rt, "the entry for %s %s (granularity %v) is not genuine: %v\npath: %s\n\n%s", ci.GetPackageDir(), ci.GetCapability(), granNames[gran], err, sitePath(ci.Path), s)
		}
		if m := modelled(ci.Path); m != "" {
			c.Fail(rt, "the entry for %s %s (granularity %v) is not genuine: %s\npath: %s\n\n%s", ci.GetPackageDir(), ci.GetCapability(), granNames[gran], m, sitePath(ci.Path), s)
		}
	}
	for _, st := range stats.GetCapabilityStats() {
		head, _ := pc.Lookup(st.ExampleCallpath[0].GetName())
		if head == nil || !s.Queried[head.Pkg.PkgPath] {
			c.Fail(rt, "the example path for %s does not start in a queried package\npath: %s\n\n%s", st.GetCapability(), sitePath(st.ExampleCallpath), s)
		}
		if err := pc.CheckPath(st.GetCapability(), st.ExampleCallpath); err != nil {
			c.Fail(rt, "the example path for %s is not genuine: %v\npath: %s\n\n%s", st.GetCapability(), err, sitePath(st.ExampleCallpath), s)
		}
		if m := modelled(st.ExampleCallpath); m != "" {
			c.Fail(rt, "the example path for %s is not genuine: %v\npath: %s\n\n%s", st.GetCapability(), m, sitePath(st.ExampleCallpath), s)
		}
	}
	c.Seen(s.String(), long >= 2)
	s.classes(c)
	c.Class("path>=3", long >= 3)
	c.Class("path>=6", long >= 6)
	c.Class(granNames[gran], true)
	c.Class("stats", stats != nil)
}

func sitePath(p []*cpb.Function) string {
	out := ""
	for _, f := range p {
		if f.Site != nil {
			out += " -> (" + f.Site.String() + ") "
		} else if out != "" {
			out += " -> () "
		}
		out += f.GetName()
	}
	return out
}

func TestC02_Static(t *testing.T) {
	check(t, "random multi-package program with static calls and random map; every step of every path must be a call in the source at the reported position and an edge of the reference call graph, without safe, classified or ignored steps, and end at a function with the capability; non-trivial: a path of at least two functions",
		24000, 20, func(rt *rapid.T, c *Ctx) {
			s := genStatic(rt, world.Style{Fancy: true, Shuffle: true})
			s.checkPaths(rt, c, true)
		})
}

func TestC02_Dynamic(t *testing.T) {
	check(t, "the same for programs with calls through function values, interfaces, embedding, generics, iterators: a step must be a call at the reported position that can have that callee (type, method name); non-trivial: a path of at least two functions",
		24000, 20, func(rt *rapid.T, c *Ctx) {
			s := genDynamic(rt, world.Style{Shuffle: true})
			s.checkPaths(rt, c, false)
		})
}
