package checks

import (
	"fmt"
	"testing"

	"github.com/google/capslock/analyzer"
	"pgregory.net/rapid"
	"verif/harness/world"
)

func TestC08_Graph(t *testing.T) {
	check(t, "random static-call program (with type arguments that contain quotes, backslashes and spaces) and map, graph output with a random capability list; non-trivial: the expected graph has an edge",
		20000, 20, func(rt *rapid.T, c *Ctx) {
			s := genStatic(rt, world.Style{Fancy: true})
			setText, has := genCapSet(rt)
			cfg := s.config(rt, c)
			l := mustLoad(s.Prog)
			cs, err := analyzer.NewCapabilitySet(setText)
			if err != nil {
				c.Fail(rt, "capability list %q rejected: %v", setText, err)
			}
			cfg.CapabilitySet = cs
			desc := func() string { return fmt.Sprintf("capabilities=%q\n%s", setText, s) }
			var want map[[2]string]bool
			if setText == "" {
				want = s.Solution.GraphEdges(nil)
			} else {
				want = s.Solution.GraphEdges(has)
			}
			c.Seen(desc(), len(want) > 0)
			s.classes(c)
			c.Class("edges>=10", len(want) >= 10)
			c.Class("capability-list", setText != "")
			mode := world.Pick(rt, []string{"g", "graph"}, "mode")
			guard(rt, c, desc, func() {
				out, err := run(l, cfg, mode)
				if err != nil {
					c.Fail(rt, "graph output failed: %v\n\n%s", err, desc())
				}
				checkGraph(rt, c, out, want, setText == "", desc)
			})
		})
}

// checkGraph compares graph output with the reference graph.
func checkGraph(rt *rapid.T, c *Ctx, out string, want map[[2]string]bool, once bool, desc func() string) {
	edges, err := world.ParseDOT(out)
	if err != nil {
		c.Fail(rt, "graph output is not a DOT digraph: %v\n%s\n\n%s", err, out, desc())
	}
	got := map[[2]string]bool{}
	for e, n := range edges {
		got[e] = true
		if n > 1 && once {
			c.Fail(rt, "edge %q printed %d times\n\n%s", e, n, desc())
		}
	}
	if missing, extra := world.Diff(want, got); len(missing)+len(extra) > 0 {
		c.Fail(rt, "graph differs from the reference graph\n%s\n\n%s", diffText(missing, extra), desc())
	}
}

func TestC08_CLI(t *testing.T) {
	checkCLI(t, "random static-call program written out as Go modules, graph output of the command with a random capability list; non-trivial: the expected graph has an edge",
		400, 20, func(rt *rapid.T, c *Ctx, dir string) {
			d := genDisk(rt, dir, world.Style{Fancy: true})
			setText, has := genCapSet(rt)
			if setText == "" {
				has = nil
			}
			want := d.Solution.GraphEdges(has)
			desc := func() string { return fmt.Sprintf("capabilities=%q\n%s", setText, d) }
			c.Seen(desc(), len(want) > 0)
			r := d.run("-output="+world.Pick(rt, []string{"g", "graph"}, "mode"), "-capabilities="+setText)
			if r.code != 0 {
				c.Fail(rt, "graph output failed\n%s\n\n%s", r, desc())
			}
			checkGraph(rt, c, r.stdout, want, setText == "", desc)
		})
}
