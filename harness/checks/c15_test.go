package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"pgregory.net/rapid"
	"verif/harness/world"
)

// parseCapList is an independent parser of capability lists.
func parseCapList(s string) (has func(world.Cap) bool, ok bool) {
	if s == "" {
		return func(world.Cap) bool { return true }, true
	}
	byName := map[string]world.Cap{}
	for v, n := range cpb.Capability_name {
		byName[n] = world.Cap(v)
		byName[strings.TrimPrefix(n, "CAPABILITY_")] = world.Cap(v)
	}
	in := map[world.Cap]bool{}
	parts := strings.Split(s, ",")
	neg := strings.HasPrefix(parts[0], "-")
	for _, p := range parts {
		if strings.HasPrefix(p, "-") != neg {
			return nil, false
		}
		if neg {
			p = p[1:]
		}
		c, known := byName[p]
		if !known {
			return nil, false
		}
		in[c] = true
	}
	return func(c world.Cap) bool { return in[c] != neg }, true
}

func genCapList(rt *rapid.T) string {
	if world.Pct(rt, 3, "empty") {
		return ""
	}
	if world.Pct(rt, 3, "junk") {
		return rapid.StringMatching(`[-, A-Z_]{0,12}`).Draw(rt, "junktext")
	}
	neg := world.Pct(rt, 40, "neg")
	var parts []string
	for i := rapid.IntRange(1, 6).Draw(rt, "n"); i > 0; i-- {
		s := world.Pick(rt, world.AllCaps, "cap").String()
		if world.Pct(rt, 50, "short") {
			s = strings.TrimPrefix(s, "CAPABILITY_")
		}
		if neg {
			s = "-" + s
		}
		if world.Pct(rt, 7, "mistake") {
			switch rapid.IntRange(0, 10).Draw(rt, "mistakekind") {
			case 0:
				s = ""
			case 1:
				s = strings.ToLower(s)
			case 2:
				s = " " + s
			case 3:
				s += " "
			case 4:
				s = "-" + s
			case 5:
				s = strings.TrimPrefix(s, "-")
			case 6:
				s = s[:len(s)-1]
			case 7:
				s = "CAPABILITY_" + s
			case 8:
				s = "-"
			case 9:
				s = "+" + s
			case 10:
				s = world.Pick(rt, []string{"CAPABILITY_", "ALL", "NONE", "0", "1", "CAPABILITY", "*"}, "word")
			}
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, ",")
}

func TestC15_Parse(t *testing.T) {
	check(t, "random capability list text (plain and negated, with and without prefix, with mistakes of every kind) against an independent parser, membership of every capability compared; non-trivial: always",
		200000, 20, func(rt *rapid.T, c *Ctx) {
			s := genCapList(rt)
			has, ok := parseCapList(s)
			c.Seen(s, true)
			c.Class("valid", ok)
			c.Class("invalid", !ok)
			c.Class("negated", ok && strings.HasPrefix(s, "-"))
			var cs *analyzer.CapabilitySet
			var err error
			desc := func() string { return fmt.Sprintf("list %q", s) }
			guard(rt, c, desc, func() { cs, err = analyzer.NewCapabilitySet(s) })
			if (err == nil) != ok {
				c.Fail(rt, "list %q: error %v, should be valid: %v", s, err, ok)
			}
			if !ok {
				return
			}
			guard(rt, c, desc, func() {
				for _, x := range world.AllCaps {
					if cs.Has(x) != has(x) {
						c.Fail(rt, "list %q: %v in the set: %v, want %v", s, x, cs.Has(x), has(x))
					}
				}
			})
		})
}

// capWorld has two functions for each capability: one calls the other, which
// has the capability; the second package calls the first.
func capWorld() (world.Program, string) {
	var a, b, m strings.Builder
	a.WriteString("package a\n")
	b.WriteString("package b\n\nimport \"example.com/a\"\n")
	for _, x := range world.AllCaps {
		n := strings.TrimPrefix(x.String(), "CAPABILITY_")
		fmt.Fprintf(&a, "func L%s() {}\nfunc F%s() { L%s() }\n", n, n, n)
		fmt.Fprintf(&b, "func G%s() { a.F%s() }\n", n, n)
		fmt.Fprintf(&m, "func example.com/a.L%s %s\n", n, x)
	}
	return world.Program{
		{Path: "example.com/a", Files: []world.File{{Name: "a.go", Src: a.String()}}},
		{Path: "example.com/b", Files: []world.File{{Name: "b.go", Src: b.String()}}, Queried: true},
	}, m.String()
}

func TestC15_Use(t *testing.T) {
	prog, mapText := capWorld()
	check(t, "graph output and intermediate granularity of a program that has every capability, for random valid lists; non-trivial: always",
		3000, 20, func(rt *rapid.T, c *Ctx) {
			s := genCapList(rt)
			has, ok := parseCapList(s)
			if !ok {
				s, has = genCapSet(rt)
			}
			c.Seen(s, true)
			cs, err := analyzer.NewCapabilitySet(s)
			if err != nil {
				c.Fail(rt, "list %q: %v", s, err)
			}
			guard(rt, c, func() string { return fmt.Sprintf("list %q\n%s\n%s", s, prog, mapText) }, func() {
				l := mustLoad(prog)
				cfg := analyzer.Config{Classifier: loadMap(rt, c, mapText, true), CapabilitySet: cs}
				want := map[string]bool{}
				graph := map[[2]string]bool{}
				for _, x := range world.RealCaps {
					if has(x) {
						n := strings.TrimPrefix(x.String(), "CAPABILITY_")
						want["example.com/a|"+x.String()] = true
						want["example.com/b|"+x.String()] = true
						graph[[2]string{"example.com/b.G" + n, "example.com/a.F" + n}] = true
						graph[[2]string{"example.com/a.F" + n, "example.com/a.L" + n}] = true
						graph[[2]string{"example.com/a.L" + n, x.String()}] = true
					}
				}
				out, err := run(l, cfg, "graph")
				if err != nil {
					c.Fail(rt, "list %q: graph output failed: %v", s, err)
				}
				edges, err := world.ParseDOT(out)
				if err != nil {
					c.Fail(rt, "list %q: graph output is not a DOT digraph: %v\n%s", s, err, out)
				}
				got := map[[2]string]bool{}
				for e := range edges {
					got[e] = true
				}
				if missing, extra := world.Diff(graph, got); len(missing)+len(extra) > 0 {
					c.Fail(rt, "list %q: graph\n%s", s, diffText(missing, extra))
				}
				cfg.Granularity = analyzer.GranularityIntermediate
				cfg.OmitPaths = rapid.Bool().Draw(rt, "omit")
				if missing, extra := world.Diff(want, pkgPairsOf(info(l, cfg))); len(missing)+len(extra) > 0 {
					c.Fail(rt, "list %q: intermediate granularity\n%s", s, diffText(missing, extra))
				}
			})
		})
}
