package checks

import (
	"testing"

	"pgregory.net/rapid"
	"verif/harness/world"
)

// genDynamic draws a program with calls through values.  The model is a lower
// bound of its calls.
func genDynamic(t *rapid.T, st world.Style) *staticCase {
	a := world.GenAbstract(t)
	a.UtilQueried = world.Pct(t, 30, "utilqueried")
	st.Dynamic, st.Fancy = true, true
	prog, m := a.Render(t, st)
	s := &staticCase{Prog: prog, Model: m, Abs: a, Queried: a.QueriedSet(), NoEdges: true}
	s.classify(t)
	return s
}

func TestC01_Dynamic(t *testing.T) {
	check(t, "random multi-package program that makes its calls in one of 79 dynamic ways (function values in variables, parameters, fields, maps, slices, channels, globals; interfaces; embedding; method values and expressions; generics; iterators; recover ...), nested, with random maps; every pair on a certain call chain must be reported; non-trivial: at least one pair is expected",
		24000, 20, func(rt *rapid.T, c *Ctx) {
			s := genDynamic(rt, world.Style{Shuffle: true})
			want := s.Solution.Pairs()
			l := mustLoad(s.Prog)
			cfg := s.config(rt, c)
			var got map[string]bool
			guard(rt, c, s.String, func() { got = pairsOf(info(l, cfg)) })
			c.Seen(s.String(), len(want) > 0)
			s.classes(c)
			for m := range s.Model.Mechs {
				c.Class(m, true)
			}
			if missing, _ := world.Diff(want, got); len(missing) > 0 {
				c.Fail(rt, "capabilities are missing from the report: %q\n\n%s", missing, s)
			}
			if len(s.Model.Known) > 0 {
				all := s.Model.WithKnown().Solve(s.Ref, s.Queried, s.Disable).Pairs()
				if missing, _ := world.Diff(all, got); len(missing) > 0 {
					for _, what := range s.Model.Known {
						c.Known[what]++
					}
				}
			}
		})
}

func TestC01_Static(t *testing.T) {
	check(t, "random multi-package program with static calls only (also closures, generics, init, methods of unexported types, uncalled functions) and random maps with ignored calls; every reachable pair must be reported; non-trivial: at least one pair is expected",
		20000, 20, func(rt *rapid.T, c *Ctx) {
			s := genStatic(rt, world.Style{Fancy: true, Shuffle: true})
			want := s.Solution.Pairs()
			l := mustLoad(s.Prog)
			cfg := s.config(rt, c)
			var got map[string]bool
			guard(rt, c, s.String, func() { got = pairsOf(info(l, cfg)) })
			c.Seen(s.String(), len(want) > 0)
			s.classes(c)
			if missing, _ := world.Diff(want, got); len(missing) > 0 {
				c.Fail(rt, "capabilities are missing from the report: %q\n\n%s", missing, s)
			}
		})
}
