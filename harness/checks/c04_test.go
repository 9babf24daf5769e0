package checks

import (
	"testing"

	"pgregory.net/rapid"
	"verif/harness/world"
)

func TestC04_Ops(t *testing.T) {
	check(t, "random multi-package static-call program whose functions, closures, generic functions and variable initialisers contain random spellings of unsafe.Pointer conversions and reflect.Value assignments, harmless look-alikes, functions without body and cgo stub names, with random maps; the report must be exactly the reachability of the innermost functions concerned; non-trivial: at least one pair of UNSAFE_POINTER, REFLECT, ARBITRARY_EXECUTION or CGO is expected",
		36000, 20, func(rt *rapid.T, c *Ctx) {
			s := genStatic(rt, world.Style{Fancy: true, Shuffle: true, Ops: true})
			want := s.Solution.Pairs()
			l := mustLoad(s.Prog)
			cfg := s.config(rt, c)
			var got map[string]bool
			guard(rt, c, s.String, func() { got = pairsOf(info(l, cfg)) })
			own := 0
			for _, k := range []world.Cap{world.Unsafe, world.Reflect, world.ArbExec, world.Cgo} {
				n := 0
				for range s.Solution.Reach[k] {
					n++
				}
				c.Class(k.String(), n > 0)
				own += n
			}
			c.Seen(s.String(), own > 0)
			s.classes(c)
			for m := range s.Model.Mechs {
				c.Class("op:"+m, true)
			}
			if missing, extra := world.Diff(want, got); len(missing)+len(extra) > 0 {
				c.Fail(rt, "report differs from what the source does\n%s\n\n%s", diffText(missing, extra), s)
			}
		})
}
