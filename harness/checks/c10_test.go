package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	"pgregory.net/rapid"
	"verif/harness/world"
)

// declared keeps the pairs of declared functions; closures are named after
// their position in the source.
func declared(m map[string]bool) map[string]bool {
	out := map[string]bool{}
	for k := range m {
		if !strings.Contains(k, "$") {
			out[k] = true
		}
	}
	return out
}

func TestC10_Rewrite(t *testing.T) {
	check(t, "one random abstract program written down twice: plainly, and with other declaration order, file split, import names, aliases, parentheses, statement wrappings, called closures and comments; non-trivial: some pair is reported and the two texts differ",
		16000, 20, func(rt *rapid.T, c *Ctx) {
			a := world.GenAbstract(rt)
			prog, m := a.Render(rt, world.Style{})
			s := &staticCase{Prog: prog, Model: m, Abs: a, Queried: a.QueriedSet()}
			closures := world.Pct(rt, 60, "closures")
			s.NoEdges, s.NoInstEdges = closures, true
			s.classify(rt)
			c.Class("closures", closures)
			prog2, _ := a.Render(rt, world.Style{Fancy: true, Shuffle: true, NoDead: true, NoClosures: !closures})
			cfg := s.config(rt, c)
			desc := func() string { return fmt.Sprintf("%s\n==== rewritten ====\n%s", s, prog2) }
			var p1, p2 map[string]bool
			guard(rt, c, desc, func() {
				p1 = pairsOf(info(mustLoad(prog), cfg))
				p2 = pairsOf(info(mustLoad(prog2), cfg))
			})
			c.Seen(desc(), len(p1) > 0 && prog.String() != prog2.String())
			s.classes(c)
			if missing, extra := world.Diff(declared(p1), declared(p2)); len(missing)+len(extra) > 0 {
				c.Fail(rt, "rewriting the source changed the report\nlost: %q\ngained: %q\n\n%s", missing, extra, desc())
			}
		})
}

func TestC10_Grow(t *testing.T) {
	check(t, "a random program and the same program with additional calls; non-trivial: the first report is not empty and the second is larger",
		10000, 20, func(rt *rapid.T, c *Ctx) {
			a := world.GenAbstract(rt)
			prog, m := a.Render(rt, world.Style{})
			s := &staticCase{Prog: prog, Model: m, Abs: a, Queried: a.QueriedSet()}
			s.NoEdges = true
			s.classify(rt)
			a.Grow(rt)
			prog2, _ := a.Render(rt, world.Style{Fancy: true, Shuffle: true, NoDead: true})
			cfg := s.config(rt, c)
			desc := func() string { return fmt.Sprintf("%s\n==== with more calls ====\n%s", s, prog2) }
			var p1, p2 map[string]bool
			guard(rt, c, desc, func() {
				p1 = pairsOf(info(mustLoad(prog), cfg))
				p2 = pairsOf(info(mustLoad(prog2), cfg))
			})
			c.Seen(desc(), len(p1) > 0 && len(declared(p2)) > len(declared(p1)))
			if missing, _ := world.Diff(declared(p1), declared(p2)); len(missing) > 0 {
				c.Fail(rt, "adding calls removed from the report: %q\n\n%s", missing, desc())
			}
		})
}

func TestC10_Source(t *testing.T) {
	check(t, "a random program (static or dynamic calls, unsafe and reflect operations, or sort and Once calls) and the same source text with parentheses, aliases for types, other import names, declaration order and file split, statements in blocks, branches and called closures, and comments; non-trivial: some pair is reported and the two texts differ",
		12000, 20, func(rt *rapid.T, c *Ctx) {
			prog, cfg, head, kind := genAny(rt, c)
			closures := kind != "dynamic"
			if kind == "static" || kind == "ops" {
				closures = !strings.Contains(head, "$") && !strings.Contains(head, "package ") && !strings.Contains(head, "ignore_edge ")
			}
			r := world.GenRewriting(rt, closures)
			if strings.Contains(head, "init$") {
				r.Order = false
			}
			if strings.Contains(head, "[") {
				// A map entry for an instance of a generic function names its
				// type arguments as they are spelled in the program.
				r.Aliases = false
			}
			prog2 := r.Rewrite(prog)
			desc := func() string { return fmt.Sprintf("%s%s\n==== rewritten ====\n%s", head, prog, prog2) }
			var p1, p2 map[string]bool
			l1 := mustLoad(prog)
			l2, err := world.Load(prog2)
			if err != nil {
				panic(fmt.Sprintf("the rewritten program is not valid: %v\n%s", err, desc()))
			}
			guard(rt, c, desc, func() {
				p1 = pairsOf(info(l1, cfg))
				p2 = pairsOf(info(l2, cfg))
			})
			c.Seen(desc(), len(p1) > 0 && prog.String() != prog2.String())
			c.Class("kind:"+kind, true)
			for w := range r.Count {
				c.Class("with:"+w, true)
			}
			// Closures are named after their position in the function.
			keep := declared
			if r.Count["closure"] == 0 {
				keep = func(m map[string]bool) map[string]bool {
					out := map[string]bool{}
					for k := range m {
						if !strings.Contains(k, "init$") {
							out[k] = true
						}
					}
					return out
				}
			}
			if missing, extra := world.Diff(keep(p1), keep(p2)); len(missing)+len(extra) > 0 {
				c.Fail(rt, "rewriting the source changed the report\nlost: %q\ngained: %q\n\n%s", missing, extra, desc())
			}
		})
}

// genAny draws a program of any of the generators.
func genAny(rt *rapid.T, c *Ctx) (prog world.Program, cfg analyzer.Config, head, kind string) {
	kind = world.Pick(rt, []string{"sorts", "dynamic", "ops", "static"}, "kind")
	switch kind {
	case "sorts":
		s := world.GenSorts(rt)
		head = world.SortsMap().Text()
		cfg.Classifier = loadMap(rt, c, head, false)
		prog = s.Prog
	case "dynamic":
		s := genDynamic(rt, world.Style{})
		prog, cfg, head = s.Prog, s.config(rt, c), s.header()
	default:
		s := genStatic(rt, world.Style{Fancy: true, Ops: kind == "ops"})
		prog, cfg, head = s.Prog, s.config(rt, c), s.header()
	}
	return
}

func TestC10_GrowSource(t *testing.T) {
	check(t, "a random program (static or dynamic calls, unsafe and reflect operations, or sort and Once calls) and the same source text with functions added that call functions of their package, and calls of them added to functions, methods and closures; non-trivial: some pair is reported, the larger program is valid and calls were added",
		8000, 20, func(rt *rapid.T, c *Ctx) {
			prog, cfg, head, kind := genAny(rt, c)
			prog2, calls := world.GrowSource(rt, prog)
			desc := func() string { return fmt.Sprintf("%s%s\n==== with more calls ====\n%s", head, prog, prog2) }
			l1 := mustLoad(prog)
			l2, err := world.Load(prog2)
			if err != nil {
				if !strings.Contains(err.Error(), "initialization cycle") {
					panic(fmt.Sprintf("the larger program is not valid: %v\n%s", err, desc()))
				}
				c.Class("initialization cycle", true)
				return
			}
			var p1, p2 map[string]bool
			guard(rt, c, desc, func() {
				p1 = pairsOf(info(l1, cfg))
				p2 = pairsOf(info(l2, cfg))
			})
			c.Seen(desc(), len(p1) > 0 && calls > 0)
			c.Class("kind:"+kind, true)
			c.Class("larger report", len(p2) > len(p1))
			if missing, _ := world.Diff(p1, p2); len(missing) > 0 {
				c.Fail(rt, "adding calls removed from the report: %q\n\n%s", missing, desc())
			}
		})
}
