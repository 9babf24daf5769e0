package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	"pgregory.net/rapid"
	"verif/harness/world"
)

var (
	builtinFuncs                = world.SortedKeys(builtin.Funcs)
	builtinUnan                 = world.SortedKeys(builtin.Unan)
	builtinPkgs                 = world.SortedKeys(builtin.Pkgs)
	builtinSuffixes             = world.SortedKeys(builtin.Suffixes)
	builtinProbes, builtinEdges = builtin.Probes()
)

// pkgOf returns the package of a function name such as (*net/http.Client).Do.
func pkgOf(name string) string {
	name = strings.TrimLeft(name, "(*")
	i := strings.LastIndex(name, "/")
	j := strings.Index(name[i+1:], ".")
	if j < 0 {
		return name
	}
	return name[:i+1+j]
}

type layered struct {
	cl   analyzer.Classifier
	ref  *world.RefMap
	desc string
}

func TestC14_Layers(t *testing.T) {
	check(t, "one to three random custom maps that mention built-in and new functions, packages, ignored calls and suffixes, over or without the built-in map, with and without UNANALYZED, created in random order; every classifier and the default ones are then asked about everything mentioned; non-trivial: a custom entry changes a built-in answer",
		30000, 20, func(rt *rapid.T, c *Ctx) {
			names := append([]string{}, world.MapNames...)
			var edgeNames []string
			for i := 0; i < 6; i++ {
				names = append(names, world.Pick(rt, builtinFuncs, "bf"), world.Pick(rt, builtinUnan, "bu"))
			}
			pkgs := append([]string{}, world.MapPkgs...)
			for i := 0; i < 3; i++ {
				pkgs = append(pkgs, world.Pick(rt, builtinPkgs, "bp"), pkgOf(names[len(names)-1-i]))
			}
			for _, e := range builtinEdges[:min(8, len(builtinEdges))] {
				edgeNames = append(edgeNames, e[0], e[1])
			}
			names = append(names, edgeNames...)
			sfx := append([]string{"._Cfunc_x", ".Own_cgo"}, builtinSuffixes...)
			for _, p := range pkgs {
				names = append(names, p+".New")
			}
			var all []layered
			changes := false
			n := rapid.IntRange(1, 3).Draw(rt, "nmaps")
			var desc strings.Builder
			for i := 0; i < n; i++ {
				var lines []string
				seen := map[string]bool{}
				for j := rapid.IntRange(0, 10).Draw(rt, "nlines"); j > 0; j-- {
					l := world.GenMapLine(rt, names, pkgs, sfx)
					if !seen[l.Key()] {
						seen[l.Key()] = true
						lines = append(lines, l.Render(rt))
					}
				}
				text := strings.Join(lines, "\n")
				user, bad := world.ParseRef(text)
				if bad != 0 {
					panic("generator error: " + text)
				}
				excl := world.Pct(rt, 25, "exclude")
				fmt.Fprintf(&desc, "-- map %d (built-in excluded: %v) --\n%s\n", i, excl, shortText(text))
				ref := user
				if !excl {
					ref = builtin.Over(user)
					for k := range user.Funcs {
						changes = changes || builtin.Category(pkgOf(k), k) != world.Unspecified
					}
					for k := range user.Unan {
						changes = changes || builtin.Category(pkgOf(k), k) != world.Unspecified
					}
					for k := range user.Pkgs {
						_, ok := builtin.Pkgs[k]
						changes = changes || ok
					}
				}
				var cl *interesting.Classifier
				var err error
				guard(rt, c, desc.String, func() { cl, err = interesting.LoadClassifier("user.cm", strings.NewReader(text), excl) })
				if err != nil {
					c.Fail(rt, "a valid map was rejected: %v\n%s", err, desc.String())
				}
				all = append(all, layered{cl, ref, fmt.Sprintf("map %d", i)})
				for world.Pct(rt, 50, "noisy") {
					k := rapid.IntRange(0, len(all)-1).Draw(rt, "of")
					x := all[k]
					y, ok := x.cl.(*interesting.Classifier)
					if !ok {
						break
					}
					guard(rt, c, desc.String, func() { y = interesting.ClassifierExcludingUnanalyzed(y) })
					all = append(all, layered{y, x.ref.WithoutUnanalyzed(), x.desc + " without unanalyzed"})
				}
			}
			all = append(all, layered{interesting.DefaultClassifier(), builtin, "the default classifier"},
				layered{analyzer.GetClassifier(false), builtin, "the classifier of a normal analysis"},
				layered{analyzer.GetClassifier(true), builtin.WithoutUnanalyzed(), "the classifier of a noisy analysis"})
			c.Seen(desc.String(), changes)
			c.Class("overrides-built-in", changes)
			c.Class("several", n > 1)
			var ps []world.Probe
			for _, k := range names {
				ps = append(ps, world.Probe{Pkg: pkgOf(k), Name: k}, world.Probe{Pkg: "", Name: k})
			}
			for _, p := range pkgs {
				ps = append(ps, world.Probe{Pkg: p, Name: p + ".Other"}, world.Probe{Pkg: p, Name: "x" + names[0]})
			}
			for _, s := range sfx {
				ps = append(ps, world.Probe{Pkg: "example.com/a", Name: "example.com/a" + s})
			}
			var edges [][2]string
			for _, x := range all {
				for e := range x.ref.Edges {
					edges = append(edges, e, [2]string{e[1], e[0]})
				}
			}
			guard(rt, c, desc.String, func() {
				for _, x := range all {
					if msg := agree(x.cl, x.ref, ps, edges); msg != "" {
						c.Fail(rt, "%s: %s\n%s", x.desc, msg, desc.String())
					}
				}
			})
			// Every so often the whole built-in map.
			if c.Evaluations%200 == 0 {
				if msg := agree(interesting.DefaultClassifier(), builtin, builtinProbes, builtinEdges); msg != "" {
					c.Fail(rt, "the default classifier changed: %s\n%s", msg, desc.String())
				}
			}
		})
}

func TestC14_CLI(t *testing.T) {
	checkCLI(t, "random static-call program written out as Go modules, analysed by the command with the built-in map, a custom map over it, or only a custom map, with and without -noisy; the json report must be that of the layered map; non-trivial: a custom map is used and something is reported",
		350, 20, func(rt *rapid.T, c *Ctx, dir string) {
			d := genDisk(rt, dir, world.Style{})
			c.Seen(d.String(), d.Mode != "default" && len(d.Solution.Pairs()) > 0)
			c.Class(d.Mode, true)
			c.Class("noisy", d.Noisy)
			cil := parseReport(rt, c, d.run("-output=json"), d.String)
			if missing, extra := world.Diff(d.Solution.Pairs(), pairsOf(cil)); len(missing)+len(extra) > 0 {
				c.Fail(rt, "report\n%s\n\n%s", diffText(missing, extra), d)
			}
		})
}
