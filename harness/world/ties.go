package world

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// GenTies draws a program in which different functions have the same name, and
// many call paths have the same length.
func GenTies(t *rapid.T) (Program, string) {
	var lib, app, m strings.Builder
	lib.WriteString("package lib\n\ntype I interface{ M() }\n")
	nleaf := rapid.IntRange(1, 3).Draw(t, "nleaf")
	caps := []Cap{Files, Network, Unanalyzed}
	for i := 0; i < nleaf; i++ {
		fmt.Fprintf(&lib, "\nfunc L%d() {}\n", i)
		fmt.Fprintf(&m, "func example.com/lib.L%d %v\n", i, pick(t, caps, "cap"))
	}
	nemb := rapid.IntRange(2, 4).Draw(t, "nemb")
	for i := 0; i < nemb; i++ {
		fmt.Fprintf(&lib, "\ntype E%d struct{}\n\nfunc (%sE%d) M() {", i, pick(t, []string{"", "*"}, "ptr"), i)
		for j := rapid.IntRange(0, 2).Draw(t, "nc"); j > 0; j-- {
			fmt.Fprintf(&lib, " L%d();", rapid.IntRange(0, nleaf-1).Draw(t, "leaf"))
		}
		lib.WriteString(" }\n")
	}
	lib.WriteString("\nfunc G[T I](x T) { x.M() }\n\nfunc H[T I](x T) { G(x) }\n\nfunc K[T any](f func(T)) { var x T; f(x) }\n\nfunc D(i I) { i.M() }\n\nfunc A[T any]() func() { return func() { L0() } }\n")
	app.WriteString("package app\n\nimport \"example.com/lib\"\n")
	nf := rapid.IntRange(1, 4).Draw(t, "nf")
	for i := 0; i < nf; i++ {
		fmt.Fprintf(&app, "\nfunc F%d() {\n", i)
		for j := rapid.IntRange(1, 4).Draw(t, "nblocks"); j > 0; j-- {
			e := rapid.IntRange(0, nemb-1).Draw(t, "emb")
			star := pick(t, []string{"", "*"}, "embptr")
			x := "&T{}"
			if star == "*" && pct(t, 50, "val") {
				x = "T{}"
			}
			fmt.Fprintf(&app, "\t{\n\t\ttype T struct{ %slib.E%d }\n\t\t", star, e)
			switch rapid.IntRange(0, 8).Draw(t, "use") {
			case 0:
				fmt.Fprintf(&app, "lib.G(%s)\n", x)
			case 1:
				fmt.Fprintf(&app, "lib.H(%s)\n", x)
			case 2:
				fmt.Fprintf(&app, "lib.D(%s)\n", x)
			case 3:
				fmt.Fprintf(&app, "var i lib.I = %s\n\t\ti.M()\n", x)
			case 4:
				fmt.Fprintf(&app, "f := (%s).M\n\t\tf()\n", x)
			case 5:
				fmt.Fprintf(&app, "lib.K(func(x *T) { x.M() })\n")
			case 6:
				fmt.Fprintf(&app, "f := (*T).M\n\t\tf(&T{})\n")
			case 7:
				fmt.Fprintf(&app, "lib.A[T]()()\n")
			case 8:
				fmt.Fprintf(&app, "defer (%s).M()\n", x)
			}
			app.WriteString("\t}\n")
		}
		if i > 0 && pct(t, 60, "call") {
			fmt.Fprintf(&app, "\tF%d()\n", rapid.IntRange(0, i-1).Draw(t, "callee"))
		}
		app.WriteString("}\n")
	}
	prog := Program{
		{Path: "example.com/lib", Files: []File{{"lib.go", lib.String()}}, Queried: pct(t, 40, "libq")},
		{Path: "example.com/app", Files: []File{{"app.go", app.String()}}, Queried: true},
	}
	// Packages with instances for the same types under different names.
	for i := rapid.IntRange(0, 4).Draw(t, "naliases"); i > 0; i-- {
		var b strings.Builder
		fmt.Fprintf(&b, "package al%d\n\nimport \"example.com/lib\"\n", i)
		for j := 0; j < nemb; j++ {
			fmt.Fprintf(&b, "\ntype X%d = lib.E%d\n", j, j)
		}
		for j := rapid.IntRange(1, 3).Draw(t, "nuses"); j > 0; j-- {
			e := rapid.IntRange(0, nemb-1).Draw(t, "emb")
			n := pick(t, []string{fmt.Sprintf("X%d", e), fmt.Sprintf("X%d", e), fmt.Sprintf("lib.E%d", e)}, "spelling")
			use := pick(t, []string{"lib.G(&%[1]s{})", "lib.H(&%[1]s{})", "lib.K(func(x *%[1]s) { x.M() })", "lib.A[%[1]s]()()", "lib.A[map[string]*%[1]s]()()"}, "aliasuse")
			fmt.Fprintf(&b, "\nfunc U%d() { %s }\n", j, fmt.Sprintf(use, n))
		}
		p := fmt.Sprintf("example.com/al%d", i)
		prog = append(prog, SrcPkg{Path: p, Files: []File{{"al.go", b.String()}}, Queried: true})
	}
	return prog, m.String()
}
