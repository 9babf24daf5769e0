package world

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"strings"

	"pgregory.net/rapid"
)

// GrowSource adds functions to some packages of a program, and calls of them
// to some of its functions.
func GrowSource(t *rapid.T, prog Program) (out Program, calls int) {
	const prefix = "zzMore"
	for _, s := range prog {
		if s.Fixed != "" || len(s.Files) == 0 || Uniform(t, 4, "growpkg") == 0 {
			out = append(out, s)
			continue
		}
		fset := token.NewFileSet()
		var callable []string
		var bodies [][]*ast.BlockStmt
		name := ""
		for _, f := range s.Files {
			af, err := parser.ParseFile(fset, f.Name, f.Src, 0)
			if err != nil {
				panic(err)
			}
			name = af.Name.Name
			var l []*ast.BlockStmt
			for _, d := range af.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Type.TypeParams == nil && fd.Type.Params.NumFields() == 0 &&
					fd.Name.Name != "init" && fd.Name.Name != "main" && fd.Name.Name != "_" {
					callable = append(callable, fd.Name.Name)
				}
			}
			ast.Inspect(af, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.FuncDecl:
					if n.Body != nil {
						l = append(l, n.Body)
					}
				case *ast.FuncLit:
					l = append(l, n.Body)
				}
				return true
			})
			bodies = append(bodies, l)
		}
		n := rapid.IntRange(1, 3).Draw(t, "nmore")
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n", name)
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "\nfunc %s%d() {\n", prefix, i)
			for k := rapid.IntRange(0, 2).Draw(t, "ncalls"); k > 0; k-- {
				if len(callable) > 0 && Uniform(t, 3, "old") > 0 {
					fmt.Fprintf(&b, "\t%s()\n", Pick(t, callable, "callee"))
				} else {
					fmt.Fprintf(&b, "\t%s%d()\n", prefix, Uniform(t, n, "new"))
				}
			}
			b.WriteString("}\n")
		}
		files := append([]File{}, s.Files...)
		for i, l := range bodies {
			e := newEdits()
			for _, body := range l {
				if Uniform(t, 3, "insert") == 0 {
					at := fset.Position(body.Lbrace).Offset + 1
					e.open[at] = append(e.open[at], fmt.Sprintf(" %s%d(); ", prefix, Uniform(t, n, "inserted")))
					calls++
				}
			}
			files[i].Src = e.apply(files[i].Src, 0, len(files[i].Src))
		}
		s.Files = append(files, File{"zz_more.go", b.String()})
		out = append(out, s)
	}
	return out, calls
}
