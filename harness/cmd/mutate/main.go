// Mutate makes small changes in a Go file, to find out which checks notice.
//
//	mutate FILE          lists the changes
//	mutate FILE K        prints the file with change number K
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	from, to int // offsets
	text     string
	what     string
}

func main() {
	name := os.Args[1]
	src, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	add := func(from, to token.Pos, text string) {
		edits = append(edits, edit{off(from), off(to), text, fmt.Sprintf("%d: %q -> %q", fset.Position(from).Line, src[off(from):off(to)], text)})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swap := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+"}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.IfStmt:
				add(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")")
				add(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")")
			case *ast.BinaryExpr:
				if s, ok := swap[n.Op]; ok {
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					add(n.Pos(), n.End(), text(n.X))
					add(n.Pos(), n.End(), text(n.Y))
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					stmt(s, add)
				}
			case *ast.CaseClause:
				for _, s := range n.Body {
					stmt(s, add)
				}
				if len(n.List) > 1 {
					for i := range n.List {
						if i+1 < len(n.List) {
							add(n.List[i].Pos(), n.List[i+1].Pos(), "")
						} else {
							add(n.List[i-1].End(), n.List[i].End(), "")
						}
					}
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					add(n.Pos(), n.End(), n.Value+"+1")
				}
			case *ast.Ident:
				if n.Name == "true" {
					add(n.Pos(), n.End(), "false")
				} else if n.Name == "false" {
					add(n.Pos(), n.End(), "true")
				}
			case *ast.BranchStmt:
				if n.Label == nil && n.Tok == token.CONTINUE {
					add(n.Pos(), n.End(), "break")
				} else if n.Label == nil && n.Tok == token.BREAK {
					add(n.Pos(), n.End(), "continue")
				}
			}
			return true
		})
	}
	if len(os.Args) < 3 {
		for i, e := range edits {
			fmt.Println(i, e.what)
		}
		return
	}
	k, err := strconv.Atoi(os.Args[2])
	if err != nil || k >= len(edits) {
		panic("bad number")
	}
	e := edits[k]
	var b bytes.Buffer
	b.Write(src[:e.from])
	b.WriteString(e.text)
	b.Write(src[e.to:])
	os.Stdout.Write(b.Bytes())
}

// stmt adds the deletion of a statement.
func stmt(s ast.Stmt, add func(from, to token.Pos, text string)) {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt:
		add(s.Pos(), s.End(), "")
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			add(s.Pos(), s.End(), "")
		}
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			add(s.Pos(), s.End(), "")
		}
	}
}
