package world

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Rewriting says how Rewrite writes a program down differently.
type Rewriting struct {
	Parens, Aliases, Imports, Order, Wrap, Closures, Comments bool

	rnd   uint64
	Count map[string]int // how often each was done
}

// GenRewriting draws a rewriting.
func GenRewriting(t *rapid.T, closures bool) *Rewriting {
	on := func(label string) bool { return Uniform(t, 3, label) > 0 }
	r := &Rewriting{Parens: on("parens"), Aliases: on("aliases"), Imports: on("imports"), Order: on("order"), Wrap: on("wrap"), Comments: on("comments"), Count: map[string]int{}}
	r.Closures = closures && on("closures")
	r.rnd = rapid.Uint64().Draw(t, "rewriting")
	return r
}

func (r *Rewriting) n(n int) int {
	r.rnd += 0x9e3779b97f4a7c15
	z := r.rnd
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return int((z ^ z>>31) % uint64(n))
}

func (r *Rewriting) do(what string, percent int) bool {
	if r.n(100) >= percent {
		return false
	}
	r.Count[what]++
	return true
}

// edits are changes of a source text.
type edits struct {
	open, end map[int][]string // insertions at an offset, and before the ones of open
	repl      map[int]replacement
}

type replacement struct {
	to   int
	text string
}

func newEdits() *edits {
	return &edits{map[int][]string{}, map[int][]string{}, map[int]replacement{}}
}

// around surrounds a range; inner ranges must be given after outer ones.
func (e *edits) around(from, to int, before, after string) {
	e.open[from] = append(e.open[from], before)
	e.end[to] = append([]string{after}, e.end[to]...)
}

func (e *edits) apply(src string, from, to int) string {
	var b strings.Builder
	for i := from; i <= to; i++ {
		if i > from {
			for _, s := range e.end[i] {
				b.WriteString(s)
			}
		}
		if i == to {
			break
		}
		for _, s := range e.open[i] {
			b.WriteString(s)
		}
		if r, ok := e.repl[i]; ok {
			b.WriteString(r.text)
			for j := i + 1; j < r.to; j++ {
				if len(e.open[j])+len(e.end[j]) > 0 {
					panic("edit inside a replacement")
				}
			}
			i = r.to - 1
			continue
		}
		b.WriteByte(src[i])
	}
	return b.String()
}

// Rewrite returns the program written down differently.
func (r *Rewriting) Rewrite(prog Program) Program {
	l, err := Load(prog)
	if err != nil {
		panic(err)
	}
	var out Program
	for _, s := range prog {
		if s.Fixed == "" {
			s = r.pkg(s, l)
		}
		out = append(out, s)
	}
	return out
}

type rewriteDecl struct {
	text    string
	imports map[string]bool // paths
	init    bool
}

func (r *Rewriting) pkg(s SrcPkg, l *Loaded) SrcPkg {
	p := l.All[s.Path]
	info := p.TypesInfo
	names := map[string]string{} // of imports
	blank := map[string]bool{}
	var decls []rewriteDecl
	aliases := map[string]string{}
	for fi, f := range p.Syntax {
		src := s.Files[fi].Src
		off := func(pos token.Pos) int { return l.Fset.Position(pos).Offset }
		local := map[string]string{}
		for _, im := range f.Imports {
			path := strings.Trim(im.Path.Value, `"`)
			if im.Name != nil && im.Name.Name == "_" {
				blank[path] = true
				continue
			}
			if im.Name != nil && im.Name.Name == "." {
				panic("dot import")
			}
			name := l.All[path].Name
			if im.Name != nil {
				name = im.Name.Name
			}
			local[name] = path
			if names[path] == "" {
				names[path] = name
				if r.Imports && r.do("import", 60) {
					names[path] = fmt.Sprintf("imq%d", len(names))
				}
			}
		}
		last := off(f.Name.End())
		for _, d := range f.Decls {
			g, isGen := d.(*ast.GenDecl)
			from, to := last, off(d.End())
			last = to
			if isGen && g.Tok == token.IMPORT {
				continue
			}
			rd := rewriteDecl{imports: map[string]bool{}}
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				rd.init = true
			}
			e := newEdits()
			// pkgNames replaces the names of packages.
			pkgNames := func(n ast.Node, e *edits, imports map[string]bool) {
				ast.Inspect(n, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok {
						if pn, ok := info.Uses[id].(*types.PkgName); ok {
							path := pn.Imported().Path()
							imports[path] = true
							if names[path] == "" {
								panic("no name for " + path)
							}
							e.repl[off(id.Pos())] = replacement{off(id.End()), names[path]}
						}
					}
					return true
				})
			}
			// alias replaces a type by an alias for it.
			alias := func(x ast.Expr) bool {
				if !r.Aliases || x == nil || !hoistable(info, p.Types, x) || !r.do("alias", 30) {
					return false
				}
				ie := newEdits()
				imports := map[string]bool{}
				pkgNames(x, ie, imports)
				text := ie.apply(src, off(x.Pos()), off(x.End()))
				name := aliases[text]
				if name == "" {
					name = fmt.Sprintf("alq%d", len(aliases))
					aliases[text] = name
					decls = append(decls, rewriteDecl{text: fmt.Sprintf("\n\ntype %s = %s\n", name, text), imports: imports})
				}
				e.repl[off(x.Pos())] = replacement{off(x.End()), name}
				return true
			}
			var walk func(n ast.Node)
			paren := func(x ast.Expr, percent int) {
				if c, ok := x.(*ast.CompositeLit); ok && c.Type == nil {
					return
				}
				if ta, ok := x.(*ast.TypeAssertExpr); ok && ta.Type == nil {
					return
				}
				if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.TILDE {
					return
				}
				if inferred(info, x) {
					return // not allowed there
				}
				if r.Parens && r.do("paren", percent) {
					e.around(off(x.Pos()), off(x.End()), "(", ")")
				}
			}
			// expr walks an expression at a place where parentheses are allowed.
			expr := func(x ast.Expr, percent int) {
				if x == nil {
					return
				}
				paren(x, percent)
				walk(x)
			}
			// typ walks a type.
			typ := func(x ast.Expr) {
				if x == nil || alias(x) {
					return
				}
				walk(x)
			}
			fields := func(fl *ast.FieldList) {
				if fl == nil {
					return
				}
				for _, fd := range fl.List {
					if el, ok := fd.Type.(*ast.Ellipsis); ok {
						typ(el.Elt)
					} else {
						typ(fd.Type)
					}
				}
			}
			stmts := func(list []ast.Stmt) {
				for _, st := range list {
					r.wrap(e, st, info, off, s.Path)
					walk(st)
				}
			}
			walk = func(n ast.Node) {
				switch n := n.(type) {
				case nil:
				case *ast.Ident:
					pkgNames(n, e, rd.imports)
				case *ast.CallExpr:
					tv := info.Types[n.Fun]
					switch {
					case tv.IsType():
						if !alias(n.Fun) {
							expr(n.Fun, 20)
						}
					case tv.IsBuiltin():
						walk(n.Fun)
					default:
						expr(n.Fun, 20)
					}
					for _, a := range n.Args {
						if info.Types[a].IsType() {
							typ(a)
						} else {
							expr(a, 15)
						}
					}
				case *ast.SelectorExpr:
					if id, ok := n.X.(*ast.Ident); ok {
						if _, ok := info.Uses[id].(*types.PkgName); ok {
							walk(id)
							return
						}
					}
					if info.Types[n.X].IsType() {
						walk(n.X)
					} else {
						expr(n.X, 15)
					}
				case *ast.ReturnStmt:
					for _, x := range n.Results {
						expr(x, 15)
					}
				case *ast.AssignStmt:
					for _, x := range n.Lhs {
						walk(x)
					}
					for _, x := range n.Rhs {
						expr(x, 15)
					}
				case *ast.ExprStmt:
					expr(n.X, 10)
				case *ast.GoStmt:
					walk(n.Call)
				case *ast.DeferStmt:
					walk(n.Call)
				case *ast.BinaryExpr:
					expr(n.X, 10)
					expr(n.Y, 10)
				case *ast.UnaryExpr:
					if n.Op == token.TILDE {
						walk(n.X)
					} else {
						expr(n.X, 10)
					}
				case *ast.CompositeLit:
					if at, ok := n.Type.(*ast.ArrayType); ok && at.Len != nil {
						walk(n.Type)
					} else if n.Type != nil {
						typ(n.Type)
					}
					for _, x := range n.Elts {
						if kv, ok := x.(*ast.KeyValueExpr); ok {
							walk(kv.Key)
							expr(kv.Value, 10)
						} else {
							expr(x, 10)
						}
					}
				case *ast.TypeAssertExpr:
					walk(n.X)
					if n.Type != nil {
						typ(n.Type)
					}
				case *ast.FuncType:
					// Not the type parameters.
					if n.TypeParams != nil {
						walk(n.TypeParams)
					}
					fields(n.Params)
					fields(n.Results)
				case *ast.StructType:
					for _, fd := range n.Fields.List {
						if len(fd.Names) == 0 {
							walk(fd.Type)
						} else {
							typ(fd.Type)
						}
					}
				case *ast.ArrayType:
					if n.Len != nil {
						walk(n.Len)
					}
					typ(n.Elt)
				case *ast.MapType:
					typ(n.Key)
					typ(n.Value)
				case *ast.ChanType:
					typ(n.Value)
				case *ast.StarExpr:
					if info.Types[n].IsType() {
						typ(n.X)
					} else {
						expr(n.X, 10)
					}
				case *ast.ValueSpec:
					if n.Type != nil {
						typ(n.Type)
					}
					for _, x := range n.Values {
						expr(x, 15)
					}
				case *ast.FuncDecl:
					if n.Recv != nil {
						pkgNames(n.Recv, e, rd.imports)
					}
					walk(n.Type)
					if n.Body != nil {
						walk(n.Body)
					}
				case *ast.BlockStmt:
					stmts(n.List)
				case *ast.CaseClause:
					for _, x := range n.List {
						walk(x)
					}
					stmts(n.Body)
				case *ast.CommClause:
					if n.Comm != nil {
						walk(n.Comm)
					}
					stmts(n.Body)
				default:
					// Children in general.
					first := true
					ast.Inspect(n, func(m ast.Node) bool {
						if first {
							first = false
							return true
						}
						if m != nil {
							walk(m)
						}
						return false
					})
				}
			}
			walk(d)
			rd.text = "\n" + e.apply(src, from, to) + "\n"
			decls = append(decls, rd)
		}
	}
	nfiles := 1
	if r.Order {
		r.Count["order"]++
		nfiles = 1 + r.n(3)
		for i := len(decls) - 1; i > 0; i-- {
			j := r.n(i + 1)
			if !decls[i].init && !decls[j].init {
				decls[i], decls[j] = decls[j], decls[i]
			}
		}
	}
	res := s
	res.Files = nil
	type file struct {
		body    strings.Builder
		imports map[string]bool
	}
	files := make([]file, nfiles)
	for i := range files {
		files[i].imports = map[string]bool{}
	}
	for _, d := range decls {
		f := &files[0]
		if !d.init {
			f = &files[r.n(nfiles)]
		}
		if r.Comments && r.do("comment", 20) {
			f.body.WriteString("\n/* os.Getpid() */ // unsafe.Pointer(nil)\n")
		}
		f.body.WriteString(d.text)
		for p := range d.imports {
			f.imports[p] = true
		}
	}
	for i := range files {
		f := &files[i]
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\n", p.Name)
		var paths []string
		for p := range f.imports {
			paths = append(paths, p)
		}
		sort.Strings(paths)
		for _, p := range paths {
			fmt.Fprintf(&b, "import %s %q\n", names[p], p)
		}
		if i == 0 {
			for _, p := range SortedKeys(blank) {
				fmt.Fprintf(&b, "import _ %q\n", p)
			}
			// Imports that were used by no declaration cannot be.
		}
		b.WriteString(f.body.String())
		res.Files = append(res.Files, File{fmt.Sprintf("%c%d.go", 'a'+i, i), b.String()})
	}
	return res
}

// inferred says that x is a generic function some of whose type arguments are
// not written down.
func inferred(info *types.Info, x ast.Expr) bool {
	given := 0
	switch i := x.(type) {
	case *ast.IndexExpr:
		x, given = i.X, 1
	case *ast.IndexListExpr:
		x, given = i.X, len(i.Indices)
	}
	if s, ok := x.(*ast.SelectorExpr); ok {
		x = s.Sel
	}
	id, ok := x.(*ast.Ident)
	return ok && info.Instances[id].TypeArgs.Len() > given
}

// hoistable says that a type can be written at package level.
func hoistable(info *types.Info, pkg *types.Package, x ast.Expr) bool {
	if !info.Types[x].IsType() {
		return false
	}
	ok := true
	ast.Inspect(x, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Ellipsis:
			if _, isParam := n.Elt.(ast.Expr); !isParam {
				ok = false
			}
		case *ast.SelectorExpr:
			ast.Inspect(n.X, func(m ast.Node) bool {
				if id, isID := m.(*ast.Ident); isID {
					if _, isPkg := info.Uses[id].(*types.PkgName); !isPkg {
						ok = false
					}
				}
				return true
			})
			return false
		case *ast.Ident:
			obj := info.Uses[n]
			if obj == nil {
				break // names of fields and parameters
			}
			if obj.Parent() != pkg.Scope() && obj.Parent() != types.Universe {
				ok = false
			}
			// A generic type without arguments is not a type.
			if tn, isTN := obj.(*types.TypeName); isTN {
				if named, isN := tn.Type().(*types.Named); isN && named.TypeParams().Len() > 0 && n == x {
					ok = false
				}
			}
		}
		return ok
	})
	if i, isI := info.TypeOf(x).Underlying().(*types.Interface); isI && !i.IsMethodSet() {
		return false
	}
	return ok
}

// wrap puts a statement into a block.
func (r *Rewriting) wrap(e *edits, st ast.Stmt, info *types.Info, off func(token.Pos) int, pkg string) {
	closure := false
	switch st := st.(type) {
	case *ast.ExprStmt:
		call, ok := ast.Unparen(st.X).(*ast.CallExpr)
		if !ok || info.Types[ast.Unparen(call.Fun)].IsBuiltin() {
			return
		}
		closure = true
	case *ast.GoStmt, *ast.DeferStmt:
	default:
		return
	}
	from, to := off(st.Pos()), off(st.End())
	if closure && r.Closures && strings.Contains(pkg, ".") && !captures(info, st) && r.do("closure", 15) {
		e.around(from, to, "func() {\n", "\n}()")
		return
	}
	if r.Comments && r.do("comment", 10) {
		e.around(from, to, "/* os.Getpid() */ ", "")
	}
	if !r.Wrap || !r.do("wrap", 35) {
		return
	}
	switch r.n(6) {
	case 0:
		e.around(from, to, "{\n", "\n}")
	case 1:
		e.around(from, to, "if len(\"a\") == 1 {\n", "\n}")
	case 2:
		e.around(from, to, "if len(\"a\") > 1 {\n} else {\n", "\n}")
	case 3:
		e.around(from, to, "switch {\ndefault:\n", "\n}")
	case 4:
		e.around(from, to, "for range 2 {\n", "\n}")
	case 5:
		e.around(from, to, "select {\ndefault:\n", "\n}")
	}
}

// captures says that a statement uses a local variable from outside it that
// can hold functions or interface values.  What a dynamic call can reach is
// known less precisely once such a variable is captured by a closure.
func captures(info *types.Info, st ast.Stmt) bool {
	found := false
	ast.Inspect(st, func(n ast.Node) bool {
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		v, ok := info.Uses[id].(*types.Var)
		if !ok || v.IsField() || v.Pkg() == nil || v.Parent() == v.Pkg().Scope() || (st.Pos() <= v.Pos() && v.Pos() < st.End()) {
			return true
		}
		found = found || holdsDynamic(v.Type(), 0)
		return true
	})
	return found
}

func holdsDynamic(t types.Type, depth int) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok || depth > 4 {
		return true
	}
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Pointer:
		return holdsDynamic(t.Elem(), depth+1)
	case *types.Slice:
		return holdsDynamic(t.Elem(), depth+1)
	case *types.Array:
		return holdsDynamic(t.Elem(), depth+1)
	case *types.Struct:
		for i := range t.NumFields() {
			if holdsDynamic(t.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	}
	return true
}
