package world

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"path"
	"regexp"
	"strings"

	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/packages"
)

// PathChecker decides whether reported call paths are real, by looking at the
// syntax and types of the program.  It must be given a program that no
// analysis has been run on, because analyses rewrite the syntax.
type PathChecker struct {
	Fset    *token.FileSet
	Pkgs    map[string]*packages.Package
	Cls     interface{ FunctionCategory(pkg, name string) Cap }
	Ignored func(caller, callee string) bool
	Queried map[string]bool
	// Extra gives the capabilities that a function has because of its source,
	// by the name under which it was declared ("" for closures).
	Extra func(f *FuncInfo, name string) map[Cap]bool

	funcs map[string]*FuncInfo
	sites map[string]map[siteKey][]*callSite // per package
	noPos map[string]bool                    // function has calls without position
	lits  map[string]ast.Node                // closure name -> literal
	names map[ast.Node]map[string]bool
}

// FuncInfo is a declared function.
type FuncInfo struct {
	Name string // as in reports
	Pkg  *packages.Package
	Obj  *types.Func
	Decl *ast.FuncDecl
	Init bool // the package initialiser
}

type siteKey struct {
	file      string
	line, col int
}

type callSite struct {
	node  ast.Node // CallExpr, GoStmt, DeferStmt or RangeStmt
	call  *ast.CallExpr
	decl  *ast.FuncDecl // nil for package-level variables
	inner []ast.Node    // enclosing literals and range-over-func bodies
}

// StripArgs removes type arguments from the name of a function.
func StripArgs(s string) string {
	var b strings.Builder
	depth := 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '[':
			depth++
		case c == ']' && depth > 0:
			depth--
		case c == '"' && depth > 0:
			for i++; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' {
					i++
				}
			}
		case depth == 0:
			b.WriteByte(c)
		}
	}
	return b.String()
}

// DeclName is the name in reports of a declared function.
func DeclName(obj *types.Func) string {
	obj = obj.Origin()
	if recv := obj.Type().(*types.Signature).Recv(); recv != nil {
		return fmt.Sprintf("(%s).%s", types.TypeString(recv.Type(), func(p *types.Package) string { return p.Path() }), obj.Name())
	}
	if obj.Pkg() == nil {
		return obj.Name()
	}
	return obj.Pkg().Path() + "." + obj.Name()
}

// NewPathChecker indexes a program.
func NewPathChecker(fset *token.FileSet, pkgs map[string]*packages.Package) *PathChecker {
	c := &PathChecker{Fset: fset, Pkgs: pkgs, funcs: map[string]*FuncInfo{}, sites: map[string]map[siteKey][]*callSite{}, noPos: map[string]bool{}, lits: map[string]ast.Node{}, names: map[ast.Node]map[string]bool{}}
	for _, p := range pkgs {
		c.add(&FuncInfo{Name: p.PkgPath + ".init", Pkg: p, Init: true})
		inits := 0
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				obj, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if obj == nil {
					continue
				}
				fi := &FuncInfo{Name: DeclName(obj), Pkg: p, Obj: obj, Decl: fd}
				if fd.Recv == nil && fd.Name.Name == "init" {
					inits++
					fi.Name = fmt.Sprintf("%s.init#%d", p.PkgPath, inits)
				}
				c.add(fi)
			}
		}
	}
	return c
}

func (c *PathChecker) add(f *FuncInfo) { c.funcs[StripArgs(f.Name)] = f }

// Lookup finds the declared function that a name in a report belongs to.
// closure is the part of the name after that of the function.  A name that
// does not belong to a declared function is that of a wrapper.
func (c *PathChecker) Lookup(name string) (f *FuncInfo, closure string) {
	s := StripArgs(name)
	if f := c.funcs[s]; f != nil {
		return f, ""
	}
	if i := strings.IndexByte(s, '$'); i >= 0 && !strings.HasSuffix(s, "$bound") && !strings.HasSuffix(s, "$thunk") {
		return c.funcs[s[:i]], s[i:]
	}
	return nil, ""
}

// isFuncRange reports whether a range statement calls an iterator function.
func isFuncRange(p *packages.Package, s *ast.RangeStmt) bool {
	t := p.TypesInfo.TypeOf(s.X)
	if t == nil {
		return false
	}
	_, ok := coreType(t).(*types.Signature)
	return ok
}

func coreType(t types.Type) types.Type {
	u := t.Underlying()
	if i, ok := u.(*types.Interface); ok {
		for k := 0; k < i.NumEmbeddeds(); k++ {
			if un, ok := i.EmbeddedType(k).(*types.Union); ok && un.Len() > 0 {
				return un.Term(0).Type().Underlying()
			}
			if e := i.EmbeddedType(k).Underlying(); !types.IsInterface(e) {
				return e
			}
		}
	}
	return u
}

func (c *PathChecker) packageSites(p *packages.Package) map[siteKey][]*callSite {
	if m, ok := c.sites[p.PkgPath]; ok {
		return m
	}
	m := map[siteKey][]*callSite{}
	c.sites[p.PkgPath] = m
	add := func(pos token.Pos, s *callSite) {
		q := c.Fset.Position(pos)
		k := siteKey{path.Base(q.Filename), q.Line, q.Column}
		m[k] = append(m[k], s)
	}
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			fd, _ := d.(*ast.FuncDecl)
			var walk func(n ast.Node, inner []ast.Node)
			walk = func(n ast.Node, inner []ast.Node) {
				if n == nil {
					return
				}
				ast.Inspect(n, func(x ast.Node) bool {
					if x == nil || x == n {
						return true
					}
					switch x := x.(type) {
					case *ast.FuncLit:
						walk(x, append(inner[:len(inner):len(inner)], x))
						return false
					case *ast.RangeStmt:
						if !isFuncRange(p, x) {
							return true
						}
						add(x.For, &callSite{node: x, decl: fd, inner: inner})
						add(x.X.Pos(), &callSite{node: x, decl: fd, inner: inner})
						// The header belongs to the function, the body is a
						// function of its own.
						for _, e := range []ast.Expr{x.Key, x.Value, x.X} {
							if e != nil {
								walk(&ast.ExprStmt{X: e}, inner)
							}
						}
						walk(x.Body, append(inner[:len(inner):len(inner)], x))
						return false
					case *ast.CallExpr:
						add(x.Lparen, &callSite{node: x, call: x, decl: fd, inner: inner})
					case *ast.GoStmt:
						add(x.Go, &callSite{node: x, call: x.Call, decl: fd, inner: inner})
					case *ast.DeferStmt:
						add(x.Defer, &callSite{node: x, call: x.Call, decl: fd, inner: inner})
					}
					return true
				})
			}
			walk(d, nil)
		}
	}
	return m
}

// Check decides whether one entry of a report is genuine.
func (c *PathChecker) Check(ci *cpb.CapabilityInfo, intermediate bool) error {
	p := ci.GetPath()
	if len(p) == 0 {
		return fmt.Errorf("no path")
	}
	var names []string
	for _, f := range p {
		names = append(names, f.GetName())
	}
	if want := strings.Join(names, " "); !intermediate && ci.GetDepPath() != want {
		return fmt.Errorf("dependency path %q is not the path %q", ci.GetDepPath(), want)
	} else if intermediate && ci.GetDepPath() != "" && ci.GetDepPath() != want {
		return fmt.Errorf("dependency path %q is not the path %q", ci.GetDepPath(), want)
	}
	head, _ := c.Lookup(names[0])
	if head == nil {
		return fmt.Errorf("%s is not a function of the program", names[0])
	}
	if !c.Queried[head.Pkg.PkgPath] {
		return fmt.Errorf("%s is not in a queried package", names[0])
	}
	pkg := head.Pkg
	if intermediate {
		pkg = nil
		for _, f := range p {
			if f.GetPackage() == ci.GetPackageDir() {
				pkg = c.Pkgs[f.GetPackage()]
			}
		}
		if pkg == nil {
			return fmt.Errorf("no function of the path is in package %s", ci.GetPackageDir())
		}
	}
	if ci.GetPackageDir() != pkg.PkgPath || ci.GetPackageName() != pkg.Name {
		return fmt.Errorf("package is given as %s (%s), the function is in %s (%s)", ci.GetPackageDir(), ci.GetPackageName(), pkg.PkgPath, pkg.Name)
	}
	return c.CheckPath(ci.GetCapability(), p)
}

// wrapperRE matches the name of a wrapper of a method of a named type.
var wrapperRE = regexp.MustCompile(`^\(\*?([^(){}\s]+)\.[^./(){}\s]+\)\.`)

// WrapperPackage is the package of the type that a wrapper is a method of.
func WrapperPackage(name string) (string, bool) {
	if m := wrapperRE.FindStringSubmatch(StripArgs(name)); m != nil {
		return m[1], true
	}
	return "", false
}

// CheckPath decides whether a call path leads to the capability.
func (c *PathChecker) CheckPath(want Cap, p []*cpb.Function) error {
	if p[0].Site != nil {
		return fmt.Errorf("the first function of the path has a call site")
	}
	for i, f := range p {
		name := f.GetName()
		fi, closure := c.Lookup(name)
		cat := Unspecified
		if fi != nil {
			if f.GetPackage() != fi.Pkg.PkgPath {
				return fmt.Errorf("%s is given package %q, it is in %q", name, f.GetPackage(), fi.Pkg.PkgPath)
			}
			cat = c.Cls.FunctionCategory(fi.Pkg.PkgPath, c.className(fi, name, closure))
		} else if p, ok := WrapperPackage(name); ok && f.GetPackage() != p {
			return fmt.Errorf("%s is given package %q, its receiver is of %q", name, f.GetPackage(), p)
		}
		last := i == len(p)-1
		switch {
		case cat == Safe:
			return fmt.Errorf("%s is classified safe", name)
		case cat != Unspecified && !last:
			return fmt.Errorf("the path goes on through %s, which is classified %v", name, cat)
		case last && cat != Unspecified && cat != want:
			return fmt.Errorf("%s is classified %v", name, cat)
		case last && cat == Unspecified:
			if fi == nil || !c.Extra(fi, name)[want] {
				return fmt.Errorf("%s does not have %v", name, want)
			}
		}
		if i == 0 {
			continue
		}
		if c.Ignored(p[i-1].GetName(), name) {
			return fmt.Errorf("the call from %s to %s is to be ignored", p[i-1].GetName(), name)
		}
		if err := c.step(p[i-1].GetName(), f); err != nil {
			return fmt.Errorf("step from %s to %s: %w", p[i-1].GetName(), name, err)
		}
	}
	return nil
}

// Category is the classification of a function; wrappers have none.
func (c *PathChecker) Category(name string) Cap {
	fi, closure := c.Lookup(name)
	if fi == nil {
		return Unspecified
	}
	return c.Cls.FunctionCategory(fi.Pkg.PkgPath, c.className(fi, name, closure))
}

// className is the name under which a function is classified: instances of
// generic functions are classified as the generic function.
func (c *PathChecker) className(fi *FuncInfo, name, closure string) string {
	if closure != "" {
		if StripArgs(name) == name {
			return name
		}
		return fi.Name + closure
	}
	return fi.Name
}

// baseName is the name of a method or function without package and receiver.
func baseName(name string) string {
	s := strings.TrimSuffix(strings.TrimSuffix(StripArgs(name), "$bound"), "$thunk")
	return s[strings.LastIndexByte(s, '.')+1:]
}

func (c *PathChecker) step(caller string, f *cpb.Function) error {
	fi, closure := c.Lookup(caller)
	name := f.GetName()
	if fi == nil {
		// A wrapper calls the method it is named after.
		if baseName(caller) != baseName(name) {
			return fmt.Errorf("a wrapper cannot call that")
		}
		return nil
	}
	if f.Site == nil {
		if g, cl := c.Lookup(name); g == fi && cl == "" && closure == "" && caller != name {
			return nil // an instance with type parameters as arguments calls the generic function
		}
		if fi.Init && closure == "" {
			if s := StripArgs(name); strings.HasSuffix(s, ".init") || strings.Contains(s, ".init#") {
				return c.initStep(fi, s)
			}
		}
		if c.rewritten(fi) {
			return nil
		}
		return fmt.Errorf("no call site")
	}
	k := siteKey{f.Site.GetFilename(), int(f.Site.GetLine()), int(f.Site.GetColumn())}
	cands := c.packageSites(fi.Pkg)[k]
	if len(cands) == 0 {
		return fmt.Errorf("there is no call at %v in package %s", k, fi.Pkg.PkgPath)
	}
	var err error
	for _, s := range cands {
		if err = c.matches(fi, caller, closure, s, name); err == nil {
			return nil
		}
	}
	return fmt.Errorf("call at %v: %w", k, err)
}

// Edge decides whether a function can call another one anywhere.
func (c *PathChecker) Edge(caller, callee string) error {
	if c.Ignored(caller, callee) {
		return fmt.Errorf("the call is to be ignored")
	}
	err := c.step(caller, &cpb.Function{Name: &callee})
	if err == nil {
		return nil
	}
	fi, closure := c.Lookup(caller)
	if fi == nil {
		return err
	}
	lits, names := c.lits, c.names
	defer func() { c.lits, c.names = lits, names }()
	for _, sites := range c.packageSites(fi.Pkg) {
		for _, s := range sites {
			// Which literal a name stands for is not known here.
			c.lits, c.names = map[string]ast.Node{}, map[ast.Node]map[string]bool{}
			if c.matches(fi, caller, closure, s, callee) == nil {
				return nil
			}
		}
	}
	return fmt.Errorf("no call in %s can have that callee", caller)
}

// initStep decides whether a package initialiser calls another one.
func (c *PathChecker) initStep(fi *FuncInfo, callee string) error {
	if strings.HasPrefix(callee, fi.Pkg.PkgPath+".init#") {
		if c.funcs[callee] == nil {
			return fmt.Errorf("no such init function")
		}
		return nil
	}
	if fi.Pkg.Imports[strings.TrimSuffix(callee, ".init")] == nil {
		return fmt.Errorf("%s does not import that package", fi.Pkg.PkgPath)
	}
	return nil
}

// rewritten reports whether a function has statements whose calls have no
// position: call statements that the analysis replaces by calls of the
// callbacks, and loops over iterator functions.
func (c *PathChecker) rewritten(fi *FuncInfo) bool {
	if v, ok := c.noPos[fi.Name]; ok {
		return v
	}
	found := false
	look := func(n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			if s, ok := n.(*ast.RangeStmt); ok && isFuncRange(fi.Pkg, s) {
				found = true
			}
			if s, ok := n.(*ast.ExprStmt); ok {
				if call, ok := ast.Unparen(s.X).(*ast.CallExpr); ok {
					if sel, ok := ast.Unparen(call.Fun).(*ast.SelectorExpr); ok {
						if o := fi.Pkg.TypesInfo.Uses[sel.Sel]; o != nil && o.Pkg() != nil && (o.Pkg().Path() == "sort" || o.Pkg().Path() == "sync") {
							found = true
						}
					}
				}
			}
			return !found
		})
	}
	if fi.Decl != nil {
		look(fi.Decl)
	} else {
		for _, f := range fi.Pkg.Syntax {
			for _, d := range f.Decls {
				if g, ok := d.(*ast.GenDecl); ok {
					look(g)
				}
			}
		}
	}
	c.noPos[fi.Name] = found
	return found
}

func (c *PathChecker) matches(fi *FuncInfo, caller, closure string, s *callSite, callee string) error {
	if s.decl != fi.Decl {
		return fmt.Errorf("the call is in another function")
	}
	if depth := strings.Count(closure, "$"); depth != len(s.inner) {
		return fmt.Errorf("the call is at nesting depth %d", len(s.inner))
	}
	if closure != "" {
		// A closure name stands for one literal, everywhere in the report.
		lit := s.inner[len(s.inner)-1]
		name := fi.Name + closure
		if old := c.lits[name]; old != nil && old != lit {
			return fmt.Errorf("the name stands for another function literal elsewhere")
		}
		for other := range c.names[lit] {
			if other != name {
				return fmt.Errorf("the function literal is called %s elsewhere", other)
			}
		}
		c.lits[name] = lit
		c.names[lit] = map[string]bool{name: true}
	}
	cf, cc := c.Lookup(callee)
	if s.call == nil {
		return nil // range over a function value
	}
	info := fi.Pkg.TypesInfo
	fun := ast.Unparen(s.call.Fun)
	switch x := fun.(type) {
	case *ast.IndexExpr:
		fun = ast.Unparen(x.X)
		if tv := info.Types[x.X]; tv.IsValue() && coreIsIndexable(tv.Type) {
			fun = x
		}
	case *ast.IndexListExpr:
		fun = ast.Unparen(x.X)
	}
	tv := info.Types[s.call.Fun]
	if tv.IsType() || tv.IsBuiltin() {
		return fmt.Errorf("it is a conversion or builtin")
	}
	if lit, ok := fun.(*ast.FuncLit); ok {
		if !strings.HasPrefix(StripArgs(callee), StripArgs(caller)+"$") {
			return fmt.Errorf("it calls a function literal")
		}
		name := fi.Name + cc
		if old := c.lits[name]; old != nil && old != lit {
			return fmt.Errorf("the name of the callee stands for another function literal elsewhere")
		}
		c.lits[name] = lit
		return nil
	}
	var obj types.Object
	switch x := fun.(type) {
	case *ast.Ident:
		obj = info.Uses[x]
	case *ast.SelectorExpr:
		obj = info.Uses[x.Sel]
	}
	if fn, ok := obj.(*types.Func); ok {
		if recv := fn.Type().(*types.Signature).Recv(); recv != nil && types.IsInterface(recv.Type()) {
			if baseName(callee) != fn.Name() {
				return fmt.Errorf("it calls the interface method %s", fn.Name())
			}
			return c.implements(callee, recv.Type())
		}
		want := StripArgs(DeclName(fn))
		if got := strings.TrimSuffix(StripArgs(callee), "$thunk"); got != want {
			// A promoted method can be called through a wrapper.
			if cf == nil && baseName(callee) == fn.Name() {
				return nil
			}
			return fmt.Errorf("it calls %s", want)
		}
		return nil
	}
	// A call of a function value.
	sig, _ := coreType(tv.Type).(*types.Signature)
	if sig == nil {
		return fmt.Errorf("it is not a call of a function value")
	}
	if cf != nil && cc == "" && !cf.Init {
		have := cf.Obj.Type().(*types.Signature)
		if have.Recv() != nil {
			return fmt.Errorf("a method is not a function value")
		}
		if have.TypeParams().Len() == 0 && !hasTypeParam(sig, map[types.Type]bool{}) {
			if !types.Identical(have, sig) {
				return fmt.Errorf("it calls a value of type %v", sig)
			}
		} else if have.Params().Len() != sig.Params().Len() {
			return fmt.Errorf("it calls a value of type %v", sig)
		}
	}
	return nil
}

func coreIsIndexable(t types.Type) bool {
	switch coreType(t).(type) {
	case *types.Signature:
		return false
	}
	return true
}

// implements decides whether the receiver of a method implements an interface.
func (c *PathChecker) implements(callee string, iface types.Type) error {
	i, ok := iface.Underlying().(*types.Interface)
	if !ok || !strings.HasPrefix(callee, "(") || strings.Contains(callee, "[") || hasTypeParam(iface, map[types.Type]bool{}) {
		return nil
	}
	recv := callee[1:strings.LastIndexByte(callee, ')')]
	recv = strings.TrimPrefix(recv, "*")
	dot := strings.LastIndexByte(recv, '.')
	if dot < 0 || c.Pkgs[recv[:dot]] == nil {
		return nil
	}
	obj := c.Pkgs[recv[:dot]].Types.Scope().Lookup(recv[dot+1:])
	if obj == nil {
		return nil
	}
	t := obj.Type()
	if n, ok := t.(*types.Named); ok && n.TypeParams().Len() > 0 {
		return nil
	}
	if !types.Implements(t, i) && !types.Implements(types.NewPointer(t), i) {
		return fmt.Errorf("%s does not implement %v", recv, iface)
	}
	return nil
}

func hasTypeParam(t types.Type, seen map[types.Type]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	switch t := t.(type) {
	case *types.TypeParam:
		return true
	case *types.Alias:
		return hasTypeParam(types.Unalias(t), seen)
	case *types.Named:
		for i := 0; i < t.TypeArgs().Len(); i++ {
			if hasTypeParam(t.TypeArgs().At(i), seen) {
				return true
			}
		}
		return t.TypeParams().Len() > 0 && t.TypeArgs().Len() == 0
	case *types.Pointer:
		return hasTypeParam(t.Elem(), seen)
	case *types.Slice:
		return hasTypeParam(t.Elem(), seen)
	case *types.Array:
		return hasTypeParam(t.Elem(), seen)
	case *types.Chan:
		return hasTypeParam(t.Elem(), seen)
	case *types.Map:
		return hasTypeParam(t.Key(), seen) || hasTypeParam(t.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if hasTypeParam(t.At(i).Type(), seen) {
				return true
			}
		}
	case *types.Signature:
		return hasTypeParam(t.Params(), seen) || hasTypeParam(t.Results(), seen)
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasTypeParam(t.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Interface:
		for i := 0; i < t.NumMethods(); i++ {
			if hasTypeParam(t.Method(i).Type(), seen) {
				return true
			}
		}
		for i := 0; i < t.NumEmbeddeds(); i++ {
			if hasTypeParam(t.EmbeddedType(i), seen) {
				return true
			}
		}
	case *types.Union:
		for i := 0; i < t.Len(); i++ {
			if hasTypeParam(t.Term(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}
