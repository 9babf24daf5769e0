package world

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Effect says what an analysis may and must report for a piece of code.
type Effect struct {
	Must, May map[Cap]bool
	// Alts are sets of capabilities of which all must be reported, unless
	// UNANALYZED is.
	Alts [][]Cap
	// Loose: anything may be reported in addition.
	Loose bool
}

func newEffect() *Effect { return &Effect{Must: map[Cap]bool{}, May: map[Cap]bool{}} }

func (e *Effect) add(o *Effect) {
	for c := range o.Must {
		e.Must[c] = true
	}
	for c := range o.May {
		e.May[c] = true
	}
	e.Alts = append(e.Alts, o.Alts...)
	e.Loose = e.Loose || o.Loose
}

// weak adds o as the effect of a callback of a call that need not be
// rewritten.
func (e *Effect) weak(o *Effect) {
	e.May[Unanalyzed] = true
	for c := range o.May {
		e.May[c] = true
	}
	e.Loose = e.Loose || o.Loose
	var alt []Cap
	for _, c := range AllCaps {
		if o.Must[c] {
			alt = append(alt, c)
		}
	}
	e.Alts = append(e.Alts, alt)
	e.Alts = append(e.Alts, o.Alts...)
}

// Verdict compares an analysis with the effect.  noisy says that UNANALYZED is
// excluded, so that the bodies of the library functions are analysed.
func (e *Effect) Verdict(got map[Cap]bool, noisy bool) string {
	for _, c := range AllCaps {
		if e.Must[c] && !got[c] {
			return fmt.Sprintf("%v is missing", c)
		}
	}
	for _, a := range e.Alts {
		if got[Unanalyzed] {
			continue
		}
		for _, c := range a {
			if !got[c] {
				return fmt.Sprintf("%v is missing, and UNANALYZED too", c)
			}
		}
	}
	if e.Loose || noisy && len(e.Alts) > 0 {
		return ""
	}
	for _, c := range AllCaps {
		if got[c] && !e.May[c] {
			return fmt.Sprintf("%v is not expected", c)
		}
	}
	return ""
}

func (e *Effect) String() string {
	s := fmt.Sprintf("must %v, may %v", e.Must, e.May)
	for _, a := range e.Alts {
		s += fmt.Sprintf(", UNANALYZED or %v", a)
	}
	if e.Loose {
		s += ", loose"
	}
	return s
}

const fakeSort = `package sort

import "example.com/leaf"

type Interface interface {
	Len() int
	Less(i, j int) bool
	Swap(i, j int)
}

func Sort(data Interface) {
	n := data.Len()
	for i := 1; i < n; i++ {
		if data.Less(i, i-1) {
			data.Swap(i, i-1)
		}
	}
}

func Stable(data Interface) { Sort(data) }

func IsSorted(data Interface) bool {
	Sort(data) // so that all the methods are used, as in the others
	return true
}

func Slice(x any, less func(i, j int) bool) { less(0, 1) }

func SliceStable(x any, less func(i, j int) bool) { less(0, 1) }

func SliceIsSorted(x any, less func(i, j int) bool) bool { return less(0, 1) }

func Search(n int, f func(int) bool) int {
	if f(0) {
		return 1
	}
	return 0
}

type reverse struct{ Interface }

func (r reverse) Less(i, j int) bool { return r.Interface.Less(j, i) }

func Reverse(data Interface) Interface { return &reverse{data} }

// Not in the real package.
func SortOther(data Interface) { leaf.L7() }

func SliceOther(x any, less func(i, j int) bool) { leaf.L7() }

type Once struct{ Done int }

func (o *Once) Do(f func()) { leaf.L7() }
`

const fakeSync = `package sync

import "example.com/leaf"

type Once struct{ done int }

func (o *Once) Do(f func()) {
	if o.done == 0 {
		defer func() { o.done = 1 }()
		f()
	}
}

// Not in the real package.
func (o *Once) DoOther(f func()) { leaf.L7() }

type Twice struct{ done int }

func (o *Twice) Do(f func()) { leaf.L7() }

func Slice(x any, less func(i, j int) bool) { leaf.L7() }
`

const fakeXSort = `package sort

import "example.com/leaf"
import "sort"

func Sort(data sort.Interface) { leaf.L7() }

func Stable(data sort.Interface) { leaf.L7() }

func IsSorted(data sort.Interface) bool { return leaf.L7() == 1 }

func Slice(x any, less func(i, j int) bool) { leaf.L7() }

func SliceStable(x any, less func(i, j int) bool) { leaf.L7() }
`

const fakeXSync = `package sync

import "example.com/leaf"

type Once struct{ done int }

func (o *Once) Do(f func()) { leaf.L7() }
`

// sortCaps are the capabilities of the functions of example.com/leaf.
var sortCaps = []Cap{3, 4, 5, 6, 7, 2, 8, 10}

// SortsMap is the user map of these programs.
func SortsMap() *RefMap {
	m := NewRefMap()
	for i, c := range sortCaps {
		m.Funcs[fmt.Sprintf("example.com/leaf.L%d", i)] = c
	}
	return m
}

// Sorts is a program with calls of library functions that take callbacks.
type Sorts struct {
	Prog  Program
	Want  map[string]*Effect // by function name
	Forms map[string]bool
}

type sortsGen struct {
	t      *rapid.T
	n      int
	decls  []string // of the current package
	pkg    string
	forms  map[string]bool
	srt    string // local names of the packages
	syn    string
	extern bool // the package dep can be used
	deps   []string
	depEff map[string]*Effect
}

func (g *sortsGen) id() int { g.n++; return g.n }

func (g *sortsGen) choose(label string, opts ...string) string {
	o := pick(g.t, opts, label)
	g.forms[label+":"+o] = true
	return o
}

func (g *sortsGen) decl(format string, args ...any) {
	g.decls = append(g.decls, fmt.Sprintf(format, args...))
}

// leaf returns an int expression with a capability.
func (g *sortsGen) leaf(e *Effect) string {
	k := rapid.IntRange(0, 6).Draw(g.t, "leaf")
	e.Must[sortCaps[k]] = true
	e.May[sortCaps[k]] = true
	return fmt.Sprintf("leaf.L%d()", k)
}

// body returns statements to be run by a callback.
func (g *sortsGen) body(depth int) (string, *Effect) {
	e := newEffect()
	s := ""
	for i := rapid.IntRange(0, 2).Draw(g.t, "nleaf"); i > 0; i-- {
		s += g.leaf(e) + "; "
	}
	if depth > 0 && pct(g.t, 25, "nested") {
		g.forms["nested"] = true
		x, f := g.item(depth - 1)
		e.add(f)
		s += "\n" + x + "\n"
	}
	return s, e
}

// callback returns an expression of type func() or func(i, j int) bool,
// statements that must precede it, and what calling it does.  ok says that the
// call must be attributed precisely.
func (g *sortsGen) callback(less bool, depth int) (pre, expr string, args, e *Effect, ok bool) {
	sig, ret := "()", ""
	if less {
		sig, ret = "(i, j int) bool", "return false"
	}
	body, e := g.body(depth)
	n := g.id()
	args, ok = newEffect(), true
	lit := fmt.Sprintf("func%s { %s%s }", sig, body, ret)
	switch g.choose("callback", "lit", "decl", "var", "method", "ifacemethod", "generic", "alias", "field", "elem", "maker", "conv", "named", "nil", "paren", "iife", "param", "phi", "dep", "capture", "two", "namedconv", "ptrmethod", "vardecl") {
	case "decl":
		g.decl("func cb%d%s {\n%s%s\n}\n", n, sig, body, ret)
		return "", fmt.Sprintf("cb%d", n), args, e, ok
	case "var":
		return fmt.Sprintf("f%d := %s\n", n, lit), fmt.Sprintf("f%d", n), args, e, ok
	case "vardecl":
		return fmt.Sprintf("var f%d func%s\nf%d = %s\n", n, sig, n, lit), fmt.Sprintf("f%d", n), args, e, ok
	case "method":
		g.decl("type T%d struct{ x int }\n\nfunc (T%d) Do%s {\n%s%s\n}\n", n, n, sig, body, ret)
		return "", fmt.Sprintf("T%d{}.Do", n), args, e, ok
	case "ptrmethod":
		g.decl("type T%d struct{ x int }\n\nfunc (*T%d) Less%s {\n%s%s\n}\n", n, n, sig, body, ret)
		return "", fmt.Sprintf("(&T%d{}).Less", n), args, e, ok
	case "ifacemethod":
		g.decl("type T%d struct{ x int }\n\nfunc (T%d) M%d%s {\n%s%s\n}\n\ntype I%d interface{ M%d%s }\n", n, n, n, sig, body, ret, n, n, sig)
		return fmt.Sprintf("var i%d I%d = T%d{}\n", n, n, n), fmt.Sprintf("i%d.M%d", n, n), args, e, ok
	case "generic":
		g.decl("func cb%d[T any]%s {\n%s%s\n}\n", n, sig, body, ret)
		return "", fmt.Sprintf("cb%d[%s]", n, pick(g.t, []string{"int", "string"}, "targ")), args, e, ok
	case "alias":
		g.decl("type fn%d = func%s\n", n, sig)
		return fmt.Sprintf("var f%d fn%d = %s\n", n, n, lit), fmt.Sprintf("f%d", n), args, e, ok
	case "field":
		g.decl("type S%d struct{ a int; f func%s }\n", n, sig)
		return fmt.Sprintf("s%d := S%d{f: %s}\n", n, n, lit), fmt.Sprintf("s%d.f", n), args, e, ok
	case "elem":
		e.Loose = true
		return fmt.Sprintf("s%d := []func%s{%s}\n", n, sig, lit), fmt.Sprintf("s%d[0]", n), args, e, ok
	case "maker":
		x := g.leaf(args)
		g.decl("func mk%d() func%s {\n%s\nreturn %s\n}\n", n, sig, x, lit)
		return "", fmt.Sprintf("mk%d()", n), args, e, ok
	case "conv":
		return "", fmt.Sprintf("(func%s)(%s)", sig, lit), args, e, ok
	case "named":
		g.decl("type fn%d func%s\n", n, sig)
		return fmt.Sprintf("var f%d fn%d = %s\n", n, n, lit), fmt.Sprintf("f%d", n), args, e, false
	case "namedconv":
		g.decl("type fn%d func%s\n", n, sig)
		return "", fmt.Sprintf("fn%d(%s)", n, lit), args, e, false
	case "nil":
		return "", "nil", args, newEffect(), false
	case "paren":
		return "", "((" + lit + "))", args, e, ok
	case "iife":
		x := g.leaf(args)
		return "", fmt.Sprintf("func() func%s { %s; return %s }()", sig, x, lit), args, e, ok
	case "param":
		// The literal is passed on by a helper, which has the call.
		g.decl("func id%d(f func%s) func%s { return f }\n", n, sig, sig)
		return "", fmt.Sprintf("id%d(%s)", n, lit), args, e, ok
	case "phi":
		b2, e2 := g.body(0)
		e.add(e2)
		return fmt.Sprintf("f%d := %s\nif len(\"a\") > 2 {\nf%d = func%s { %s%s }\n}\n", n, lit, n, sig, b2, ret), fmt.Sprintf("f%d", n), args, e, ok
	case "dep":
		if !g.extern {
			return "", lit, args, e, ok
		}
		name := "dep.Cb"
		if less {
			name = "dep.Less"
		}
		e := newEffect()
		e.Must[sortCaps[4]], e.May[sortCaps[4]] = true, true
		return "", name, args, e, ok
	case "capture":
		return fmt.Sprintf("v%d := 0\n", n), fmt.Sprintf("func%s { v%d++; %s%s }", sig, n, body, ret), args, e, ok
	case "two":
		if !less {
			return "", lit, args, e, ok
		}
		x := g.leaf(args)
		g.decl("func two%d() (any, func%s) {\n%s\nreturn nil, %s\n}\n", n, sig, x, lit)
		return "", fmt.Sprintf("TWO two%d()", n), args, e, false
	}
	return "", lit, args, e, ok
}

// ifaceArg returns an expression to be sorted.
func (g *sortsGen) ifaceArg(depth int) (pre, expr string, args, e *Effect, ok bool) {
	e, args, ok = newEffect(), newEffect(), true
	n := g.id()
	b1, e1 := g.body(depth)
	b2, e2 := g.body(0)
	b3, e3 := g.body(0)
	e.add(e1)
	e.add(e2)
	e.add(e3)
	methods := func(recv string) string {
		return fmt.Sprintf("func (%s) Len() int { %sreturn 0 }\nfunc (%s) Less(i, j int) bool { %sreturn false }\nfunc (%s) Swap(i, j int) { %s }\n", recv, b1, recv, b2, recv, b3)
	}
	by := fmt.Sprintf("By%d", n)
	k := g.choose("sorted", "conv", "lit", "var", "addr", "ptr", "new", "field", "iface", "override", "maker", "ifacemaker", "generic", "alias", "dep", "fnfield", "reverse", "nil", "paren", "struct", "embedptr", "map", "param")
	switch k {
	case "ptr", "new":
		g.decl("type %s []int\n\n%s", by, methods("*"+by))
	case "generic":
		g.decl("type %s[T any] []T\n\n%s", by, methods(by+"[T]"))
	case "struct", "embedptr":
		g.decl("type %s struct{ x []int }\n\n%s", by, methods(by))
	case "override":
		// Len and Swap come from the embedded interface value.
		g.decl("type %s []int\n\n%s", by, methods(by))
		x := newEffect()
		y := g.leaf(x)
		g.decl("type Ov%d struct{ %s.Interface }\n\nfunc (o Ov%d) Less(i, j int) bool { %s; return false }\n", n, g.srt, n, y)
		e = newEffect()
		e.add(e1)
		e.add(e3)
		e.add(x)
		return "", fmt.Sprintf("Ov%d{%s(nil)}", n, by), args, e, ok
	case "dep":
		if g.extern {
			e := newEffect()
			e.Must[sortCaps[5]], e.May[sortCaps[5]] = true, true
			return "", "dep.By{}", args, e, ok
		}
		fallthrough
	default:
		g.decl("type %s []int\n\n%s", by, methods(by))
	}
	v := fmt.Sprintf("v%d", n)
	switch k {
	case "lit":
		return "", by + "{1, 2}", args, e, ok
	case "var":
		return fmt.Sprintf("%s := %s{2, 1}\n", v, by), v, args, e, ok
	case "addr":
		return fmt.Sprintf("var %s %s\n", v, by), "&" + v, args, e, ok
	case "ptr":
		return fmt.Sprintf("%s := &%s{2, 1}\n", v, by), v, args, e, ok
	case "new":
		return "", "new(" + by + ")", args, e, ok
	case "field":
		g.decl("type S%d struct{ in struct{ f %s } }\n", n, by)
		return fmt.Sprintf("var %s S%d\n", v, n), v + ".in.f", args, e, ok
	case "iface":
		return fmt.Sprintf("var %s %s.Interface = %s(nil)\n", v, g.srt, by), v, args, e, ok
	case "maker":
		x := g.leaf(args)
		g.decl("func mk%d() %s {\n%s\nreturn nil\n}\n", n, by, x)
		return "", fmt.Sprintf("mk%d()", n), args, e, ok
	case "ifacemaker":
		x := g.leaf(args)
		g.decl("func mk%d() %s.Interface {\n%s\nreturn %s{}\n}\n", n, g.srt, x, by)
		return "", fmt.Sprintf("mk%d()", n), args, e, ok
	case "generic":
		return "", by + "[string]{}", args, e, ok
	case "alias":
		g.decl("type Al%d = %s\n", n, by)
		return "", fmt.Sprintf("Al%d(nil)", n), args, e, ok
	case "fnfield":
		// The methods call a function in a field.
		bb, ee := g.body(0)
		g.decl("type Fs%d struct{ less func(i, j int) bool }\n\nfunc (f Fs%d) Len() int { return 0 }\nfunc (f Fs%d) Swap(i, j int) {}\nfunc (f Fs%d) Less(i, j int) bool { return f.less(i, j) }\n", n, n, n, n)
		return "", fmt.Sprintf("Fs%d{func(i, j int) bool { %sreturn i < j }}", n, bb), args, ee, ok
	case "reverse":
		e.Loose = true
		args.weak(newEffect())
		return "", fmt.Sprintf("%s.Reverse(%s(nil))", g.srt, by), args, e, ok
	case "nil":
		return "", "nil", args, newEffect(), false
	case "paren":
		return "", "((" + by + "(nil)))", args, e, ok
	case "struct":
		return "", by + "{}", args, e, ok
	case "embedptr":
		g.decl("type Em%d struct {\n*%s\ny int\n}\n", n, by)
		return "", fmt.Sprintf("Em%d{&%s{}, 1}", n, by), args, e, ok
	case "map":
		return fmt.Sprintf("%s := map[string]%s{\"a\": nil}\n", v, by), v + `["a"]`, args, e, ok
	case "param":
		// A type parameter.
		g.decl("func id%d[T %s.Interface](x T) T { return x }\n", n, g.srt)
		return "", fmt.Sprintf("id%d(%s(nil))", n, by), args, e, ok
	}
	return "", by + "(nil)", args, e, ok
}

// sliceArg returns the first argument of sort.Slice.
func (g *sortsGen) sliceArg() (pre, expr string, args *Effect, ok bool) {
	n := g.id()
	args, ok = newEffect(), true
	v := fmt.Sprintf("x%d", n)
	switch g.choose("slice", "nil", "var", "lit", "conv", "index", "field", "append", "call", "indexcall", "funclit", "recv", "iife", "sub", "nestedcall", "method", "unary", "assert", "kv", "unsafe", "unsafe2") {
	case "var":
		return fmt.Sprintf("%s := []int{1}\n", v), v, args, ok
	case "lit":
		return "", "[]string{\"a\", \"b\"}", args, ok
	case "conv":
		return fmt.Sprintf("var %s []int\n", v), "[]int(" + v + ")", args, false
	case "index":
		return fmt.Sprintf("%s := [][]int{nil}\n", v), v + "[0]", args, ok
	case "field":
		return fmt.Sprintf("%s := struct{ f []int }{}\n", v), v + ".f", args, ok
	case "append":
		return fmt.Sprintf("var %s []int\n", v), fmt.Sprintf("append(%s, len(%s))", v, v), args, false
	case "call":
		g.decl("func %s() []int {\n%s\nreturn nil\n}\n", v, g.leaf(args))
		return "", v + "()", args, false
	case "indexcall":
		g.decl("func %s() int {\n%s\nreturn 0\n}\n", v, g.leaf(args))
		return fmt.Sprintf("y%d := [][]int{nil}\n", n), fmt.Sprintf("y%d[%s()]", n, v), args, false
	case "funclit":
		return "", "[]func() int{func() int { return leaf.L6() }}", args, ok
	case "recv":
		return fmt.Sprintf("%s := make(chan []int, 1)\n%s <- nil\n", v, v), "<-" + v, args, false
	case "iife":
		return "", fmt.Sprintf("func() []int { %s; return nil }()", g.leaf(args)), args, false
	case "sub":
		return fmt.Sprintf("%s := []int{1}\n", v), v + "[0:1]", args, ok
	case "nestedcall":
		return "", fmt.Sprintf("[]int{1, %s}", g.leaf(args)), args, false
	case "kv":
		return "", fmt.Sprintf("[]any{0: 1, 1: struct{ a, b any }{b: %s}}", g.leaf(args)), args, false
	case "method":
		g.decl("type %s struct{ y int }\n\nfunc (%s) Get() []int {\n%s\nreturn nil\n}\n", v, v, g.leaf(args))
		return "", v + "{}.Get()", args, false
	case "unary":
		return "", fmt.Sprintf("[]int{-%s}", g.leaf(args)), args, false
	case "unsafe":
		args.Must[12], args.May[12] = true, true
		return fmt.Sprintf("%s := []int{1}\n", v), fmt.Sprintf("*(*[]uint)(unsafe.Pointer(&%s))", v), args, false
	case "unsafe2":
		args.Must[12], args.May[12] = true, true
		return fmt.Sprintf("%s := [2]int{1}\n", v), fmt.Sprintf("[]any{(*int)(unsafe.Pointer(&%s))}", v), args, false
	case "assert":
		g.decl("func %s() any {\n%s\nreturn []int{}\n}\n", v, g.leaf(args))
		return "", v + "().([]int)", args, false
	}
	return "", "nil", args, ok
}

// onceRecv returns the receiver of Do.
func (g *sortsGen) onceRecv() (pre, expr string, args *Effect, ok bool) {
	n := g.id()
	args, ok = newEffect(), true
	o := fmt.Sprintf("o%d", n)
	once := g.syn + ".Once"
	get := func(res, val string) string {
		g.decl("func get%d() %s {\n%s\nreturn %s\n}\n", n, res, g.leaf(args), val)
		return fmt.Sprintf("get%d()", n)
	}
	switch g.choose("once", "var", "ptr", "newvar", "new", "field", "deepfield", "array", "map", "addr", "star", "global", "dep", "embed", "embedptr", "call", "indexcall", "recv", "assert", "lit", "litcall", "alias", "ptralias", "slicecall", "keycall", "assertcall", "starcall", "unarycall", "fieldcall", "subcall", "subcall2", "subcall3", "binarycall", "kvcall", "parencall") {
	case "ptr":
		return fmt.Sprintf("%s := &%s{}\n", o, once), o, args, ok
	case "newvar":
		return fmt.Sprintf("%s := new(%s)\n", o, once), o, args, ok
	case "new":
		return "", fmt.Sprintf("new(%s)", once), args, false
	case "field":
		g.decl("type S%d struct{ a int; o %s }\n", n, once)
		return fmt.Sprintf("var %s S%d\n", o, n), o + ".o", args, ok
	case "deepfield":
		g.decl("type S%d struct{ in *struct{ o *%s } }\n", n, once)
		return fmt.Sprintf("var %s S%d\n", o, n), o + ".in.o", args, ok
	case "array":
		return fmt.Sprintf("var %s [3]%s\n", o, once), o + "[1]", args, ok
	case "map":
		return fmt.Sprintf("%s := map[string]*%s{}\n", o, once), o + `["a"]`, args, ok
	case "addr":
		return fmt.Sprintf("var %s %s\n", o, once), "(&" + o + ")", args, ok
	case "star":
		return fmt.Sprintf("%s := &%s{}\n", o, once), "(*" + o + ")", args, ok
	case "global":
		g.decl("var g%d %s\n", n, once)
		return "", fmt.Sprintf("g%d", n), args, ok
	case "dep":
		if g.extern {
			return "", "dep.Once", args, ok
		}
	case "embed":
		g.decl("type S%d struct{ %s }\n", n, once)
		return fmt.Sprintf("var %s S%d\n", o, n), o, args, false
	case "embedptr":
		g.decl("type S%d struct{ *%s; x int }\n", n, once)
		return fmt.Sprintf("%s := &S%d{}\n", o, n), o, args, false
	case "call":
		return "", get("*"+once, "nil"), args, false
	case "indexcall":
		return fmt.Sprintf("var %s [3]%s\n", o, once), o + "[" + get("int", "1") + "]", args, false
	case "keycall":
		return fmt.Sprintf("%s := map[string]*%s{}\n", o, once), o + "[\"a\" + " + get("string", `"b"`) + "]", args, false
	case "recv":
		return fmt.Sprintf("%s := make(chan *%s, 1)\n%s <- nil\n", o, once, o), "(<-" + o + ")", args, false
	case "assert":
		return fmt.Sprintf("var %s any = &%s{}\n", o, once), o + ".(*" + once + ")", args, ok
	case "assertcall":
		return "", get("any", "nil") + ".(*" + once + ")", args, false
	case "starcall":
		return "", "(*" + get("*"+once, "nil") + ")", args, false
	case "unarycall":
		return "", "(<-" + get("chan *"+once, "nil") + ")", args, false
	case "fieldcall":
		g.decl("type S%d struct{ o %s }\n", n, once)
		return "", get(fmt.Sprintf("*S%d", n), "nil") + ".o", args, false
	case "subcall":
		return fmt.Sprintf("var %s [3]%s\n", o, once), o + "[" + get("int", "1") + ":][0]", args, false
	case "subcall2":
		return fmt.Sprintf("var %s [3]%s\n", o, once), o + "[0:" + get("int", "1") + "][0]", args, false
	case "subcall3":
		return fmt.Sprintf("var %s [3]%s\n", o, once), o + "[0:1:" + get("int", "2") + "][0]", args, false
	case "binarycall":
		return fmt.Sprintf("var %s [3]%s\n", o, once), o + "[" + get("int", "2") + "-1]", args, false
	case "kvcall":
		return fmt.Sprintf("var %s [3]%s\n", o, once), o + "[map[int]int{1: " + get("int", "2") + "}[1]]", args, false
	case "parencall":
		return fmt.Sprintf("var %s [3]%s\n", o, once), o + "[(" + get("int", "2") + ")]", args, false
	case "slicecall":
		return "", get("[]"+once, "nil") + "[0:1][0]", args, false
	case "lit":
		return "", "(&" + once + "{})", args, ok
	case "litcall":
		return "", "([]*" + once + "{" + get("*"+once, "nil") + "})[0]", args, false
	case "alias":
		g.decl("type A%d = %s\n", n, once)
		return fmt.Sprintf("var %s A%d\n", o, n), o, args, ok
	case "ptralias":
		g.decl("type A%d = %s\ntype P%d = *A%d\n", n, once, n, n)
		return fmt.Sprintf("var %s P%d = &A%d{}\n", o, n, n), o, args, ok
	}
	return fmt.Sprintf("var %s %s\n", o, once), o, args, ok
}

// item returns statements with one such call, and their effect.
func (g *sortsGen) item(depth int) (string, *Effect) {
	e := newEffect()
	var pre, stmt string
	ok := true
	what := g.choose("what", "sort", "slice", "once", "lookalike", "other")
	isSort := false
	var cb *Effect
	switch what {
	case "sort":
		isSort = true
		p, x, a, c, o := g.ifaceArg(depth)
		pre, ok, cb = p, o, c
		e.add(a)
		stmt = fmt.Sprintf("%s.%s(%s)", g.srt, pick(g.t, []string{"Sort", "Stable", "IsSorted"}, "sortfn"), x)
	case "slice":
		p1, x1, a1, o1 := g.sliceArg()
		p2, x2, a2, c, o2 := g.callback(true, depth)
		fn := pick(g.t, []string{"Slice", "SliceStable"}, "slicefn")
		if strings.HasPrefix(x2, "TWO ") {
			pre, ok, stmt = p2, false, fmt.Sprintf("%s.%s(%s)", g.srt, fn, x2[4:])
		} else {
			e.add(a1)
			pre, ok, stmt = p1+p2, o1 && o2, fmt.Sprintf("%s.%s(%s, %s)", g.srt, fn, x1, x2)
		}
		cb = c
		e.add(a2)
	case "once":
		p1, x1, a1, o1 := g.onceRecv()
		p2, x2, a2, c, o2 := g.callback(false, depth)
		pre, ok, cb = p1+p2, o1 && o2, c
		e.add(a1)
		e.add(a2)
		stmt = fmt.Sprintf("%s.Do(%s)", x1, x2)
	case "other":
		// Not statements of the plain form.
		ok = false
		switch g.choose("other", "go", "defer", "expr", "viavar", "methodvalue", "methodexpr", "ifacecall", "parenfun", "isslicesorted", "search", "generic") {
		case "go", "defer":
			p1, x1, a1, _ := g.onceRecv()
			p2, x2, a2, c, _ := g.callback(false, depth)
			e.add(a1)
			e.add(a2)
			pre, cb = p1+p2, c
			stmt = fmt.Sprintf("%s %s.Do(%s)", pick(g.t, []string{"go", "defer"}, "kw"), x1, x2)
		case "expr":
			p, x, a, c, _ := g.ifaceArg(depth)
			pre, cb = p, c
			e.add(a)
			stmt = fmt.Sprintf("_ = %s.IsSorted(%s)", g.srt, x)
		case "viavar":
			p, x, a, c, _ := g.ifaceArg(depth)
			n := g.id()
			pre, cb = p+fmt.Sprintf("fn%d := %s.Sort\n", n, g.srt), c
			e.add(a)
			stmt = fmt.Sprintf("fn%d(%s)", n, x)
		case "methodvalue":
			p1, x1, a1, _ := g.onceRecv()
			p2, x2, a2, c, _ := g.callback(false, depth)
			n := g.id()
			e.add(a1)
			e.add(a2)
			pre, cb = p1+p2+fmt.Sprintf("fn%d := %s.Do\n", n, x1), c
			stmt = fmt.Sprintf("fn%d(%s)", n, x2)
		case "methodexpr":
			p2, x2, a2, c, _ := g.callback(false, depth)
			n := g.id()
			e.add(a2)
			pre, cb = p2+fmt.Sprintf("var o%d %s.Once\n", n, g.syn), c
			stmt = fmt.Sprintf("(*%s.Once).Do(&o%d, %s)", g.syn, n, x2)
		case "ifacecall":
			p2, x2, a2, c, _ := g.callback(false, depth)
			n := g.id()
			e.add(a2)
			pre, cb = p2+fmt.Sprintf("var o%d interface{ Do(f func()) } = &%s.Once{}\n", n, g.syn), c
			stmt = fmt.Sprintf("o%d.Do(%s)", n, x2)
			// Other implementations can be confused with this one.
			e.Loose = true
		case "parenfun":
			p, x, a, c, _ := g.ifaceArg(depth)
			pre, cb = p, c
			e.add(a)
			stmt = fmt.Sprintf("(%s.Sort)(%s)", g.srt, x)
		case "isslicesorted":
			p1, x1, a1, _ := g.sliceArg()
			p2, x2, a2, c, _ := g.callback(true, depth)
			if strings.HasPrefix(x2, "TWO ") {
				x1, x2, p1, a1 = "nil", "nil", "", newEffect()
				a2, c = newEffect(), newEffect()
			}
			e.add(a1)
			e.add(a2)
			pre, cb = p1+p2, c
			stmt = fmt.Sprintf("%s.SliceIsSorted(%s, %s)", g.srt, x1, x2)
		case "search":
			c := newEffect()
			cb = c
			stmt = fmt.Sprintf("_ = %s.Search(3, func(i int) bool { return %s == i })", g.srt, g.leaf(c))
		case "generic":
			// A call statement whose argument is a type parameter.
			p, x, a, c, _ := g.ifaceArg(0)
			n := g.id()
			if x == "nil" {
				x = fmt.Sprintf("%s.Interface(nil)", g.srt)
			}
			g.decl("func gs%d[T %s.Interface](x T) {\n%s.Sort(x)\n}\n", n, g.srt, g.srt)
			pre, cb = p, c
			e.add(a)
			stmt = fmt.Sprintf("gs%d(%s)", n, x)
		}
	case "lookalike":
		// Ordinary calls of functions that do something of their own.
		l7 := newEffect()
		l7.Must[sortCaps[7]], l7.May[sortCaps[7]] = true, true
		e.add(l7)
		cb = newEffect()
		n := g.id()
		lk := g.choose("lookalike", "xsort", "xslice", "xonce", "shadowsort", "shadowslice", "twice", "doother", "sortother", "sliceother", "localonce", "override", "sortonce", "syncslice", "shadowvaronce", "localalias")
		switch lk {
		case "xsort", "sortother", "shadowsort":
			p, x, a, _, _ := g.ifaceArg(0)
			pre = p
			e.add(a)
			fn := pick(g.t, []string{"Sort", "Stable", "IsSorted"}, "sortfn")
			switch lk {
			case "xsort":
				stmt = fmt.Sprintf("xsort.%s(%s)", fn, x)
			case "sortother":
				stmt = fmt.Sprintf("%s.SortOther(%s)", g.srt, x)
			default:
				// The argument is evaluated before the name is shadowed.
				g.decl("type Sorter%d struct{ x int }\n\nfunc (Sorter%d) %s(x any) { leaf.L7() }\n", n, n, fn)
				pre += fmt.Sprintf("arg%d := any(%s)\n{\n%s := Sorter%d{}\n", n, x, g.srt, n)
				stmt = fmt.Sprintf("%s.%s(arg%d)\n}", g.srt, fn, n)
			}
		case "xslice", "sliceother", "shadowslice", "syncslice":
			p1, x1, a1, _ := g.sliceArg()
			p2, x2, a2, _, _ := g.callback(true, 0)
			if strings.HasPrefix(x2, "TWO ") {
				x2, p2, a2 = "nil", "", newEffect()
			}
			pre = p1 + p2
			e.add(a1)
			e.add(a2)
			fn := pick(g.t, []string{"Slice", "SliceStable"}, "slicefn")
			switch lk {
			case "xslice":
				stmt = fmt.Sprintf("xsort.%s(%s, %s)", fn, x1, x2)
			case "sliceother":
				stmt = fmt.Sprintf("%s.SliceOther(%s, %s)", g.srt, x1, x2)
			case "syncslice":
				stmt = fmt.Sprintf("%s.Slice(%s, %s)", g.syn, x1, x2)
			default:
				g.decl("type Sorter%d struct{ x int }\n\nfunc (Sorter%d) %s(x any, less func(i, j int) bool) { leaf.L7() }\n", n, n, fn)
				pre += fmt.Sprintf("%s := Sorter%d{}\n", g.srt, n)
				stmt = fmt.Sprintf("%s.%s(%s, %s)\n}", g.srt, fn, x1, x2)
				pre = "{\n" + pre
			}
		default:
			p2, x2, a2, _, _ := g.callback(false, 0)
			e.add(a2)
			o := fmt.Sprintf("o%d", n)
			typ := ""
			switch lk {
			case "twice":
				typ = g.syn + ".Twice"
			case "doother":
				typ = g.syn + ".Once"
			case "localonce":
				g.decl("type Once%d struct{ x int }\n\nfunc (o *Once%d) Do(f func()) { leaf.L7() }\n", n, n)
				typ = fmt.Sprintf("Once%d", n)
			case "localalias":
				g.decl("type Once%d struct{ x int }\n\nfunc (o *Once%d) Do(f func()) { leaf.L7() }\n\ntype Al%d = Once%d\n", n, n, n, n)
				typ = fmt.Sprintf("Al%d", n)
			case "override":
				g.decl("type Once%d struct{ %s.Once }\n\nfunc (o *Once%d) Do(f func()) { leaf.L7() }\n", n, g.syn, n)
				typ = fmt.Sprintf("Once%d", n)
			case "sortonce":
				typ = g.srt + ".Once"
			case "shadowvaronce":
				// A local variable with the name of the package sync.
				g.decl("type Sy%d struct{ Once xsync.Once }\n", n)
				pre = p2 + fmt.Sprintf("{\n%s := Sy%d{}\n", g.syn, n)
				stmt = fmt.Sprintf("%s.Once.Do(%s)\n}", g.syn, x2)
			default:
				typ = "xsync.Once"
			}
			if typ != "" {
				pre = p2 + fmt.Sprintf("var %s %s\n", o, typ)
				do := "Do"
				if lk == "doother" {
					do = "DoOther"
				}
				stmt = fmt.Sprintf("%s.%s(%s)", o, do, x2)
			}
		}
		if strings.Contains(stmt, "\n}") {
			return pre + stmt + "\n", e
		}
	}
	ctx := "plain"
	if what != "other" && pct(g.t, 70, "ctx?") {
		ctx = g.choose("context", "block", "if", "else", "for", "case", "typecase", "select", "label", "ifinit", "forinit", "forpost", "switchinit", "typeswitchinit", "range", "closure", "deferclosure", "goclosure", "gostmt", "deferstmt", "labelblock", "semi")
	}
	n := g.id()
	switch ctx {
	case "ifinit", "forinit", "forpost", "switchinit", "typeswitchinit":
		// Sort needs several statements, which do not fit there.
		ok = ok && !isSort
	case "gostmt", "deferstmt":
		ok = false
	}
	if strings.Contains(stmt, "{") {
		// Composite literals need parentheses in these positions.
		switch ctx {
		case "ifinit", "forinit", "forpost", "switchinit", "typeswitchinit":
			ctx = "block"
			ok = false
		}
	}
	switch ctx {
	case "block":
		stmt = "{\n" + stmt + "\n}"
	case "if":
		stmt = "if len(\"a\") > 1 {\n" + stmt + "\n}"
	case "else":
		stmt = "if len(\"a\") > 1 {\n} else {\n" + stmt + "\n}"
	case "for":
		stmt = "for len(\"a\") > 1 {\n" + stmt + "\n}"
	case "case":
		stmt = "switch len(\"a\") {\ncase 1:\n" + stmt + "\nfallthrough\ndefault:\n}"
	case "typecase":
		stmt = "switch any(1).(type) {\ncase int:\n" + stmt + "\n}"
	case "select":
		stmt = "select {\ndefault:\n" + stmt + "\n}"
	case "label":
		stmt = fmt.Sprintf("goto L%d\nL%d:\n%s", n, n, stmt)
	case "labelblock":
		stmt = fmt.Sprintf("L%d:\nfor {\n%s\nbreak L%d\n}", n, stmt, n)
	case "ifinit":
		stmt = "if " + stmt + "; len(\"a\") > 1 {\n}"
	case "forinit":
		stmt = "for " + stmt + "; len(\"a\") > 1; {\n}"
	case "forpost":
		stmt = "for ; len(\"a\") > 1; " + stmt + " {\n}"
	case "switchinit":
		stmt = "switch " + stmt + "; {\n}"
	case "typeswitchinit":
		stmt = "switch " + stmt + "; any(1).(type) {\n}"
	case "range":
		stmt = "for range 3 {\n" + stmt + "\n}"
	case "closure":
		stmt = "func() {\n" + stmt + "\n}()"
	case "deferclosure":
		stmt = "defer func() {\n" + stmt + "\n}()"
	case "goclosure":
		stmt = "go func() {\n" + stmt + "\n}()"
	case "gostmt":
		stmt = "go " + stmt
	case "deferstmt":
		stmt = "defer " + stmt
	case "semi":
		stmt = "{ " + stmt + "; }"
	}
	if what == "lookalike" {
		return pre + stmt + "\n", e
	}
	if ok {
		e.add(cb)
	} else {
		e.weak(cb)
	}
	return "{\n" + pre + stmt + "\n}\n", e
}

// GenSorts draws a program.
func GenSorts(t *rapid.T) *Sorts {
	g := &sortsGen{t: t, forms: map[string]bool{}, depEff: map[string]*Effect{}}
	out := &Sorts{Want: map[string]*Effect{}, Forms: g.forms}
	var lf strings.Builder
	lf.WriteString("package leaf\n")
	for i := range sortCaps {
		fmt.Fprintf(&lf, "\nfunc L%d() int { return %d }\n", i, i)
	}
	out.Prog = Program{
		{Path: "example.com/leaf", Files: []File{{"leaf.go", lf.String()}}},
		{Path: "sort", Files: []File{{"sort.go", fakeSort}}, Fixed: "fakeSort in harness/world/sorts.go"},
		{Path: "sync", Files: []File{{"sync.go", fakeSync}}, Fixed: "fakeSync in harness/world/sorts.go"},
		{Path: "example.com/x/sort", Files: []File{{"sort.go", fakeXSort}}, Fixed: "fakeXSort in harness/world/sorts.go"},
		{Path: "example.com/x/sync", Files: []File{{"sync.go", fakeXSync}}, Fixed: "fakeXSync in harness/world/sorts.go"},
	}
	pkg := func(path, name string, nf int, fixed string) {
		g.decls = nil
		g.srt, g.syn = "sort", "sync"
		if pct(t, 25, "renamed") {
			g.forms["renamed imports"] = true
			g.srt, g.syn = pick(t, []string{"srt", "sync2"}, "srt"), pick(t, []string{"syn", "sort2"}, "syn")
		}
		var fns []string
		for i := 0; i < nf; i++ {
			e := newEffect()
			body := ""
			for k := rapid.IntRange(1, 2).Draw(t, "items"); k > 0; k-- {
				s, f := g.item(1)
				body += s
				e.add(f)
			}
			if g.extern && len(g.deps) > 0 && pct(t, 25, "calldep") {
				d := pick(t, g.deps, "dep")
				body += "dep." + d + "()\n"
				e.add(g.depEff[d])
			}
			fn := fmt.Sprintf("F%d", i)
			switch g.choose("in", "func", "method", "generic", "init", "varinit", "nested") {
			case "method":
				g.decl("type R%d struct{ x int }\n", i)
				fns = append(fns, fmt.Sprintf("func (R%d) %s() {\n%s}\n", i, fn, body))
				out.Want[fmt.Sprintf("(%s.R%d).%s", path, i, fn)] = e
			case "generic":
				fns = append(fns, fmt.Sprintf("func %s[T any]() {\n%s}\n", fn, body), fmt.Sprintf("func C%d() { %s[int]() }\n", i, fn))
				out.Want[path+"."+fn] = e
				out.Want[fmt.Sprintf("%s.C%d", path, i)] = e
			case "init", "varinit":
				// All initialisers count as one function.
				if out.Want[path+".init"] == nil {
					out.Want[path+".init"] = newEffect()
				}
				out.Want[path+".init"].add(e)
				if pct(t, 50, "kind") {
					fns = append(fns, fmt.Sprintf("func init() {\n%s}\n", body))
				} else {
					fns = append(fns, fmt.Sprintf("var _ = func() int {\n%sreturn 1\n}()\n", body))
				}
			case "nested":
				fns = append(fns, fmt.Sprintf("func %s() {\nfunc() {\n%s}()\n}\n", fn, body))
				out.Want[path+"."+fn] = e
			default:
				fns = append(fns, fmt.Sprintf("func %s() {\n%s}\n", fn, body))
				out.Want[path+"."+fn] = e
			}
			if !g.extern && out.Want[path+"."+fn] == e && !strings.Contains(fns[len(fns)-1], "["+"T any") {
				if strings.HasPrefix(fns[len(fns)-1], "func "+fn+"()") {
					g.deps = append(g.deps, fn)
					g.depEff[fn] = e
				}
			}
		}
		fns = append(fns, "func Nothing() {}\n")
		out.Want[path+".Nothing"] = newEffect()
		src := fmt.Sprintf("package %s\n\nimport %s \"sort\"\nimport %s \"sync\"\nimport xsort \"example.com/x/sort\"\nimport xsync \"example.com/x/sync\"\nimport \"example.com/leaf\"\nimport \"unsafe\"\n", name, g.srt, g.syn)
		if g.extern {
			src += "import \"example.com/dep\"\n"
		}
		src += "\n" + strings.Join(g.decls, "\n") + "\n" + strings.Join(fns, "\n") + fixed
		fixed2 := "\nvar _ " + g.srt + ".Interface\nvar _ " + g.syn + ".Once\nvar _ xsync.Once\nvar _ = xsort.Sort\nvar _ = leaf.L0\nvar _ unsafe.Pointer\n"
		if g.extern {
			fixed2 += "var _ dep.By\n"
		}
		out.Prog = append(out.Prog, SrcPkg{Path: path, Files: []File{{"a.go", src + fixed2}}, Queried: true})
	}
	pkg("example.com/dep", "dep", rapid.IntRange(0, 2).Draw(t, "ndep"), "\nvar Once sync_Once\n\nfunc Cb() { leaf.L4() }\n\nfunc Less(i, j int) bool { return leaf.L4() == 1 }\n\ntype By []int\n\nfunc (By) Len() int { return 0 }\nfunc (By) Less(i, j int) bool { leaf.L5(); return false }\nfunc (By) Swap(i, j int) {}\n")
	last := &out.Prog[len(out.Prog)-1].Files[0]
	last.Src = strings.Replace(last.Src, "sync_Once", g.syn+".Once", 1)
	g.extern = true
	pkg("example.com/app", "app", rapid.IntRange(1, 4).Draw(t, "napp"), "")
	if d := out.Want["example.com/dep.init"]; d != nil {
		if out.Want["example.com/app.init"] == nil {
			out.Want["example.com/app.init"] = newEffect()
		}
		out.Want["example.com/app.init"].add(d)
	}
	return out
}
