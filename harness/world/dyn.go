package world

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// UtilPath is the package of shared helpers that dynamic worlds can use.
const UtilPath = "example.com/util"

var utilPkg = &Pkg{Path: UtilPath, Name: "util"}

const utilSrc = `package util

func Apply(f func() int) int { return f() }

func ApplyAll(fs ...func() int) (n int) {
	for _, f := range fs {
		n += f()
	}
	return n
}

func Go(f func() int) { go f() }

func Defer(f func() int) { defer f() }

func Compose(f, g func() int) func() int {
	return func() int { return f() + g() }
}

func Map[T, U any](xs []T, f func(T) U) (out []U) {
	for _, x := range xs {
		out = append(out, f(x))
	}
	return out
}

func Call[F ~func() int](f F) int { return f() }

type Doer interface{ Do() int }

func Run(d Doer) int { return d.Do() }

func RunG[D Doer](d D) int { return d.Do() }

func RunAll(ds []Doer) {
	for _, d := range ds {
		d.Do()
	}
}

type Func func() int

func (f Func) Do() int { return f() }

type Box[T any] struct{ V T }

func (b *Box[T]) Get() T  { return b.V }
func (b *Box[T]) Set(v T) { b.V = v }

type Registry struct {
	m    map[string]func() int
	list []Doer
}

func (r *Registry) Add(name string, f func() int) {
	if r.m == nil {
		r.m = map[string]func() int{}
	}
	r.m[name] = f
}

func (r *Registry) Run(name string) int {
	if f, ok := r.m[name]; ok {
		return f()
	}
	return 0
}

func (r *Registry) AddDoer(d Doer) { r.list = append(r.list, d) }

func (r *Registry) RunDoers() {
	for i := range r.list {
		r.list[i].Do()
	}
}

type Base struct{ D Doer }

func (b *Base) Exec() int { return b.D.Do() }

type Wrapper struct{ Doer }

func Seq(f func() int) func(yield func(int) bool) {
	return func(yield func(int) bool) {
		if !yield(f()) {
			return
		}
	}
}

func Count(n int) func(yield func(int) bool) {
	return func(yield func(int) bool) {
		for i := 0; i < n; i++ {
			if !yield(i) {
				return
			}
		}
	}
}

func Ptr(p *func() int) int { return (*p)() }

func Any(x any) int {
	switch x := x.(type) {
	case func() int:
		return x()
	case Doer:
		return x.Do()
	}
	return 0
}

func Identity[T any](x T) T { return x }

func Pair(f func() int) (int, func() int) { return 1, f }

func Named(f func() int) (g func() int) {
	defer func() { g = f }()
	return nil
}

type Tree[T any] struct {
	Left, Right *Tree[T]
	Val         T
}

func (t *Tree[T]) Walk(f func(T)) {
	if t == nil {
		return
	}
	t.Left.Walk(f)
	f(t.Val)
	t.Right.Walk(f)
}
`

// use records that from calls the helper fn of the util package, which calls
// to.  The helper is shared, so each use has a node of its own: a caller does
// not get what other callers pass to the helper.
func (w *pkgWriter) use(fn, from, to string) {
	real := UtilPath + "." + fn
	if strings.HasPrefix(fn, "(") {
		real = fn
	}
	w.dynNo++
	clone := fmt.Sprintf("%s@%s#%d", real, w.p.Path, w.dynNo)
	n := w.m.Node(clone, UtilPath)
	n.Class = real
	n.Listed = false
	w.m.Edge(from, clone)
	w.m.Edge(clone, to)
	if !strings.Contains(real, "[") {
		w.realUse(real, to, from)
	}
}

// realUse records that a helper calls to, because of code in the function owner.
func (w *pkgWriter) realUse(real, to, owner string) {
	w.m.Node(real, UtilPath)
	w.m.Edge(real, to)
	if w.m.owner == nil {
		w.m.owner = map[[2]string][]string{}
	}
	w.m.owner[[2]string{real, to}] = append(w.m.owner[[2]string{real, to}], owner)
}

// Prune removes the calls that helpers make only because of code that the
// queried packages never run.
func (m *Model) Prune(queried map[string]bool) {
	next := map[string][]string{}
	for e := range m.Edges {
		if m.owner[e] == nil {
			next[e[0]] = append(next[e[0]], e[1])
		}
	}
	live := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		if !live[n] {
			live[n] = true
			for _, k := range next[n] {
				visit(k)
			}
		}
	}
	for name, n := range m.Nodes {
		if queried[n.Pkg] && (n.Listed || n.Pkg != UtilPath) {
			visit(name)
		}
	}
	for e, owners := range m.owner {
		keep := false
		for _, o := range owners {
			keep = keep || live[o]
		}
		if !keep {
			delete(m.Edges, e)
		}
	}
}

const utilGen = "[" // marks helpers whose declared function is not on the chain

// node declares an unlisted node, for closures.
func (w *pkgWriter) cnode(me string) string {
	w.dynNo++
	name := fmt.Sprintf("%s$dyn%d", me, w.dynNo)
	n := w.m.Node(name, w.p.Path)
	n.Listed = false
	n.Class = ""
	return name
}

// utilClosure declares a node for a closure returned by a helper.
func (w *pkgWriter) utilClosure(fn string) string {
	w.dynNo++
	n := w.m.Node(fmt.Sprintf("%s.%s$%s%d", UtilPath, fn, w.p.Path, w.dynNo), UtilPath)
	n.Class, n.Listed = "", false
	return n.Name
}

// KnownChanOK is a known finding: see known_findings.txt.
const KnownChanOK = "functions and interface values received with 'v, ok := <-ch' or 'for v := range ch' are not followed to the calls made through v (the call graph builder of golang.org/x/tools v0.32.0 has no flow for this instruction)"

// KnownStructConv is a known finding: see known_findings.txt.
const KnownStructConv = "functions and interface values in a struct field are not followed when the struct, or a pointer to it, is converted to another struct type (the call graph builder of golang.org/x/tools v0.32.0 keeps fields of different types apart)"

// KnownEdge records a certain call that is known to be missed.
func (m *Model) KnownEdge(a, b, finding string) {
	if m.Known == nil {
		m.Known = map[[2]string]string{}
	}
	m.Known[[2]string{a, b}] = finding
}

// fresh returns a new name for a package-level declaration.
func (w *pkgWriter) fresh(prefix string) string {
	w.dynNo++
	return fmt.Sprintf("%s%d", prefix, w.dynNo)
}

// helper declares a function or method of this package and its node.
func (w *pkgWriter) helper(format string, args ...any) {
	w.extra = append(w.extra, fmt.Sprintf(format, args...)+"\n")
}

func (w *pkgWriter) fnode(name string) string {
	full := w.p.Path + "." + name
	w.m.Node(full, w.p.Path)
	return full
}

func (w *pkgWriter) mnode(recv, name string) string {
	full := fmt.Sprintf("(%s.%s).%s", w.p.Path, recv, name)
	if strings.HasPrefix(recv, "*") {
		full = fmt.Sprintf("(*%s.%s).%s", w.p.Path, recv[1:], name)
	}
	w.m.Node(full, w.p.Path)
	return full
}

// onInit adds a package initialiser with the given body.
func (w *pkgWriter) onInit(body func(me string) string) {
	w.inits++
	name := fmt.Sprintf("%s.init#%d", w.p.Path, w.inits)
	w.m.Node(name, w.p.Path)
	w.m.Edge(w.p.Path+".init", name)
	outer, extra := w.imports, w.extra
	w.imports, w.extra = map[string]bool{}, nil
	src := "func init() {\n" + body(name) + "}\n"
	src = strings.Join(append([]string{src}, w.extra...), "\n")
	w.extraInit = append(w.extraInit, decl{src, w.imports, true})
	w.imports, w.extra = outer, extra
}

// funcValue returns an expression of type func() int, and the function that
// runs when it is called.
func (w *pkgWriter) funcValue(f *Fn, me string) (expr, callee string) {
	if pct(w.t, 30, "fvclosure") {
		c := w.cnode(me)
		body := ""
		if pct(w.t, 30, "fvnest") && w.depth < 2 {
			w.depth++
			body = w.dyn(f, c) + "return 0"
			w.depth--
		} else {
			body = "return " + w.callExpr(f, c)
		}
		return "func() int {\n" + body + "\n}", c
	}
	q := w.qual(f.Pkg)
	switch f.Kind {
	case KMethodV, KMethodP:
		ty := q + f.Typ.Name
		if f.Typ.Embed && pct(w.t, 30, "fvembed") {
			ty = q + "Em" + f.Typ.Name
		}
		return fmt.Sprintf("(&%s{}).%s", ty, f.Name), f.SSAName()
	case KGeneric:
		arg := pick(w.t, typeArgs, "targ")
		return fmt.Sprintf("%s%s[%s]", q, f.Name, arg[0]), w.instance(f, arg[1])
	case KGenMethod:
		arg := pick(w.t, typeArgs, "targ")
		return fmt.Sprintf("(%s%s[%s]{}).%s", q, f.Typ.Name, arg[0], f.Name), w.instance(f, arg[1])
	}
	return q + f.Name, f.SSAName()
}

// doer returns an expression of a type with a method Do() int, the type, and
// the function that runs when that is called.
func (w *pkgWriter) doer(f *Fn, me string) (expr, typ, callee string) {
	k := rapid.IntRange(0, 10).Draw(w.t, "doer")
	if k == 10 {
		// A type of another package that has the method by embedding.
		e, _, c := w.doer(f, me)
		q := w.qual(utilPkg)
		return q + "Wrapper{" + e + "}", q + "Wrapper", c
	}
	if k == 5 {
		fv, c := w.funcValue(f, me)
		w.dynNo++
		q := w.qual(utilPkg)
		real := "(" + UtilPath + ".Func).Do"
		clone := fmt.Sprintf("%s@%s#%d", real, w.p.Path, w.dynNo)
		n := w.m.Node(clone, UtilPath)
		n.Class, n.Listed = real, false
		w.m.Edge(clone, c)
		w.realUse(real, c, me)
		return q + "Func(" + fv + ")", q + "Func", clone
	}
	name := w.fresh("dT")
	recv := name
	generic := k >= 6
	if k == 1 || k == 3 || k == 7 {
		recv = "*" + name
	}
	tp := ""
	if generic {
		tp = "[T any]"
		recv += "[T]"
	}
	node := w.mnode(recv, "Do")
	w.depth++
	body := ""
	if w.depth < 2 && pct(w.t, 30, "doernest") {
		body = w.dyn(f, node) + "return 0"
	} else {
		body = "return " + w.callExpr(f, node)
	}
	w.depth--
	w.helper("type %s%s struct{ n int }\n\nfunc (rcv %s) Do() int {\n%s\n}", name, tp, recv, body)
	if generic {
		w.m.Mechs["generic-doer"] = true
		arg := pick(w.t, []string{"int", "string", "[]int"}, "doerarg")
		inst := strings.Replace(node, "[T]", "["+arg+"]", 1) + "[" + arg + "]"
		n := w.m.Node(inst, w.p.Path)
		n.Class, n.Listed = node, false
		w.m.instanceOf(inst, node)
		name += "[" + arg + "]"
		node = inst
	}
	switch k {
	case 7:
		return "&" + name + "{}", "*" + name, node
	case 9:
		// A generic type that uses this one through an interface.
		o := w.fresh("oT")
		outer := w.mnode(o+"[T]", "Do")
		gen := name[:strings.Index(name, "[")]
		w.helper("type %s[T any] struct{ n int }\n\nfunc (rcv %s[T]) Do() int {\nvar d interface{ Do() int } = %s[T]{}\nreturn d.Do()\n}", o, o, gen)
		arg := name[len(gen):]
		n := w.m.Node(strings.Replace(outer, "[T]", arg, 1)+arg, w.p.Path)
		n.Class, n.Listed = outer, false
		w.m.Edge(n.Name, node)
		return o + arg + "{}", o + arg, n.Name
	case 8:
		e := w.fresh("eT")
		w.helper("type %s struct {\n%s\nk int\n}", e, name)
		return e + "{}", e, node
	case 1:
		return "&" + name + "{}", "*" + name, node
	case 2:
		e := w.fresh("eT")
		w.helper("type %s struct {\n%s\nk int\n}", e, name)
		return e + "{}", e, node
	case 3:
		e := w.fresh("eT")
		w.helper("type %s struct {\n*%s\nk int\n}", e, name)
		return e + "{&" + name + "{}, 1}", e, node
	case 4:
		return "&" + name + "{}", "*" + name, node
	}
	return name + "{}", name, node
}

const nDyn = 79

// ForceDyn, if not negative, is the only mechanism used; for debugging.
var ForceDyn = -1

// dyn returns statements that call f in some dynamic way.
func (w *pkgWriter) dyn(f *Fn, me string) string {
	k := rapid.IntRange(0, nDyn-1).Draw(w.t, "dyn")
	if ForceDyn >= 0 {
		k = ForceDyn
	}
	w.m.Mechs[fmt.Sprintf("mechanism-%02d", k)] = true
	fv := func() (string, string) { return w.funcValue(f, me) }
	v := w.v()
	u := func() string { return w.qual(utilPkg) }
	switch k {
	case 0: // local variable
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := %s\n%s()\n", v, e, v)
	case 1: // assigned in a branch
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("var %s func() int\nif len(\"x\") == 1 {\n%s = %s\n}\nif %s != nil {\n%s()\n}\n", v, v, e, v, v)
	case 2: // parameter of a helper
		e, c := fv()
		h := w.fresh("h")
		hn := w.fnode(h)
		w.helper("func %s(f func() int) int { return f() }", h)
		w.m.Edge(me, hn)
		w.m.Edge(hn, c)
		return fmt.Sprintf("%s(%s)\n", h, e)
	case 3: // returned by a helper
		h := w.fresh("mk")
		hn := w.fnode(h)
		e, c := w.funcValue(f, hn)
		w.helper("func %s() func() int { return %s }", h, e)
		w.m.Edge(me, hn)
		w.m.Edge(me, c)
		return fmt.Sprintf("%s()()\n", h)
	case 4: // struct field
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := struct{ f func() int }{%s}\n%s.f()\n", v, e, v)
	case 5: // field set and used in methods
		e, c := fv()
		ty := w.fresh("sT")
		set, run := w.mnode("*"+ty, "set"), w.mnode("*"+ty, "run")
		w.helper("type %s struct{ f func() int }\n\nfunc (s *%s) set(f func() int) { s.f = f }\n\nfunc (s *%s) run() int { return s.f() }", ty, ty, ty)
		w.m.Edge(me, set)
		w.m.Edge(me, run)
		w.m.Edge(run, c)
		return fmt.Sprintf("%s := new(%s)\n%s.set(%s)\n%s.run()\n", v, ty, v, e, v)
	case 6: // map
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := map[string]func() int{\"a\": %s}\n%s[\"a\"]()\n", v, e, v)
	case 7: // range over map
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := map[string]func() int{}\n%s[\"x\"] = %s\nfor _, f := range %s {\nf()\n}\n", v, v, e, v)
	case 8: // slice
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := []func() int{%s}\n%s[0]()\n", v, e, v)
	case 9: // append and range
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("var %s []func() int\n%s = append(%s, %s)\nfor _, f := range %s {\nf()\n}\n", v, v, v, e, v)
	case 10: // array
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := [2]func() int{1: %s}\nfor i := range %s {\n%s[i]()\n}\n", v, e, v, v)
	case 11: // channel
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := make(chan func() int, 1)\n%s <- %s\n(<-%s)()\n", v, v, e, v)
	case 12: // select
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := make(chan func() int, 2)\nselect {\ncase %s <- %s:\ndefault:\n}\nselect {\ncase f, ok := <-%s:\nif ok {\nf()\n}\ndefault:\n}\n", v, v, e, v)
	case 13: // range over channel, receive with ok
		e, c := fv()
		w.m.KnownEdge(me, c, KnownChanOK)
		if pct(w.t, 50, "rangechan") {
			return fmt.Sprintf("%s := make(chan func() int, 2)\n%s <- %s\nclose(%s)\nfor f := range %s {\nf()\n}\n", v, v, e, v, v)
		}
		return fmt.Sprintf("%s := make(chan func() int, 2)\n%s <- %s\nif f, ok := <-%s; ok {\nf()\n}\n", v, v, e, v)
	case 14: // global variable set in an initialiser
		g := w.fresh("gv")
		w.helper("var %s func() int", g)
		w.onInit(func(in string) string {
			e, c := w.funcValue(f, in)
			w.m.Edge(me, c)
			return fmt.Sprintf("%s = %s\n", g, e)
		})
		return fmt.Sprintf("%s()\n", g)
	case 15: // global registry
		g := w.fresh("gr")
		w.helper("var %s = map[string]func() int{}", g)
		w.onInit(func(in string) string {
			e, c := w.funcValue(f, in)
			w.m.Edge(me, c)
			return fmt.Sprintf("%s[\"k\"] = %s\n", g, e)
		})
		return fmt.Sprintf("if f, ok := %s[\"k\"]; ok {\nf()\n}\n", g)
	case 16: // interface value
		e, _, c := w.doer(f, me)
		w.m.Edge(me, c)
		return fmt.Sprintf("var %s interface{ Do() int } = %s\n%s.Do()\n", v, e, v)
	case 17: // interface passed to a helper
		e, _, c := w.doer(f, me)
		w.use("Run", me, c)
		return fmt.Sprintf("%sRun(%s)\n", u(), e)
	case 18: // generic call through a constraint
		e, _, c := w.doer(f, me)
		w.use("RunG"+utilGen+v, me, c)
		w.fixGen("RunG")
		return fmt.Sprintf("%sRunG(%s)\n", u(), e)
	case 19: // interface method value
		e, _, c := w.doer(f, me)
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := %sDoer(%s).Do\n%s()\n", v, u(), e, v)
	case 20: // interface method expression
		e, _, c := w.doer(f, me)
		w.m.Edge(me, c)
		return fmt.Sprintf("%sDoer.Do(%s)\n", u(), e)
	case 21: // embedded interface
		e, _, c := w.doer(f, me)
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := %sWrapper{%s}\n%s.Do()\n", v, u(), e, v)
	case 22: // type assertion from any
		e, _, c := w.doer(f, me)
		w.m.Edge(me, c)
		return fmt.Sprintf("var %s any = %s\nif d, ok := %s.(interface{ Do() int }); ok {\nd.Do()\n}\n", v, e, v)
	case 23: // func in any
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := any(%s)\n%s.(func() int)()\n", v, e, v)
	case 24: // type switch in a helper
		e, c := fv()
		w.use("Any", me, c)
		return fmt.Sprintf("%sAny(%s)\n", u(), e)
	case 25:
		e, _, c := w.doer(f, me)
		w.use("Any", me, c)
		return fmt.Sprintf("%sAny(%s)\n", u(), e)
	case 26: // base struct with callback interface
		e, _, c := w.doer(f, me)
		ty := w.fresh("bT")
		w.helper("type %s struct{ %sBase }", ty, u())
		w.use("(*"+UtilPath+".Base).Exec", me, c)
		return fmt.Sprintf("%s := &%s{%sBase{%s}}\n%s.Exec()\n", v, ty, u(), e, v)
	case 27: // captured by a closure
		e, c := fv()
		cl := w.cnode(me)
		w.m.Edge(me, cl)
		w.m.Edge(cl, c)
		return fmt.Sprintf("%s := %s\nfunc() {\n%s()\n}()\n", v, e, v)
	case 28: // captured two levels deep, assigned later
		e, c := fv()
		cl := w.cnode(me)
		cl2 := w.cnode(me)
		w.m.Edge(me, cl)
		w.m.Edge(cl, cl2)
		w.m.Edge(cl2, c)
		return fmt.Sprintf("var %s func() int\ng%s := func() {\nh := func() int { return %s() }\nh()\n}\n%s = %s\ng%s()\n", v, v, v, v, e, v)
	case 29: // go and defer
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := %s\n%s %s()\n", v, e, pick(w.t, []string{"go", "defer"}, "godefer"), v)
	case 30: // helper in a goroutine
		e, c := fv()
		h := pick(w.t, []string{"Apply", "Go", "Defer"}, "gohelper")
		w.use(h, me, c)
		return fmt.Sprintf("%s%s%s(%s)\n", pick(w.t, []string{"go ", "defer ", ""}, "godefer"), u(), h, e)
	case 31: // panic and recover
		e, c := fv()
		cl, cl2 := w.cnode(me), w.cnode(me)
		w.m.Edge(me, cl)
		w.m.Edge(cl, cl2)
		w.m.Edge(cl2, c)
		return fmt.Sprintf("func() {\ndefer func() {\nif f, ok := recover().(func() int); ok {\nf()\n}\n}()\npanic(%s)\n}()\n", e)
	case 32: // range over function: the iterator calls
		e, c := fv()
		it := w.utilClosure("Seq")
		w.m.Edge(me, it)
		w.m.Edge(it, c)
		return fmt.Sprintf("for range %sSeq(%s) {\nbreak\n}\n", u(), e)
	case 33: // range over function: the body calls
		it, cl := w.utilClosure("Count"), w.cnode(me)
		w.m.Edge(me, it)
		w.m.Edge(it, cl)
		return fmt.Sprintf("for %s := range %sCount(3) {\nif %s > 1 {\nbreak\n}\n%s\n}\n", v, u(), v, w.callExpr(f, cl))
	case 34: // pointer to function
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := %s\np%s := &%s\n(*p%s)()\n", v, e, v, v, v)
	case 35: // pointer passed to a helper
		e, c := fv()
		w.use("Ptr", me, c)
		return fmt.Sprintf("%s := func() int(%s)\n%sPtr(&%s)\n", v, e, u(), v)
	case 36: // set through a pointer parameter
		h := w.fresh("set")
		hn := w.fnode(h)
		e, c := w.funcValue(f, hn)
		w.helper("func %s(p *func() int) { *p = %s }", h, e)
		w.m.Edge(me, hn)
		w.m.Edge(me, c)
		return fmt.Sprintf("var %s func() int\n%s(&%s)\n%s()\n", v, h, v, v)
	case 37: // named function type
		e, c := fv()
		ty := w.fresh("fT")
		w.helper("type %s func() int", ty)
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := %s(%s)\n%s()\n", v, ty, e, v)
	case 38: // two results
		e, c := fv()
		w.m.Edge(me, UtilPath+".Pair")
		w.m.Node(UtilPath+".Pair", UtilPath)
		w.through("Pair", me, c)
		return fmt.Sprintf("_, %s := %sPair(%s)\n%s()\n", v, u(), e, v)
	case 39: // result changed by a deferred closure
		e, c := fv()
		w.through("Named", me, c)
		return fmt.Sprintf("%sNamed(%s)()\n", u(), e)
	case 40: // generic identity
		e, c := fv()
		w.through("Identity", me, c)
		return fmt.Sprintf("%sIdentity(%s)()\n", u(), e)
	case 41: // generic container
		e, c := fv()
		w.through("Box", me, c)
		return fmt.Sprintf("var %s %sBox[func() int]\n%s.Set(%s)\n%s.Get()()\n", v, u(), v, e, v)
	case 42: // generic higher-order function
		cl := w.cnode(me)
		w.use("Map"+utilGen+v, me, cl)
		w.fixGen("Map")
		return fmt.Sprintf("%sMap([]string{\"a\"}, func(s string) int {\nreturn %s\n})\n", u(), w.callExpr(f, cl))
	case 43: // core-type generic
		e, c := fv()
		w.use("Call"+utilGen+v, me, c)
		w.fixGen("Call")
		return fmt.Sprintf("%sCall(%s)\n", u(), e)
	case 44: // variadic
		e, c := fv()
		w.use("ApplyAll", me, c)
		return fmt.Sprintf("%sApplyAll(nil, %s)\n", u(), e)
	case 45:
		e, c := fv()
		w.use("ApplyAll", me, c)
		return fmt.Sprintf("%s := []func() int{%s}\n%sApplyAll(%s...)\n", v, e, u(), v)
	case 46: // composition
		e, c := fv()
		cl := w.utilClosure("Compose")
		w.m.Edge(me, cl)
		w.m.Edge(cl, c)
		return fmt.Sprintf("%sCompose(func() int { return 1 }, %s)()\n", u(), e)
	case 47: // registry object
		e, c := fv()
		w.through("(*"+UtilPath+".Registry).Add", me, "")
		w.use("(*"+UtilPath+".Registry).Run", me, c)
		return fmt.Sprintf("var %s %sRegistry\n%s.Add(\"k\", %s)\n%s.Run(\"k\")\n", v, u(), v, e, v)
	case 48:
		e, _, c := w.doer(f, me)
		w.through("(*"+UtilPath+".Registry).AddDoer", me, "")
		w.use("(*"+UtilPath+".Registry).RunDoers", me, c)
		return fmt.Sprintf("%s := &%sRegistry{}\n%s.AddDoer(%s)\n%s.RunDoers()\n", v, u(), v, e, v)
	case 49: // slice of interfaces
		e, _, c := w.doer(f, me)
		w.use("RunAll", me, c)
		return fmt.Sprintf("%sRunAll([]%sDoer{%s})\n", u(), u(), e)
	case 50: // generic tree walk
		cl := w.cnode(me)
		w.use("Walk"+utilGen+v, me, cl)
		w.fixGen("Walk")
		return fmt.Sprintf("(&%sTree[string]{Val: \"x\"}).Walk(func(string) {\n%s\n})\n", u(), w.callExpr(f, cl))
	case 51: // copy of a slice
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := make([]func() int, 1)\ncopy(%s, []func() int{%s})\n%s[0]()\n", v, v, e, v)
	case 52: // slice to array conversion
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := [1]func() int([]func() int{%s})\n%s[0]()\n", v, e, v)
	case 53: // struct copied, nested, in a map
		e, c := fv()
		ty := w.fresh("nT")
		w.helper("type %s struct {\nin struct{ f func() int }\n}", ty)
		w.m.Edge(me, c)
		return fmt.Sprintf("var %s %s\n%s.in.f = %s\nm%s := map[int]%s{1: %s}\nc%s := m%s[1]\nc%s.in.f()\n", v, ty, v, e, v, ty, v, v, v, v)
	case 54: // recursive closure
		cl := w.cnode(me)
		w.m.Edge(me, cl)
		return fmt.Sprintf("var %s func(n int)\n%s = func(n int) {\nif n > 0 {\n%s(n - 1)\nreturn\n}\n%s\n}\n%s(3)\n", v, v, v, w.callExpr(f, cl), v)
	case 55: // interface embedded in interface, returned from a helper
		h := w.fresh("mk")
		hn := w.fnode(h)
		e, _, c := w.doer(f, hn)
		w.m.Edge(me, hn)
		w.m.Edge(me, c)
		w.helper("type i%s interface{ %sDoer }\n\nfunc %s() i%s { return %s }", h, u(), h, h, e)
		return fmt.Sprintf("%s().Do()\n", h)
	case 56: // method expressions of concrete types
		if f.Kind == KMethodV || f.Kind == KMethodP {
			q := w.qual(f.Pkg)
			w.m.Edge(me, f.SSAName())
			return fmt.Sprintf("%s := (*%s%s).%s\n%s(&%s%s{})\n", v, q, f.Typ.Name, f.Name, v, q, f.Typ.Name)
		}
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("(%s)()\n", "func() func() int { return "+e+" }()")
	case 57: // function with a receiver-less struct of interfaces by value
		e, ty, c := w.doer(f, me)
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := func(d %s) interface{ Do() int } { return d }(%s)\n%s.Do()\n", v, ty, e, v)
	case 58: // goroutine communicating over a channel
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := make(chan func() int)\ngo func() { %s <- %s }()\nf%s := <-%s\nf%s()\n", v, v, e, v, v, v)
	case 59: // map of interfaces keyed by interface
		e, _, c := w.doer(f, me)
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := map[string][]interface{ Do() int }{}\n%s[\"a\"] = append(%s[\"a\"], %s)\nfor _, l := range %s {\nfor _, d := range l {\nd.Do()\n}\n}\n", v, v, v, e, v)
	case 60: // function returned in a struct by a method, called after a chain
		e, c := fv()
		ty := w.fresh("bld")
		a, b := w.mnode("*"+ty, "with"), w.mnode("*"+ty, "build")
		w.helper("type %s struct{ fs []func() int }\n\nfunc (b *%s) with(f func() int) *%s {\nb.fs = append(b.fs, f)\nreturn b\n}\n\nfunc (b *%s) build() func() int { return b.fs[0] }", ty, ty, ty, ty)
		w.m.Edge(me, a)
		w.m.Edge(me, b)
		w.m.Edge(me, c)
		return fmt.Sprintf("new(%s).with(%s).build()()\n", ty, e)
	case 61: // switch with assignments in all branches
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := func() int { return 0 }\nswitch len(\"abc\") {\ncase 1:\n%s = nil\ncase 3:\n%s = %s\n}\n%s()\n", v, v, v, e, v)
	case 62: // conversion between struct types
		e, c := fv()
		a, b := w.fresh("cA"), w.fresh("cB")
		w.helper("type %s struct{ f func() int }\n\ntype %s struct{ f func() int }", a, b)
		w.m.KnownEdge(me, c, KnownStructConv)
		if pct(w.t, 40, "ptrconv") {
			return fmt.Sprintf("%s := &%s{%s}\n(*%s)(%s).f()\n", v, a, e, b, v)
		}
		return fmt.Sprintf("%s := %s{%s}\n%s(%s).f()\n", v, a, e, b, v)
	case 63: // struct sent over a channel
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := make(chan struct{ f func() int }, 1)\n%s <- struct{ f func() int }{%s}\n(<-%s).f()\n", v, v, e, v)
	case 64: // pointer to pointer
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := new(func() int)\np%s := &%s\n*%s = %s\n(**p%s)()\n", v, v, v, v, e, v)
	case 65: // generic map type with an iterator method
		e, _, c := w.doer(f, me)
		ty := w.fresh("gM")
		set := w.mnode("*"+ty+"[K, V]", "set")
		w.helper("type %s[K comparable, V any] struct{ m map[K]V }\n\nfunc (g *%s[K, V]) set(k K, v V) {\nif g.m == nil {\ng.m = map[K]V{}\n}\ng.m[k] = v\n}\n\nfunc (g *%s[K, V]) all() func(yield func(K, V) bool) {\nreturn func(yield func(K, V) bool) {\nfor k, v := range g.m {\nif !yield(k, v) {\nreturn\n}\n}\n}\n}", ty, ty, ty)
		body := w.cnode(me)
		w.via(me, set, "")
		w.m.Edge(me, body)
		w.m.Edge(body, c)
		return fmt.Sprintf("var %s %s[string, interface{ Do() int }]\n%s.set(\"a\", %s)\nfor _, d := range %s.all() {\nd.Do()\n}\n", v, ty, v, e, v)
	case 66: // constraint on the elements of a slice
		e, t, c := w.doer(f, me)
		h := w.fresh("gr")
		w.via(me, w.fnode(h), c)
		w.helper("func %s[S ~[]E, E interface{ Do() int }](s S) {\nfor _, e := range s {\ne.Do()\n}\n}", h)
		return fmt.Sprintf("%s([]%s{%s})\n", h, t, e)
	case 67: // local type embedding the implementation
		e, t, c := w.doer(f, me)
		if strings.Contains(t, ".") || strings.HasPrefix(t, "*") {
			w.m.Edge(me, c)
			return fmt.Sprintf("%s := interface{ Do() int }(%s)\n%s.Do()\n", v, e, v)
		}
		w.m.Edge(me, c)
		return fmt.Sprintf("type L%s struct{ %s }\nvar %s interface{ Do() int } = L%s{%s}\n%s.Do()\n", v, t, v, v, e, v)
	case 68: // linked list
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("type node%s struct {\nnext *node%s\nf func() int\n}\nfor %s := (&node%s{next: &node%s{f: %s}}); %s != nil; %s = %s.next {\nif %s.f != nil {\n%s.f()\n}\n}\n", v, v, v, v, v, e, v, v, v, v, v)
	case 69: // nested containers
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := map[string]map[string][]func() int{}\n%s[\"a\"] = map[string][]func() int{\"b\": {%s}}\n%s[\"a\"][\"b\"][0]()\n", v, v, e, v)
	case 70: // map keys
		e, _, c := w.doer(f, me)
		w.m.Edge(me, c)
		if strings.Contains(e, "Func(") {
			return fmt.Sprintf("%s := interface{ Do() int }(%s)\n%s.Do()\n", v, e, v)
		}
		return fmt.Sprintf("%s := map[interface{ Do() int }]int{%s: 1}\nfor d := range %s {\nd.Do()\n}\n", v, e, v)
	case 71: // containers in any
		e, c := fv()
		w.m.Edge(me, c)
		switch rapid.IntRange(0, 2).Draw(w.t, "anyc") {
		case 1:
			return fmt.Sprintf("var %s any = []func() int{%s}\nfor _, f := range %s.([]func() int) {\nf()\n}\n", v, e, v)
		case 2:
			return fmt.Sprintf("var %s any = &struct{ f func() int }{%s}\n%s.(*struct{ f func() int }).f()\n", v, e, v)
		}
		return fmt.Sprintf("var %s any = map[string]func() int{\"a\": %s}\n%s.(map[string]func() int)[\"a\"]()\n", v, e, v)
	case 72: // channel of channels
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := make(chan chan func() int, 1)\nc%s := make(chan func() int, 1)\nc%s <- %s\n%s <- c%s\n(<-<-%s)()\n", v, v, v, e, v, v, v)
	case 73: // parallel assignment
		e, c := fv()
		w.m.Edge(me, c)
		return fmt.Sprintf("%s, w%s := %s, func() int { return 1 }\n%s, w%s = w%s, %s\nw%s()\n", v, v, e, v, v, v, v, v)
	case 74: // interface to interface assertion
		e, _, c := w.doer(f, me)
		w.m.Edge(me, c)
		return fmt.Sprintf("var %s interface{ Do() int } = %s\nif d, ok := any(%s).(interface{ Do() int }); ok {\nd.Do()\n}\n", v, e, v)
	case 75: // type parameter instantiated with an interface
		e, _, c := w.doer(f, me)
		h := w.fresh("gr")
		w.via(me, w.fnode(h), c)
		w.helper("func %s[X interface{ Do() int }](x X) int { return x.Do() }", h)
		return fmt.Sprintf("%s[interface{ Do() int }](%s)\n", h, e)
	case 76: // closures returning closures
		e, c := fv()
		a := w.cnode(me)
		w.m.Edge(me, a)
		w.m.Edge(a, c)
		return fmt.Sprintf("var %s func(int) func() int\nf%s := %s\n%s = func(i int) func() int {\nif i == 0 {\nreturn func() int { return f%s() }\n}\nreturn %s(i - 1)\n}\n%s(3)()\n", v, v, e, v, v, v, v)
	case 77: // select with send and receive
		e, _, c := w.doer(f, me)
		w.m.Edge(me, c)
		return fmt.Sprintf("%s := make(chan interface{ Do() int }, 1)\nselect {\ncase %s <- %s:\n}\nselect {\ncase d, ok := <-%s:\nif ok {\nd.Do()\n}\ndefault:\n}\n", v, v, e, v)
	case 78: // method of an embedded generic type through an interface with several methods
		e, c := fv()
		ty := w.fresh("gE")
		w.via(me, w.mnode("*"+ty+"[T]", "Do"), c)
		w.helper("type %s[T any] struct{ f func() T }\n\nfunc (g *%s[T]) Do() T { return g.f() }\n\nfunc (g *%s[T]) Other() {}\n\ntype m%s struct {\n*%s[int]\nx int\n}", ty, ty, ty, ty, ty)
		return fmt.Sprintf("var %s interface {\nOther()\nDo() int\n} = m%s{&%s[int]{%s}, 1}\n%s.Other()\n%s.Do()\n", v, ty, ty, e, v, v)
	}
	panic("unknown mechanism")
}

// through records a chain from -> to whose value was passed through the helper
// fn, so that the helper is called but does not call to itself.
func (w *pkgWriter) through(fn, from, to string) {
	if to != "" {
		w.m.Edge(from, to)
	}
}

// via records the chain from -> instance of the generic function -> to.
func (w *pkgWriter) via(from, generic, to string) {
	w.dynNo++
	n := w.m.Node(fmt.Sprintf("%s#inst%d", generic, w.dynNo), w.p.Path)
	n.Class, n.Listed = generic, false
	w.m.Edge(from, n.Name)
	if to != "" {
		w.m.Edge(n.Name, to)
	}
}

// fixGen gives the nodes of uses of a generic helper the name of the helper.
func (w *pkgWriter) fixGen(fn string) {
	prefix := UtilPath + "." + fn + utilGen
	for name, n := range w.m.Nodes {
		if strings.HasPrefix(name, prefix) {
			n.Class = UtilPath + "." + fn
			if fn == "Walk" {
				n.Class = "(*" + UtilPath + ".Tree[T]).Walk"
			}
		}
	}
}
