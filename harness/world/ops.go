package world

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// TyPath is a package of types and variables for operations on unsafe.Pointer
// and reflect.Value; LookPath is a package that only looks like reflect.
const (
	TyPath   = "example.com/ty"
	LookPath = "example.com/fake/reflect"
)

const tySrc = `package ty

import (
	"reflect"
	"unsafe"
)

type UP unsafe.Pointer
type AUP = unsafe.Pointer
type AAUP = AUP
type AUPN = UP
type PI *int
type API = *int
type UI uintptr
type AUI = uintptr
type RS struct {
	A int
	V reflect.Value
}
type ARS = RS
type NRS RS
type RA [2]reflect.Value
type Nest struct{ In struct{ X [1]RS } }
type Emb struct{ RS }
type Box[T any] struct{ V T }
type AV = reflect.Value
type PtrTo struct{ P *reflect.Value }

var (
	X   int
	I   int
	P   unsafe.Pointer
	AP  AAUP
	U   UP
	AU  AUPN
	PIV PI
	PP  *unsafe.Pointer
	ST  struct{ P unsafe.Pointer }
	SL  []unsafe.Pointer
	MP  map[string]unsafe.Pointer
	CH  chan unsafe.Pointer
	AN  any

	V    reflect.Value
	GV   reflect.Value
	GV2  reflect.Value
	GAV  AV
	GRS  RS
	GARS ARS
	GNRS NRS
	GA   RA
	GN   Nest
	GE   Emb
	GB   Box[reflect.Value]
	GBB  Box[Box[AV]]
	GP   *RS
	GPE  *Emb
	GS   []reflect.Value
	GSS  []RS
	GPV  *reflect.Value
	GPA  *[2]RS
	GM   map[string]reflect.Value
	GC   chan reflect.Value
	GT   reflect.Type
	GPT  PtrTo
	GBI  Box[*reflect.Value]
	GAA  [3][2]struct{ A, B RS }
)

func GetP() unsafe.Pointer { return P }
`

const lookSrc = `package reflect

type Value struct{ p *int }

type Pointer *int

var GV, V Value
`

// tyProgram is the source of the packages that operations need.
func tyProgram() Program {
	return Program{
		{Path: TyPath, Files: []File{{"ty.go", tySrc}}, Fixed: "tySrc in harness/world/ops.go"},
		{Path: LookPath, Files: []File{{"look.go", lookSrc}}, Fixed: "lookSrc in harness/world/ops.go"},
	}
}

var (
	tyPkg      = &Pkg{Path: TyPath, Name: "ty"}
	lookPkg    = &Pkg{Path: LookPath, Name: "lookalike"}
	unsafePkg  = &Pkg{Path: "unsafe", Name: "unsafe"}
	reflectPkg = &Pkg{Path: "reflect", Name: "reflect"}
)

// subst replaces %Y, %U, %R, %L by the local names of the packages ty, unsafe,
// reflect and the look-alike.
func (w *pkgWriter) subst(s string) string {
	for _, x := range []struct {
		k string
		p *Pkg
	}{{"%Y.", tyPkg}, {"%U.", unsafePkg}, {"%R.", reflectPkg}, {"%L.", lookPkg}} {
		if strings.Contains(s, x.k) {
			s = strings.ReplaceAll(s, x.k, w.qual(x.p))
		}
	}
	return s
}

var ptrTargets = []string{"*int", "**int", "*[4]byte", "*struct{ a, b int }", "%Y.PI", "%Y.API", "*%Y.UP", "*%U.Pointer", "*func()", "*%Y.Box[int]", "*%Y.RS", "*any", "*map[string]int", "*uintptr"}

var unsafeSources = []string{"%Y.P", "%U.Pointer(&%Y.X)", "%Y.AP", "%Y.U", "%Y.AU", "%Y.AUP(&%Y.I)", "%Y.UP(&%Y.I)", "%U.Add(%Y.P, 1)", "%Y.ST.P", "%Y.SL[0]", "%Y.MP[\"a\"]", "<-%Y.CH", "*%Y.PP", "%Y.AN.(%U.Pointer)", "%U.Pointer(uintptr(0))", "(%Y.P)", "[]%U.Pointer{%Y.P}[0]"}

// harmless expressions.
var harmless = []string{"uintptr(%Y.P)", "%Y.UI(%Y.P)", "%Y.AUI(%Y.U)", "%U.Pointer(&%Y.X)", "%Y.UP(&%Y.I)", "%U.Pointer(uintptr(8))", "%U.Sizeof(%Y.X)", "%U.Slice(&%Y.X, 1)", "%Y.P == nil", "(*int)(%Y.PIV)", "%Y.PI(&%Y.X)", "(*int)(&%Y.X)", "%U.Add(%Y.P, 3)", "uintptr(%U.Pointer(&%Y.X)) + 1", "%Y.UI(3)", "%L.Pointer(&%Y.X)"}

func (w *pkgWriter) unsafeExpr() string {
	t := pick(w.t, ptrTargets, "target")
	s := pick(w.t, unsafeSources, "source")
	if pct(w.t, 20, "parens") {
		t, s = "("+t+")", "("+s+")"
	}
	return w.subst(fmt.Sprintf("(%s)(%s)", t, s))
}

// exprStmt returns statements that evaluate e, in function me.
func (w *pkgWriter) exprStmt(e, me string) string {
	v := w.v()
	lit := func(format string) string {
		if w.st.NoClosures {
			return "_ = " + e + "\n"
		}
		return strings.ReplaceAll(format, "LIT", w.closureTyped(me, "(x any)", "", func(string) string { return "_ = x" }))
	}
	switch rapid.IntRange(0, 15).Draw(w.t, "exprctx") {
	case 1:
		return fmt.Sprintf("%s := %s\n_ = %s\n", v, e, v)
	case 2:
		return fmt.Sprintf("if ([1]any{%s})[0] == nil {\n}\n", e)
	case 3:
		return fmt.Sprintf("switch ([1]any{%s})[0] {\ncase nil:\n}\n", e)
	case 4:
		return fmt.Sprintf("switch {\ncase ([1]any{%s})[0] == nil:\n}\n", e)
	case 5:
		return fmt.Sprintf("%s := []any{1, %s}\n_ = %s\n", v, e, v)
	case 6:
		return fmt.Sprintf("for i := ([1]any{%s})[0]; i == nil; {\n}\n", e)
	case 7:
		return fmt.Sprintf("for ([1]any{%s})[0] == nil {\nbreak\n}\n", e)
	case 8:
		return lit("LIT(" + e + ")\n")
	case 9:
		return lit("go LIT(" + e + ")\n")
	case 10:
		return lit("defer LIT(" + e + ")\n")
	case 11:
		return fmt.Sprintf("var %s = struct{ a any }{%s}\n_ = %s\n", v, e, v)
	case 12:
		return fmt.Sprintf("%s := [2]any{1: %s}\n_ = %s\n", v, e, v)
	case 13:
		return fmt.Sprintf("if len(\"x\") > 1 {\n} else if %s := %s; ([1]any{%s})[0] == nil {\n}\n", v, e, v)
	case 14:
		return fmt.Sprintf("select {\ncase make(chan any) <- %s:\ndefault:\n}\n", e)
	case 15:
		return fmt.Sprintf("%s := map[string]any{\"a\": %s}\n_ = %s[\"a\"]\n", v, e, v)
	}
	return "_ = " + e + "\n"
}

// closureTyped is like closure, with parameters.
func (w *pkgWriter) closureTyped(me, params, result string, body func(me string) string) string {
	w.anon[me]++
	name := fmt.Sprintf("%s$%d", me, w.anon[me])
	w.m.Node(name, w.p.Path)
	src := fmt.Sprintf("func%s %s { %s }", params, result, body(name))
	w.m.Edge(me, name)
	return src
}

// Assignments of values that are or contain a reflect.Value.
var reflStores = []string{
	"%Y.GV = %Y.V", "%Y.GAV = %Y.V", "%Y.GRS = %Y.RS{}", "%Y.GRS.V = %Y.V", "%Y.GARS.V = %Y.V", "%Y.GARS = %Y.GRS", "%Y.GNRS.V = %Y.V", "%Y.GNRS = %Y.NRS(%Y.GRS)",
	"%Y.GA[0] = %Y.V", "%Y.GA[%Y.I] = %Y.V", "%Y.GA = %Y.RA{}", "%Y.GN.In.X[0].V = %Y.V", "%Y.GN.In.X[0] = %Y.GRS", "%Y.GN = %Y.Nest{}",
	"%Y.GE.V = %Y.V", "%Y.GE.RS = %Y.GRS", "%Y.GB.V = %Y.V", "%Y.GBB.V.V = %Y.V", "%Y.GBB.V = %Y.GB", "%Y.GP.V = %Y.V", "*%Y.GP = %Y.GRS", "%Y.GPE.V = %Y.V", "(*%Y.GP).V = %Y.V",
	"%Y.GS[0] = %Y.V", "%Y.GSS[0].V = %Y.V", "%Y.GSS[0] = %Y.GRS", "*%Y.GPV = %Y.V", "%Y.GPA[1].V = %Y.V", "(*%Y.GPA)[1] = %Y.GRS", "*%Y.GPT.P = %Y.V", "%Y.GAA[1][0].B.V = %Y.V", "%Y.GAA[1] = %Y.GAA[0]",
	"%Y.GV, %Y.GV2 = %Y.GV2, %Y.GV", "%Y.GV, _ = %Y.V, 1", "%Y.GV, _ = %Y.GM[\"a\"]", "for _, %Y.GV = range %Y.GS {\n}", "select {\ncase %Y.GV = <-%Y.GC:\ndefault:\n}", "%Y.GV = <-%Y.GC", "%Y.GV, _ = %Y.AN.(%R.Value)",
	"p@ := %Y.GPV\n*p@ = %Y.V", "p@ := &%Y.GRS\np@.V = %Y.V", "p@ := &%Y.GA[1]\n*p@ = %Y.V", "s@ := %Y.GS[1:]\ns@[0] = %Y.V", "if %Y.GV = %Y.V; %Y.X == 1 {\n}", "for %Y.GV = %Y.V; %Y.X == 1; {\n}", "switch %Y.GV = %Y.V; {\n}",
}

// Assignments that are harmless.
var reflHarmless = []string{
	"x@ := %Y.V\n_ = x@", "var x@ %R.Value\nx@ = %Y.V\n_ = x@", "var x@ [2]%R.Value\nx@[0] = %Y.V\nx@[%Y.I] = %Y.V\n_ = x@", "var x@ %Y.RS\nx@.V = %Y.V\n_ = x@", "var x@ %Y.Nest\nx@.In.X[0].V = %Y.V\nx@.In.X[0] = %Y.GRS\n_ = x@", "x@ := %Y.RS{1, %Y.V}\n_ = x@", "_ = %Y.V", "_ = %Y.RS{V: %Y.V}",
	"%Y.GPV = nil", "%Y.GS = nil", "%Y.GS = %Y.GS[1:]", "%Y.GT = nil", "%Y.GP = nil", "%Y.GP, %Y.GPV = nil, nil", "%Y.GM = nil", "%Y.GC = nil", "%Y.GRS.A = 3", "%Y.GN.In.X[0].A = 4", "%Y.GP.A = 4", "%Y.GPT = %Y.PtrTo{}", "%Y.GBI.V = nil",
	"%L.GV = %L.V", "for _, x@ := range %Y.GS {\n_ = x@\n}", "x@, ok@ := %Y.GM[\"a\"]\n_, _ = x@, ok@", "a@, b@ := %Y.V, %Y.GV\na@, b@ = b@, a@\n_, _ = a@, b@",
}

// op returns statements for one operation in function me, and records what
// it makes of me.
func (w *pkgWriter) op(f *Fn, me string) string {
	if !w.st.NoClosures && pct(w.t, 30, "opclosure") {
		// In a closure, which may or may not be called.
		kind := rapid.IntRange(0, 5).Draw(w.t, "opcall")
		src := w.closure(me, "", func(me string) string { return "\n" + w.op(f, me) })
		switch kind {
		case 0:
			return src + "()\n"
		case 1:
			return "go " + src + "()\n"
		case 2:
			return "defer " + src + "()\n"
		case 3:
			return "(" + src + ")()\n"
		case 4:
			return "if len(\"x\") > 1 {\n" + src + "()\n}\n"
		}
		delete(w.m.Edges, [2]string{me, fmt.Sprintf("%s$%d", me, w.anon[me])})
		return "_ = " + src + "\n"
	}
	n := w.m.Nodes[me]
	w.vars++
	id := fmt.Sprint(w.vars)
	stmt := func(s string) string { return w.subst(strings.ReplaceAll(s, "@", id)) + "\n" }
	switch rapid.IntRange(0, 13).Draw(w.t, "op") {
	case 0, 1, 2:
		n.Extra[Unsafe] = true
		w.m.Mechs["unsafe"] = true
		return w.exprStmt(w.unsafeExpr(), me)
	case 3, 4:
		w.m.Mechs["unsafe-harmless"] = true
		return w.exprStmt(w.subst(pick(w.t, harmless, "harmless")), me)
	case 5, 6:
		n.Extra[Reflect] = true
		w.m.Mechs["reflect"] = true
		return stmt(pick(w.t, reflStores, "store"))
	case 7, 8:
		w.m.Mechs["reflect-harmless"] = true
		return stmt(pick(w.t, reflHarmless, "reflharmless"))
	case 9: // a captured variable
		if w.st.NoClosures {
			break
		}
		w.m.Mechs["reflect-captured"] = true
		src := w.closure(me, "", func(me string) string {
			w.m.Nodes[me].Extra[Reflect] = true
			return stmt("\nx" + id + " = %Y.V\n_ = x" + id)
		})
		return stmt("var x@ %R.Value\n_ = x@") + src + "()\n"
	case 10: // conversions of and to type parameters
		h := w.fresh("gu")
		g := &Fn{Pkg: w.p, Name: h, Kind: KGeneric}
		o := w.m.Node(g.SSAName(), w.p.Path)
		k := rapid.IntRange(0, 5).Draw(w.t, "genunsafe")
		body := []string{
			"[P ~%U.Pointer](p P) { _ = (*int)(p) }",
			"[P %U.Pointer](p P) { _ = %Y.PI(p) }",
			"[P %Y.UP | %U.Pointer](p P) { _ = (*[]string)(p) }",
			"[P ~%U.Pointer](p P) { _ = uintptr(p) }",
			"[P interface{ ~%U.Pointer }](p P) { _ = (**P)(p) }",
			"[P interface{ ~%U.Pointer | ~uintptr }](p P) { _ = uintptr(p) }",
		}[k]
		if k != 3 && k != 5 {
			o.Extra[Unsafe] = true
		}
		w.m.Mechs["unsafe-typeparam"] = true
		w.helper("func %s%s", h, w.subst(body))
		if pct(w.t, 50, "callgen") {
			inst := w.instance(g, "unsafe.Pointer")
			w.m.Edge(me, inst)
			return w.subst(h + "(%Y.P)\n")
		}
		return ""
	case 11: // target is a type parameter
		h := w.fresh("gt")
		g := &Fn{Pkg: w.p, Name: h, Kind: KGeneric}
		o := w.m.Node(g.SSAName(), w.p.Path)
		o.Extra[Unsafe] = true
		k := rapid.IntRange(0, 2).Draw(w.t, "gentarget")
		w.helper("func %s%s", h, w.subst([]string{
			"[Q ~*int](q Q) Q { return Q(%Y.P) }",
			"[Q *int](q Q) *Q { return (*Q)(%Y.P) }",
			"[Q any](q Q) *Q { return (*Q)(%Y.U) }",
		}[k]))
		w.m.Mechs["unsafe-totypeparam"] = true
		if pct(w.t, 50, "callgen") {
			inst := w.instance(g, "*int")
			w.m.Edge(me, inst)
			return w.subst("_ = " + h + "(&%Y.X)\n")
		}
		return ""
	case 12: // a store of a type parameter
		h := w.fresh("gs")
		g := &Fn{Pkg: w.p, Name: h, Kind: KGeneric}
		w.m.Node(g.SSAName(), w.p.Path)
		w.helper("func %s[T any](p *T, v T) { *p = v }", h)
		w.m.Mechs["reflect-instance"] = true
		k := rapid.IntRange(0, 4).Draw(w.t, "geninst")
		arg := []string{"reflect.Value", TyPath + ".RS", TyPath + ".RA", "*reflect.Value", "int"}[k]
		call := []string{"(%Y.GPV, %Y.V)", "(%Y.GP, %Y.GRS)", "(&%Y.GA, %Y.RA{})", "(&%Y.GPV, nil)", "(&%Y.X, 1)"}[k]
		inst := w.instance(g, arg)
		if k < 3 {
			w.m.Node(inst, w.p.Path).Extra[Reflect] = true
		}
		w.m.Edge(me, inst)
		return h + w.subst(call) + "\n"
	case 13: // shadowed names
		w.m.Mechs["shadowed"] = true
		return stmt("{\ntype fake struct{ Pointer func(*int) *int }\nunsafe := fake{}\n_ = unsafe.Pointer\nuintptr := 3\n_ = uintptr\n_ = (*int)(&%Y.X)\n}")
	}
	return ""
}

// varOp returns a package-level variable with an operation in its initialiser.
func (w *pkgWriter) varOp(initName string) string {
	n := w.m.Node(initName, w.p.Path)
	w.vars++
	name := fmt.Sprintf("ov%d", w.vars)
	switch rapid.IntRange(0, 5).Draw(w.t, "varop") {
	case 0:
		n.Extra[Unsafe] = true
		return fmt.Sprintf("var %s = %s\n", name, w.unsafeExpr())
	case 1:
		n.Extra[Unsafe] = true
		return fmt.Sprintf("var _ any = %s\n", w.unsafeExpr())
	case 2:
		return fmt.Sprintf("var %s = %s\n", name, w.subst(pick(w.t, harmless, "harmless")))
	case 3:
		n.Extra[Reflect] = true
		return fmt.Sprintf("var %s = %s\n", name, w.subst(pick(w.t, []string{"%Y.V", "%Y.GRS", "%Y.GN", "%Y.GA", "%Y.GAV", "%Y.GE"}, "rv")))
	case 4:
		return fmt.Sprintf("var _ = %s\n", w.subst(pick(w.t, []string{"%Y.V", "%Y.GRS", "%Y.GPV"}, "rv")))
	}
	return fmt.Sprintf("var %s = %s\n", name, w.subst(pick(w.t, []string{"%Y.GPV", "%Y.GS", "%Y.GM", "%Y.GT", "%Y.GP", "%L.V"}, "rv")))
}
