package world

import (
	"fmt"
	"path"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Kinds of functions in static worlds.
const (
	KFunc      = iota // func F() int
	KMethodV          // func (T) M() int
	KMethodP          // func (*T) M() int
	KGeneric          // func G[T any]() int
	KGenMethod        // func (Box[T]) M() int
	KAsm              // func A() int, no body
	KInit             // func init()
)

// Typ is a receiver type of an abstract world.
type Typ struct {
	Pkg     *Pkg
	Name    string
	Generic bool
	Embed   bool // there is also a struct type embedding it
	Alias   bool // there is also an alias for it
}

// Fn is a function of an abstract world.
type Fn struct {
	Pkg    *Pkg
	Name   string
	Kind   int
	Typ    *Typ
	Calls  []*Fn
	Unsafe bool
	Refl   bool
	NoBody bool // a method without body; functions without body are KAsm
	initNo int
}

// Pkg is a package of an abstract world.
type Pkg struct {
	Path, Name string
	Types      []*Typ
	Funcs      []*Fn
	VarInits   []*Fn // called from package-level variable initialisers
	Blank      []*Pkg
	Level      int
	Queried    bool
	Std        bool
}

// Abstract is a world before it is written down as source text.
type Abstract struct {
	Pkgs []*Pkg
	// UtilQueried says that the helper package of dynamic worlds is queried.
	UtilQueried bool
}

// stdFake gives the fake standard library packages that worlds can use.
var stdFake = []struct {
	path  string
	funcs []string
	types map[string][]string // type -> pointer methods
}{
	{"os", []string{"ReadFile", "Getenv", "Setenv", "Remove", "Getpid", "IsExist"}, map[string][]string{"File": {"Read", "Name"}}},
	{"net", []string{"Dial", "ParseIP"}, map[string][]string{"Dialer": {"Dial"}}},
	{"os/exec", []string{"Command"}, map[string][]string{"Cmd": {"Run"}}},
	{"syscall", []string{"Open", "Getpid"}, nil},
	{"runtime", []string{"GC", "Gosched"}, nil},
	{"strings", []string{"Repeat", "ToUpper"}, nil},
	{"plugin", []string{"Open"}, nil},
	{"math", []string{"Cos"}, nil},
	{"text/template", []string{"Must"}, nil},
}

// ReflectPkg is the fake reflect package of generated worlds.
var ReflectPkg = SrcPkg{Path: "reflect", Files: []File{{"value.go", "package reflect\n\ntype Value struct {\n\tp *int\n}\n\nfunc ValueOf(x any) Value { return Value{} }\n\ntype Type interface{ Name() string }\n"}}}

var pkgPaths = []string{"example.com/m/alpha", "example.com/m/beta", "example.com/m", "other.org/lib/v2", "other.org/lib", "nodot/pkg", "gopkg.in/yaml.v3", "example.com/m/internal/x", "example.com/n-dash/alpha", "vendor/golang.org/x/text", "nodot/gen.v3"}

func pkgNameOf(p string) string {
	b := path.Base(p)
	if strings.HasPrefix(b, "v2") {
		b = path.Base(path.Dir(p))
	}
	b = strings.TrimSuffix(b, ".v3")
	return strings.NewReplacer("-", "_", ".", "_").Replace(b)
}

func pct(t *rapid.T, p int, label string) bool {
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-p
}

func pick[T any](t *rapid.T, xs []T, label string) T {
	return xs[Uniform(t, len(xs), label)]
}

// Uniform draws a number below n.  Unlike rapid.IntRange it does not prefer
// small numbers much; it still shrinks to 0.
func Uniform(t *rapid.T, n int, label string) int {
	u := rapid.Uint64().Draw(t, label)
	u ^= u >> 31
	u *= 0xbf58476d1ce4e5b9
	u ^= u >> 29
	u *= 0x94d049bb133111eb
	u ^= u >> 32
	return int(u % uint64(n))
}

// Pct and Pick are small drawing helpers shared by the checks.
func Pct(t *rapid.T, p int, label string) bool { return pct(t, p, label) }
func Pick[T any](t *rapid.T, xs []T, label string) T {
	return pick(t, xs, label)
}

// GenAbstract draws a world in which every call is statically resolved.
func GenAbstract(t *rapid.T) *Abstract { return genAbstract(t, false) }

// genAbstract draws a world; if disk is set, one that can be written out as Go
// modules.
func genAbstract(t *rapid.T, disk bool) *Abstract {
	a := &Abstract{}
	// Leaf packages posing as standard library packages.
	nstd := 0
	if !disk {
		nstd = rapid.IntRange(0, 3).Draw(t, "nstd")
	}
	usedStd := map[int]bool{}
	for i := 0; i < nstd; i++ {
		k := Uniform(t, len(stdFake), "std")
		if usedStd[k] {
			continue
		}
		usedStd[k] = true
		sf := stdFake[k]
		p := &Pkg{Path: sf.path, Name: path.Base(sf.path), Level: len(a.Pkgs), Std: true}
		for _, n := range sf.funcs {
			p.Funcs = append(p.Funcs, &Fn{Pkg: p, Name: n})
		}
		for _, tn := range SortedKeys(sf.types) {
			ty := &Typ{Pkg: p, Name: tn}
			p.Types = append(p.Types, ty)
			for _, m := range sf.types[tn] {
				p.Funcs = append(p.Funcs, &Fn{Pkg: p, Name: m, Kind: KMethodP, Typ: ty})
			}
		}
		a.Pkgs = append(a.Pkgs, p)
	}
	napp := rapid.IntRange(1, 4).Draw(t, "napp")
	paths := append([]string(nil), pkgPaths...)
	if disk {
		paths = append([]string(nil), diskPaths...)
	}
	for i := 0; i < napp; i++ {
		k := Uniform(t, len(paths), "path")
		p := &Pkg{Path: paths[k], Name: pkgNameOf(paths[k]), Level: len(a.Pkgs)}
		paths = append(paths[:k:k], paths[k+1:]...)
		nt := rapid.IntRange(0, 2).Draw(t, "ntypes")
		for j := 0; j < nt; j++ {
			name := []string{"T0", "T1"}[j]
			switch rapid.IntRange(0, 3).Draw(t, "tkind") {
			case 1:
				name = strings.ToLower(name)
			case 2:
				name = "Box" + name
				p.Types = append(p.Types, &Typ{Pkg: p, Name: name, Generic: true})
				continue
			}
			p.Types = append(p.Types, &Typ{Pkg: p, Name: name, Embed: pct(t, 30, "embed"), Alias: pct(t, 40, "alias")})
		}
		nf := rapid.IntRange(1, 6).Draw(t, "nfuncs")
		ninit := 0
		for j := 0; j < nf; j++ {
			f := &Fn{Pkg: p}
			kind := rapid.IntRange(0, 11).Draw(t, "kind")
			switch {
			case kind <= 3:
				f.Name = fmt.Sprintf("F%d", j)
				if pct(t, 25, "lower") {
					f.Name = fmt.Sprintf("f%d", j)
				}
			case kind <= 6 && len(p.Types) > 0:
				f.Typ = pick(t, p.Types, "recv")
				f.Name = fmt.Sprintf("M%d", j)
				f.Kind = KMethodV
				if f.Typ.Generic {
					f.Kind = KGenMethod
				} else if pct(t, 50, "ptr") {
					f.Kind = KMethodP
				}
				f.NoBody = !f.Typ.Generic && pct(t, 6, "nobody")
			case kind == 7 || kind == 8:
				f.Kind, f.Name = KGeneric, fmt.Sprintf("G%d", j)
			case kind == 9:
				f.Kind, f.Name = KAsm, fmt.Sprintf("A%d", j)
			case kind == 10:
				ninit++
				f.Kind, f.Name, f.initNo = KInit, "init", ninit
			case pct(t, 40, "cgo"):
				f.Name = fmt.Sprintf("c%d%s", j, pick(t, []string{"_Cfunc_CString", "_cgo_runtime_cgocall", "_Cfunc_GoString", "_Cfunc_foo", "_Cgo_use", "_cgoCheckPointer", "_Cfunc_CStrings"}, "cgoname"))
			default:
				f.Name = fmt.Sprintf("F%d", j)
			}
			if !f.Bodyless() {
				f.Unsafe = pct(t, 8, "unsafe")
				f.Refl = !disk && pct(t, 6, "reflect")
			}
			p.Funcs = append(p.Funcs, f)
		}
		a.Pkgs = append(a.Pkgs, p)
	}
	// Calls.
	for _, p := range a.Pkgs {
		var visible []*Fn
		for _, q := range a.Pkgs[:p.Level+1] {
			for _, f := range q.Funcs {
				if f.Kind == KInit {
					continue
				}
				if q != p && !exportedFn(f) {
					continue
				}
				visible = append(visible, f)
			}
		}
		if p.Std {
			// Standard library functions call each other only rarely.
			for _, f := range p.Funcs {
				if pct(t, 10, "stdcall") {
					f.Calls = append(f.Calls, pick(t, visible, "callee"))
				}
			}
			continue
		}
		if len(visible) == 0 {
			continue
		}
		for _, f := range p.Funcs {
			if f.Bodyless() {
				continue
			}
			n := rapid.IntRange(0, 3).Draw(t, "ncalls")
			for i := 0; i < n; i++ {
				f.Calls = append(f.Calls, pick(t, visible, "callee"))
			}
		}
		if pct(t, 15, "varinit") {
			p.VarInits = append(p.VarInits, pick(t, visible, "varcallee"))
		}
		if p.Level > 0 && pct(t, 10, "blank") {
			p.Blank = append(p.Blank, pick(t, a.Pkgs[:p.Level], "blankpkg"))
		}
	}
	if Uniform(t, 40, "long") == 39 {
		genLong(t, a)
	}
	// Queried packages: at least one of the application packages.
	any := false
	for _, p := range a.Pkgs {
		if p.Std {
			p.Queried = pct(t, 5, "qstd")
		} else {
			p.Queried = pct(t, 60, "q")
			any = any || p.Queried
		}
	}
	if !any {
		a.Pkgs[len(a.Pkgs)-1].Queried = true
	}
	return a
}

// genLong adds many functions: a long chain of calls, or a function that calls,
// or is called by, all the others.
func genLong(t *rapid.T, a *Abstract) {
	var pkgs []*Pkg // callers first
	var old []*Fn
	for i := len(a.Pkgs) - 1; i >= 0; i-- {
		if p := a.Pkgs[i]; !p.Std {
			pkgs = append(pkgs, p)
			for _, f := range p.Funcs {
				if p == pkgs[0] && !f.Bodyless() {
					old = append(old, f)
				}
			}
		}
	}
	n := 10 + Uniform(t, 120, "longlen")
	if Uniform(t, 10, "longer") == 9 {
		n *= 4
	}
	fns := make([]*Fn, n)
	for i := range fns {
		p := pkgs[i*len(pkgs)/n]
		fns[i] = &Fn{Pkg: p, Name: fmt.Sprintf("Lng%d", i)}
		p.Funcs = append(p.Funcs, fns[i])
	}
	switch Uniform(t, 4, "shape") {
	case 0:
		for _, f := range fns[1:] {
			fns[0].Calls = append(fns[0].Calls, f)
		}
	case 1:
		for _, f := range fns[:n-1] {
			f.Calls = append(f.Calls, fns[n-1])
		}
	default:
		for i, f := range fns[:n-1] {
			f.Calls = append(f.Calls, fns[i+1])
		}
	}
	if len(old) > 0 && pct(t, 50, "longcaller") {
		f := pick(t, old, "longcallerfn")
		f.Calls = append(f.Calls, fns[0])
	}
	// The last one calls something that was there before.
	last := fns[n-1]
	var visible []*Fn
	for _, q := range a.Pkgs[:last.Pkg.Level+1] {
		for _, f := range q.Funcs {
			if f.Kind != KInit && (q == last.Pkg || exportedFn(f)) && !strings.HasPrefix(f.Name, "Lng") {
				visible = append(visible, f)
			}
		}
	}
	for i := 0; i < 2 && len(visible) > 0; i++ {
		last.Calls = append(last.Calls, pick(t, visible, "longcallee"))
	}
}

// Bodyless says that f is declared without a body.
func (f *Fn) Bodyless() bool { return f.Kind == KAsm || f.NoBody }

func exportedFn(f *Fn) bool {
	up := func(s string) bool { return s[0] >= 'A' && s[0] <= 'Z' }
	if f.Typ != nil && !up(f.Typ.Name) {
		return false
	}
	return up(f.Name)
}

// SSAName is the name of f in reports.
func (f *Fn) SSAName() string {
	switch f.Kind {
	case KMethodV:
		return fmt.Sprintf("(%s.%s).%s", f.Pkg.Path, f.Typ.Name, f.Name)
	case KMethodP:
		return fmt.Sprintf("(*%s.%s).%s", f.Pkg.Path, f.Typ.Name, f.Name)
	case KGenMethod:
		return fmt.Sprintf("(%s.%s[T]).%s", f.Pkg.Path, f.Typ.Name, f.Name)
	case KInit:
		return fmt.Sprintf("%s.init#%d", f.Pkg.Path, f.initNo)
	}
	return f.Pkg.Path + "." + f.Name
}

// QueriedSet returns the paths of the queried packages.
func (a *Abstract) QueriedSet() map[string]bool {
	out := map[string]bool{}
	for _, p := range a.Pkgs {
		if p.Queried {
			out[p.Path] = true
		}
	}
	if a.UtilQueried {
		out[UtilPath] = true
	}
	return out
}

// Style limits how a world is written down.
type Style struct {
	// Fancy allows closures, branches, several files, aliases and so on.
	Fancy bool
	// Shuffle allows reordering of declarations.
	Shuffle bool
	// NoDead forbids closures that are never called.
	NoDead bool
	// NoClosures forbids all closures.
	NoClosures bool
	// Dynamic allows calls through values.  The model then contains only
	// calls that certainly happen: it is a lower bound.
	Dynamic bool
	// Ops adds operations on unsafe.Pointer and reflect.Value.
	Ops bool
}

type pkgWriter struct {
	t       *rapid.T
	st      Style
	p       *Pkg
	m       *Model
	imports map[string]bool // of the declaration being written
	anon    map[string]int
	vars    int
	alias   map[string]string // import aliases

	// For dynamic worlds.
	dynNo, inits, depth int
	extra               []string
	extraInit           []decl
}

type decl struct {
	src     string
	imports map[string]bool
	initFn  bool
}

// Render writes the world down as source text and derives the exact reference
// call graph of that text.
func (a *Abstract) Render(t *rapid.T, st Style) (Program, *Model) {
	m := NewModel()
	var prog Program
	usesReflect := false
	for _, p := range a.Pkgs {
		for _, f := range p.Funcs {
			usesReflect = usesReflect || f.Refl
		}
	}
	if usesReflect || st.Ops {
		prog = append(prog, ReflectPkg)
		m.Node("reflect.init", "reflect")
		m.Node("reflect.ValueOf", "reflect")
	}
	if st.Ops {
		prog = append(prog, tyProgram()...)
		m.Node(TyPath+".init", TyPath)
		m.Node(LookPath+".init", LookPath)
		m.Edge(TyPath+".init", "reflect.init")
	}
	if st.Dynamic {
		m.Node(UtilPath+".init", UtilPath)
		prog = append(prog, SrcPkg{Path: UtilPath, Files: []File{{"util.go", utilSrc}}, Queried: a.UtilQueried, Fixed: "utilSrc in harness/world/dyn.go"})
	}
	for _, p := range a.Pkgs {
		prog = append(prog, renderPkg(t, st, p, m))
	}
	m.Finish()
	m.Prune(a.QueriedSet())
	return prog, m
}

func renderPkg(t *rapid.T, st Style, p *Pkg, m *Model) SrcPkg {
	w := &pkgWriter{t: t, st: st, p: p, m: m, anon: map[string]int{}, alias: map[string]string{}}
	initName := p.Path + ".init"
	m.Node(initName, p.Path)
	var decls, late []decl
	add := func(src string, isInit bool) {
		decls = append(decls, decl{src, w.imports, isInit})
		w.imports = map[string]bool{}
	}
	w.imports = map[string]bool{}
	for _, ty := range p.Types {
		tp := ""
		if ty.Generic {
			tp = "[T any]"
		}
		add(fmt.Sprintf("type %s%s struct{ x int }\n", ty.Name, tp), false)
		if ty.Alias {
			add(fmt.Sprintf("type Al%s = %s\n", ty.Name, ty.Name), false)
		}
		if ty.Embed {
			add(fmt.Sprintf("type Em%s struct {\n\t%s\n\ty int\n}\n", ty.Name, ty.Name), false)
		}
	}
	// Variable initialisers come first: the order of anonymous functions in
	// the package initialiser is the order in the source.
	for _, f := range p.VarInits {
		expr := ""
		if !st.Fancy || st.NoClosures || !pct(t, 30, "varlit") {
			expr = w.callExpr(f, initName)
		} else {
			expr = w.closure(initName, "int", func(me string) string { return "return " + w.callExpr(f, me) }) + "()"
		}
		name := "_"
		if pct(t, 50, "varname") {
			w.vars++
			name = fmt.Sprintf("pv%d", w.vars)
		}
		add(fmt.Sprintf("var %s = %s\n", name, expr), true)
	}
	for st.Ops && !p.Std && pct(t, 25, "varop") {
		add(w.varOp(initName), true)
	}
	for _, f := range p.Funcs {
		if f.Kind == KInit {
			w.inits++
		}
	}
	for _, f := range p.Funcs {
		src := w.fn(f)
		// Imports of the helpers go with the function.
		for _, x := range w.extra {
			src += "\n" + x
		}
		w.extra = nil
		add(src, f.Kind == KInit)
		late = append(late, w.extraInit...)
		w.extraInit = nil
	}
	decls = append(decls, late...)
	for _, q := range p.Blank {
		m.Edge(initName, q.Path+".init")
	}
	// Distribute over files.
	nfiles := 1
	if st.Fancy {
		nfiles = rapid.IntRange(1, 3).Draw(t, "nfiles")
	}
	if st.Shuffle && len(decls) > 1 {
		// Keep the relative order of initialisers.
		perm := rapid.Permutation(seq(len(decls))).Draw(t, "order")
		var inits, rest []decl
		for _, i := range perm {
			if !decls[i].initFn {
				rest = append(rest, decls[i])
			}
		}
		for _, d := range decls {
			if d.initFn {
				inits = append(inits, d)
			}
		}
		k := 0
		if len(rest) > 0 {
			k = rapid.IntRange(0, len(rest)).Draw(t, "initpos")
		}
		decls = append(append(append([]decl(nil), rest[:k]...), inits...), rest[k:]...)
	}
	files := make([][]decl, nfiles)
	if nfiles > 1 {
		for _, d := range decls {
			k := 0
			if !d.initFn {
				k = rapid.IntRange(0, nfiles-1).Draw(t, "file")
			}
			files[k] = append(files[k], d)
		}
	} else {
		files[0] = decls
	}
	sp := SrcPkg{Path: p.Path, Queried: p.Queried}
	for i, ds := range files {
		var b strings.Builder
		if st.Fancy && pct(t, 30, "doc") {
			b.WriteString("// A comment.\n\n/* os.ReadFile(\"x\") unsafe.Pointer */\n")
		}
		fmt.Fprintf(&b, "package %s\n\n", p.Name)
		imps := map[string]bool{}
		for _, d := range ds {
			for q := range d.imports {
				imps[q] = true
			}
		}
		for _, q := range SortedKeys(imps) {
			if q != "unsafe" {
				m.Edge(initName, q+".init")
			}
			fmt.Fprintf(&b, "import %s %q\n", w.aliasOf(q), q)
		}
		if i == 0 {
			seen := map[string]bool{}
			for _, q := range p.Blank {
				if !seen[q.Path] {
					fmt.Fprintf(&b, "import _ %q\n", q.Path)
				}
				seen[q.Path] = true
			}
		}
		for _, d := range ds {
			b.WriteString("\n")
			b.WriteString(d.src)
		}
		sp.Files = append(sp.Files, File{fmt.Sprintf("%c%d.go", 'a'+i, i), b.String()})
	}
	return sp
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// aliasOf returns the local name of an imported package.
func (w *pkgWriter) aliasOf(p string) string {
	if n, ok := w.alias[p]; ok {
		return n
	}
	n := pkgNameOf(p)
	if p == "unsafe" || p == "reflect" {
		n = p
	}
	// Names are made unique, so that packages with equal names can be used
	// together; renamed imports are also a style choice.
	if (w.st.Fancy && pct(w.t, 25, "rename")) || n == "init" {
		n = fmt.Sprintf("q%d", len(w.alias))
	}
	for _, o := range w.alias {
		if o == n {
			n = fmt.Sprintf("r%d", len(w.alias))
		}
	}
	w.alias[p] = n
	return n
}

func (w *pkgWriter) qual(p *Pkg) string {
	if p == w.p {
		return ""
	}
	w.imports[p.Path] = true
	return w.aliasOf(p.Path) + "."
}

// typeArgs are type arguments: as written, and as printed in function names.
var typeArgs = [][2]string{
	{"int", "int"}, {"string", "string"}, {"[]int", "[]int"}, {"map[string]any", "map[string]any"},
	{"struct{ A int `json:\"a,omitempty\"` }", `struct{A int "json:\"a,omitempty\""}`},
	{"struct{ B int `x\\y\\` }", `struct{B int "x\\y\\"}`},
	{"func(a int) (b error)", "func(a int) (b error)"},
}

// callExpr returns a call of f and records the call from the function me.
func (w *pkgWriter) callExpr(f *Fn, me string) string {
	q := w.qual(f.Pkg)
	fancy := w.st.Fancy
	switch f.Kind {
	case KMethodV, KMethodP:
		w.m.Edge(me, f.SSAName())
		ty := q + f.Typ.Name
		if f.Typ.Embed && pct(w.t, 30, "viaembed") {
			ty = q + "Em" + f.Typ.Name
		} else if f.Typ.Alias && fancy && pct(w.t, 30, "viaalias") {
			ty = q + "Al" + f.Typ.Name
		}
		k := rapid.IntRange(0, 2).Draw(w.t, "recvexpr")
		if !fancy {
			k = 1
		}
		if k == 0 && f.Kind == KMethodV {
			// Parenthesised: composite literals are not allowed in the header
			// of an if statement.
			return fmt.Sprintf("(%s{}).%s()", ty, f.Name)
		}
		if k == 2 {
			return fmt.Sprintf("new(%s).%s()", ty, f.Name)
		}
		return fmt.Sprintf("(&%s{}).%s()", ty, f.Name)
	case KGeneric, KGenMethod:
		arg := pick(w.t, typeArgs, "targ")
		inst := w.instance(f, arg[1])
		w.m.Edge(me, inst)
		if f.Kind == KGeneric {
			return fmt.Sprintf("%s%s[%s]()", q, f.Name, arg[0])
		}
		return fmt.Sprintf("(%s%s[%s]{}).%s()", q, f.Typ.Name, arg[0], f.Name)
	}
	w.m.Edge(me, f.SSAName())
	if fancy && pct(w.t, 10, "paren") {
		return fmt.Sprintf("(%s%s)()", q, f.Name)
	}
	return fmt.Sprintf("%s%s()", q, f.Name)
}

// instance returns the node of an instantiation; it has the calls of its
// origin (completed by Model.finishInstances).
func (w *pkgWriter) instance(f *Fn, arg string) string {
	name := fmt.Sprintf("%s.%s[%s]", f.Pkg.Path, f.Name, arg)
	if f.Kind == KGenMethod {
		name = fmt.Sprintf("(%s.%s[%s]).%s[%s]", f.Pkg.Path, f.Typ.Name, arg, f.Name, arg)
	}
	n := w.m.Node(name, f.Pkg.Path)
	n.Class = f.SSAName()
	n.Listed = false
	w.m.instanceOf(name, f.SSAName())
	return name
}

// closure returns a function literal and the node for it.
func (w *pkgWriter) closure(me, result string, body func(me string) string) string {
	w.anon[me]++
	name := fmt.Sprintf("%s$%d", me, w.anon[me])
	n := w.m.Node(name, w.p.Path)
	if w.st.Dynamic {
		// The numbering of closures is not modelled.
		n.Listed, n.Class = false, ""
	}
	src := fmt.Sprintf("func() %s { %s }", result, body(name))
	// The caller decides whether the closure is called.
	w.m.Edge(me, name)
	return src
}

func (w *pkgWriter) v() string {
	w.vars++
	return fmt.Sprintf("v%d", w.vars)
}

// stmt returns a statement that calls f.
func (w *pkgWriter) stmt(f *Fn, me string) string {
	if !w.st.Fancy {
		return w.callExpr(f, me) + "\n"
	}
	call := func(me string) string { return w.callExpr(f, me) }
	if w.st.Dynamic && !w.p.Std && pct(w.t, 70, "dynamic") {
		return w.dyn(f, me)
	}
	k := rapid.IntRange(0, 19).Draw(w.t, "stmt")
	if w.st.NoClosures && (k >= 6 && k <= 9 || k == 14 || k == 17) {
		k = 1
	}
	switch k {
	case 1:
		return "_ = " + call(me) + "\n"
	case 2:
		v := w.v()
		return fmt.Sprintf("%s := %s\n_ = %s\n", v, call(me), v)
	case 3:
		return "if " + call(me) + " == 1 {\n}\n"
	case 4:
		return "go " + call(me) + "\n"
	case 5:
		return "defer " + call(me) + "\n"
	case 6:
		return w.closure(me, "", call) + "()\n"
	case 7:
		return "go " + w.closure(me, "", call) + "()\n"
	case 8:
		return "_ = " + w.closure(me, "int", func(me string) string { return "return " + call(me) }) + "()\n"
	case 9:
		return w.closure(me, "", func(me string) string { return w.closure(me, "", call) + "()" }) + "()\n"
	case 10:
		return "for range 2 {\n" + call(me) + "\n}\n"
	case 11:
		return "switch " + call(me) + " {\ncase 1:\ndefault:\n}\n"
	case 12:
		return "switch {\ncase " + call(me) + " == 1:\n}\n"
	case 13:
		return "select {\ndefault:\n" + call(me) + "\n}\n"
	case 14:
		if w.st.NoDead {
			break
		}
		// A closure that is never called: it has the capability, the enclosing
		// function does not get it.
		src := w.closure(me, "int", func(me string) string { return "return " + call(me) })
		delete(w.m.Edges, [2]string{me, fmt.Sprintf("%s$%d", me, w.anon[me])})
		return "_ = " + src + "\n"
	case 15:
		return "{\n" + call(me) + "\n}\n"
	case 16:
		return "L" + w.v() + ":\nfor {\n" + call(me) + "\nbreak L" + w.lastVar() + "\n}\n"
	case 17:
		return "defer " + w.closure(me, "", call) + "()\n"
	case 18:
		return "if len(\"x\") > 1 {\n} else {\n" + call(me) + "\n}\n"
	}
	return call(me) + "\n"
}

func (w *pkgWriter) lastVar() string { return fmt.Sprintf("v%d", w.vars) }

func (w *pkgWriter) fn(f *Fn) string {
	name := f.SSAName()
	n := w.m.Node(name, w.p.Path)
	head := ""
	recv := ""
	if f.Typ != nil {
		recv = f.Typ.Name
	}
	switch {
	case f.Bodyless():
		n.Extra[ArbExec] = true
		switch f.Kind {
		case KMethodV:
			return fmt.Sprintf("func (r %s) %s() int\n", recv, f.Name)
		case KMethodP:
			return fmt.Sprintf("func (r *%s) %s() int\n", recv, f.Name)
		}
		return fmt.Sprintf("func %s() int\n", f.Name)
	}
	switch f.Kind {
	case KInit:
		head = "func init()"
		w.m.Edge(w.p.Path+".init", name)
	case KMethodV:
		head = fmt.Sprintf("func (r %s) %s() int", recv, f.Name)
	case KMethodP:
		head = fmt.Sprintf("func (r *%s) %s() int", recv, f.Name)
	case KGenMethod:
		head = fmt.Sprintf("func (r %s[T]) %s() int", f.Typ.Name, f.Name)
	case KGeneric:
		head = fmt.Sprintf("func %s[T any]() int", f.Name)
	default:
		head = fmt.Sprintf("func %s() int", f.Name)
	}
	var b strings.Builder
	pre := ""
	if f.Refl {
		w.imports["reflect"] = true
		w.vars++
		pre = fmt.Sprintf("var rv%d %s.Value\n\n", w.vars, w.aliasOf("reflect"))
		fmt.Fprintf(&b, "rv%d = %s.Value{}\n", w.vars, w.aliasOf("reflect"))
		n.Extra[Reflect] = true
	}
	if f.Unsafe {
		w.imports["unsafe"] = true
		v := w.v()
		fmt.Fprintf(&b, "%s := new(int)\n_ = (*uint)(%s.Pointer(%s))\n", v, w.aliasOf("unsafe"), v)
		n.Extra[Unsafe] = true
	}
	for w.st.Ops && !w.p.Std && pct(w.t, 40, "op") {
		b.WriteString(w.op(f, name))
	}
	for _, c := range f.Calls {
		b.WriteString(w.stmt(c, name))
	}
	if f.Kind != KInit {
		b.WriteString("return 0\n")
	}
	body := "\t" + strings.ReplaceAll(strings.TrimRight(b.String(), "\n"), "\n", "\n\t")
	return fmt.Sprintf("%s%s {\n%s\n}\n", pre, head, body)
}

// instances and finishing.

func (m *Model) instanceOf(inst, origin string) {
	if m.inst == nil {
		m.inst = map[string]string{}
	}
	m.inst[inst] = origin
}

// Finish gives instantiations the calls of their origins, including the
// closures in them.
func (m *Model) Finish() {
	var names []string
	for k := range m.inst {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, inst := range names {
		origin := m.inst[inst]
		sub := func(s string) (string, bool) {
			if s == origin {
				return inst, true
			}
			if strings.HasPrefix(s, origin+"$") {
				return inst + s[len(origin):], true
			}
			return s, false
		}
		var nodes []*Node
		for _, n := range m.Nodes {
			nodes = append(nodes, n)
		}
		for _, n := range nodes {
			if s, ok := sub(n.Name); ok {
				x := m.Node(s, n.Pkg)
				x.Listed = false
				x.Class = n.Class
				for e := range n.Extra {
					x.Extra[e] = true
				}
			}
		}
		var es [][2]string
		for e := range m.Edges {
			es = append(es, e)
		}
		for _, e := range es {
			a, ok := sub(e[0])
			if !ok {
				continue
			}
			// An edge to one of the origin's own closures becomes an edge to
			// the instantiation's closure; other callees stay.
			b := e[1]
			if strings.HasPrefix(b, origin+"$") {
				b, _ = sub(b)
			}
			m.Edge(a, b)
		}
	}
}

// Mutate changes some calls and source-level facts of the world.
func (a *Abstract) Mutate(t *rapid.T) {
	for _, p := range a.Pkgs {
		var visible []*Fn
		for _, q := range a.Pkgs[:p.Level+1] {
			for _, f := range q.Funcs {
				if f.Kind != KInit && (q == p || exportedFn(f)) {
					visible = append(visible, f)
				}
			}
		}
		for _, f := range p.Funcs {
			if f.Bodyless() {
				continue
			}
			switch rapid.IntRange(0, 7).Draw(t, "mutate") {
			case 1:
				if len(f.Calls) > 0 {
					i := rapid.IntRange(0, len(f.Calls)-1).Draw(t, "drop")
					f.Calls = append(f.Calls[:i:i], f.Calls[i+1:]...)
				}
			case 2:
				if len(visible) > 0 {
					f.Calls = append(f.Calls, pick(t, visible, "addcall"))
				}
			case 3:
				if !p.Std {
					f.Unsafe = !f.Unsafe
				}
			}
		}
	}
}

// Grow only adds calls.
func (a *Abstract) Grow(t *rapid.T) {
	for _, p := range a.Pkgs {
		var visible []*Fn
		for _, q := range a.Pkgs[:p.Level+1] {
			for _, f := range q.Funcs {
				if f.Kind != KInit && (q == p || exportedFn(f)) {
					visible = append(visible, f)
				}
			}
		}
		for _, f := range p.Funcs {
			if !f.Bodyless() && len(visible) > 0 && pct(t, 25, "grow") {
				i := rapid.IntRange(0, len(f.Calls)).Draw(t, "at")
				f.Calls = append(f.Calls[:i:i], append([]*Fn{pick(t, visible, "addcall")}, f.Calls[i:]...)...)
			}
			if !f.Bodyless() && !p.Std && pct(t, 5, "growunsafe") {
				f.Unsafe = true
			}
		}
	}
}
