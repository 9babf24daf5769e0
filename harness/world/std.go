package world

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"pgregory.net/rapid"
)

// LoadStd loads packages and what they import from source, with the go
// command.
func LoadStd(mode packages.LoadMode, env []string, patterns ...string) (*Loaded, error) {
	return LoadIn(os.TempDir(), mode, env, patterns...)
}

// LoadIn is LoadStd with a working directory.
func LoadIn(dir string, mode packages.LoadMode, env []string, patterns ...string) (*Loaded, error) {
	cfg := &packages.Config{Mode: mode, Dir: dir, Env: append(append(os.Environ(), "PWD="+dir), env...)}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	l := &Loaded{All: map[string]*packages.Package{}, Queried: pkgs}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		l.All[p.PkgPath] = p
		for _, e := range p.Errors {
			err = e
		}
		l.Fset = p.Fset
	})
	return l, err
}

// Op is an exported function or method of the standard library that can be
// called from generated code.
type Op struct {
	Pkg, Name string // Name as in reports, without type arguments
	F         *types.Func
	Recv      string   // receiver type, or ""
	Base      string   // what to call without receiver
	Method    string   // method name
	Params    []string // parameter types
	Variadic  bool
	Imports   map[string]bool
	Reflect   bool // mentions reflect.Value
}

func alias(p string) string {
	return "p_" + strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(p)
}

func importable(p string) bool {
	return !strings.Contains("/"+p+"/", "/internal/") && !strings.HasPrefix(p, "vendor/")
}

// nameable reports whether a type can be written in another package, and
// collects the imports that this needs.
func nameable(t types.Type, imports map[string]bool, seen map[types.Type]bool) (ok, refl bool) {
	if seen[t] {
		return true, false
	}
	seen[t] = true
	all := func(ts ...types.Type) (bool, bool) {
		r := false
		for _, t := range ts {
			o, r1 := nameable(t, imports, seen)
			if !o {
				return false, false
			}
			r = r || r1
		}
		return true, r
	}
	tuple := func(t *types.Tuple) (out []types.Type) {
		for i := 0; i < t.Len(); i++ {
			out = append(out, t.At(i).Type())
		}
		return
	}
	switch t := t.(type) {
	case *types.Basic:
		return t.Kind() != types.UnsafePointer, false
	case *types.Alias:
		o := t.Obj()
		if o.Pkg() == nil {
			return true, false
		}
		if !o.Exported() || !importable(o.Pkg().Path()) {
			return false, false
		}
		imports[o.Pkg().Path()] = true
		_, r := nameable(types.Unalias(t), map[string]bool{}, seen)
		return true, r
	case *types.Named:
		o := t.Obj()
		if o.Pkg() == nil {
			return true, false
		}
		if !o.Exported() || !importable(o.Pkg().Path()) {
			return false, false
		}
		imports[o.Pkg().Path()] = true
		r := o.Pkg().Path() == "reflect" && o.Name() == "Value"
		if a := t.TypeArgs(); a != nil {
			for i := 0; i < a.Len(); i++ {
				ok, r1 := nameable(a.At(i), imports, seen)
				if !ok {
					return false, false
				}
				r = r || r1
			}
		}
		return true, r
	case *types.Pointer:
		return all(t.Elem())
	case *types.Slice:
		return all(t.Elem())
	case *types.Array:
		return all(t.Elem())
	case *types.Chan:
		return all(t.Elem())
	case *types.Map:
		return all(t.Key(), t.Elem())
	case *types.Signature:
		return all(append(tuple(t.Params()), tuple(t.Results())...)...)
	case *types.Interface:
		return t.NumMethods() == 0 && t.NumEmbeddeds() == 0, false
	case *types.Struct:
		return t.NumFields() == 0, false
	}
	return false, false
}

var candidateArgs = []types.Type{types.Typ[types.Int], types.Typ[types.String], types.NewSlice(types.Typ[types.Int]), types.NewMap(types.Typ[types.String], types.Typ[types.Int]), types.NewPointer(types.Typ[types.Int])}

// instance finds type arguments for a generic type.
func instance(t types.Type, tp *types.TypeParamList) types.Type {
	n := tp.Len()
	if n > 3 {
		return nil
	}
	total := 1
	for i := 0; i < n; i++ {
		total *= len(candidateArgs)
	}
	for k := 0; k < total; k++ {
		var args []types.Type
		for i, x := 0, k; i < n; i++ {
			args = append(args, candidateArgs[x%len(candidateArgs)])
			x /= len(candidateArgs)
		}
		if it, err := types.Instantiate(nil, t, args, true); err == nil {
			return it
		}
	}
	return nil
}

// Ops lists the exported functions and methods of a package that can be
// called from generated code, in order.
func Ops(p *types.Package) []*Op {
	var out []*Op
	qual := func(q *types.Package) string { return alias(q.Path()) }
	add := func(f *types.Func, sig *types.Signature, recv types.Type, inst string) {
		op := &Op{Pkg: p.Path(), Name: StripArgs(f.FullName()), F: f, Method: f.Name(), Imports: map[string]bool{}, Variadic: sig.Variadic()}
		if recv != nil {
			ok, r := nameable(recv, op.Imports, map[types.Type]bool{})
			if !ok {
				return
			}
			op.Reflect = r
			op.Recv = types.TypeString(recv, qual)
		} else {
			op.Imports[p.Path()] = true
			op.Base = alias(p.Path()) + "." + f.Name() + inst
		}
		for i := 0; i < sig.Params().Len(); i++ {
			t := sig.Params().At(i).Type()
			ok, r := nameable(t, op.Imports, map[types.Type]bool{})
			if !ok {
				return
			}
			op.Reflect = op.Reflect || r
			op.Params = append(op.Params, types.TypeString(t, qual))
		}
		out = append(out, op)
	}
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() {
			continue
		}
		switch o := o.(type) {
		case *types.Func:
			sig := o.Type().(*types.Signature)
			inst := ""
			if tp := sig.TypeParams(); tp != nil {
				t := instance(sig, tp)
				if t == nil {
					continue
				}
				// Find out the arguments again, for the text.
				sig = t.(*types.Signature)
				inst = instanceText(o, sig, qual)
				if inst == "" {
					continue
				}
			}
			add(o, sig, nil, inst)
		case *types.TypeName:
			if o.IsAlias() {
				continue
			}
			t := o.Type()
			if named, ok := t.(*types.Named); ok && named.TypeParams() != nil {
				if t = instance(named, named.TypeParams()); t == nil {
					continue
				}
			}
			if types.IsInterface(t) {
				continue
			}
			seen := map[string]bool{}
			for _, t := range []types.Type{t, types.NewPointer(t)} {
				ms := types.NewMethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f := ms.At(i).Obj().(*types.Func)
					if f.Exported() && len(ms.At(i).Index()) == 1 && !seen[f.Name()] {
						seen[f.Name()] = true
						add(f, f.Type().(*types.Signature), t, "")
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// instanceText writes the type arguments of an instance of f.
func instanceText(f *types.Func, inst *types.Signature, qual types.Qualifier) string {
	tp := f.Type().(*types.Signature).TypeParams()
	total := 1
	for i := 0; i < tp.Len(); i++ {
		total *= len(candidateArgs)
	}
	for k := 0; k < total; k++ {
		var args []types.Type
		var text []string
		for i, x := 0, k; i < tp.Len(); i++ {
			a := candidateArgs[x%len(candidateArgs)]
			args = append(args, a)
			text = append(text, types.TypeString(a, qual))
			x /= len(candidateArgs)
		}
		if it, err := types.Instantiate(nil, f.Type(), args, true); err == nil && types.Identical(it, inst) {
			return "[" + strings.Join(text, ", ") + "]"
		}
	}
	return ""
}

// Call writes code that calls the operation, as function n of a package, with
// random ways of calling.  The names of the functions that must be reported
// with the capability are returned.
func (op *Op) Call(t *rapid.T, n int, b *strings.Builder) (names []string, how string) {
	var args []string
	for i, p := range op.Params {
		a := fmt.Sprintf("*new(%s)", p)
		if op.Variadic && i == len(op.Params)-1 {
			a += "..."
		}
		args = append(args, a)
	}
	al := strings.Join(args, ", ")
	callee := op.Base
	decl := ""
	if op.Recv != "" {
		decl = fmt.Sprintf("\tvar r %s\n", op.Recv)
		callee = "r." + op.Method
	}
	hows := []string{"call", "defer", "go", "closure", "value", "helper", "method", "generic", "chain"}
	if op.Recv != "" {
		hows = append(hows, "methodvalue", "methodexpr")
		if !strings.Contains(op.Recv, "[") && !strings.HasSuffix(op.Recv, "."+op.Method) {
			hows = append(hows, "embedded")
		}
	}
	how = Pick(t, hows, "how")
	name := fmt.Sprintf("F%d", n)
	names = []string{name}
	fn := func(name, body string) { fmt.Fprintf(b, "func %s() {\n%s}\n\n", name, body) }
	switch how {
	case "call":
		fn(name, fmt.Sprintf("%s\t%s(%s)\n", decl, callee, al))
	case "defer":
		fn(name, fmt.Sprintf("%s\tdefer %s(%s)\n", decl, callee, al))
	case "go":
		fn(name, fmt.Sprintf("%s\tgo %s(%s)\n", decl, callee, al))
	case "closure":
		fn(name, fmt.Sprintf("\tf := func() {\n%s\t%s(%s)\n\t}\n\tf()\n", decl, callee, al))
	case "value", "methodvalue":
		fn(name, fmt.Sprintf("%s\tf := %s\n\tf(%s)\n", decl, callee, al))
	case "methodexpr":
		rest := "r"
		if al != "" {
			rest += ", " + al
		}
		fn(name, fmt.Sprintf("%s\t(%s).%s(%s)\n", decl, op.Recv, op.Method, rest))
	case "embedded":
		fmt.Fprintf(b, "type e%d struct{ %s }\n\n", n, op.Recv)
		fn(name, fmt.Sprintf("\tvar r e%d\n\tr.%s(%s)\n", n, op.Method, al))
	case "helper":
		fn("h"+name, fmt.Sprintf("%s\t%s(%s)\n", decl, callee, al))
		fn(name, fmt.Sprintf("\th%s()\n", name))
		names = append(names, "h"+name)
	case "chain":
		fn("h"+name, fmt.Sprintf("%s\t%s(%s)\n", decl, callee, al))
		k := rapid.IntRange(1, 4).Draw(t, "chain")
		prev := "h" + name
		names = append(names, prev)
		for i := 0; i < k; i++ {
			next := fmt.Sprintf("h%d%s", i, name)
			fn(next, fmt.Sprintf("\t%s()\n", prev))
			prev = next
			names = append(names, prev)
		}
		fn(name, fmt.Sprintf("\t%s()\n", prev))
	case "method":
		fmt.Fprintf(b, "type t%d struct{}\n\nfunc (t%d) M() {\n%s\t%s(%s)\n}\n\n", n, n, decl, callee, al)
		fn(name, fmt.Sprintf("\tt%d{}.M()\n", n))
	case "generic":
		fmt.Fprintf(b, "func g%d[T any](x T) {\n%s\t%s(%s)\n}\n\n", n, decl, callee, al)
		fn(name, fmt.Sprintf("\tg%d(1)\n", n))
	}
	return names, how
}

// Alias returns the name under which generated code imports a package.
func Alias(p string) string { return alias(p) }
