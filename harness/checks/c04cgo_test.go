package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/world"
)

const cPreamble = `/*
#include <stdlib.h>
#include <errno.h>
#define MACRO 3
enum colour { RED, GREEN };
struct s { int a; };
static int add(int a, int b) { return a + b; }
static void nop(void) { }
static int with_underscore(struct s *p) { return p ? p->a : 0; }
*/
import "C"
`

// Ways of calling C code.
var cCalls = []string{
	"C.add(1, 2)", "_ = int(C.add(C.int(1), 2))", "_, _ = C.add(1, 2)", "C.nop()", "_, _ = C.nop()", "if n, err := C.add(1, 2); err == nil && n > 0 {\n\t\treturn\n\t}",
	"_ = C.CString(\"x\")", "_ = C.GoString(nil)", "_ = C.GoStringN(nil, 0)", "_ = C.GoBytes(nil, 0)", "_ = C.CBytes(nil)", "C.free(nil)", "_ = C.malloc(8)",
	"_ = C.with_underscore(nil)", "_ = (C.add)(1, 2)", "_ = C.add(C.add(1, 2), 3)", "for i := C.add(1, 1); i > 9; i++ {\n\t}", "switch C.add(0, 0) {\n\t}", "println(C.abs(-1))",
}

// Uses of C that run no C code.
var cUses = []string{"_ = C.sizeof_int", "var x C.int = 3\n\t_ = x", "_ = C.struct_s{}", "_ = C.RED", "_ = C.MACRO", "_ = C.enum_colour(1)", "var p *C.char\n\t_ = p", "type t C.struct_s\n\t_ = t{}", "_ = func(C.long) {}"}

func TestC04_Cgo(t *testing.T) {
	checkCLI(t, "random module of packages with functions and methods that call C functions, use C types and constants, and call one another (directly, deferred, in goroutines and closures), compiled by the go command and analysed by the capslock command; the functions with CGO are exactly those that reach a C call, and they have nothing else; non-trivial: some function has CGO and some has not",
		36, 10, func(rt *rapid.T, c *Ctx, dir string) {
			if err := os.RemoveAll(dir); err != nil {
				panic(err)
			}
			files := map[string]string{"go.mod": "module example.com/m\n\ngo 1.23\n"}
			type fn struct{ name, call, pkg string }
			var all []fn
			edges, has := map[string][]string{}, map[string]bool{}
			npkg := 1 + world.Uniform(rt, 2, "npkg")
			for p := 0; p < npkg; p++ {
				pkg := fmt.Sprintf("example.com/m/p%d", p)
				withC := p == 0 || world.Uniform(rt, 4, "withC") > 0
				n := 4 + world.Uniform(rt, 8, "nfunc")
				first := len(all)
				for i := 0; i < n; i++ {
					if world.Uniform(rt, 4, "method") == 0 {
						all = append(all, fn{fmt.Sprintf("(%s.T).F%d", pkg, i), fmt.Sprintf("T{}.F%d()", i), pkg})
					} else {
						all = append(all, fn{fmt.Sprintf("%s.F%d", pkg, i), fmt.Sprintf("F%d()", i), pkg})
					}
				}
				src := [2]string{}
				usesP0 := [2]bool{}
				for i := first; i < len(all); i++ {
					f := all[i]
					file := 0
					if withC && world.Uniform(rt, 3, "other file") == 0 {
						file = 1 // without C
					}
					body := ""
					for k := world.Uniform(rt, 4, "nstmt"); k > 0; k-- {
						stmt := ""
						switch x := world.Uniform(rt, 10, "stmt"); {
						case x < 2 && withC && file == 0:
							stmt = world.Pick(rt, cCalls, "ccall")
							has[f.name] = true
						case x < 5 && withC && file == 0:
							stmt = world.Pick(rt, cUses, "cuse")
						default:
							g := world.Pick(rt, all, "callee")
							stmt = g.call
							if g.pkg != pkg {
								stmt = "p0." + stmt
								usesP0[file] = true
							}
							edges[f.name] = append(edges[f.name], g.name)
							stmt = world.Pick(rt, []string{"", "", "", "defer ", "go "}, "how") + stmt
						}
						switch world.Uniform(rt, 6, "where") {
						case 0:
							stmt = "func() {\n\t" + stmt + "\n\t}()"
						case 1:
							stmt = "defer func() {\n\t" + stmt + "\n\t}()"
						case 2:
							stmt = "if len(os.Args) > 1 {\n\t" + stmt + "\n\t}"
						default:
							stmt = "{\n\t" + stmt + "\n\t}"
						}
						body += "\t" + stmt + "\n"
					}
					recv := ""
					if strings.HasPrefix(f.name, "(") {
						recv = "(T) "
					}
					src[file] += fmt.Sprintf("\nfunc %s%s() {\n%s}\n", recv, f.name[strings.LastIndex(f.name, ".")+1:], body)
				}
				for file := range src {
					head := fmt.Sprintf("package p%d\n\n", p)
					if file == 0 && withC {
						head += cPreamble
					}
					head += "\nimport \"os\"\n"
					if usesP0[file] {
						head += "import \"example.com/m/p0\"\n"
					}
					head += "\nvar _ = os.Args\n"
					if file == 0 {
						head += "\ntype T struct{}\n"
						if withC {
							head += "\nvar _ C.int\n"
						}
					}
					files[fmt.Sprintf("p%d/f%d.go", p, file)] = head + src[file]
				}
			}
			if err := world.WriteTree(dir, files); err != nil {
				panic(err)
			}
			desc := func() string {
				var b strings.Builder
				for _, n := range world.SortedKeys(files) {
					fmt.Fprintf(&b, "-- %s --\n%s\n", n, files[n])
				}
				return b.String()
			}
			want := map[string]bool{}
			for _, f := range all {
				seen := map[string]bool{}
				var visit func(n string) bool
				visit = func(n string) bool {
					if seen[n] {
						return false
					}
					seen[n] = true
					if has[n] {
						return true
					}
					for _, m := range edges[n] {
						if visit(m) {
							return true
						}
					}
					return false
				}
				if visit(f.name) {
					want[f.name+"|"+world.Cgo.String()] = true
				}
			}
			c.Seen(desc(), len(want) > 0 && len(want) < len(all))
			c.Class("C call reached through another function", len(want) > len(has))
			env := []string{"CGO_ENABLED=1", "GOWORK=off", "GOFLAGS=-mod=mod"}
			r := command(dir, env, filepath.Join(binDir, "capslock"), "-packages=./...", "-output=json")
			if r.code != 0 {
				if b := command(dir, env, "go", "build", "./..."); b.code != 0 {
					panic(fmt.Sprintf("the program cannot be built: %s\n%s", b, desc()))
				}
			}
			got := map[string]bool{}
			for p := range pairsOf(parseReport(rt, c, r, desc)) {
				name, _, _ := strings.Cut(p, "|")
				for _, f := range all {
					// The stub of malloc has a function without body beside it.
					if f.name == name && (!strings.Contains(p, world.ArbExec.String()) || !strings.Contains(desc(), "C.malloc")) {
						got[p] = true
					}
				}
			}
			if missing, extra := world.Diff(want, got); len(missing)+len(extra) > 0 {
				c.Fail(rt, "%s\n%s", diffText(missing, extra), desc())
			}
		})
}
