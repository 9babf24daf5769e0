package checks

import (
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/world"
)

// closureOf returns the packages of the program that the given ones need.
func closureOf(p world.Program, roots []string) map[string]bool {
	imports := map[string][]string{}
	for _, s := range p {
		imports[s.Path] = []string{}
		for _, f := range s.Files {
			af, err := parser.ParseFile(token.NewFileSet(), f.Name, f.Src, parser.ImportsOnly)
			if err != nil {
				panic(err)
			}
			for _, i := range af.Imports {
				q, _ := strconv.Unquote(i.Path.Value)
				imports[s.Path] = append(imports[s.Path], q)
			}
		}
	}
	out := map[string]bool{}
	var visit func(q string)
	visit = func(q string) {
		if !out[q] && imports[q] != nil {
			out[q] = true
			for _, i := range imports[q] {
				visit(i)
			}
		}
	}
	for _, q := range roots {
		visit(q)
	}
	return out
}

// Faults in the source of a package; each is the text of an added file, with
// the name of the package for %s.
var sourceFaults = []string{
	"package %s\n\nfunc {\n",
	"package %s\n\nfunc broken() { if }\n",
	"package %s\n\n}\n",
	"this is not Go, %s\n",
	"package %s\n\nvar broken int = \"x\"\n",
	"package %s\n\nfunc broken() { var unused int }\n",
	"package %s\n\nimport \"errors\"\n",
	"package %s\n\nvar broken = undefinedName\n",
	"package %s\n\nfunc broken() int {}\n",
	"package %s\n\nvar broken int\nvar broken int\n",
	"package %s\n\nimport _ \"no/such/package\"\n",
	"package %s\n\nimport _ \"no.such.example/module\"\n",
	"package %s\n\nimport _ \"example.com/m/no/such/directory\"\n",
	"package %s\n\nimport _ \"internal/abi\"\n",
	"package other%s\n",
	"package %s\n\nimport _ SELF\n",
	"package %s\n\nimport _ \"./relative\"\n",
	"package %s\n\nimport \"errors\"\n\nvar broken = errors.NoSuchThing\n",
	"package %s\n\nfunc broken[T any](x T) { x.M() }\n",
}

var badMapLines = []string{
	"func os.Open", "func os.Open CAPABILITY_BOGUS", "func os.Open FILES", "bogus a b", "package p", "unanalyzed",
	"cgo_suffix", "ignore_edge a", "func", "func os.Open CAPABILITY_FILES\nthis is not a line\n", "package os CAPABILITY_",
}

var badBaselines = []string{
	"", " ", "{", "[]", "null x", "{} {}", "\"x\"", "12", "{\"capabilityInfo\": {}}", "{\"noSuchField\": 1}", "{\"capabilityInfo\": [{\"capability\": \"CAPABILITY_BOGUS\"}]}",
	"{\"capabilityInfo\": [{\"packageDir\": 3}]}", "Capslock found no capabilities", "{\"capabilityInfo\": [}", "\x00\x01",
}

func TestC18_Faults(t *testing.T) {
	full, fullErr := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if fullErr == nil {
		defer full.Close()
	}
	checkCLI(t, "random programs on disk analysed by the command in every output mode, with random faults (flags, arguments, maps, baselines, package patterns, source of a requested package or a dependency, go.mod, full output device) and harmless look-alikes of faults; exit status, output and temporary files against the expected ones; non-trivial: a fault or a comparison",
		1500, 20, func(rt *rapid.T, c *Ctx, dir string) {
			d := genDisk(rt, dir, world.Style{})
			tmp := dir + ".tmp"
			if err := os.RemoveAll(tmp); err != nil {
				panic(err)
			}
			if err := os.Mkdir(tmp, 0o755); err != nil {
				panic(err)
			}
			run := func(args ...string) result {
				return command(dir, []string{"TMPDIR=" + tmp}, filepath.Join(binDir, "capslock"), args...)
			}
			mode := world.Pick(rt, []string{"", "json", "j", "m", "machine", "v", "verbose", "graph", "g", "compare", "compare"}, "mode")
			want := 0
			var positional []string
			if mode == "compare" {
				before := d.Solution.PackagePairs()
				r := run(append(append([]string{}, d.Args...), "-output=json")...)
				parseReport(rt, c, r, d.String)
				if world.Pct(rt, 70, "change") {
					for i := rapid.IntRange(1, 4).Draw(rt, "changes"); i > 0; i-- {
						d.Abs.Mutate(rt)
					}
					d.Prog, d.Model = d.Abs.Render(rt, world.Style{})
					d.pickMap(rt)
					d.writeOut()
				}
				if err := os.WriteFile(filepath.Join(dir, "base.json"), []byte(r.stdout), 0o644); err != nil {
					panic(err)
				}
				after := d.Solution.PackagePairs()
				if len(minus(after, before))+len(minus(before, after)) > 0 {
					want = 1
				}
				positional = []string{"base.json"}
			}
			args := append([]string{}, d.Args...)
			if mode != "" {
				args = append(args, "-output="+mode)
			}
			if world.Pct(rt, 10, "verbose") {
				args = append(args, world.Pick(rt, []string{"-v=1", "-omit_paths", "-force_local_module", "-granularity=package", "-capabilities="}, "flag"))
			}
			if world.Uniform(rt, 5, "profile") == 0 {
				args = append(args, world.Pick(rt, []string{"-cpuprofile=", "-memprofile="}, "profileflag")+tmp+".profile")
				c.Class("with a profile and a difference", want == 1)
			}
			diff := want
			var notes []string
			write := func(name, text string) {
				notes = append(notes, fmt.Sprintf("file %s: %q", name, text))
				p := filepath.Join(dir, name)
				if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
					panic(err)
				}
				if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
					panic(err)
				}
			}
			setPackages := func(f func(old []string) []string) {
				for i, a := range args {
					if v, ok := strings.CutPrefix(a, "-packages="); ok {
						args[i] = "-packages=" + strings.Join(f(strings.Split(v, ",")), ",")
					}
				}
			}
			insert := func(list []string, x string) []string {
				i := rapid.IntRange(0, len(list)).Draw(rt, "at")
				return append(append(append([]string{}, list[:i]...), x), list[i:]...)
			}
			closure := closureOf(d.Prog, world.SortedKeys(d.Queried))
			pkgName := func(p string) string {
				for _, s := range d.Prog {
					if s.Path == p {
						af, err := parser.ParseFile(token.NewFileSet(), "", s.Files[0].Src, parser.PackageClauseOnly)
						if err != nil {
							panic(err)
						}
						return af.Name.Name
					}
				}
				panic(p)
			}
			var all []string
			for _, s := range d.Prog {
				all = append(all, s.Path)
			}
			kinds := []string{"none", "flag", "args", "map", "baseline", "pattern", "source", "source", "source", "gomod", "harmless", "harmless", "full", "profile"}
			kind := world.Pick(rt, kinds, "kind")
			switch kind {
			case "flag":
				want = 2
				x := world.Pick(rt, []string{"-bogus", "-granularity=bogus", "-granularity=Package", "-granularity=packages", "-capabilities=BOGUS", "-capabilities=FILES,-NETWORK", "-capabilities=-FILES,NETWORK", "-noisy=perhaps", "-v=abc", "-cpuprofile=no/such/dir/x", "-omit_paths=2", "-capabilities=CAPABILITY_"}, "badflag")
				args = insert(args, x)
				if strings.HasPrefix(x, "-cpuprofile") || strings.HasPrefix(x, "-granularity") || strings.HasPrefix(x, "-capabilities") {
					// The last one counts.
					args = append(args, x)
				}
				if d.Mode == "default" && world.Pct(rt, 25, "disable") {
					args = append(append(append([]string{}, d.Args...), "-output="+mode), "-disable_builtin")
				}
			case "profile":
				// Found out after the report has been printed.
				want = 2
				args = append(args, world.Pick(rt, []string{"-memprofile=no/such/dir/x", "-memprofile=."}, "badprofile"))
			case "args":
				want = 2
				switch {
				case mode != "compare":
					positional = world.Pick(rt, [][]string{{"x"}, {"x", "y"}, {"compare", "base.json"}, {"./..."}, {""}}, "extra")
				case world.Pct(rt, 50, "none"):
					positional = nil
				default:
					positional = append(positional, world.Pick(rt, []string{"x", "base.json", ""}, "extra"))
				}
			case "map":
				want = 2
				var flags []string
				for _, a := range args {
					if !strings.HasPrefix(a, "-capability_map") {
						flags = append(flags, a)
					}
				}
				switch rapid.IntRange(0, 3).Draw(rt, "mapfault") {
				case 0:
					args = append(flags, "-capability_map=no/such/file")
				case 1:
					args = append(flags, "-capability_map=.")
				default:
					lines := strings.Split(strings.TrimSuffix(d.MapText, "\n"), "\n")
					lines = insert(lines, world.Pick(rt, badMapLines, "badline"))
					write("bad.cm", strings.Join(lines, "\n"))
					args = append(flags, "-capability_map=bad.cm")
				}
			case "baseline":
				want = 2
				var flags []string
				for _, a := range args {
					if !strings.HasPrefix(a, "-output") {
						flags = append(flags, a)
					}
				}
				args = append(flags, "-output=compare")
				switch rapid.IntRange(0, 3).Draw(rt, "basefault") {
				case 0:
					positional = []string{"no/such/file"}
				case 1:
					positional = []string{"."}
				case 2:
					r := run(append(append([]string{}, d.Args...), "-output=json")...)
					text := strings.TrimRight(r.stdout, "\n")
					write("bad.json", text[:rapid.IntRange(0, len(text)-1).Draw(rt, "cut")])
					positional = []string{"bad.json"}
				default:
					write("bad.json", world.Pick(rt, badBaselines, "badbase"))
					positional = []string{"bad.json"}
				}
			case "pattern":
				want = 2
				x := world.Pick(rt, []string{"no/such/package", "no.such.example/module", "./no/such/dir", "./no/such/dir/...", "example.com/m/nothing", "no.such.example/module/...", "./base.json", "..."[:2]}, "badpattern")
				if strings.HasSuffix(x, "...") || world.Pct(rt, 50, "only") {
					// A pattern without a match is an error if nothing else
					// is asked for.
					setPackages(func([]string) []string { return []string{x} })
				} else {
					setPackages(func(old []string) []string { return insert(old, x) })
				}
			case "source", "harmless":
				p := world.Pick(rt, all, "where")
				text := world.Pick(rt, sourceFaults, "fault")
				if strings.Contains(text, "%s") {
					text = fmt.Sprintf(text, pkgName(p))
				}
				text = strings.Replace(text, "SELF", strconv.Quote(p), 1)
				name := "zz.go"
				if kind == "harmless" {
					switch rapid.IntRange(0, 6).Draw(rt, "why") {
					case 0:
						name = "zz.txt"
					case 1:
						name = "_zz.go"
					case 2:
						name = "testdata/zz.go"
					case 3:
						// Broken text can make the go command fail.
						name, text = "zz_plan9.go", "package "+pkgName(p)+"\n\nvar broken int = \"x\"\n"
					case 4:
						text = "//go:build ignore\n\npackage " + pkgName(p) + "\n\nvar broken = undefinedName\n"
					case 5:
						name, text = "zz_test.go", "package "+pkgName(p)+"\n\nvar broken = undefinedName\n"
					case 6:
						args = append(args, world.Pick(rt, []string{"-cpuprofile=" + tmp + ".cpu", "-memprofile=" + tmp + ".mem", "-noisy=" + strconv.FormatBool(d.Noisy)}, "goodflag"))
						name = "zz.txt"
					}
				} else if closure[p] {
					want = 2
				}
				if kind == "source" && world.Pct(rt, 35, "many") {
					// Many errors, or long messages, in one or more packages.
					for i := rapid.IntRange(1, 4).Draw(rt, "npkgs"); i > 0; i-- {
						p := world.Pick(rt, all, "also")
						var b strings.Builder
						fmt.Fprintf(&b, "package %s\n\n", pkgName(p))
						name := world.Pick(rt, []string{"undefinedName", strings.Repeat("undefinedName", 100)}, "errname")
						for k := world.Pick(rt, []int{1, 2, 12, 40, 150}, "nerrors"); k > 0; k-- {
							fmt.Fprintf(&b, "var broken%d = %s%d\n", k, name, k)
						}
						write(path.Join(world.DirOf(p), "zy.go"), b.String())
						if closure[p] {
							want = 2
							c.Class("many errors", true)
						}
					}
				}
				write(path.Join(world.DirOf(p), name), text)
				c.Class("fault outside the closure", kind == "source" && !closure[p])
				c.Class("fault in a dependency", kind == "source" && closure[p] && !d.Queried[p])
			case "gomod":
				want = 2
				write("go.mod", world.Pick(rt, []string{"bogus\n", "module example.com/m\n\ngo 1.23\n\nrequire (\n", "module example.com/m\n\ngo x.y\n", "module\n"}, "badmod"))
			}
			args = append(args, positional...)
			desc := func() string {
				return fmt.Sprintf("fault: %s\ncapslock %q\n%s\n%s", kind, args, strings.Join(notes, "\n"), d.staticCase)
			}
			c.Seen(desc(), kind != "none" || mode == "compare")
			c.Class("kind:"+kind, true)
			c.Class("mode:"+mode, true)
			c.Class(fmt.Sprintf("expected exit status %d", want), true)
			c.Class("difference expected but for a fault", diff == 1 && want == 2)
			r := run(args...)
			if r.code != want {
				c.Fail(rt, "expected exit status %d\n%s\n\n%s", want, r, desc())
			}
			switch {
			case r.code == 2 && r.stdout != "" && kind != "profile":
				c.Fail(rt, "a failed run printed a report\n%s\n\n%s", r, desc())
			case r.code == 2 && strings.TrimSpace(r.stderr) == "":
				c.Fail(rt, "a failed run printed no message\n%s\n\n%s", r, desc())
			case r.code == 1 && r.stdout == "":
				c.Fail(rt, "a difference was found but not described\n%s\n\n%s", r, desc())
			}
			left, err := os.ReadDir(tmp)
			if err != nil {
				panic(err)
			}
			if len(left) > 0 {
				c.Fail(rt, "%d temporary files or directories left behind, such as %q\n%s\n\n%s", len(left), left[0].Name(), r, desc())
			}
			if kind == "full" && fullErr == nil && mode != "compare" && r.stdout != "" {
				cmd := exec.Command(filepath.Join(binDir, "capslock"), args...)
				cmd.Dir = dir
				cmd.Env = append(os.Environ(), "PWD="+dir, "TMPDIR="+tmp)
				cmd.Stdout = full
				err := cmd.Run()
				if _, ok := err.(*exec.ExitError); err != nil && !ok {
					panic(err)
				}
				if code := cmd.ProcessState.ExitCode(); code != 2 {
					c.Fail(rt, "exit status %d although the report could not be written\n\n%s", code, desc())
				}
			}
		})
}
