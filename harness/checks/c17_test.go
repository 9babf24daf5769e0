package checks

import (
	"fmt"
	"go/build"
	"path"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verif/harness/world"
)

type buildFile struct {
	pkg, name, src string
	fn             string
	cap            string
	imports        []string
}

var (
	oses   = []string{"linux", "windows", "darwin", "freebsd", "js"}
	arches = []string{"amd64", "arm64", "386", "wasm"}
	btags  = []string{"foo", "bar", "purego", "netgo"}
)

func genConstraint(rt *rapid.T, depth int) string {
	if depth > 0 && world.Pct(rt, 40, "compound") {
		a, b := genConstraint(rt, depth-1), genConstraint(rt, depth-1)
		return fmt.Sprintf("(%s %s %s)", a, world.Pick(rt, []string{"&&", "||"}, "op"), b)
	}
	s := ""
	switch rapid.IntRange(0, 4).Draw(rt, "ckind") {
	case 0:
		s = world.Pick(rt, oses, "cos")
	case 1:
		s = world.Pick(rt, arches, "carch")
	case 2, 3:
		s = world.Pick(rt, btags, "ctag")
	case 4:
		s = world.Pick(rt, []string{"ignore", "go1.20", "go1.99", "unix", "gc", "gccgo"}, "cother")
	}
	if world.Pct(rt, 40, "not") {
		s = "!" + s
	}
	return s
}

func TestC17_Builds(t *testing.T) {
	// Without cgo, which would need a cross compiler.
	ctx := build.Default
	ctx.CgoEnabled = false
	checkCLI(t, "random packages in several modules whose files have random build constraints (go:build expressions, old-style lines, _GOOS_GOARCH names, test files, files starting with _ or .) and imports of modules and the standard library, analysed by the command with random tags, GOOS and GOARCH; reported functions, ignored files, packages and modules against go/build's matching and the import closure; non-trivial: some file is excluded and some function reported",
		400, 20, func(rt *rapid.T, c *Ctx, dir string) {
			paths := rapid.Permutation([]string{"example.com/m", "example.com/m/alpha", "example.com/m/alpha/gamma", "other.org/lib/v2", "nodot/pkg", "gopkg.in/yaml.v3", "example.com/n-dash/alpha", "example.com/n-dash"}).Draw(rt, "paths")
			paths = paths[:rapid.IntRange(1, 5).Draw(rt, "npkgs")]
			std := []string{"errors", "unicode/utf8", "math/bits", "sync/atomic", "strings", "unsafe"}
			if world.Pct(rt, 20, "os") {
				std = append(std, "os", "net")
			}
			var files []*buildFile
			var caps strings.Builder
			for i, p := range paths {
				base := strings.Map(func(r rune) rune {
					if r >= 'a' && r <= 'z' {
						return r
					}
					return -1
				}, strings.TrimSuffix(path.Base(p), "v3"))
				if base == "v" {
					base = "lib"
				}
				n := rapid.IntRange(1, 5).Draw(rt, "nfiles")
				for j := 0; j < n; j++ {
					f := &buildFile{pkg: p, name: fmt.Sprintf("f%d", j), fn: fmt.Sprintf("F%d", j)}
					constraint := ""
					if j > 0 {
						if world.Pct(rt, 35, "suffix") {
							f.name += "_" + world.Pick(rt, append(append([]string{"test", "foo", "linux_amd64", "windows_arm64", "amd64_linux", "linux_test"}, oses...), arches...), "suffixname")
						}
						switch rapid.IntRange(0, 9).Draw(rt, "constraintkind") {
						case 0, 1, 2, 3:
							constraint = "//go:build " + genConstraint(rt, 2) + "\n\n"
						case 4:
							constraint = "// +build " + world.Pick(rt, []string{"foo", "!foo", "linux", "windows,amd64", "foo bar"}, "old") + "\n\n"
						case 5: // not a constraint: follows the package clause
							constraint = "LATER"
						case 6:
							if world.Pct(rt, 30, "hidden") {
								f.name = world.Pick(rt, []string{"_", "."}, "dotfile") + f.name
							}
						}
					}
					f.name += ".go"
					for _, q := range paths[:i] {
						if world.Pct(rt, 25, "import") {
							f.imports = append(f.imports, q)
						}
					}
					for _, q := range std {
						if world.Pct(rt, 8, "importstd") {
							f.imports = append(f.imports, q)
						}
					}
					var b strings.Builder
					if constraint != "LATER" {
						b.WriteString(constraint)
					}
					if world.Pct(rt, 20, "licence") {
						b.Reset()
						b.WriteString("// Copyright\n\n" + strings.TrimPrefix(constraint, "LATER"))
					}
					fmt.Fprintf(&b, "package %s\n\n", base)
					if constraint == "LATER" {
						b.WriteString("//go:build windows && foo && ignore\n\n")
					}
					for _, q := range f.imports {
						fmt.Fprintf(&b, "import _ %q\n", q)
					}
					x := world.Pick(rt, []string{"CAPABILITY_FILES", "CAPABILITY_NETWORK", "CAPABILITY_SAFE"}, "cap")
					f.cap = x
					fmt.Fprintf(&b, "\nfunc %s() {}\n", f.fn)
					fmt.Fprintf(&caps, "func %s.%s %s\n", p, f.fn, x)
					f.src = b.String()
					files = append(files, f)
				}
			}
			ctx.GOOS, ctx.GOARCH, ctx.BuildTags = runtime.GOOS, runtime.GOARCH, nil
			args := []string{"-output=json", "-capability_map=user.cm", "-disable_builtin"}
			env := []string{"CGO_ENABLED=0"}
			if world.Pct(rt, 25, "env") {
				// The flags win over the environment.
				ctx.GOOS = world.Pick(rt, oses[:4], "envgoos")
				ctx.GOARCH = world.Pick(rt, []string{"amd64", "arm64"}, "envgoarch")
				env = append(env, "GOOS="+ctx.GOOS, "GOARCH="+ctx.GOARCH)
			}
			if world.Pct(rt, 60, "goos") {
				ctx.GOOS = world.Pick(rt, oses, "goosname")
				args = append(args, "-goos="+ctx.GOOS)
			}
			if ctx.GOOS == "js" {
				ctx.GOARCH = "wasm"
				args = append(args, "-goarch=wasm")
			} else if world.Pct(rt, 50, "goarch") {
				ctx.GOARCH = world.Pick(rt, []string{"amd64", "arm64", "386"}, "goarchname")
				if ctx.GOOS == "darwin" && ctx.GOARCH == "386" {
					ctx.GOARCH = "arm64"
				}
				args = append(args, "-goarch="+ctx.GOARCH)
			}
			if ctx.GOOS == "darwin" && ctx.GOARCH == "386" {
				rt.Skip("unsupported")
			}
			for _, tag := range btags {
				if world.Pct(rt, 35, "tag") {
					ctx.BuildTags = append(ctx.BuildTags, tag)
				}
			}
			if len(ctx.BuildTags) > 0 {
				args = append(args, "-buildtags="+strings.Join(ctx.BuildTags, ","))
			}
			q := rapid.SliceOfNDistinct(rapid.SampledFrom(paths), 1, len(paths), rapid.ID[string]).Draw(rt, "queried")
			args = append(args, "-packages="+strings.Join(q, ","))

			tree := world.Program{}.FilesOnDisk()
			for _, f := range files {
				tree[path.Join(world.DirOf(f.pkg), f.name)] = f.src
			}
			tree["user.cm"] = caps.String()
			writeTree(dir, tree)

			// What the go command would build.
			included := map[*buildFile]bool{}
			ignored := map[string][]string{}
			imports := map[string]map[string]bool{}
			anyExcluded := false
			for _, f := range files {
				if imports[f.pkg] == nil {
					imports[f.pkg] = map[string]bool{}
				}
				ok, err := ctx.MatchFile(filepath.Join(dir, world.DirOf(f.pkg)), f.name)
				if err != nil {
					panic(err)
				}
				switch {
				case f.name[0] == '_' || f.name[0] == '.':
					// Not part of the package at all.
				case !ok:
					ignored[f.pkg] = append(ignored[f.pkg], f.name)
					anyExcluded = true
				case strings.HasSuffix(f.name, "_test.go"):
				default:
					included[f] = true
					for _, i := range f.imports {
						imports[f.pkg][i] = true
					}
				}
			}
			closure := map[string]bool{}
			var visit func(p string)
			visit = func(p string) {
				if !closure[p] && imports[p] != nil {
					closure[p] = true
					for i := range imports[p] {
						visit(i)
					}
				}
			}
			for _, p := range q {
				visit(p)
			}
			queried := map[string]bool{}
			for _, p := range q {
				queried[p] = true
			}
			want := map[string]bool{}
			for f := range included {
				if queried[f.pkg] && f.cap != "CAPABILITY_SAFE" {
					want[f.pkg+"."+f.fn+"|"+f.cap] = true
				}
			}
			var wantPkgs, wantMods []string
			mods := map[string]bool{}
			for _, p := range world.SortedKeys(closure) {
				ig := ignored[p]
				sort.Strings(ig)
				wantPkgs = append(wantPkgs, fmt.Sprintf("%s %q", p, ig))
				if m := world.ModuleOf(p); m.Version != "" {
					mods[m.Path+" "+m.Version] = true
				}
			}
			wantMods = world.SortedKeys(mods)

			desc := func() string {
				var b strings.Builder
				fmt.Fprintf(&b, "%s capslock %q\n", strings.Join(env, " "), args)
				for _, f := range files {
					fmt.Fprintf(&b, "-- %s/%s (built: %v) --\n%s", f.pkg, f.name, included[f], f.src)
				}
				return b.String() + "-- map --\n" + caps.String()
			}
			c.Seen(desc(), anyExcluded && len(want) > 0)
			c.Class("excluded files", anyExcluded)
			c.Class("other GOOS", ctx.GOOS != runtime.GOOS)
			c.Class("tags", len(ctx.BuildTags) > 0)
			c.Class("dependencies", len(closure) > len(q))
			c.Class("dependency modules", len(wantMods) > 0)
			c.Class("os or net in closure", len(std) > 6)
			cil := parseReport(rt, c, command(dir, env, filepath.Join(binDir, "capslock"), args...), desc)
			if missing, extra := world.Diff(want, pairsOf(cil)); len(missing)+len(extra) > 0 {
				c.Fail(rt, "report\n%s\n\n%s", diffText(missing, extra), desc())
			}
			var gotPkgs, gotMods []string
			for _, p := range cil.GetPackageInfo() {
				var ig []string
				for _, f := range p.GetIgnoredFiles() {
					if strings.HasSuffix(f, ".go") {
						ig = append(ig, f)
					}
				}
				sort.Strings(ig)
				gotPkgs = append(gotPkgs, fmt.Sprintf("%s %q", p.GetPath(), ig))
			}
			for _, m := range cil.GetModuleInfo() {
				gotMods = append(gotMods, m.GetPath()+" "+m.GetVersion())
			}
			if a, b := strings.Join(wantPkgs, "\n"), strings.Join(gotPkgs, "\n"); a != b {
				c.Fail(rt, "package information\ngot:\n%s\nwant:\n%s\n\n%s", b, a, desc())
			}
			if a, b := strings.Join(wantMods, "\n"), strings.Join(gotMods, "\n"); a != b {
				c.Fail(rt, "module information\ngot:\n%s\nwant:\n%s\n\n%s", b, a, desc())
			}
		})
}

// layoutMod is a module of a random layout; the first one is the main module.
type layoutMod struct {
	path, version string
	replace       string // how the main module replaces it: "", "dir", "module"
	used          bool   // in the workspace
	dir           string
}

func (m layoutMod) String() string {
	return fmt.Sprintf("%s %s replace=%q used=%v", m.path, m.version, m.replace, m.used)
}

var layoutPaths = []string{"example.com/dep", "example.com/dep/sub", "example.com/dep/v2", "example.com/dep-x", "example.com/main/nested", "example.com/main2", "other.org/Upper/lib", "gopkg.in/yaml.v3", "nodot/lib", "example.com/dep/sub/sub"}

func TestC17_Modules(t *testing.T) {
	checkCLI(t, "random modules (nested in each other, with common prefixes, version suffixes, capitals, without a dot; pseudo-versions, pre-releases, +incompatible; replaced by directories or other modules) laid out as vendored dependencies, replaced directories, a workspace or a GOPATH, with random packages and imports, analysed by the command; reported functions, packages and modules against the import closure; non-trivial: a dependency outside the main module is in the closure",
		200, 20, func(rt *rapid.T, c *Ctx, dir string) {
			layout := world.Pick(rt, []string{"vendor", "vendor", "replace", "workspace", "gopath"}, "layout")
			mods := []*layoutMod{{path: "example.com/main", dir: "main", used: true}}
			for i, p := range rapid.Permutation(layoutPaths).Draw(rt, "modules")[:rapid.IntRange(1, 6).Draw(rt, "nmods")] {
				m := &layoutMod{path: p, dir: fmt.Sprintf("mods/m%d", i)}
				versions := []string{"v0.1.0", "v1.0.0", "v1.10.2", "v0.0.0-20200102030405-abcdefabcdef", "v1.2.3-rc.1", "v1.2.4-0.20200102030405-abcdefabcdef"}
				switch {
				case strings.HasSuffix(p, "/v2"):
					versions = []string{"v2.0.0", "v2.3.4-beta.2"}
				case strings.HasSuffix(p, ".v3"):
					versions = []string{"v3.0.1", "v3.0.0-20200313102051-9f266ea9e77c"}
				case layout == "vendor":
					versions = append(versions, "v2.0.0+incompatible")
				}
				m.version = world.Pick(rt, versions, "version")
				switch layout {
				case "vendor":
					m.replace = world.Pick(rt, []string{"", "dir", "module"}, "replace")
				case "replace":
					m.replace = "dir"
				case "workspace":
					m.used = world.Pct(rt, 50, "used")
					if !m.used {
						m.replace = "dir"
					}
				}
				mods = append(mods, m)
			}
			type pkg struct {
				path, dir, name string
				mod             *layoutMod
				imports         []string
			}
			var pkgs []*pkg
			var caps strings.Builder
			std := []string{"errors", "unicode/utf8", "math/bits", "strings", "unsafe"}
			for _, i := range rapid.Permutation(rangeInts(len(mods))).Draw(rt, "modorder") {
				m := mods[i]
				for _, sub := range []string{"", "p", "p/q"}[:rapid.IntRange(1, 3).Draw(rt, "npkgs")] {
					x := &pkg{path: path.Join(m.path, sub), dir: path.Join(m.dir, sub), name: "x", mod: m}
					switch {
					case layout == "vendor" && i > 0:
						x.dir = path.Join("main/vendor", x.path)
					case layout == "gopath":
						x.dir = path.Join("gopath/src", x.path)
					}
					for _, q := range pkgs {
						if world.Pct(rt, 30, "import") && (i == 0 || q.mod != mods[0]) {
							x.imports = append(x.imports, q.path)
						}
					}
					for _, q := range std {
						if world.Pct(rt, 8, "importstd") {
							x.imports = append(x.imports, q)
						}
					}
					pkgs = append(pkgs, x)
				}
			}
			by := map[string]*pkg{}
			tree := map[string]string{}
			fnCap := map[string]string{}
			for _, x := range pkgs {
				by[x.path] = x
				src := "package " + x.name + "\n\n"
				for _, q := range x.imports {
					src += fmt.Sprintf("import _ %q\n", q)
				}
				tree[x.dir+"/a.go"] = src + "\nfunc F() {}\n"
				fnCap[x.path] = world.Pick(rt, []string{"CAPABILITY_FILES", "CAPABILITY_NETWORK", "CAPABILITY_SAFE"}, "cap")
				fmt.Fprintf(&caps, "func %s.F %s\n", x.path, fnCap[x.path])
			}
			env := []string{"CGO_ENABLED=0", "GOWORK=off", "GOFLAGS=-mod=mod"}
			cwd := filepath.Join(dir, "main")
			var gomod, modules strings.Builder
			gomod.WriteString("module example.com/main\n\ngo 1.23\n\n")
			for _, i := range rapid.Permutation(rangeInts(len(mods)-1)).Draw(rt, "requireorder") {
				m := mods[i+1]
				if m.used {
					continue
				}
				fmt.Fprintf(&gomod, "require %s %s\n", m.path, m.version)
				fmt.Fprintf(&modules, "# %s %s", m.path, m.version)
				switch m.replace {
				case "dir":
					fmt.Fprintf(&gomod, "replace %s %s => ../%s\n", m.path, m.version, m.dir)
					fmt.Fprintf(&modules, " => ../%s", m.dir)
				case "module":
					fmt.Fprintf(&gomod, "replace %s %s => fork.org/fork%d v1.7.7\n", m.path, m.version, i)
					fmt.Fprintf(&modules, " => fork.org/fork%d v1.7.7", i)
				}
				modules.WriteString("\n## explicit\n")
				for _, x := range pkgs {
					if x.mod == m {
						modules.WriteString(x.path + "\n")
					}
				}
			}
			switch layout {
			case "gopath":
				cwd = filepath.Join(dir, "gopath", "src")
				env = append(env, "GO111MODULE=off", "GOPATH="+filepath.Join(dir, "gopath"), "GOFLAGS=")
			case "vendor":
				env = append(env, "GOFLAGS=-mod=vendor")
				tree["main/vendor/modules.txt"] = modules.String()
				tree["main/go.mod"] = gomod.String()
			default:
				tree["main/go.mod"] = gomod.String()
				work := "go 1.23\n\nuse ../main\n"
				for _, m := range mods[1:] {
					tree[m.dir+"/go.mod"] = fmt.Sprintf("module %s\n\ngo 1.23\n", m.path)
					if m.used {
						work += "use ../" + m.dir + "\n"
					}
				}
				if layout == "workspace" {
					tree["work/go.work"] = work
					env = append(env, "GOFLAGS=", "GOWORK="+filepath.Join(dir, "work", "go.work"))
				}
			}
			tree[strings.TrimPrefix(cwd, dir+"/")+"/user.cm"] = caps.String()
			var names []string
			for _, x := range pkgs {
				names = append(names, x.path)
			}
			q := rapid.SliceOfNDistinct(rapid.SampledFrom(names), 1, min(3, len(names)), rapid.ID[string]).Draw(rt, "queried")
			args := []string{"-output=json", "-capability_map=user.cm", "-disable_builtin", "-packages=" + strings.Join(q, ",")}
			writeTree(dir, tree)

			closure := map[string]bool{}
			var visit func(p string)
			visit = func(p string) {
				if x := by[p]; x != nil && !closure[p] {
					closure[p] = true
					for _, i := range x.imports {
						visit(i)
					}
				}
			}
			want, wantMods := map[string]bool{}, map[string]bool{}
			for _, p := range q {
				visit(p)
				if fnCap[p] != "CAPABILITY_SAFE" {
					want[p+".F|"+fnCap[p]] = true
				}
			}
			for p := range closure {
				if m := by[p].mod; !m.used && layout != "gopath" {
					wantMods[m.path+" "+m.version] = true
				}
			}
			desc := func() string {
				var b strings.Builder
				fmt.Fprintf(&b, "%s: %s capslock %q\n", layout, strings.Join(env, " "), args)
				for _, m := range mods {
					fmt.Fprintf(&b, "module %v\n", m)
				}
				for _, f := range world.SortedKeys(tree) {
					fmt.Fprintf(&b, "-- %s --\n%s", f, tree[f])
				}
				return b.String()
			}
			outside := false
			for p := range closure {
				outside = outside || by[p].mod != mods[0]
			}
			c.Seen(desc(), outside)
			c.Class(layout, true)
			c.Class("two or more dependency modules", len(wantMods) >= 2)
			cil := parseReport(rt, c, command(cwd, env, filepath.Join(binDir, "capslock"), args...), desc)
			if missing, extra := world.Diff(want, pairsOf(cil)); len(missing)+len(extra) > 0 {
				c.Fail(rt, "report\n%s\n\n%s", diffText(missing, extra), desc())
			}
			var gotPkgs, gotMods []string
			for _, p := range cil.GetPackageInfo() {
				gotPkgs = append(gotPkgs, p.GetPath())
			}
			for _, m := range cil.GetModuleInfo() {
				gotMods = append(gotMods, m.GetPath()+" "+m.GetVersion())
			}
			if a, b := strings.Join(world.SortedKeys(closure), "\n"), strings.Join(gotPkgs, "\n"); a != b {
				c.Fail(rt, "package information\ngot:\n%s\nwant:\n%s\n\n%s", b, a, desc())
			}
			// Modules are sorted by their path.
			wm := world.SortedKeys(wantMods)
			sort.Slice(wm, func(i, j int) bool {
				a, _, _ := strings.Cut(wm[i], " ")
				b, _, _ := strings.Cut(wm[j], " ")
				return a < b
			})
			if a, b := strings.Join(wm, "\n"), strings.Join(gotMods, "\n"); a != b {
				c.Fail(rt, "module information\ngot:\n%s\nwant:\n%s\n\n%s", b, a, desc())
			}
		})
}

func rangeInts(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}
