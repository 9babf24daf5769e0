package checks

import (
	"archive/zip"
	"bytes"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	cpb "github.com/google/capslock/proto"
	"google.golang.org/protobuf/encoding/protojson"
	"pgregory.net/rapid"
	"verif/harness/world"
)

// remoteMod is a module that only the module proxy has.
type remoteMod struct {
	path     string
	versions []string // in increasing order
	subs     []string // import paths of its packages
	// Per version and package, the functions, and what each calls: an
	// operation, or a function of another module's package.
	funcs map[string]map[string][]remoteFunc
	// Per version, the required versions of other modules.
	requires map[string]map[*remoteMod]string
	// Per version, a package that does not compile ("" for none).
	broken map[string]string
}

type remoteFunc struct {
	name string
	op   string
	when string // "", or a flag that the function needs
	mod  *remoteMod
	pkg  string
	fn   string
}

// Operations of the standard library that are cheap to analyse.
var remoteOps = map[string]string{
	"os.Getenv(\"x\")":                 "CAPABILITY_READ_SYSTEM_STATE",
	"os.ReadFile(\"x\")":               "CAPABILITY_FILES",
	"os.Setenv(\"x\", \"\")":           "CAPABILITY_MODIFY_SYSTEM_STATE",
	"runtime.Goexit()":                 "CAPABILITY_RUNTIME",
	"os.StartProcess(\"x\", nil, nil)": "CAPABILITY_EXEC",
	"strings.ToUpper(\"x\")":           "",
}

var remoteOpNames = world.SortedKeys(remoteOps)

// The files of functions that are only there with a flag.
var remoteWhen = map[string][2]string{
	"-buildtags=special": {"tagged.go", "//go:build special\n\n"},
	"-goos=freebsd":      {"x_freebsd.go", ""},
	"-goarch=arm64":      {"x_arm64.go", ""},
}

var remoteWhenFlags = world.SortedKeys(remoteWhen)

func (m *remoteMod) files(v string) map[string]string {
	out := map[string]string{}
	var b strings.Builder
	fmt.Fprintf(&b, "module %s\n\ngo 1.21\n", m.path)
	var reqs []string
	for d, dv := range m.requires[v] {
		reqs = append(reqs, fmt.Sprintf("\nrequire %s %s\n", d.path, dv))
	}
	sort.Strings(reqs)
	b.WriteString(strings.Join(reqs, ""))
	out["go.mod"] = b.String()
	for p, all := range m.funcs[v] {
		rel := strings.TrimPrefix(strings.TrimPrefix(p, m.path), "/")
		name := strings.ToLower(path.Base(strings.TrimSuffix(p, "/v2")))
		var fs []remoteFunc
		for _, f := range all {
			if f.when == "" {
				fs = append(fs, f)
				continue
			}
			std, _, _ := strings.Cut(f.op, ".")
			file := remoteWhen[f.when]
			out[path.Join(rel, file[0])] = fmt.Sprintf("%spackage %s\n\nimport %q\n\nfunc %s() { %s }\n", file[1], name, std, f.name, f.op)
		}
		var b, imp strings.Builder
		seen := map[string]bool{}
		add := func(path, alias string) string {
			if !seen[path] {
				seen[path] = true
				fmt.Fprintf(&imp, "import %s %q\n", alias, path)
			}
			return alias
		}
		for _, f := range fs {
			if f.mod != nil {
				a := "p" + strings.Map(func(r rune) rune {
					if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' {
						return r
					}
					return '_'
				}, f.pkg)
				fmt.Fprintf(&b, "\nfunc %s() { %s.%s() }\n", f.name, add(f.pkg, a), f.fn)
				continue
			}
			std, _, _ := strings.Cut(f.op, ".")
			add(std, std)
			fmt.Fprintf(&b, "\nfunc %s() { %s }\n", f.name, f.op)
		}
		if m.broken[v] == p {
			b.WriteString("\nvar broken int = \"string\"\n")
		}
		out[path.Join(rel, "x.go")] = fmt.Sprintf("package %s\n\n%s%s", name, imp.String(), b.String())
	}
	return out
}

// caps returns the capability of a function.
func (m *remoteMod) cap(sel func(*remoteMod) string, pkg, fn string) string {
	for _, f := range m.funcs[sel(m)][pkg] {
		if f.name == fn {
			if f.mod != nil {
				return f.mod.cap(sel, f.pkg, f.fn)
			}
			return remoteOps[f.op]
		}
	}
	panic("generator error: no function " + pkg + "." + fn)
}

// escapeModule is the module proxy's spelling of a module path.
func escapeModule(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'A' && r <= 'Z' {
			b.WriteByte('!')
			r += 'a' - 'A'
		}
		b.WriteRune(r)
	}
	return b.String()
}

// writeProxy makes a module proxy.
func writeProxy(dir string, mods []*remoteMod) {
	for _, m := range mods {
		at := filepath.Join(dir, escapeModule(m.path), "@v")
		if err := os.MkdirAll(at, 0o777); err != nil {
			panic(err)
		}
		write := func(name string, data []byte) {
			if err := os.WriteFile(filepath.Join(at, name), data, 0o666); err != nil {
				panic(err)
			}
		}
		write("list", []byte(strings.Join(m.versions, "\n")+"\n"))
		for _, v := range m.versions {
			fs := m.files(v)
			write(v+".mod", []byte(fs["go.mod"]))
			write(v+".info", []byte(fmt.Sprintf(`{"Version":%q,"Time":"2024-01-02T03:04:05Z"}`, v)))
			var b bytes.Buffer
			z := zip.NewWriter(&b)
			for _, n := range world.SortedKeys(fs) {
				w, err := z.Create(m.path + "@" + v + "/" + n)
				if err == nil {
					_, err = w.Write([]byte(fs[n]))
				}
				if err != nil {
					panic(err)
				}
			}
			if err := z.Close(); err != nil {
				panic(err)
			}
			write(v+".zip", b.Bytes())
		}
	}
}

// listTree lists the files below dir with their contents.
func listTree(dir string) string {
	var b strings.Builder
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			panic(err)
		}
		fmt.Fprintf(&b, "%s %v\n", p, fi.Mode())
		if fi.Mode().IsRegular() {
			data, err := os.ReadFile(p)
			if err != nil {
				panic(err)
			}
			fmt.Fprintf(&b, "%q\n", data)
		}
		return nil
	})
	return b.String()
}

func genRemote(rt *rapid.T) []*remoteMod {
	names := []string{"example.com/dep0", "example.com/Dep1", "example.org/x/dep2/v2"}
	n := rapid.IntRange(1, 3).Draw(rt, "nmods")
	// Later modules first, because earlier ones use them.
	mods := make([]*remoteMod, n)
	for i := n - 1; i >= 0; i-- {
		m := &remoteMod{path: names[i], funcs: map[string]map[string][]remoteFunc{}, requires: map[string]map[*remoteMod]string{}, broken: map[string]string{}}
		mods[i] = m
		major := "v1"
		if strings.HasSuffix(m.path, "/v2") {
			major = "v2"
		}
		m.versions = []string{major + ".0.0"}
		for _, v := range []string{".0.1", ".2.0", ".10.0"} {
			if world.Pct(rt, 50, "version") {
				m.versions = append(m.versions, major+v)
			}
		}
		m.subs = []string{m.path}
		for _, s := range []string{"sub", "internal/a", "sub/deep"} {
			if world.Pct(rt, 40, "subpkg") {
				m.subs = append(m.subs, m.path+"/"+s)
			}
		}
		for _, v := range m.versions {
			m.funcs[v] = map[string][]remoteFunc{}
			m.requires[v] = map[*remoteMod]string{}
			for _, p := range m.subs {
				for k := 0; k < 3; k++ {
					f := remoteFunc{name: fmt.Sprintf("F%d", k), op: world.Pick(rt, remoteOpNames, "op")}
					// Only the first module depends on others.
					if i == 0 && n > 1 && world.Pct(rt, 40, "dep") {
						d := mods[1+world.Uniform(rt, n-1, "depmod")]
						f.mod, f.fn, f.op = d, fmt.Sprintf("F%d", world.Uniform(rt, 3, "depfn")), ""
						f.pkg = world.Pick(rt, d.subs, "deppkg")
						if strings.Contains(f.pkg, "internal") {
							f.pkg = d.path
						}
						if m.requires[v][d] == "" {
							m.requires[v][d] = world.Pick(rt, d.versions, "req")
						}
					}
					m.funcs[v][p] = append(m.funcs[v][p], f)
				}
				for k, when := range remoteWhenFlags {
					if world.Pct(rt, 30, "conditional") {
						m.funcs[v][p] = append(m.funcs[v][p], remoteFunc{name: fmt.Sprintf("W%d", k), op: world.Pick(rt, remoteOpNames, "op"), when: when})
					}
				}
			}
		}
	}
	return mods
}

func TestC20_Remote(t *testing.T) {
	ncache := 0
	checkCLI(t, "random modules in several versions that only a module proxy on disk has, depending on each other, with functions in files that need a build tag, GOOS or GOARCH, named by package or pattern and analysed by the command, with the flags for these or without, from a directory in an unrelated module, without a module, in a workspace, or in a module that has them in an older version; reported functions, module versions and comparison with a baseline by relative path against the versions that the go command would select; failures (unknown or broken packages, -force_local_module) must exit 2 without a report; directories must be left as they were; non-trivial: something is reported",
		90, 15, func(rt *rapid.T, c *Ctx, dir string) {
			mods := genRemote(rt)
			// What is asked for.
			named := map[*remoteMod]bool{}
			want := map[string]*remoteMod{} // packages
			var pats []string
			for i := rapid.IntRange(1, 2).Draw(rt, "npats"); i > 0; i-- {
				m := world.Pick(rt, mods, "mod")
				named[m] = true
				if world.Pct(rt, 30, "wildcard") {
					pats = append(pats, m.path+"/...")
					for _, p := range m.subs {
						want[p] = m
					}
				} else {
					p := world.Pick(rt, m.subs, "pkg")
					pats = append(pats, p)
					want[p] = m
				}
			}
			fault := ""
			var extra []string
			if world.Pct(rt, 25, "fault") {
				fault = world.Pick(rt, []string{"unknown module", "unknown package", "broken", "force"}, "faultkind")
				switch fault {
				case "unknown module":
					pats = append(pats, "example.com/nothere")
				case "unknown package":
					pats = append(pats, mods[0].path+"/nothere")
				case "broken":
					for _, p := range world.SortedKeys(want) {
						m := want[p]
						if len(want) == 1 || p == m.path || strings.HasSuffix(p, "sub") {
							m.broken[m.versions[len(m.versions)-1]] = p
							break
						}
					}
				case "force":
					extra = append(extra, "-force_local_module")
				}
			}
			flags := map[string]bool{}
			if world.Uniform(rt, 2, "flags") == 0 {
				for _, f := range remoteWhenFlags {
					if world.Uniform(rt, 2, "flag") == 0 {
						flags[f] = true
						extra = append(extra, f)
					}
				}
			}
			brokenAny := false
			for _, m := range mods {
				brokenAny = brokenAny || len(m.broken) > 0
			}
			if fault == "broken" && !brokenAny {
				fault = ""
			}
			where := world.Pick(rt, []string{"module", "module", "nothing", "workspace", "tmpworkspace", "older"}, "where")
			if where == "older" && fault != "" {
				where = "module"
			}
			latest := func(m *remoteMod) string { return m.versions[len(m.versions)-1] }
			sel := func(m *remoteMod) string {
				if named[m] {
					return latest(m)
				}
				return mods[0].requires[latest(mods[0])][m]
			}
			cur := map[string]string{"map.cm": "# nothing\n"}
			if where != "nothing" {
				cur["go.mod"] = "module example.com/current\n\ngo 1.21\n"
				cur["main.go"] = "package current\n"
			}
			if where == "older" {
				// Everything is available at the first version, here.
				var mod strings.Builder
				mod.WriteString(cur["go.mod"])
				for i, m := range mods {
					v := m.versions[0]
					if r := mods[0].requires[mods[0].versions[0]][m]; r != "" {
						v = r
					}
					fmt.Fprintf(&mod, "\nrequire %s %s\n\nreplace %s => ./dep/m%d\n", m.path, v, m.path, i)
					for n, s := range m.files(m.versions[0]) {
						cur[fmt.Sprintf("dep/m%d/%s", i, n)] = s
					}
				}
				cur["go.mod"] = mod.String()
				sel = func(m *remoteMod) string { return m.versions[0] }
			}
			files := map[string]string{}
			for n, s := range cur {
				files["cur/"+n] = s
			}
			files["tmp/keep"] = ""
			// The go command remembers what it found in a module cache.
			ncache++
			cache := filepath.Join(dir, fmt.Sprintf("modcache%d", ncache))
			switch where {
			case "workspace":
				files["go.work"] = "go 1.21\n\nuse ./cur\n"
			case "tmpworkspace":
				files["tmp/go.work"] = "go 1.21\n\nuse ./nothere\n"
			}
			pairs := map[string]bool{}
			for p, m := range want {
				for _, f := range m.funcs[sel(m)][p] {
					if f.when != "" && !flags[f.when] {
						continue
					}
					if k := m.cap(sel, p, f.name); k != "" {
						pairs[p+"."+f.name+"|"+k] = true
					}
				}
			}
			desc := func() string {
				var b strings.Builder
				fmt.Fprintf(&b, "packages %q from %q fault %q flags %q\n", pats, where, fault, extra)
				for _, m := range mods {
					for _, v := range m.versions {
						fs := m.files(v)
						for _, n := range world.SortedKeys(fs) {
							fmt.Fprintf(&b, "-- %s@%s/%s --\n%s\n", m.path, v, n, fs[n])
						}
					}
				}
				return b.String()
			}
			c.Seen(desc(), len(pairs) > 0 && fault == "")
			c.Class("from:"+where, true)
			c.Class("fault:"+fault, fault != "")
			for f := range flags {
				c.Class("with "+f, true)
			}
			c.Class("several versions", len(mods[0].versions) > 1)
			c.Class("with dependencies", len(mods[0].requires[latest(mods[0])]) > 0)
			writeTree(dir, files)
			writeProxy(filepath.Join(dir, "proxy"), mods)
			cwd := filepath.Join(dir, "cur")
			before, beforeTmp := listTree(cwd), listTree(filepath.Join(dir, "tmp"))
			run := func(args ...string) result {
				env := []string{"GOPROXY=file://" + filepath.Join(dir, "proxy"), "GOMODCACHE=" + cache, "GOFLAGS=-modcacherw", "GOSUMDB=off", "GONOSUMDB=*", "GOTOOLCHAIN=local", "GOWORK=", "TMPDIR=" + filepath.Join(dir, "tmp"), "CGO_ENABLED=0"}
				r := command(cwd, env, filepath.Join(binDir, "capslock"), append(append([]string{"-packages=" + strings.Join(pats, ",")}, extra...), args...)...)
				if after := listTree(cwd); after != before {
					a, b := firstDifference(before, after)
					c.Fail(rt, "the current directory has changed\nbefore: %s\nafter:  %s\n%s\n\n%s", a, b, r, desc())
				}
				if after := listTree(filepath.Join(dir, "tmp")); after != beforeTmp {
					a, b := firstDifference(beforeTmp, after)
					c.Fail(rt, "the temporary directory has changed\nbefore: %s\nafter:  %s\n%s\n\n%s", a, b, r, desc())
				}
				return r
			}
			if fault != "" {
				args := [][]string{{"-output=json"}, {"-output=m"}, {}, {"-output=graph"}, {"-output=v"}, {"-output=compare", "-granularity=package", "base.json"}}[world.Uniform(rt, 6, "faultmode")]
				if r := run(args...); r.code != 2 || r.stdout != "" || r.stderr == "" {
					c.Fail(rt, "an analysis that cannot be made must exit 2 without a report\n%s\n\n%s", r, desc())
				}
				return
			}
			r := run("-output=json", "-granularity=function")
			cil := parseReport(rt, c, r, desc)
			if missing, extra := world.Diff(pairs, pairsOf(cil)); len(missing)+len(extra) > 0 {
				c.Fail(rt, "%s\n\n%s", diffText(missing, extra), desc())
			}
			for _, mi := range cil.GetModuleInfo() {
				for _, m := range mods {
					if mi.GetPath() == m.path && where != "older" && mi.GetVersion() != sel(m) {
						c.Fail(rt, "module %s is given version %s, want %s\n\n%s", m.path, mi.GetVersion(), sel(m), desc())
					}
				}
			}
			if !world.Pct(rt, 50, "compare") {
				return
			}
			// A baseline with one entry removed or added.
			base := &cpb.CapabilityInfoList{CapabilityInfo: cil.CapabilityInfo}
			wantCode := 0
			if n := len(base.CapabilityInfo); n > 0 && world.Pct(rt, 50, "differ") {
				base.CapabilityInfo = base.CapabilityInfo[1:]
				wantCode = 1
			}
			text, err := protojson.Marshal(base)
			if err != nil {
				panic(err)
			}
			name := world.Pick(rt, []string{"base.json", "saved/base.json", "../cur/base.json"}, "basename")
			full := filepath.Join(cwd, name)
			if err := os.MkdirAll(filepath.Dir(full), 0o777); err != nil {
				panic(err)
			}
			if err := os.WriteFile(full, text, 0o666); err != nil {
				panic(err)
			}
			before = listTree(cwd)
			if r := run("-output=compare", "-granularity=function", name); r.code != wantCode {
				c.Fail(rt, "comparison with %s: exit status %d, want %d\n%s\n\n%s", name, r.code, wantCode, r, desc())
			}
			c.Class("compared", true)
		})
}
