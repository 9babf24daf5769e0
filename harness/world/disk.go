package world

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Module is a module that worlds on disk are made of.
type Module struct{ Path, Version, Dir string }

// Modules lists the modules; the first is the main module.
var Modules = []Module{
	{"example.com/m", "", "."},
	{"other.org/lib/v2", "v2.3.4", "mods/lib"},
	{"nodot/pkg", "v0.0.1", "mods/nodot"},
	{"gopkg.in/yaml.v3", "v3.0.0-20200313102051-9f266ea9e77c", "mods/yaml"},
	{"example.com/n-dash", "v1.10.0", "mods/ndash"},
}

var diskPaths = []string{"example.com/m/alpha", "example.com/m/beta", "example.com/m", "other.org/lib/v2", "nodot/pkg", "gopkg.in/yaml.v3", "example.com/m/alpha/gamma", "example.com/n-dash/alpha"}

// ModuleOf returns the module of a package.
func ModuleOf(pkg string) Module {
	for _, m := range Modules {
		if pkg == m.Path || strings.HasPrefix(pkg, m.Path+"/") {
			return m
		}
	}
	panic("no module for " + pkg)
}

// DirOf returns the directory of a package, relative to the main module.
func DirOf(pkg string) string {
	m := ModuleOf(pkg)
	return path.Join(m.Dir, strings.TrimPrefix(pkg, m.Path))
}

// GenDisk draws a world that can be written out as Go modules.
func GenDisk(t *rapid.T) *Abstract { return genAbstract(t, true) }

// Files lays a program out as modules: file name -> content.
func (p Program) FilesOnDisk() map[string]string {
	out := map[string]string{}
	var req, repl strings.Builder
	for _, m := range Modules {
		if m.Version != "" {
			fmt.Fprintf(&req, "\t%s %s\n", m.Path, m.Version)
			fmt.Fprintf(&repl, "\t%s => ./%s\n", m.Path, m.Dir)
			out[m.Dir+"/go.mod"] = fmt.Sprintf("module %s\n\ngo 1.23\n", m.Path)
		}
	}
	out["go.mod"] = fmt.Sprintf("module %s\n\ngo 1.23\n\nrequire (\n%s)\n\nreplace (\n%s)\n", Modules[0].Path, req.String(), repl.String())
	for _, s := range p {
		for _, f := range s.Files {
			out[path.Join(DirOf(s.Path), f.Name)] = f.Src
		}
		out[path.Join(DirOf(s.Path), "empty.s")] = "// functions without a body\n"
	}
	return out
}

// WriteTree writes files below dir.
func WriteTree(dir string, files map[string]string) error {
	names := SortedKeys(files)
	sort.Strings(names)
	for _, n := range names {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(p, []byte(files[n]), 0o644); err != nil {
			return err
		}
	}
	return nil
}
