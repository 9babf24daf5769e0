// Package world builds small Go programs, loads them for analysis without
// running the go command, and holds the reference models that the checks
// compare capslock with.
package world

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"maps"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// File is one source file of a generated package.
type File struct {
	Name string // base name
	Src  string
}

// SrcPkg is the source of one generated package.
type SrcPkg struct {
	Path    string
	Files   []File
	Queried bool
	Fixed   string // if set, printed instead of the source
}

// Program is a list of packages in dependency order.
type Program []SrcPkg

// String prints the program, for replay files.
func (p Program) String() string {
	var b strings.Builder
	for _, s := range p {
		q := ""
		if s.Queried {
			q = " (queried)"
		}
		if s.Fixed != "" {
			fmt.Fprintf(&b, "-- %s%s: %s --\n", s.Path, q, s.Fixed)
			continue
		}
		for _, f := range s.Files {
			fmt.Fprintf(&b, "-- %s/%s%s --\n%s\n", s.Path, f.Name, q, strings.TrimRight(f.Src, "\n"))
		}
	}
	return b.String()
}

// Loaded is a type-checked program.
type Loaded struct {
	Fset    *token.FileSet
	All     map[string]*packages.Package
	Queried []*packages.Package
}

type importer map[string]*packages.Package

func (m importer) Import(p string) (*types.Package, error) {
	if q, ok := m[p]; ok {
		return q.Types, nil
	}
	return nil, fmt.Errorf("no package %q", p)
}

// Load parses and type-checks a program.  An error means that the generator
// produced something that is not valid Go.
func Load(prog Program) (*Loaded, error) {
	fset := token.NewFileSet()
	m := make(importer)
	m["unsafe"] = &packages.Package{ID: "unsafe", PkgPath: "unsafe", Name: "unsafe", Types: types.Unsafe, Fset: fset, TypesInfo: newInfo(), Syntax: []*ast.File{}, Imports: map[string]*packages.Package{}}
	return load(fset, m, prog)
}

// LoadOver is Load for a program that may import packages of base.
func LoadOver(base *Loaded, prog Program) (*Loaded, error) {
	return load(base.Fset, maps.Clone(importer(base.All)), prog)
}

func load(fset *token.FileSet, m importer, prog Program) (*Loaded, error) {
	l := &Loaded{Fset: fset, All: m}
	for _, s := range prog {
		p := &packages.Package{ID: s.Path, PkgPath: s.Path, Fset: fset, Imports: make(map[string]*packages.Package), TypesInfo: newInfo()}
		for _, f := range s.Files {
			name := path.Join("/w", s.Path, f.Name)
			af, err := parser.ParseFile(fset, name, f.Src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, fmt.Errorf("parse: %w\n%s", err, f.Src)
			}
			p.Syntax = append(p.Syntax, af)
			p.GoFiles = append(p.GoFiles, name)
			p.CompiledGoFiles = append(p.CompiledGoFiles, name)
			p.Name = af.Name.Name
			for _, i := range af.Imports {
				q := strings.Trim(i.Path.Value, `"`)
				if m[q] == nil {
					return nil, fmt.Errorf("%s imports unknown package %q", s.Path, q)
				}
				p.Imports[q] = m[q]
			}
		}
		cfg := types.Config{Importer: m, GoVersion: "go1.23", Sizes: types.SizesFor("gc", "amd64")}
		t, err := cfg.Check(s.Path, fset, p.Syntax, p.TypesInfo)
		if err != nil {
			var b strings.Builder
			for _, f := range s.Files {
				b.WriteString(f.Src)
			}
			return nil, fmt.Errorf("typecheck: %w\n%s", err, b.String())
		}
		p.Types, p.TypesSizes = t, cfg.Sizes
		m[s.Path] = p
		if s.Queried {
			l.Queried = append(l.Queried, p)
		}
	}
	return l, nil
}

func newInfo() *types.Info {
	return &types.Info{
		Types:        make(map[ast.Expr]types.TypeAndValue),
		Defs:         make(map[*ast.Ident]types.Object),
		Uses:         make(map[*ast.Ident]types.Object),
		Implicits:    make(map[ast.Node]types.Object),
		Instances:    make(map[*ast.Ident]types.Instance),
		Scopes:       make(map[ast.Node]*types.Scope),
		Selections:   make(map[*ast.SelectorExpr]*types.Selection),
		FileVersions: make(map[*ast.File]string),
	}
}

// SortedKeys returns the keys of m in order.
func SortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
