package world

import (
	_ "embed"
	"fmt"
	"os"
	"sort"
	"strings"
	"unicode"

	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/callgraph"
)

// Cap is a capability.
type Cap = cpb.Capability

const (
	Unspecified = cpb.Capability_CAPABILITY_UNSPECIFIED
	Safe        = cpb.Capability_CAPABILITY_SAFE
	Unanalyzed  = cpb.Capability_CAPABILITY_UNANALYZED
	Unsafe      = cpb.Capability_CAPABILITY_UNSAFE_POINTER
	Reflect     = cpb.Capability_CAPABILITY_REFLECT
	ArbExec     = cpb.Capability_CAPABILITY_ARBITRARY_EXECUTION
	Cgo         = cpb.Capability_CAPABILITY_CGO
	Files       = cpb.Capability_CAPABILITY_FILES
	Network     = cpb.Capability_CAPABILITY_NETWORK
)

// AllCaps lists every capability value in numeric order.
var AllCaps = func() []Cap {
	var out []Cap
	for v := range cpb.Capability_name {
		out = append(out, Cap(v))
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}()

// RealCaps is AllCaps without UNSPECIFIED and SAFE.
var RealCaps = func() []Cap {
	var out []Cap
	for _, c := range AllCaps {
		if c != Unspecified && c != Safe {
			out = append(out, c)
		}
	}
	return out
}()

// RefMap is the reference model of a capability map.
type RefMap struct {
	Funcs, Pkgs map[string]Cap
	Unan        map[string]bool
	Edges       map[[2]string]bool
	Suffixes    map[string]bool
}

func NewRefMap() *RefMap {
	return &RefMap{Funcs: map[string]Cap{}, Pkgs: map[string]Cap{}, Unan: map[string]bool{}, Edges: map[[2]string]bool{}, Suffixes: map[string]bool{}}
}

// ParseRef is an independent parser for capability map files.  badLine is the
// number of the first line that must be rejected, or 0.
func ParseRef(text string) (m *RefMap, badLine int) {
	m = NewRefMap()
	for n, line := range strings.Split(text, "\n") {
		n++
		if i := strings.IndexByte(line, '#'); i >= 0 {
			line = line[:i]
		}
		f := strings.FieldsFunc(line, unicode.IsSpace)
		if len(f) == 0 {
			continue
		}
		arg := func(i int) string {
			if i < len(f) {
				return f[i]
			}
			return ""
		}
		capOf := func(s string) (Cap, bool) {
			for v, name := range cpb.Capability_name {
				if name == s {
					return Cap(v), true
				}
			}
			return 0, false
		}
		ok := false
		switch f[0] {
		case "func", "package":
			dst := m.Funcs
			if f[0] == "package" {
				dst = m.Pkgs
			}
			if len(f) >= 3 {
				_, dup := dst[arg(1)]
				if c, known := capOf(arg(2)); known && !dup {
					dst[arg(1)] = c
					ok = true
				}
			}
		case "unanalyzed":
			if len(f) >= 2 && !m.Unan[arg(1)] {
				m.Unan[arg(1)] = true
				ok = true
			}
		case "ignore_edge":
			if len(f) >= 3 && !m.Edges[[2]string{arg(1), arg(2)}] {
				m.Edges[[2]string{arg(1), arg(2)}] = true
				ok = true
			}
		case "cgo_suffix":
			if len(f) >= 2 {
				m.Suffixes[arg(1)] = true
				ok = true
			}
		}
		if !ok {
			return m, n
		}
	}
	return m, 0
}

//go:embed frozen.cm
var frozen string

// Frozen returns the built-in map as it was when the checks were written.
func Frozen() *RefMap {
	m, bad := ParseRef(frozen)
	if bad != 0 {
		panic(fmt.Sprintf("frozen map: bad line %d", bad))
	}
	return m
}

// Builtin returns the reference model of the built-in map, read from the
// source tree under test if it is there.
func Builtin() *RefMap {
	b, err := os.ReadFile(RepoDir() + "/interesting/interesting.cm")
	if err != nil {
		return Frozen()
	}
	m, bad := ParseRef(string(b))
	if bad != 0 {
		return Frozen()
	}
	return m
}

// RepoDir is the source tree under test.
func RepoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// Category is the reference lookup.
func (m *RefMap) Category(pkg, name string) Cap {
	for s := range m.Suffixes {
		if strings.HasSuffix(name, s) {
			return Cgo
		}
	}
	if c, ok := m.Funcs[name]; ok {
		return c
	}
	if m.Unan[name] {
		return Unanalyzed
	}
	return m.Pkgs[pkg]
}

// FunctionCategory and IncludeCall make a RefMap usable as a classifier.
func (m *RefMap) FunctionCategory(pkg, name string) Cap { return m.Category(pkg, name) }
func (m *RefMap) IncludeCall(e *callgraph.Edge) bool {
	return !m.Edges[[2]string{e.Caller.Func.String(), e.Callee.Func.String()}]
}

// Over returns the map in which the entries of user override those of m.
func (m *RefMap) Over(user *RefMap) *RefMap {
	out := NewRefMap()
	for _, x := range []*RefMap{m, user} {
		for k := range x.Unan {
			// What a file says about a function replaces what was known.
			delete(out.Funcs, k)
		}
		for k, v := range x.Funcs {
			out.Funcs[k] = v
		}
		for k, v := range x.Pkgs {
			out.Pkgs[k] = v
		}
		for k := range x.Unan {
			out.Unan[k] = true
		}
		for k := range x.Edges {
			out.Edges[k] = true
		}
		for k := range x.Suffixes {
			out.Suffixes[k] = true
		}
	}
	return out
}

// WithoutUnanalyzed returns the map without anything that says UNANALYZED.
func (m *RefMap) WithoutUnanalyzed() *RefMap {
	out := NewRefMap().Over(m)
	out.Unan = map[string]bool{}
	for k, v := range out.Funcs {
		if v == Unanalyzed {
			delete(out.Funcs, k)
		}
	}
	for k, v := range out.Pkgs {
		if v == Unanalyzed {
			delete(out.Pkgs, k)
		}
	}
	return out
}

// Text renders the map as a capability map file.
func (m *RefMap) Text() string {
	var l []string
	for k, v := range m.Funcs {
		l = append(l, fmt.Sprintf("func %s %s", k, v))
	}
	for k, v := range m.Pkgs {
		l = append(l, fmt.Sprintf("package %s %s", k, v))
	}
	for k := range m.Unan {
		l = append(l, "unanalyzed "+k)
	}
	for k := range m.Edges {
		l = append(l, "ignore_edge "+k[0]+" "+k[1])
	}
	for k := range m.Suffixes {
		l = append(l, "cgo_suffix "+k)
	}
	sort.Strings(l)
	return strings.Join(l, "\n") + "\n"
}

// Node is a function in the reference call graph.
type Node struct {
	Name    string // name in reports
	Pkg     string // package path
	Class   string // name used for classification
	Listed  bool   // a declared function, closure or init: can be listed in reports
	NoClass bool   // cannot be classified
	Extra   map[Cap]bool
}

// Model is a reference call graph.
type Model struct {
	Nodes map[string]*Node
	Edges map[[2]string]bool
	inst  map[string]string // instantiation -> generic function
	Mechs map[string]bool   // ways of calling that occur
	owner map[[2]string][]string
	// Known lists certain calls that are known to be missed; they are not in
	// Edges.
	Known map[[2]string]string
}

func NewModel() *Model {
	return &Model{Nodes: map[string]*Node{}, Edges: map[[2]string]bool{}, Mechs: map[string]bool{}}
}

func (m *Model) Node(name, pkg string) *Node {
	n := m.Nodes[name]
	if n == nil {
		n = &Node{Name: name, Pkg: pkg, Class: name, Listed: true, Extra: map[Cap]bool{}}
		m.Nodes[name] = n
	}
	return n
}

// WithKnown returns a model that includes the calls known to be missed.
func (m *Model) WithKnown() *Model {
	x := *m
	x.Edges = map[[2]string]bool{}
	for e := range m.Edges {
		x.Edges[e] = true
	}
	for e := range m.Known {
		x.Edges[e] = true
	}
	return &x
}

func (m *Model) Edge(a, b string) { m.Edges[[2]string{a, b}] = true }

// Solution is what the reference model says about one analysis.
type Solution struct {
	M       *Model
	Cls     *RefMap
	Queried map[string]bool
	Reach   map[Cap]map[string]bool // nodes that have or reach the capability
	Has     map[Cap]map[string]bool // nodes that have it themselves
	explicit,
	safe map[string]bool
	out map[string][]string
}

// Solve computes plain reachability.
func (m *Model) Solve(cls *RefMap, queried map[string]bool, disableBuiltin bool) *Solution {
	s := &Solution{M: m, Cls: cls, Queried: queried, Reach: map[Cap]map[string]bool{}, Has: map[Cap]map[string]bool{}, explicit: map[string]bool{}, safe: map[string]bool{}, out: map[string][]string{}}
	add := func(c Cap, n string) {
		if s.Has[c] == nil {
			s.Has[c] = map[string]bool{}
		}
		s.Has[c][n] = true
	}
	for name, n := range m.Nodes {
		c := cls.Category(n.Pkg, n.Class)
		if n.NoClass {
			c = Unspecified
		}
		switch c {
		case Unspecified:
			if !disableBuiltin {
				for e := range n.Extra {
					add(e, name)
				}
			}
		case Safe:
			s.safe[name] = true
		default:
			s.explicit[name] = true
			add(c, name)
		}
	}
	in := map[string][]string{}
	for e := range m.Edges {
		if cls.Edges[e] {
			continue
		}
		in[e[1]] = append(in[e[1]], e[0])
		s.out[e[0]] = append(s.out[e[0]], e[1])
	}
	for c, start := range s.Has {
		r := map[string]bool{}
		var todo []string
		for n := range start {
			r[n] = true
			todo = append(todo, n)
		}
		for len(todo) > 0 {
			v := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			for _, w := range in[v] {
				if !r[w] && !s.safe[w] && !s.explicit[w] {
					r[w] = true
					todo = append(todo, w)
				}
			}
		}
		s.Reach[c] = r
	}
	return s
}

func (s *Solution) listed(name string) bool {
	n := s.M.Nodes[name]
	return n.Listed && s.Queried[n.Pkg]
}

// Pairs returns "function|capability" for every pair that must be reported.
func (s *Solution) Pairs() map[string]bool {
	out := map[string]bool{}
	for c, r := range s.Reach {
		for n := range r {
			if s.listed(n) {
				out[n+"|"+c.String()] = true
			}
		}
	}
	return out
}

// PackagePairs returns "package|capability".
func (s *Solution) PackagePairs() map[string]bool {
	out := map[string]bool{}
	for c, r := range s.Reach {
		for n := range r {
			if s.listed(n) {
				out[s.M.Nodes[n].Pkg+"|"+c.String()] = true
			}
		}
	}
	return out
}

// on returns the nodes on paths from a queried function to a function with one
// of the capabilities, and the edges of those paths.
func (s *Solution) on(reach map[string]bool) (nodes map[string]bool, edges map[[2]string]bool) {
	nodes, edges = map[string]bool{}, map[[2]string]bool{}
	var todo []string
	for n := range reach {
		if s.listed(n) {
			nodes[n] = true
			todo = append(todo, n)
		}
	}
	for len(todo) > 0 {
		v := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if s.explicit[v] {
			continue
		}
		for _, w := range s.out[v] {
			if !reach[w] {
				continue
			}
			edges[[2]string{v, w}] = true
			if !nodes[w] {
				nodes[w] = true
				todo = append(todo, w)
			}
		}
	}
	return nodes, edges
}

// IntermediatePairs returns "package|capability" for packages on paths.
func (s *Solution) IntermediatePairs(sel func(Cap) bool) map[string]bool {
	out := map[string]bool{}
	for c, r := range s.Reach {
		if !sel(c) {
			continue
		}
		nodes, _ := s.on(r)
		for n := range nodes {
			out[s.M.Nodes[n].Pkg+"|"+c.String()] = true
		}
	}
	return out
}

// GraphEdges returns the edges of the graph output: the union over the
// selected capabilities, or one joint graph if sel is nil.
func (s *Solution) GraphEdges(sel func(Cap) bool) map[[2]string]bool {
	out := map[[2]string]bool{}
	one := func(reach map[string]bool, caps []Cap) {
		nodes, edges := s.on(reach)
		for e := range edges {
			out[e] = true
		}
		for n := range nodes {
			for _, c := range caps {
				if s.Has[c][n] {
					out[[2]string{n, c.String()}] = true
				}
			}
		}
	}
	all := map[string]bool{}
	var caps []Cap
	for c, r := range s.Reach {
		if sel != nil {
			if sel(c) {
				one(r, []Cap{c})
			}
			continue
		}
		caps = append(caps, c)
		for n := range r {
			all[n] = true
		}
	}
	if sel == nil {
		one(all, caps)
	}
	return out
}

// Diff lists what is missing from and extra in got.
func Diff[K comparable](want, got map[K]bool) (missing, extra []string) {
	for k := range want {
		if !got[k] {
			missing = append(missing, fmt.Sprint(k))
		}
	}
	for k := range got {
		if !want[k] {
			extra = append(extra, fmt.Sprint(k))
		}
	}
	sort.Strings(missing)
	sort.Strings(extra)
	return
}

// Cuts reports whether a safe or explicitly classified function has calls that
// would matter if it had no classification.
func (s *Solution) Cuts() bool {
	for _, set := range []map[string]bool{s.safe, s.explicit} {
		for n := range set {
			for _, w := range s.out[n] {
				for _, r := range s.Reach {
					if r[w] {
						return true
					}
				}
			}
		}
	}
	return false
}

// IgnoredMatters reports whether an ignored call leads to a capability.
func (s *Solution) IgnoredMatters() bool {
	for e := range s.M.Edges {
		if s.Cls.Edges[e] {
			for _, r := range s.Reach {
				if r[e[1]] {
					return true
				}
			}
		}
	}
	return false
}
