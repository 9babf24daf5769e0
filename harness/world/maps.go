package world

import (
	"fmt"
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/ssa"
	"pgregory.net/rapid"
)

var edgeProg = ssa.NewProgram(nil, 0)

// NamedEdge returns a call edge between two functions with the given names.
func NamedEdge(caller, callee string) *callgraph.Edge {
	n := func(s string) *callgraph.Node {
		return &callgraph.Node{Func: edgeProg.NewFunction(s, new(types.Signature), "")}
	}
	return &callgraph.Edge{Caller: n(caller), Callee: n(callee)}
}

// MapNames are function names for map files, with names that are close to
// each other.
var MapNames = []string{
	"example.com/a.F", "example.com/a.f", "example.com/a.F2", "example.com/a.FF", "(example.com/a.T).M", "(*example.com/a.T).M", "(*example.com/a.T).M2",
	"example.com/b.F", "example.com/b.F$1", "example.com/a.init", "example.com/a.G[int]", "example.com/a.G", "a.F", "F", "example.com/a.Ü", "(*example.com/a.T[int]).M",
}

// MapPkgs are package paths for map files.
var MapPkgs = []string{"example.com/a", "example.com/b", "example.com/a/sub", "a", "example.com/a.F", "gopkg.in/a.v2", "example.com"}

var mapSuffixes = []string{"._Cfunc_x", "_cgo_x", ".M", "$1", "._Cgo_use"}

// ExtraFields reports whether some line has more fields than its keyword uses
// (what such a line means is not specified).
func ExtraFields(text string) bool {
	n := map[string]int{"func": 3, "package": 3, "ignore_edge": 3, "unanalyzed": 2, "cgo_suffix": 2}
	for _, line := range strings.Split(text, "\n") {
		line, _, _ = strings.Cut(line, "#")
		f := strings.FieldsFunc(line, unicode.IsSpace)
		if len(f) > 0 && n[f[0]] > 0 && len(f) > n[f[0]] {
			return true
		}
	}
	return false
}

// MapLine is one line of a map file.
type MapLine struct {
	Fields []string
	Text   string // if set, printed instead of the fields
}

// GenMapLine draws an entry.  fn and pkg draw names.
func GenMapLine(t *rapid.T, names, pkgs, suffixes []string) MapLine {
	c := func() string {
		if pct(t, 15, "special") {
			return pick(t, []string{"CAPABILITY_UNSPECIFIED", "CAPABILITY_SAFE", "CAPABILITY_UNANALYZED"}, "specialcap")
		}
		return pick(t, AllCaps, "cap").String()
	}
	switch rapid.IntRange(0, 9).Draw(t, "kind") {
	case 0, 1, 2, 3:
		return MapLine{Fields: []string{"func", pick(t, names, "name"), c()}}
	case 4, 5:
		return MapLine{Fields: []string{"package", pick(t, pkgs, "pkg"), c()}}
	case 6, 7:
		return MapLine{Fields: []string{"unanalyzed", pick(t, names, "name")}}
	case 8:
		return MapLine{Fields: []string{"ignore_edge", pick(t, names, "name"), pick(t, names, "name2")}}
	}
	return MapLine{Fields: []string{"cgo_suffix", pick(t, suffixes, "suffix")}}
}

// Key identifies entries that would be duplicates.
func (l MapLine) Key() string {
	if l.Fields[0] == "ignore_edge" {
		return strings.Join(l.Fields, " ")
	}
	return l.Fields[0] + " " + l.Fields[1]
}

var spaces = []string{" ", "  ", "\t", " \t ", " ", "\v", "\f", " ", "\u0085"}

// Render prints the line with random white space and comments.
func (l MapLine) Render(t *rapid.T) string {
	if l.Text != "" {
		return l.Text
	}
	sp := func() string {
		if pct(t, 25, "oddspace") {
			return pick(t, spaces, "space")
		}
		return " "
	}
	s := ""
	if pct(t, 20, "lead") {
		s = sp()
	}
	for i, f := range l.Fields {
		if i > 0 {
			s += sp()
		}
		s += f
	}
	if pct(t, 15, "trail") {
		s += sp()
	}
	if pct(t, 15, "comment") {
		s += pick(t, []string{"#", " # comment", "#func x CAPABILITY_FILES", " ## \x00 é"}, "commenttext")
	}
	return s
}

// GenMapText draws the text of a map file: mostly valid lines, sometimes with
// mistakes, long lines and odd line ends.
func GenMapText(t *rapid.T) string {
	var lines []string
	seen := map[string]bool{}
	n := rapid.IntRange(0, 12).Draw(t, "nlines")
	bad := pct(t, 50, "withmistake")
	for i := 0; i < n; i++ {
		switch {
		case pct(t, 12, "blank"):
			lines = append(lines, pick(t, []string{"", " ", "\t", "#", "# func x", "  # package y CAPABILITY_BOGUS"}, "blankline"))
			continue
		case pct(t, 4, "long"):
			k := pick(t, []int{4000, 4096, 65000, 65535, 65536, 65537, 70000, 140000, 1100000}, "longlen")
			pad := strings.Repeat(pick(t, []string{"x", " ", "é"}, "padding"), k)
			switch rapid.IntRange(0, 3).Draw(t, "longkind") {
			case 0:
				lines = append(lines, "#"+pad)
			case 1:
				lines = append(lines, "func example.com/a.F "+pad)
			case 2:
				lines = append(lines, fmt.Sprintf("func example.com/long%d.F CAPABILITY_FILES #%s", i, pad))
			case 3:
				lines = append(lines, fmt.Sprintf("func example.com/long%d.%s CAPABILITY_NETWORK", i, strings.ReplaceAll(pad, " ", "y")))
			}
			continue
		}
		l := GenMapLine(t, MapNames, MapPkgs, mapSuffixes)
		if seen[l.Key()] && (!bad || l.Fields[0] == "cgo_suffix") {
			continue
		}
		seen[l.Key()] = true
		s := l.Render(t)
		if bad && pct(t, 12, "mistake") {
			switch rapid.IntRange(0, 7).Draw(t, "mistakekind") {
			case 0:
				l.Fields = l.Fields[:len(l.Fields)-1]
			case 1:
				l.Fields[0] = pick(t, []string{"Func", "fun", "funcs", "pkg", "packages", "ignore", "ignored_edge", "cgo_suffixes", "unanalysed", "FUNC", "CAPABILITY_FILES", "func:", "\ufefffunc"}, "keyword")
			case 2:
				l.Fields[len(l.Fields)-1] = pick(t, []string{"FILES", "CAPABILITY_FILE", "capability_files", "CAPABILITY_", "5", "CAPABILITY_FILES,CAPABILITY_NETWORK", "CAPABILITY_FILES;"}, "wrongcap")
			case 3:
				l.Fields = l.Fields[:1]
			case 4:
				l.Fields[rapid.IntRange(0, len(l.Fields)-1).Draw(t, "hashfield")] += "#x"
			case 5:
				l.Fields = l.Fields[1:]
			case 6: // duplicate of an earlier line
				if len(lines) > 0 {
					l = MapLine{Text: pick(t, lines, "dup")}
				}
			case 7:
				l = MapLine{Text: rapid.StringN(1, 20, -1).Draw(t, "junk")}
			}
			if l.Text == "" {
				s = l.Render(t)
			} else {
				s = l.Text
			}
			s = strings.ReplaceAll(s, "\n", "")
		}
		lines = append(lines, s)
	}
	if pct(t, 8, "manylines") {
		k := rapid.IntRange(100, 3000).Draw(t, "nmany")
		for i := 0; i < k; i++ {
			lines = append(lines, fmt.Sprintf("func example.com/many.F%d %v", i, AllCaps[i%len(AllCaps)]))
		}
		if pct(t, 50, "lastbad") && bad {
			lines = append(lines, "func example.com/many.F7 CAPABILITY_FILES")
		}
	}
	nl := "\n"
	if pct(t, 20, "crlf") {
		nl = "\r\n"
	}
	text := strings.Join(lines, nl)
	if len(lines) > 0 && pct(t, 70, "finalnl") {
		text += nl
	}
	if pct(t, 5, "doublenl") {
		text = nl + text
	}
	return text
}

// LongLines returns the numbers of the very long lines.
func LongLines(text string) (out []int) {
	for i, l := range strings.Split(text, "\n") {
		if len(l) > 60000 {
			out = append(out, i+1)
		}
	}
	return
}

// Probe is a question to a classifier.
type Probe struct{ Pkg, Name string }

// Probes returns questions about everything in the map and things close to it.
func (m *RefMap) Probes() (ps []Probe, edges [][2]string) {
	add := func(name string) {
		for _, p := range []string{"", "example.com/a", "example.com/zz"} {
			ps = append(ps, Probe{p, name})
		}
		for _, p := range SortedKeys(m.Pkgs) {
			if len(m.Pkgs) < 50 {
				ps = append(ps, Probe{p, name})
			}
		}
	}
	for _, k := range SortedKeys(m.Funcs) {
		add(k)
		if len(k) > 1 && len(m.Funcs) < 100 {
			add(k[:len(k)-1])
			add(k + "x")
		}
	}
	for _, k := range SortedKeys(m.Unan) {
		add(k)
		add(strings.ToLower(k))
	}
	for _, k := range SortedKeys(m.Pkgs) {
		ps = append(ps, Probe{k, k + ".Nothing"}, Probe{k, k}, Probe{k + "/sub", "x.Nothing"}, Probe{"x" + k, "x.Nothing"}, Probe{k[:len(k)-1], "x.Nothing"})
	}
	for _, k := range SortedKeys(m.Suffixes) {
		ps = append(ps, Probe{"example.com/a", "example.com/a" + k}, Probe{"", k}, Probe{"example.com/a", "example.com/a" + k + "x"}, Probe{"example.com/a", "q" + k[1:]})
	}
	for _, n := range MapNames {
		add(n)
	}
	for e := range m.Edges {
		edges = append(edges, e, [2]string{e[1], e[0]}, [2]string{e[0], e[0]}, [2]string{e[0], e[1] + "x"})
	}
	for _, a := range MapNames[:6] {
		for _, b := range MapNames[:6] {
			edges = append(edges, [2]string{a, b})
		}
	}
	return
}
