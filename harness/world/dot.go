package world

import "fmt"

// ParseDOT parses a DOT digraph that consists of edges between quoted names.
// It accepts the grammar of the DOT language for that subset: names are IDs
// (bare words or double-quoted strings), separators are optional.
func ParseDOT(s string) (edges map[[2]string]int, err error) {
	var toks []string
	for i := 0; i < len(s); {
		ch := s[i]
		switch {
		case ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r' || ch == ';':
			i++
		case ch == '{' || ch == '}':
			toks = append(toks, string(ch))
			i++
		case ch == '-' && i+1 < len(s) && s[i+1] == '>':
			toks = append(toks, "->")
			i += 2
		case ch == '"':
			b := []byte{'"'}
			i++
			closed := false
			for i < len(s) {
				if s[i] == '\\' && i+1 < len(s) && (s[i+1] == '"' || s[i+1] == '\\') {
					b = append(b, s[i+1])
					i += 2
					continue
				}
				if s[i] == '"' {
					closed = true
					i++
					break
				}
				b = append(b, s[i])
				i++
			}
			if !closed {
				return nil, fmt.Errorf("unterminated string")
			}
			toks = append(toks, string(b))
		case ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch == '_':
			j := i
			for j < len(s) && (s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] == '_' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			toks = append(toks, s[i:j])
			i = j
		default:
			return nil, fmt.Errorf("unexpected character %q at offset %d", ch, i)
		}
	}
	if len(toks) < 3 || toks[0] != "digraph" {
		return nil, fmt.Errorf("not a digraph")
	}
	i := 1
	if toks[1] != "{" {
		i++
	}
	if toks[i] != "{" || toks[len(toks)-1] != "}" {
		return nil, fmt.Errorf("missing braces")
	}
	toks = toks[i+1 : len(toks)-1]
	name := func(t string) (string, error) {
		if t == "{" || t == "}" || t == "->" {
			return "", fmt.Errorf("unexpected %q", t)
		}
		if t[0] == '"' {
			return t[1:], nil
		}
		return t, nil
	}
	edges = map[[2]string]int{}
	for len(toks) > 0 {
		from, err := name(toks[0])
		if err != nil {
			return nil, err
		}
		toks = toks[1:]
		for len(toks) > 0 && toks[0] == "->" {
			if len(toks) < 2 {
				return nil, fmt.Errorf("edge without target")
			}
			to, err := name(toks[1])
			if err != nil {
				return nil, err
			}
			edges[[2]string{from, to}]++
			from = to
			toks = toks[2:]
		}
	}
	return edges, nil
}
