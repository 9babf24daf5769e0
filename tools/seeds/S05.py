id="S05-site-same-line"; property="C02"
needs="two calls of the same function in the body, the first of which is ignored or the calls are on one line"
breaks="the call site of a step is the first position in the caller's line: the column of a call that follows another call on its line is wrong"
edits=[("analyzer/util.go","""			Column:   proto.Int64(int64(position.Column)),
""","""			Column:   proto.Int64(int64(callColumn(v, incomingEdge, position))),
"""),("analyzer/util.go","""// nodeToPackage returns the package""","""// callColumn returns the column to report for a call of v.
func callColumn(v *callgraph.Node, edge *callgraph.Edge, position token.Position) int {
	column := position.Column
	for _, e := range edge.Caller.Out {
		if p := callsitePosition(e); p.Filename == position.Filename && p.Line == position.Line && p.Column < column && p.Column > 0 {
			column = p.Column
		}
	}
	return column
}

// nodeToPackage returns the package""")]
files={"mod/go.mod":"module example.com/m\n\ngo 1.23\n","mod/map.cm":"func example.com/m.Do CAPABILITY_NETWORK\n",
"mod/m.go":"package m\n\nfunc Do() int { return 0 }\n\nfunc Nop() int { return 1 }\n\nfunc Run() { if Nop() == 0 { Do() } }\n"}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
"$tmp/capslock" -packages . -capability_map map.cm -disable_builtin -output j > "$tmp/out" || exit 98
tr -d ' \\t\\n' < "$tmp/out" | grep -q '"line":"7","column":"32"'
'''
