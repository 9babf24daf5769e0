id="S04-deep-chain"; property="C01"
needs="a chain of more than 40 calls between the function and the capability"
breaks="callers more than 40 calls away from a function with a capability are not reported"
edits=[("analyzer/analyzer.go","""				visited[w] = bfsState{edge: edge}
				q = append(q, w)
				if w.Func.Package() != nil {""","""				depth := 0
				for x := v; x != nil; x = visited[x].next() {
					depth++
				}
				if depth > 40 {
					// Example paths this long are of no use to anyone.
					continue
				}
				visited[w] = bfsState{edge: edge}
				q = append(q, w)
				if w.Func.Package() != nil {""")]
files={"mod/go.mod":"module example.com/m\n\ngo 1.23\n","mod/map.cm":"func example.com/m.F0 CAPABILITY_NETWORK\n",
"mod/m.go":"package m\n\nfunc F0() {}\n"+"".join("func F%d() { F%d() }\n"%(i+1,i) for i in range(60))}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
"$tmp/capslock" -packages . -capability_map map.cm -disable_builtin > "$tmp/out" || exit 98
grep -q "CAPABILITY_NETWORK: 61 " "$tmp/out"
'''
