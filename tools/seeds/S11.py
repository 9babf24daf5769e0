id="S11-query-order"; property="C09"
needs="intermediate granularity or graph output; two functions of one queried package from which the same function is reached"
breaks="the example paths of intermediate granularity and the order of the graph's edges depend on the run"
edits=[("analyzer/analyzer.go","""		bfsFromQueries[v] = bfsState{}
	}
	sort.Sort(byFunction(q)) // make the search order deterministic
""","""		bfsFromQueries[v] = bfsState{}
	}
	sort.Slice(q, func(i, j int) bool { // make the search order deterministic
		return packagePath(q[i].Func) < packagePath(q[j].Func)
	})
""")]
files={"mod/go.mod":"module example.com/m\n\ngo 1.23\n","mod/map.cm":"func example.com/m/lib.Do CAPABILITY_NETWORK\n",
"mod/lib/lib.go":"package lib\n\nfunc Do() int { return 0 }\n",
"mod/a/a.go":'package a\n\nimport "example.com/m/lib"\n\n'+"".join("func F%d() { lib.Do() }\n"%i for i in range(12))}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
for i in $(seq 12); do
  "$tmp/capslock" -packages ./a -capability_map map.cm -disable_builtin -output g 2>/dev/null | md5sum
done | sort -u > "$tmp/out"
[ "$(wc -l < "$tmp/out")" = 1 ]
'''
