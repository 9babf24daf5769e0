id="S07-reflect-one-element-array"; property="C04"
needs="a store of a value in which the only reflect.Value is in an array with one element"
breaks="stores of one-element arrays of reflect.Value are not flagged"
edits=[("analyzer/util.go","""			return rec(a.Elem())
""","""			return a.Len() > 1 && rec(a.Elem())
""")]
files={"mod/go.mod":"module example.com/m\n\ngo 1.23\n","mod/m.go":"package m\n\nimport \"reflect\"\n\ntype S struct{ v reflect.Value }\n\nvar g [1]S\n\nfunc Run(a [1]S) { g = a }\n"}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
"$tmp/capslock" -packages . -output m > "$tmp/out" || exit 98
grep -q CAPABILITY_REFLECT "$tmp/out"
'''
