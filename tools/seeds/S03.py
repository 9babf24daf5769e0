id="S03-compare-closure-key"; property="C11"
needs="function granularity; a closure gains or loses a capability that its enclosing function, or another closure of it, has in both versions"
breaks="compare at function granularity treats a function and its closures as one key, so changes between them are not announced"
edits=[("analyzer/compare.go","			mk.key = ci.Path[0].GetName()\n","			mk.key, _, _ = strings.Cut(ci.Path[0].GetName(), \"$\")\n"),
("analyzer/compare.go",'	"sort"\n','	"sort"\n	"strings"\n')]
files={"mod/go.mod":"module example.com/m\n\ngo 1.23\n","mod/map.cm":"func example.com/m/lib.Do CAPABILITY_NETWORK\n",
"mod/lib/lib.go":"package lib\n\nfunc Do() {}\n",
"mod/a/a.go":'package a\n\nimport "example.com/m/lib"\n\nfunc Run() func() {\n\tlib.Do()\n\treturn func() {}\n}\n',
"a2.go":'package a\n\nimport "example.com/m/lib"\n\nfunc Run() func() {\n\tlib.Do()\n\treturn func() { lib.Do() }\n}\n'}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
"$tmp/capslock" -packages ./a -capability_map map.cm -disable_builtin -output j > "$tmp/base.json" || exit 98
cp "$here/a2.go" a/a.go || exit 99
"$tmp/capslock" -packages ./a -capability_map map.cm -disable_builtin -granularity function -output compare "$tmp/base.json"
[ $? = 1 ]
'''
