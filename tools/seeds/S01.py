id="S01-generic-origin"; property="C03"
needs="a map entry for a generic function or a method of a generic type (func or unanalyzed), reached through an instantiation"
breaks="instances of generic functions are looked up under the name of the instance, so entries for the generic function itself are not applied to its calls"
edits=[("analyzer/analyzer.go","			name := origin.String()\n","			name := v.Func.String()\n")]
files={"mod/go.mod":"module example.com/m\n\ngo 1.23\n","mod/map.cm":"func example.com/m/lib.Fetch CAPABILITY_NETWORK\n",
"mod/lib/lib.go":"package lib\n\nfunc Fetch[T any](x T) T { return x }\n",
"mod/app/app.go":'package app\n\nimport "example.com/m/lib"\n\nfunc Run() int { return lib.Fetch(1) }\n'}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
got=$("$tmp/capslock" -packages ./app -capability_map map.cm -disable_builtin -output m) || exit 98
[ "$got" = CAPABILITY_NETWORK ]
'''
