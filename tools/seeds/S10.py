id="S10-verbose-omit-direct"; property="C07"
needs="verbose output with omitted paths and a capability reached through another package"
breaks="with -omit_paths, verbose output counts every use of a capability as direct"
edits=[("analyzer/analyzer.go","""				i++
				if pName := packagePath(v.Func); n != pName && !isStdLib(pName) {
					isDirect = false
				}
""","""				i++
				if config.OmitPaths {
					// Only the function itself is part of the example.
					break
				}
				if pName := packagePath(v.Func); n != pName && !isStdLib(pName) {
					isDirect = false
				}
""")]
files={"mod/go.mod":"module example.com/m\n\ngo 1.23\n","mod/map.cm":"func example.com/m/lib.Do CAPABILITY_NETWORK\n",
"mod/lib/lib.go":"package lib\n\nfunc Do() {}\n",
"mod/a/a.go":'package a\n\nimport "example.com/m/lib"\n\nfunc Run() { lib.Do() }\n'}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
"$tmp/capslock" -packages ./a -capability_map map.cm -disable_builtin -omit_paths -output v > "$tmp/out" || exit 98
grep -q "0 direct, 1 transitive" "$tmp/out"
'''
