id="S09-intermediate-version-suffix"; property="C06"
needs="intermediate granularity; a call path through both packages of which one's import path is the other's with a major version suffix"
breaks="example.com/lib and example.com/lib/v2 are listed as one package at intermediate granularity"
edits=[("analyzer/analyzer.go","""	type packageAndCapability struct {
		pkg *types.Package
""","""	type packageAndCapability struct {
		pkg string
"""),("analyzer/analyzer.go","""		pc := packageAndCapability{pkg, capability}
""","""		pc := packageAndCapability{strings.TrimSuffix(pkg.Path(), "/v2"), capability}
""")]
files={"mod/go.mod":"module example.com/m\n\ngo 1.23\n","mod/map.cm":"func example.com/m/lib.Do CAPABILITY_NETWORK\n",
"mod/lib/lib.go":"package lib\n\nfunc Do() {}\n",
"mod/lib/v2/lib.go":'package lib\n\nimport "example.com/m/lib"\n\nfunc Do() { lib.Do() }\n',
"mod/a/a.go":'package a\n\nimport "example.com/m/lib/v2"\n\nfunc Run() { lib.Do() }\n'}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
"$tmp/capslock" -packages ./a -capability_map map.cm -disable_builtin -granularity intermediate -output j > "$tmp/out" || exit 98
tr -d ' \\t\\n' < "$tmp/out" | grep -q '"packageDir":"example.com/m/lib/v2"' && tr -d ' \\t\\n' < "$tmp/out" | grep -q '"packageDir":"example.com/m/lib"'
'''
