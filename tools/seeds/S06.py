id="S06-unspecified-init"; property="C03"
needs="a package with a capability, whose initialiser is classified 'unspecified'"
breaks="an 'unspecified' entry of a package initialiser is ignored, so every importing package's initialiser gets the capability of the imported package"
edits=[("interesting/interesting.go","	if cat, ok := c.functionCategory[name]; ok {\n","	if cat, ok := c.functionCategory[name]; ok && (cat != cpb.Capability_CAPABILITY_UNSPECIFIED || !strings.HasSuffix(name, \".init\")) {\n")]
files={"mod/go.mod":"module example.com/m\n\ngo 1.23\n","mod/map.cm":"package example.com/m/lib CAPABILITY_NETWORK\nfunc (*example.com/m/lib.T).M CAPABILITY_UNSPECIFIED\nfunc example.com/m/lib.init CAPABILITY_UNSPECIFIED\n",
"mod/lib/lib.go":"package lib\n\ntype T struct{}\n\nfunc (*T) M() {}\n","mod/a/a.go":'package a\n\nimport "example.com/m/lib"\n\nfunc Run() { new(lib.T).M() }\n'}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
"$tmp/capslock" -packages ./a -capability_map map.cm -disable_builtin -output m > "$tmp/out" || exit 98
[ ! -s "$tmp/out" ]
'''
