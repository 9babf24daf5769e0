id="S25-interface-method-value"; property="C06"
needs="a package of which only an interface's method value is on the path"
breaks="a package that is on a path only by a method value of its interface is missing at intermediate granularity"
edits=[("analyzer/util.go","		if len(fn.FreeVars) >= 1 {\n			return receiverTypePackage(fn.FreeVars[0].Type())\n","		if len(fn.FreeVars) >= 1 && !types.IsInterface(fn.FreeVars[0].Type()) {\n			return receiverTypePackage(fn.FreeVars[0].Type())\n")]
files={"mod/go.mod":"module example.com/m\n\ngo 1.23\n",
"mod/api/api.go":"package api\n\ntype Doer interface{ Do() }\n",
"mod/impl/impl.go":"package impl\n\nimport \"os\"\n\ntype T struct{}\n\nfunc (T) Do() { os.Getpid() }\n",
"mod/a/a.go":"package a\n\nimport (\n\t\"example.com/m/api\"\n\t\"example.com/m/impl\"\n)\n\nfunc F() {\n\tvar d api.Doer = impl.T{}\n\tf := d.Do\n\tf()\n}\n"}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
"$tmp/capslock" -packages ./a -granularity intermediate -output j > "$tmp/out" || exit 98
tr -d ' \\t\\n' < "$tmp/out" | grep -q '"packageDir":"example.com/m/api"'
'''
