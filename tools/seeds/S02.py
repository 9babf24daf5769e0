id="S02-same-name-callee"; property="C08"
needs="a function on a path that calls two functions with the same plain name on different types of one package, both leading to capabilities"
breaks="graph output drops the second of two adjacent calls to functions with equal names, and everything only reachable through it"
edits=[("analyzer/analyzer.go","if i > 0 && edge.Callee == outgoingEdges[i-1].Callee {","if i > 0 && edge.Callee.Func.Name() == outgoingEdges[i-1].Callee.Func.Name() && packagePath(edge.Callee.Func) == packagePath(outgoingEdges[i-1].Callee.Func) {")]
files={"mod/go.mod":"module example.com/m\n\ngo 1.23\n","mod/map.cm":"func (example.com/m/a.X).Do CAPABILITY_NETWORK\nfunc (example.com/m/a.Y).Do CAPABILITY_FILES\n",
"mod/a/a.go":"package a\n\ntype X int\n\nfunc (X) Do() {}\n\ntype Y int\n\nfunc (Y) Do() {}\n",
"mod/app/app.go":'package app\n\nimport "example.com/m/a"\n\nfunc Run() {\n\ta.X(1).Do()\n\ta.Y(1).Do()\n}\n'}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
got=$("$tmp/capslock" -packages ./app -capability_map map.cm -disable_builtin -output g) || exit 98
for c in CAPABILITY_NETWORK CAPABILITY_FILES; do
  case "$got" in *"$c"*) ;; *) exit 1 ;; esac
done
'''
