id="S21-nested-module"; property="C17"
needs="a dependency module whose path lies directly below that of another dependency module"
breaks="module information leaves out one of two dependency modules when one is nested in the other"
edits=[("analyzer/load.go","		if _, ok := pathToModule[m.Path]; ok {\n			// We've seen this module.\n","		if _, ok := pathToModule[m.Path]; ok || pathToModule[path.Dir(m.Path)] != nil {\n			// We've seen this module.\n")]
files={"mod/go.mod":"module example.com/demo\n\ngo 1.20\n\nrequire example.com/dep v1.0.0\n\nrequire example.com/dep/v2 v2.1.0\n\nreplace example.com/dep => ./dep\n\nreplace example.com/dep/v2 => ./depv2\n",
"mod/a.go":'''
package demo

import _ "example.com/dep"
import _ "example.com/dep/v2"
''',"mod/dep/go.mod":"module example.com/dep\n\ngo 1.20\n","mod/dep/a.go":"package dep\n","mod/depv2/go.mod":"module example.com/dep/v2\n\ngo 1.20\n","mod/depv2/a.go":"package dep\n"}
demo='''
go build -o "$tmp/capslock" ./cmd/capslock || exit 99
cp -r "$here/mod" "$tmp/mod" && cd "$tmp/mod" || exit 99
out=$("$tmp/capslock" -packages . -output j) || exit 99
case $out in
*v1.0.0*v2.1.0*) exit 0 ;;
esac
exit 1
'''
