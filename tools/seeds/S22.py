id="S22-suffix-cache"; property="C21"
needs="two classifiers with different cgo_suffix lines used in one process, asked about the same function name"
breaks="a name that ended in a cgo suffix of one map is taken for a cgo function by all later analyses of the process, whatever their map"
edits=[("interesting/interesting.go",'''		if strings.HasSuffix(name, s) {
			return cpb.Capability_CAPABILITY_CGO
		}
''','''		if _, ok := cgoNames.Load(name); ok || strings.HasSuffix(name, s) {
			cgoNames.Store(name, true)
			return cpb.Capability_CAPABILITY_CGO
		}
'''),("interesting/interesting.go",'''	"strings"

''','''	"strings"
	"sync"

'''),("interesting/interesting.go",'''var internalMap = parseInternalMapOrDie()
''','''var (
	internalMap = parseInternalMapOrDie()
	cgoNames    sync.Map // names known to have a cgo suffix
)
''')]
files={"main.go.txt":'''
package main

import (
	"os"
	"strings"

	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
)

func main() {
	c, err := interesting.LoadClassifier("x", strings.NewReader("cgo_suffix .Quux\\n"), false)
	if err != nil {
		os.Exit(3)
	}
	if c.FunctionCategory("example.com/p", "example.com/p.Quux") != cpb.Capability_CAPABILITY_CGO {
		os.Exit(4)
	}
	if interesting.DefaultClassifier().FunctionCategory("example.com/p", "example.com/p.Quux") != cpb.Capability_CAPABILITY_UNSPECIFIED {
		os.Exit(1)
	}
}
'''}
demo='''
printf '{"Replace":{"%s/cmd/zzdemo/main.go":"%s/main.go"}}' "$repo" "$tmp" > "$tmp/overlay.json"
cp "$here/main.go.txt" "$tmp/main.go" || exit 99
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./cmd/zzdemo || exit 99
"$tmp/demo"
'''
