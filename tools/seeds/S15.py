id="S15-noisy-shared-map"; property="C14"
needs="a classifier derived with 'unanalyzed' excluded from one that also gives packages UNANALYZED, and use of the original afterwards"
breaks="deriving a classifier without 'unanalyzed' removes UNANALYZED package entries from the classifier it was derived from"
edits=[("interesting/interesting.go","	withoutUnanalyzed.packageCategory = maps.Clone(classifier.packageCategory)\n","	withoutUnanalyzed.packageCategory = classifier.packageCategory\n")]
files={"main.go.txt":'''
package main

import (
	"os"
	"strings"

	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
)

func main() {
	c, err := interesting.LoadClassifier("x", strings.NewReader("package example.com/p CAPABILITY_UNANALYZED\\n"), true)
	if err != nil {
		os.Exit(3)
	}
	interesting.ClassifierExcludingUnanalyzed(c)
	if c.FunctionCategory("example.com/p", "example.com/p.F") != cpb.Capability_CAPABILITY_UNANALYZED {
		os.Exit(1)
	}
}
'''}
demo='''
printf '{"Replace":{"%s/cmd/zzdemo/main.go":"%s/main.go"}}' "$repo" "$tmp" > "$tmp/overlay.json"
cp "$here/main.go.txt" "$tmp/main.go" || exit 99
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./cmd/zzdemo || exit 99
"$tmp/demo"
'''
