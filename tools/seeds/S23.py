id="S23-std-list-race"; property="C21"
needs="two analyses that run at the same time and are the first of their process"
breaks="the list of standard library packages is shared between analyses without synchronisation, a data race"
edits=[("analyzer/load.go",'''	standardLibraryPackagesOnce.Do(func() {
		pkgs, err''','''	if standardLibraryPackagesMap == nil {
		pkgs, err'''),("analyzer/load.go",'''			standardLibraryPackagesMap[p.PkgPath] = struct{}{}
		}
	})
''','''			standardLibraryPackagesMap[p.PkgPath] = struct{}{}
		}
	}
'''),("analyzer/load.go",'''	standardLibraryPackagesOnce sync.Once
	standardLibraryPackagesMap  map[string]struct{}
''','''	standardLibraryPackagesMap map[string]struct{}
'''),("analyzer/load.go",'''	"sync"
''','')]
files={"main.go.txt":'''
package main

import (
	"fmt"
	"os"
	"strconv"
	"sync"
	"time"

	"github.com/google/capslock/analyzer"
)

func main() {
	delay, _ := strconv.Atoi(os.Args[1])
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(i*delay) * time.Millisecond)
			cil := analyzer.GetCapabilityInfo(nil, nil, &analyzer.Config{Classifier: analyzer.GetClassifier(false)})
			if n := len(cil.GetPackageInfo()); n != 0 {
				fmt.Println(n)
				os.Exit(2)
			}
		}()
	}
	wg.Wait()
}
'''}
demo='''
printf '{"Replace":{"%s/cmd/zzdemo/main.go":"%s/main.go"}}' "$repo" "$tmp" > "$tmp/overlay.json"
cp "$here/main.go.txt" "$tmp/main.go" || exit 99
go build -race -overlay "$tmp/overlay.json" -o "$tmp/demo" ./cmd/zzdemo || exit 99
# An unsynchronised access is not seen in every run.
for i in 1 2 3 4 5 6 7 8 9 10; do
	for delay in 0 30 100; do
		GORACE=exitcode=66 timeout 60 "$tmp/demo" $delay >&2 || exit 1
	done
done
'''
