package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	"pgregory.net/rapid"
	"verif/harness/world"
)

func TestC05_Calls(t *testing.T) {
	text := world.SortsMap().Text()
	check(t, "random program with calls of sort.Sort, Stable, IsSorted, Slice, SliceStable and Once.Do (22 statement contexts, 35 receivers, 23 kinds of callback, 22 sorted values, 18 slice arguments, nested), look-alikes and forms that need not be rewritten; what each function must, may and must not have is compared; non-trivial: at least one function must have a capability",
		30000, 20, func(rt *rapid.T, c *Ctx) {
			s := world.GenSorts(rt)
			noisy := world.Pct(rt, 20, "noisy")
			l := mustLoad(s.Prog)
			cl := loadMap(rt, c, text, false)
			if noisy {
				cl = interesting.ClassifierExcludingUnanalyzed(cl)
			}
			desc := func() string { return fmt.Sprintf("noisy=%v\n-- map --\n%s%s", noisy, text, s.Prog) }
			got := map[string]map[world.Cap]bool{}
			guard(rt, c, desc, func() {
				for _, ci := range info(l, analyzer.Config{Classifier: cl}).GetCapabilityInfo() {
					n := ci.GetPath()[0].GetName()
					if got[n] == nil {
						got[n] = map[world.Cap]bool{}
					}
					got[n][ci.GetCapability()] = true
				}
			})
			nontrivial := false
			for _, e := range s.Want {
				nontrivial = nontrivial || len(e.Must) > 0
				c.Class("precise function", len(e.Alts) == 0 && !e.Loose && len(e.Must) > 0)
				c.Class("function that may be unanalyzed", len(e.Alts) > 0)
			}
			c.Seen(desc(), nontrivial)
			c.Class("noisy", noisy)
			for f := range s.Forms {
				c.Class(f, true)
			}
			var bad []string
			for _, f := range world.SortedKeys(s.Want) {
				if v := s.Want[f].Verdict(got[f], noisy); v != "" {
					bad = append(bad, fmt.Sprintf("%s: %s (reported %v; %v)", f, v, got[f], s.Want[f]))
				}
			}
			if len(bad) > 0 {
				c.Fail(rt, "%s\n\n%s", strings.Join(bad, "\n"), desc())
			}
		})
}
