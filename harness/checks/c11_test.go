package checks

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	"pgregory.net/rapid"
	"verif/harness/world"
)

var (
	newRE  = regexp.MustCompile(`^Package (.+) has new capability (CAPABILITY_\w+) compared to the baseline\.$`)
	goneRE = regexp.MustCompile(`^Package (.+) no longer has capability (CAPABILITY_\w+) which was in the baseline\.$`)
)

// parseCompare reads the messages of a comparison; n counts the messages.
func parseCompare(out string) (added, gone map[string]bool, n int) {
	added, gone = map[string]bool{}, map[string]bool{}
	for _, line := range strings.Split(out, "\n") {
		if m := newRE.FindStringSubmatch(line); m != nil {
			added[m[1]+"|"+m[2]] = true
			n++
		} else if m := goneRE.FindStringSubmatch(line); m != nil {
			gone[m[1]+"|"+m[2]] = true
			n++
		}
	}
	return
}

func minus(a, b map[string]bool) map[string]bool {
	out := map[string]bool{}
	for k := range a {
		if !b[k] {
			out[k] = true
		}
	}
	return out
}

func scratch(t *testing.T) string {
	dir, err := os.MkdirTemp("", "verif")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	return dir
}

var granNames = []string{"default", "package", "function", "intermediate"}

func TestC11_Compare(t *testing.T) {
	base := filepath.Join(scratch(t), "base.json")
	check(t, "json report of a random program saved as baseline, compared with a changed version of it (calls added and dropped, other map) at a matching granularity, with and without paths; non-trivial: something is reported for at least one version",
		16000, 20, func(rt *rapid.T, c *Ctx) {
			s := genStatic(rt, world.Style{Fancy: true})
			same := world.Pct(rt, 15, "same")
			s2 := &staticCase{Prog: s.Prog, Model: s.Model, Abs: s.Abs, Queried: s.Queried, Mode: s.Mode, MapText: s.MapText, Ref: s.Ref, Noisy: s.Noisy, Disable: s.Disable, Cfg: s.Cfg}
			if !same {
				s.Abs.Mutate(rt)
				s2.Prog, s2.Model = s.Abs.Render(rt, world.Style{Fancy: true})
			}
			if same || world.Pct(rt, 70, "samemap") {
				s2.Solution = s2.Model.Solve(s2.Ref, s2.Queried, s2.Disable)
			} else {
				s2.classify(rt)
			}
			gc := world.Pick(rt, []analyzer.Granularity{0, analyzer.GranularityPackage, analyzer.GranularityFunction, analyzer.GranularityIntermediate}, "gran")
			gb := gc
			switch gc {
			case 0, analyzer.GranularityPackage:
				gb = world.Pick(rt, []analyzer.Granularity{0, analyzer.GranularityPackage, analyzer.GranularityFunction}, "basegran")
			case analyzer.GranularityFunction:
				gb = world.Pick(rt, []analyzer.Granularity{0, analyzer.GranularityFunction}, "basegran")
			}
			ob, oc := world.Pct(rt, 40, "omitbase"), world.Pct(rt, 40, "omitcur")
			setText, has := "", func(world.Cap) bool { return true }
			if gc == analyzer.GranularityIntermediate {
				setText, has = genCapSet(rt)
			}
			cs, err := analyzer.NewCapabilitySet(setText)
			if err != nil {
				c.Fail(rt, "capability list %q rejected: %v", setText, err)
			}
			desc := func() string {
				return fmt.Sprintf("baseline granularity=%s omit_paths=%v; comparison granularity=%s omit_paths=%v capabilities=%q\n==== baseline ====\n%s\n==== compared ====\n%s",
					granNames[gb], ob, granNames[gc], oc, setText, s, s2)
			}
			relation := func(x *staticCase) map[string]bool {
				switch gc {
				case analyzer.GranularityFunction:
					return x.Solution.Pairs()
				case analyzer.GranularityIntermediate:
					return x.Solution.IntermediatePairs(has)
				}
				return x.Solution.PackagePairs()
			}
			before, after := relation(s), relation(s2)
			wantNew, wantGone := minus(after, before), minus(before, after)
			c.Seen(desc(), len(before)+len(after) > 0)
			c.Class("granularity:"+granNames[gc], true)
			c.Class("same-program", same)
			c.Class("has-new", len(wantNew) > 0)
			c.Class("has-gone", len(wantGone) > 0)
			c.Class("has-new-and-gone", len(wantGone) > 0 && len(wantNew) > 0)
			c.Class("no-difference-but-not-empty", len(wantGone)+len(wantNew) == 0 && len(before) > 0)
			cfgB, cfgC := s.config(rt, c), s2.config(rt, c)
			cfgB.Granularity, cfgB.OmitPaths, cfgB.CapabilitySet = gb, ob, cs
			cfgC.Granularity, cfgC.OmitPaths, cfgC.CapabilitySet = gc, oc, cs
			var out string
			guard(rt, c, desc, func() {
				var js string
				js, err = run(mustLoad(s.Prog), cfgB, "json")
				if err != nil {
					c.Fail(rt, "json output failed: %v\n\n%s", err, desc())
				}
				if err := os.WriteFile(base, []byte(js), 0o644); err != nil {
					panic(err)
				}
				out, err = run(mustLoad(s2.Prog), cfgC, "compare", base)
			})
			differs := len(wantNew)+len(wantGone) > 0
			var dfe analyzer.DifferenceFoundError
			switch {
			case err == nil && differs:
				c.Fail(rt, "no difference signalled, expected new %q gone %q\n\n%s", world.SortedKeys(wantNew), world.SortedKeys(wantGone), desc())
			case err != nil && !errors.As(err, &dfe):
				c.Fail(rt, "comparison failed: %v\n\n%s", err, desc())
			case err != nil && !differs:
				c.Fail(rt, "a difference was signalled, but there is none\n%s\n\n%s", out, desc())
			}
			checkMessages(rt, c, out, wantNew, wantGone, desc)
		})
}

// checkMessages compares the messages of a comparison with the reference.
func checkMessages(rt *rapid.T, c *Ctx, out string, wantNew, wantGone map[string]bool, desc func() string) {
	gotNew, gotGone, n := parseCompare(out)
	m1, e1 := world.Diff(wantNew, gotNew)
	m2, e2 := world.Diff(wantGone, gotGone)
	if len(m1)+len(e1)+len(m2)+len(e2) > 0 {
		c.Fail(rt, "wrong messages: new not announced %q, wrongly announced %q; gone not announced %q, wrongly announced %q\n\n%s", m1, e1, m2, e2, desc())
	}
	if n != len(wantNew)+len(wantGone) {
		c.Fail(rt, "%d messages for %d differences\n%s\n\n%s", n, len(wantNew)+len(wantGone), out, desc())
	}
}

func TestC11_CLI(t *testing.T) {
	checkCLI(t, "a random program written out as Go modules, its json report by the command saved as baseline, then a changed version compared with it by the command; non-trivial: something is reported for at least one version",
		300, 20, func(rt *rapid.T, c *Ctx, dir string) {
			d := genDisk(rt, dir, world.Style{Fancy: true})
			g := world.Pick(rt, granularities, "gran")
			gran := "-granularity=" + granNames[g]
			if g == analyzer.GranularityUnset {
				gran = "-granularity="
			}
			omit := func(l string) []string {
				if world.Pct(rt, 40, l) {
					return []string{gran, "-omit_paths"}
				}
				return []string{gran}
			}
			r := d.run(append(omit("omitbase"), "-output=json")...)
			parseReport(rt, c, r, d.String)
			relation := func() map[string]bool {
				switch g {
				case analyzer.GranularityFunction:
					return d.Solution.Pairs()
				case analyzer.GranularityIntermediate:
					return d.Solution.IntermediatePairs(func(world.Cap) bool { return true })
				}
				return d.Solution.PackagePairs()
			}
			before, first := relation(), d.String()
			if !world.Pct(rt, 15, "same") {
				d.Abs.Mutate(rt)
				d.Prog, d.Model = d.Abs.Render(rt, world.Style{Fancy: true})
				d.Solution = d.Model.Solve(d.Ref, d.Queried, d.Disable)
				if world.Pct(rt, 30, "othermap") {
					d.pickMap(rt)
				}
				d.writeOut()
			}
			if err := os.WriteFile(filepath.Join(dir, "base.json"), []byte(r.stdout), 0o644); err != nil {
				panic(err)
			}
			after := relation()
			wantNew, wantGone := minus(after, before), minus(before, after)
			desc := func() string {
				return fmt.Sprintf("%s\n==== baseline ====\n%s\n==== compared ====\n%s", gran, first, d)
			}
			c.Seen(desc(), len(before)+len(after) > 0)
			c.Class("has-new", len(wantNew) > 0)
			c.Class("has-gone", len(wantGone) > 0)
			c.Class("no-difference-but-not-empty", len(wantGone)+len(wantNew) == 0 && len(before) > 0)
			r = d.run(append(omit("omitcur"), "-output=compare", "base.json")...)
			want := 0
			if len(wantNew)+len(wantGone) > 0 {
				want = 1
			}
			if r.code != want {
				c.Fail(rt, "expected exit status %d (new %q, gone %q)\n%s\n\n%s", want, world.SortedKeys(wantNew), world.SortedKeys(wantGone), r, desc())
			}
			checkMessages(rt, c, r.stdout, wantNew, wantGone, desc)
		})
}

func TestC11_BadBaseline(t *testing.T) {
	dir := scratch(t)
	check(t, "a baseline file that is missing, a directory, or a valid report damaged by cutting, or by replacing a piece of it with text that makes it invalid; comparison with it must be an error; non-trivial: always",
		4000, 10, func(rt *rapid.T, c *Ctx) {
			s := genStatic(rt, world.Style{})
			cfg := s.config(rt, c)
			l := mustLoad(s.Prog)
			cfg.Granularity = world.Pick(rt, []analyzer.Granularity{0, analyzer.GranularityPackage, analyzer.GranularityFunction, analyzer.GranularityIntermediate}, "gran")
			kind := world.Pick(rt, []string{"cut", "missing", "directory", "trailing", "unknowncap", "wrongtype", "unknownfield", "empty", "notjson"}, "kind")
			file := filepath.Join(dir, "bad.json")
			text := ""
			var err error
			guard(rt, c, s.String, func() { text, err = run(l, cfg, "json") })
			if err != nil {
				c.Fail(rt, "json output failed: %v", err)
			}
			text = strings.TrimSpace(text)
			hasEntry := strings.Contains(text, `"capability":`)
			entry := regexp.MustCompile(`"capability":\s*"\w+"`)
			switch kind {
			case "cut":
				text = text[:rapid.IntRange(0, len(text)-1).Draw(rt, "len")]
			case "missing":
				file = filepath.Join(dir, "nothere.json")
			case "directory":
				file = dir
			case "trailing":
				text += world.Pick(rt, []string{"}", "x", "{}", "]"}, "tail")
			case "unknowncap", "wrongtype":
				if !hasEntry {
					text = `{"capabilityInfo":[{"capability":"CAPABILITY_FILES"}]}`
				}
				repl := `"capability": "` + world.Pick(rt, []string{"CAPABILITY_NOPE", "FILES", "capability_files", ""}, "name") + `"`
				if kind == "wrongtype" {
					repl = `"capability": ` + world.Pick(rt, []string{"{}", "[]", "true", `["CAPABILITY_FILES"]`}, "value")
				}
				done := false
				text = entry.ReplaceAllStringFunc(text, func(x string) string {
					if done {
						return x
					}
					done = true
					return repl
				})
			case "unknownfield":
				text = `{"nosuchfield": 1, ` + strings.TrimPrefix(text, "{")
			case "empty":
				text = world.Pick(rt, []string{"", " ", "\n"}, "blank")
			case "notjson":
				text = world.Pick(rt, []string{"CAPABILITY_FILES\n", "null x", "[]", `"x"`, "digraph {\n}\n"}, "other")
			}
			if file == filepath.Join(dir, "bad.json") {
				if err := os.WriteFile(file, []byte(text), 0o644); err != nil {
					panic(err)
				}
			}
			desc := func() string { return fmt.Sprintf("damage: %s\n-- baseline --\n%s\n%s", kind, text, s) }
			c.Seen(desc(), true)
			c.Class("damage:"+kind, true)
			var out string
			guard(rt, c, desc, func() { out, err = run(l, cfg, "compare", file) })
			var dfe analyzer.DifferenceFoundError
			if err == nil || errors.As(err, &dfe) {
				c.Fail(rt, "a bad baseline gave %v and output\n%s\n\n%s", err, out, desc())
			}
			if strings.Contains(out, "capability") {
				c.Fail(rt, "a bad baseline gave messages\n%s\n\n%s", out, desc())
			}
			// The number of arguments is checked too.
			var err2 error
			guard(rt, c, desc, func() {
				args := []string{file, file}[:world.Pick(rt, []int{0, 2}, "nargs")]
				_, err2 = run(l, cfg, "compare", args...)
			})
			if err2 == nil || errors.As(err2, &dfe) {
				c.Fail(rt, "a wrong number of baselines gave %v", err2)
			}
		})
}
