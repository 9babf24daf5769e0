package checks

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"google.golang.org/protobuf/encoding/protojson"
	"pgregory.net/rapid"
	"verif/harness/world"
)

type capStat struct {
	count, direct, transitive int
	functions                 map[string]bool
}

// statsOf aggregates function-level entries.
func statsOf(cil *cpb.CapabilityInfoList) map[string]*capStat {
	out := map[string]*capStat{}
	for _, ci := range cil.GetCapabilityInfo() {
		n := ci.GetCapability().String()
		if out[n] == nil {
			out[n] = &capStat{functions: map[string]bool{}}
		}
		out[n].count++
		if ci.GetCapabilityType() == cpb.CapabilityType_CAPABILITY_TYPE_DIRECT {
			out[n].direct++
		} else {
			out[n].transitive++
		}
		if len(ci.Path) > 0 {
			out[n].functions[ci.Path[0].GetName()] = true
		}
	}
	return out
}

// wantType computes the type of an entry from its path.
func wantType(ci *cpb.CapabilityInfo) cpb.CapabilityType {
	for _, f := range ci.Path {
		first, _, _ := strings.Cut(f.GetPackage(), "/")
		if f.GetPackage() != ci.GetPackageDir() && strings.Contains(first, ".") {
			return cpb.CapabilityType_CAPABILITY_TYPE_TRANSITIVE
		}
	}
	return cpb.CapabilityType_CAPABILITY_TYPE_DIRECT
}

var (
	countRE   = regexp.MustCompile(`^(CAPABILITY_\w+): (\d+) references$`)
	verboseRE = regexp.MustCompile(`^(CAPABILITY_\w+): (\d+) references \((\d+) direct, (\d+) transitive\)$`)
	siteRE    = regexp.MustCompile(`^[^: ]+\.go:\d+:\d+:`)
)

// checkOutputs compares the output modes; it returns a description of a
// disagreement, or "".
func checkOutputs(cil *cpb.CapabilityInfoList, out func(mode string) (string, error)) string {
	stats := statsOf(cil)
	for _, mode := range []string{"json", "j"} {
		s, err := out(mode)
		if err != nil {
			return fmt.Sprintf("output=%s: %v", mode, err)
		}
		var got cpb.CapabilityInfoList
		if err := protojson.Unmarshal([]byte(s), &got); err != nil {
			return fmt.Sprintf("output=%s is not valid: %v\n%s", mode, err, s)
		}
		if a, b := keyPathList(cil), keyPathList(&got); a != b {
			return fmt.Sprintf("output=%s differs from the library result\n%s\n---\n%s", mode, a, b)
		}
	}
	for _, ci := range cil.GetCapabilityInfo() {
		if w := wantType(ci); ci.GetCapabilityType() != w {
			return fmt.Sprintf("%v entry should be %v: %v", ci.GetCapabilityType(), w, ci)
		}
	}
	var names []string
	for n := range stats {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, mode := range []string{"m", "machine"} {
		s, err := out(mode)
		if err != nil {
			return fmt.Sprintf("output=%s: %v", mode, err)
		}
		want := ""
		for _, n := range names {
			want += n + "\n"
		}
		if s != want {
			return fmt.Sprintf("output=%s: got %q want %q", mode, s, want)
		}
	}
	for _, mode := range []string{"", "v", "verbose"} {
		s, err := out(mode)
		if err != nil {
			return fmt.Sprintf("output=%s: %v", mode, err)
		}
		seen := map[string]bool{}
		cur, example := "", -1
		for _, line := range strings.Split(s, "\n") {
			if m := countRE.FindStringSubmatch(line); m != nil {
				if mode != "" || seen[m[1]] || stats[m[1]] == nil || strconv.Itoa(stats[m[1]].count) != m[2] {
					return fmt.Sprintf("output=%q: unexpected line %q, json has %+v", mode, line, stats[m[1]])
				}
				seen[m[1]] = true
				continue
			}
			if m := verboseRE.FindStringSubmatch(line); m != nil {
				st := stats[m[1]]
				if mode == "" || seen[m[1]] || st == nil || strconv.Itoa(st.count) != m[2] || strconv.Itoa(st.direct) != m[3] || strconv.Itoa(st.transitive) != m[4] {
					return fmt.Sprintf("output=%q: unexpected line %q, json has %+v", mode, line, st)
				}
				seen[m[1]] = true
				cur, example = m[1], -1
				continue
			}
			if strings.HasPrefix(line, "Example ") {
				example = 0
				continue
			}
			if example >= 0 && strings.HasPrefix(line, "  ") {
				name := strings.TrimSpace(siteRE.ReplaceAllString(line[2:], ""))
				if example == 0 && !stats[cur].functions[name] {
					return fmt.Sprintf("output=%q: example for %s starts at %q, which json does not list", mode, cur, name)
				}
				example++
				continue
			}
			if example == 0 {
				return fmt.Sprintf("output=%q: no example for %s", mode, cur)
			}
			example = -1
			if strings.HasPrefix(line, "CAPABILITY_") {
				return fmt.Sprintf("output=%q: unexpected line %q", mode, line)
			}
		}
		if len(seen) != len(stats) {
			return fmt.Sprintf("output=%q lists %d capabilities, json has %d\n%s", mode, len(seen), len(stats), s)
		}
		if none := strings.Contains(s, "found no capabilities"); none != (len(stats) == 0) {
			return fmt.Sprintf("output=%q: says there are no capabilities: %v, json has %d", mode, none, len(stats))
		}
	}
	return ""
}

// keyPathList is a text form of the entries, for comparison.
func keyPathList(cil *cpb.CapabilityInfoList) string {
	var b strings.Builder
	for _, ci := range cil.GetCapabilityInfo() {
		fmt.Fprintf(&b, "%s %s %s %s %q %s\n", ci.GetCapability(), ci.GetPackageDir(), ci.GetPackageName(), ci.GetCapabilityType(), ci.GetDepPath(), pathText(ci.Path))
	}
	return b.String()
}

func pathText(p []*cpb.Function) string {
	var b strings.Builder
	for _, f := range p {
		fmt.Fprintf(&b, " [%s %s", f.GetName(), f.GetPackage())
		if f.Site != nil {
			fmt.Fprintf(&b, " %s:%d:%d", f.Site.GetFilename(), f.Site.GetLine(), f.Site.GetColumn())
		}
		b.WriteString("]")
	}
	return b.String()
}

func TestC07_Modes(t *testing.T) {
	check(t, "random static-call program (packages with and without a dot in their path, several modules) and map, printed in every output mode; non-trivial: at least one capability is reported",
		7000, 20, func(rt *rapid.T, c *Ctx) {
			s := genStatic(rt, world.Style{Fancy: true})
			cfg := s.config(rt, c)
			l := mustLoad(s.Prog)
			c.Seen(s.String(), len(s.Solution.Pairs()) > 0)
			s.classes(c)
			guard(rt, c, s.String, func() {
				cil := info(l, cfg)
				if missing, extra := world.Diff(s.Solution.Pairs(), pairsOf(cil)); len(missing)+len(extra) > 0 {
					c.Fail(rt, "function-level report differs from reachability\n%s\n\n%s", diffText(missing, extra), s)
				}
				d, tr := 0, 0
				for _, st := range statsOf(cil) {
					d += st.direct
					tr += st.transitive
				}
				c.Class("has-direct-and-transitive", d > 0 && tr > 0)
				if msg := checkOutputs(cil, func(mode string) (string, error) { return run(l, cfg, mode) }); msg != "" {
					c.Fail(rt, "%s\n\n%s", msg, s)
				}
				// The library functions behind the modes.
				q := analyzer.GetQueriedPackages(l.Queried)
				want := statsOf(cil)
				counts := analyzer.GetCapabilityCounts(l.Queried, q, &cfg)
				if len(counts.CapabilityCounts) != len(want) {
					c.Fail(rt, "GetCapabilityCounts: %v, json has %d capabilities\n\n%s", counts, len(want), s)
				}
				for k, n := range counts.CapabilityCounts {
					if want[k] == nil || int(n) != want[k].count {
						c.Fail(rt, "GetCapabilityCounts: %s is %d\n\n%s", k, n, s)
					}
				}
				omit := cfg
				omit.OmitPaths = world.Pct(rt, 30, "omit")
				list := analyzer.GetCapabilityStats(l.Queried, q, &omit).CapabilityStats
				if len(list) != len(want) {
					c.Fail(rt, "GetCapabilityStats has %d capabilities, json has %d\n\n%s", len(list), len(want), s)
				}
				for _, st := range list {
					w := want[st.GetCapability().String()]
					if w == nil || int(st.GetCount()) != w.count || int(st.GetDirectCount()) != w.direct || int(st.GetTransitiveCount()) != w.transitive || len(st.ExampleCallpath) == 0 || !w.functions[st.ExampleCallpath[0].GetName()] {
						c.Fail(rt, "GetCapabilityStats: %v, json has %+v\n\n%s", st, w, s)
					}
				}
			})
		})
}

func TestC07_CLI(t *testing.T) {
	checkCLI(t, "random static-call program written out as Go modules, printed by the command in every output mode; non-trivial: at least one capability is reported",
		80, 20, func(rt *rapid.T, c *Ctx, dir string) {
			d := genDisk(rt, dir, world.Style{Fancy: true})
			c.Seen(d.String(), len(d.Solution.Pairs()) > 0)
			cil := parseReport(rt, c, d.run("-output=json"), d.String)
			if missing, extra := world.Diff(d.Solution.Pairs(), pairsOf(cil)); len(missing)+len(extra) > 0 {
				c.Fail(rt, "function-level report differs from reachability\n%s\n\n%s", diffText(missing, extra), d)
			}
			msg := checkOutputs(cil, func(mode string) (string, error) {
				r := d.run("-output=" + mode)
				if r.code != 0 {
					return "", fmt.Errorf("%s", r)
				}
				return r.stdout, nil
			})
			if msg != "" {
				c.Fail(rt, "%s\n\n%s", msg, d)
			}
		})
}
