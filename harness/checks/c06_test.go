package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"pgregory.net/rapid"
	"verif/harness/world"
)

// genCapSet draws a capability list and the set it stands for.
func genCapSet(t *rapid.T) (text string, has func(world.Cap) bool) {
	if world.Pct(t, 30, "allcaps") {
		return "", func(world.Cap) bool { return true }
	}
	neg := world.Pct(t, 40, "negcaps")
	n := rapid.IntRange(1, 4).Draw(t, "ncaps")
	in := map[world.Cap]bool{}
	var parts []string
	for i := 0; i < n; i++ {
		c := world.Pick(t, world.AllCaps, "capname")
		in[c] = true
		s := c.String()
		if world.Pct(t, 50, "short") {
			s = strings.TrimPrefix(s, "CAPABILITY_")
		}
		if neg {
			s = "-" + s
		}
		parts = append(parts, s)
	}
	return strings.Join(parts, ","), func(c world.Cap) bool { return in[c] != neg }
}

func ordered(cil *cpb.CapabilityInfoList) string {
	cis := cil.GetCapabilityInfo()
	for i := 1; i < len(cis); i++ {
		a, b := cis[i-1], cis[i]
		if a.GetCapability() > b.GetCapability() || a.GetCapability() == b.GetCapability() && a.GetPackageDir() > b.GetPackageDir() {
			return fmt.Sprintf("entry %d (%v %s) comes after (%v %s)", i, b.GetCapability(), b.GetPackageDir(), a.GetCapability(), a.GetPackageDir())
		}
	}
	return ""
}

func keyList(cil *cpb.CapabilityInfoList) []string {
	var out []string
	for _, ci := range cil.GetCapabilityInfo() {
		out = append(out, ci.GetPackageDir()+" "+ci.GetPackageName()+" "+ci.GetCapability().String())
	}
	return out
}

var granularities = []analyzer.Granularity{analyzer.GranularityUnset, analyzer.GranularityFunction, analyzer.GranularityPackage, analyzer.GranularityIntermediate}

// checkViews checks the granularities of one analysis against the reference
// model and each other.
func checkViews(rt *rapid.T, c *Ctx, s *staticCase, has func(world.Cap) bool, desc func() string, get func(g analyzer.Granularity, omit bool) *cpb.CapabilityInfoList) {
	names := map[string]string{}
	for _, p := range s.Abs.Pkgs {
		names[p.Path] = p.Name
	}
	names["reflect"] = "reflect"
	for _, g := range granularities {
		var want map[string]bool
		var full, omit *cpb.CapabilityInfoList
		gname := granNames[g]
		guard(rt, c, desc, func() {
			full = get(g, false)
			omit = get(g, true)
		})
		var got map[string]bool
		switch g {
		case analyzer.GranularityPackage:
			want, got = s.Solution.PackagePairs(), pkgPairsOf(full)
		case analyzer.GranularityIntermediate:
			want, got = s.Solution.IntermediatePairs(has), pkgPairsOf(full)
			c.Class("intermediate-has-dependency-package", len(want) > len(s.Solution.PackagePairs()))
		default:
			want, got = s.Solution.Pairs(), pairsOf(full)
		}
		if missing, extra := world.Diff(want, got); len(missing)+len(extra) > 0 {
			c.Fail(rt, "%s granularity\n%s\n\n%s", gname, diffText(missing, extra), desc())
		}
		if n := len(full.GetCapabilityInfo()); n != len(want) {
			c.Fail(rt, "%s granularity: %d entries for %d pairs\n\n%s", gname, n, len(want), desc())
		}
		if msg := ordered(full); msg != "" {
			c.Fail(rt, "%s granularity: list is not ordered: %s\n\n%s", gname, msg, desc())
		}
		for _, ci := range full.GetCapabilityInfo() {
			if names[ci.GetPackageDir()] != ci.GetPackageName() {
				c.Fail(rt, "%s granularity: package %s is called %q\n\n%s", gname, ci.GetPackageDir(), ci.GetPackageName(), desc())
			}
			if len(ci.Path) == 0 {
				c.Fail(rt, "%s granularity: entry without path\n%v\n\n%s", gname, ci, desc())
			}
		}
		a, b := keyList(full), keyList(omit)
		if strings.Join(a, "\n") != strings.Join(b, "\n") {
			c.Fail(rt, "%s granularity: omitting paths changed the entries\nwith:    %q\nwithout: %q\n\n%s", gname, a, b, desc())
		}
		maxPath := 0
		if g == analyzer.GranularityFunction || g == analyzer.GranularityUnset {
			maxPath = 1
		}
		for i, ci := range omit.GetCapabilityInfo() {
			if len(ci.Path) > maxPath || ci.DepPath != nil {
				c.Fail(rt, "%s granularity: path not omitted: %v\n\n%s", gname, ci, desc())
			}
			f := full.CapabilityInfo[i]
			if ci.GetCapabilityType() != f.GetCapabilityType() {
				c.Fail(rt, "%s granularity: omitting paths changed the type of %v\n\n%s", gname, f, desc())
			}
			if maxPath == 1 && (len(ci.Path) != 1 || ci.Path[0].GetName() != f.Path[0].GetName()) {
				c.Fail(rt, "%s granularity: omitting paths removed the function of %v\n\n%s", gname, f, desc())
			}
		}
	}
}

func TestC06_Views(t *testing.T) {
	check(t, "random static-call program and map, analysed at function, package and intermediate granularity with and without paths and with a random capability list; non-trivial: some pair is expected",
		14000, 20, func(rt *rapid.T, c *Ctx) {
			s := genStatic(rt, world.Style{Fancy: true})
			setText, has := genCapSet(rt)
			cfg := s.config(rt, c)
			l := mustLoad(s.Prog)
			cs, err := analyzer.NewCapabilitySet(setText)
			if err != nil {
				c.Fail(rt, "capability list %q rejected: %v", setText, err)
			}
			desc := func() string { return fmt.Sprintf("capabilities=%q\n%s", setText, s) }
			c.Seen(desc(), len(s.Solution.Pairs()) > 0)
			s.classes(c)
			c.Class("capability-list", setText != "")
			checkViews(rt, c, s, has, desc, func(g analyzer.Granularity, omit bool) *cpb.CapabilityInfoList {
				x := cfg
				x.Granularity, x.OmitPaths = g, omit
				if g == analyzer.GranularityIntermediate {
					x.CapabilitySet = cs
				}
				return info(l, x)
			})
		})
}

func TestC06_CLI(t *testing.T) {
	checkCLI(t, "random static-call program written out as Go modules, analysed with the command at every granularity with and without paths and with a random capability list; non-trivial: some pair is expected",
		60, 20, func(rt *rapid.T, c *Ctx, dir string) {
			d := genDisk(rt, dir, world.Style{Fancy: true})
			setText, has := genCapSet(rt)
			c.Seen(setText+d.String(), len(d.Solution.Pairs()) > 0)
			desc := func() string { return fmt.Sprintf("capabilities=%q\n%s", setText, d) }
			checkViews(rt, c, d.staticCase, has, desc, func(g analyzer.Granularity, omit bool) *cpb.CapabilityInfoList {
				args := []string{"-output=json"}
				if g != analyzer.GranularityUnset {
					args = append(args, "-granularity="+granNames[g])
				}
				if g == analyzer.GranularityIntermediate {
					args = append(args, "-capabilities="+setText)
				}
				if omit {
					args = append(args, "-omit_paths")
				}
				return parseReport(rt, c, d.run(args...), desc)
			})
		})
}
