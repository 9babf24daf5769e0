package checks

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/packages"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/harness/world"
)

// outputMode is one way of printing an analysis.
type outputMode struct {
	Output string
	Gran   analyzer.Granularity
	Omit   bool
}

func (m outputMode) String() string {
	return fmt.Sprintf("output=%q granularity=%s omit_paths=%v", m.Output, granNames[m.Gran], m.Omit)
}

var outputModes = func() (out []outputMode) {
	for _, g := range granularities {
		out = append(out, outputMode{"json", g, false}, outputMode{"json", g, true})
	}
	out = append(out, outputMode{"m", 0, false}, outputMode{"v", 0, false}, outputMode{"", 0, false}, outputMode{"graph", 0, false})
	for _, g := range granularities {
		out = append(out, outputMode{"compare", g, false})
	}
	return append(out, outputMode{"graph", 0, false})
}()

// runOrder analyses the packages in the given order.  base is the file to compare
// with.
func runOrder(base string, pkgs []*packages.Package, cfg analyzer.Config, m outputMode) string {
	q := make(map[*types.Package]struct{})
	for _, p := range pkgs {
		q[p.Types] = struct{}{}
	}
	cfg.Granularity, cfg.OmitPaths = m.Gran, m.Omit
	var args []string
	if m.Output == "compare" {
		args = []string{base}
	}
	var err error
	s := captureStdout(func() { err = analyzer.RunCapslock(args, m.Output, pkgs, q, &cfg) })
	return fmt.Sprintf("%s\nerror: %v", s, err)
}

// repeat analyses a program again and again and compares the outputs.
func repeat(rt *rapid.T, c *Ctx, prog world.Program, cfg analyzer.Config, times int, desc func() string) {
	modes := []outputMode{world.Pick(rt, outputModes[:8], "mode1"), world.Pick(rt, outputModes, "mode2")}
	if world.Pct(rt, 40, "list") {
		text, _ := genCapSet(rt)
		cs, err := analyzer.NewCapabilitySet(text)
		if err != nil {
			c.Fail(rt, "a valid list was rejected: %v", err)
		}
		cfg.CapabilitySet = cs
		old := desc
		desc = func() string { return fmt.Sprintf("capabilities %q\n%s", text, old()) }
	}
	base := filepath.Join(os.TempDir(), fmt.Sprintf("base%d.json", os.Getpid()))
	l := mustLoad(prog)
	var first []string
	guard(rt, c, desc, func() {
		for _, m := range modes {
			if m.Output == "compare" {
				writeBaseline(rt, base, l.Queried, cfg, m)
			}
			first = append(first, runOrder(base, l.Queried, cfg, m))
		}
	})
	for i := 0; i < times; i++ {
		how := "the loaded packages are analysed again"
		if i%2 == 0 || rapid.Bool().Draw(rt, "reload") {
			how = "the program is loaded again"
			l = mustLoad(prog)
		}
		order := rapid.Permutation(l.Queried).Draw(rt, "order")
		for k, m := range modes {
			var again string
			guard(rt, c, desc, func() { again = runOrder(base, order, cfg, m) })
			if again != first[k] {
				a, b := firstDifference(first[k], again)
				c.Fail(rt, "%s: the output changes when %s\nfirst: %s\nthen:  %s\n\n%s", m, how, a, b, desc())
			}
		}
	}
}

// writeBaseline writes the report without some of its entries, and with others.
func writeBaseline(rt *rapid.T, file string, pkgs []*packages.Package, cfg analyzer.Config, m outputMode) {
	cfg.Granularity = m.Gran
	cil := analyzer.GetCapabilityInfo(pkgs, analyzer.GetQueriedPackages(pkgs), &cfg)
	keep := world.Pick(rt, []int{0, 30, 70}, "keep")
	var out []*cpb.CapabilityInfo
	for _, ci := range cil.CapabilityInfo {
		if world.Pct(rt, keep, "kept") {
			out = append(out, ci)
		}
		if world.Pct(rt, 20, "other") {
			x := proto.Clone(ci).(*cpb.CapabilityInfo)
			x.Capability = world.Pick(rt, world.AllCaps, "othercap").Enum()
			out = append(out, x)
		}
	}
	b, err := protojson.Marshal(&cpb.CapabilityInfoList{CapabilityInfo: out})
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(file, b, 0o644); err != nil {
		panic(err)
	}
}

// firstDifference shows the first lines that differ.
func firstDifference(a, b string) (string, string) {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) && i < len(lb); i++ {
		if la[i] != lb[i] {
			return fmt.Sprintf("line %d: %q", i+1, la[i]), fmt.Sprintf("line %d: %q", i+1, lb[i])
		}
	}
	return fmt.Sprintf("%d lines", len(la)), fmt.Sprintf("%d lines", len(lb))
}

func TestC09_Dynamic(t *testing.T) {
	check(t, "random program with dynamic calls and random map, analysed four times in two output modes (also comparisons with baselines that lack entries and have others, and with a capability list): loaded anew or again on the loaded packages, packages in random order; outputs must be identical; non-trivial: something is reported",
		3000, 30, func(rt *rapid.T, c *Ctx) {
			s := genDynamic(rt, world.Style{Shuffle: true})
			cfg := s.config(rt, c)
			c.Seen(s.String(), len(s.Solution.Pairs()) > 0)
			s.classes(c)
			repeat(rt, c, s.Prog, cfg, 3, s.String)
		})
}

func TestC09_Static(t *testing.T) {
	check(t, "the same for programs with static calls; non-trivial: something is reported",
		4000, 30, func(rt *rapid.T, c *Ctx) {
			s := genStatic(rt, world.Style{Fancy: true, Shuffle: true})
			cfg := s.config(rt, c)
			c.Seen(s.String(), len(s.Solution.Pairs()) > 0)
			s.classes(c)
			repeat(rt, c, s.Prog, cfg, 3, s.String)
		})
}

func TestC09_Sorts(t *testing.T) {
	text := world.SortsMap().Text()
	check(t, "the same for programs with sort and Once calls, whose syntax is rewritten by the analysis; non-trivial: always",
		2000, 30, func(rt *rapid.T, c *Ctx) {
			s := world.GenSorts(rt)
			cfg := analyzer.Config{Classifier: loadMap(rt, c, text, false)}
			desc := func() string { return fmt.Sprintf("-- map --\n%s%s", text, s.Prog) }
			c.Seen(desc(), true)
			repeat(rt, c, s.Prog, cfg, 3, desc)
		})
}

func TestC09_Ties(t *testing.T) {
	check(t, "the same for programs in which different functions have the same name (instances and wrappers over local types of the same name) and many paths have the same length; non-trivial: always",
		4000, 30, func(rt *rapid.T, c *Ctx) {
			prog, text := world.GenTies(rt)
			cfg := analyzer.Config{Classifier: loadMap(rt, c, text, true)}
			desc := func() string { return fmt.Sprintf("-- map --\n%s%s", text, prog) }
			c.Seen(desc(), true)
			repeat(rt, c, prog, cfg, 5, desc)
		})
}

func TestC09_CLI(t *testing.T) {
	checkCLI(t, "random program written out as Go modules, analysed in three processes by the command in one output mode, the packages named in different orders and some twice; outputs must be identical; non-trivial: something is reported",
		300, 20, func(rt *rapid.T, c *Ctx, dir string) {
			d := genDisk(rt, dir, world.Style{Fancy: true, Shuffle: true})
			c.Seen(d.String(), len(d.Solution.Pairs()) > 0)
			m := world.Pick(rt, outputModes, "mode")
			args := []string{"-output=" + m.Output}
			if world.Pct(rt, 30, "list") {
				text, _ := genCapSet(rt)
				args = append(args, "-capabilities="+text)
			}
			if m.Gran != 0 {
				args = append(args, "-granularity="+granNames[m.Gran])
			}
			if m.Omit {
				args = append(args, "-omit_paths")
			}
			if m.Output == "compare" {
				base := filepath.Join(dir, "base.json")
				if err := os.WriteFile(base, []byte("{}"), 0o644); err != nil {
					panic(err)
				}
				args = append(args, base)
			}
			first := d.run(args...)
			for i := 0; i < 2; i++ {
				pats := strings.Split(strings.TrimPrefix(d.Args[0], "-packages="), ",")
				if world.Pct(rt, 30, "twice") {
					pats = append(pats, world.Pick(rt, pats, "again"))
				}
				pats = rapid.Permutation(pats).Draw(rt, "order")
				x := *d
				x.Args = append([]string{"-packages=" + strings.Join(pats, ",")}, d.Args[1:]...)
				if again := x.run(args...); again.stdout != first.stdout || again.code != first.code {
					a, b := firstDifference(first.stdout, again.stdout)
					c.Fail(rt, "%s: the output of two processes differs (packages %q)\nfirst: %s (exit status %d)\nthen:  %s (exit status %d)\n\n%s", m, pats, a, first.code, b, again.code, d)
				}
			}
		})
}

func TestC09_GitDiff(t *testing.T) {
	needBin()
	self, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	base := filepath.Join(scratch(t), "w")
	shimDir := scratch(t)
	if err := os.Symlink(self, filepath.Join(shimDir, "capslock")); err != nil {
		t.Fatal(err)
	}
	check(t, "a commit and a working tree with random reports of a stand-in for capslock, compared several times by capslock-git-diff; output byte by byte; non-trivial: at least two capabilities were added",
		150, 20, func(rt *rapid.T, c *Ctx) {
			g := newGitWorld(rt, base)
			g.git("init", "-q")
			g.write(".", genCaps(rt, nil))
			g.git("add", "-A")
			g.git("commit", "-q", "-m", "first")
			sc := genCaps(rt, g.read("."))
			for i := rapid.IntRange(0, 2).Draw(rt, "more"); i > 0; i-- {
				sc = genCaps(rt, sc)
			}
			g.write(".", sc)
			args := []string{"-granularity=" + world.Pick(rt, []string{"package", "function", "intermediate"}, "gran"), "HEAD", "."}
			desc := func() string { return fmt.Sprintf("capslock-git-diff %q\n%s", args, g.log.String()) }
			env := []string{"PATH=" + shimDir + ":" + os.Getenv("PATH"), "TMPDIR=" + g.tmp}
			var first result
			for i := 0; i < 5; i++ {
				r := command(g.dir, env, filepath.Join(binDir, "capslock-git-diff"), args...)
				if i == 0 {
					first = r
					c.Seen(desc(), strings.Count(r.stdout, " capability CAPABILITY_") >= 4)
				} else if r.stdout != first.stdout || r.code != first.code {
					c.Fail(rt, "run %d differs from the first\n%s\n---- and ----\n%s\n\n%s", i+1, first, r, desc())
				}
			}
		})
}
