package checks

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/google/capslock/analyzer"
	"pgregory.net/rapid"
	"verif/harness/world"
)

// server is a process that runs histories of analyses.
type server struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr bytes.Buffer
	served int
}

func startServer() *server {
	s := &server{cmd: exec.Command(filepath.Join(binDir, "conc"))}
	s.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4")
	s.cmd.Stderr = &s.stderr
	s.cmd.Dir = os.TempDir()
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.out = bufio.NewReader(out)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	return s
}

func (s *server) stop() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// do runs a history.  crash is set if the process died from a fault of the
// code it runs.
func (s *server) do(req *world.ConcRequest) (ans world.ConcAnswer, crash string) {
	s.served++
	b, err := json.Marshal(req)
	if err != nil {
		panic(err)
	}
	timer := time.AfterFunc(4*time.Minute, func() { s.cmd.Process.Kill() })
	defer timer.Stop()
	_, err = s.in.Write(append(b, '\n'))
	if err == nil {
		var line []byte
		if line, err = s.out.ReadBytes('\n'); err == nil {
			if err := json.Unmarshal(line, &ans); err != nil {
				panic(fmt.Sprintf("%v\n%s", err, line))
			}
			return ans, ""
		}
	}
	s.in.Close()
	s.cmd.Wait()
	text := s.stderr.String()
	if strings.Contains(text, "WARNING: DATA RACE") || strings.Contains(text, "fatal error: concurrent map") || strings.Contains(text, "fatal error: all goroutines are asleep") {
		if len(text) > 6000 {
			text = text[:6000]
		}
		return ans, text
	}
	panic(fmt.Sprintf("conc: %v (%v)\n%s", err, s.cmd.ProcessState, text))
}

func TestC21_Histories(t *testing.T) { testHistories(t, false) }

// TestC21_FirstUseX4 begins each history in a new process, with several analyses
// at the same time.
func TestC21_FirstUseX4(t *testing.T) { testHistories(t, true) }

func testHistories(t *testing.T, first bool) {
	srv := startServer()
	defer func() { srv.stop() }()
	cases, thorough, what := 3000, 15, ""
	if first {
		cases, thorough, what = 100, 10, ", each in a new process that begins with analyses at the same time"
	}
	check(t, "random history of 3 to 9 analyses in one process: several programs (often versions of one program with the same names), several configurations, maps and capability lists shared between analyses, all granularities, counts, statistics, graphs, comparisons and printed output, and making of further classifiers; run at the same time, one after the other, and again on the same packages, with the race detector; every result must be that of the reference model and the same each time, and the arguments must be left as they were; non-trivial: two analyses have something to report"+what,
		cases, thorough, func(rt *rapid.T, c *Ctx) {
			var cases []*staticCase
			req := &world.ConcRequest{}
			s := genStatic(rt, world.Style{Fancy: true})
			cases = append(cases, s)
			for i := rapid.IntRange(0, 2).Draw(rt, "nprogs"); i > 0; i-- {
				if world.Pct(rt, 60, "version") {
					// The same names with other contents.
					last := cases[len(cases)-1]
					x := &staticCase{Abs: last.Abs, Queried: last.Queried}
					x.Abs.Mutate(rt)
					x.Prog, x.Model = x.Abs.Render(rt, world.Style{Fancy: true})
					cases = append(cases, x)
				} else {
					cases = append(cases, genStatic(rt, world.Style{Fancy: true}))
				}
			}
			for _, x := range cases {
				req.Programs = append(req.Programs, x.Prog)
			}
			var refs []*world.RefMap
			for i := rapid.IntRange(1, 3).Draw(rt, "nmaps"); i > 0; i-- {
				cl := world.ConcClassifier{Mode: world.Pick(rt, []string{"default", "user", "merged", "merged"}, "mapmode"), Noisy: world.Pct(rt, 30, "noisy")}
				ref := builtin
				if len(refs) > 0 && world.Pct(rt, 30, "noisyof") {
					of := world.Uniform(rt, len(refs), "of")
					cl = world.ConcClassifier{Mode: req.Classifiers[of].Mode, Text: req.Classifiers[of].Text, Noisy: true, Of: of + 1}
					ref = refs[of]
				} else if cl.Mode != "default" {
					um := world.Pick(rt, cases, "mapfor").genMap(rt, true)
					cl.Text = um.Text()
					ref = um
					if cl.Mode == "merged" {
						ref = builtin.Over(um)
					}
				}
				if cl.Noisy {
					ref = ref.WithoutUnanalyzed()
				}
				req.Classifiers = append(req.Classifiers, cl)
				refs = append(refs, ref)
			}
			has := map[int]func(world.Cap) bool{-1: func(world.Cap) bool { return true }}
			for i := rapid.IntRange(1, 2).Draw(rt, "nlists"); i > 0; i-- {
				text, h := genCapSet(rt)
				has[len(req.CapLists)] = h
				req.CapLists = append(req.CapLists, text)
			}
			for i := rapid.IntRange(1, 3).Draw(rt, "nconfigs"); i > 0; i-- {
				req.Configs = append(req.Configs, world.ConcConfig{
					Classifier: world.Uniform(rt, len(refs), "classifier"),
					Caps:       world.Uniform(rt, len(req.CapLists)+1, "caps") - 1,
					Gran:       world.Uniform(rt, 4, "gran"),
					Omit:       world.Pct(rt, 20, "omit"),
					Disable:    world.Pct(rt, 20, "disable"),
				})
			}
			n := rapid.IntRange(3, 9).Draw(rt, "njobs")
			kinds := []string{"info", "info", "info", "graph", "graph", "counts", "stats", "classifier", "compare", "text:json", "text:v", "text:m", "text:graph", "text:"}
			if first {
				n = rapid.IntRange(4, 6).Draw(rt, "njobs")
				kinds = []string{"info", "info", "info", "graph", "counts", "stats", "classifier"}
			}
			var want []map[string]bool
			full := 0
			for i := 0; i < n; i++ {
				j := world.ConcJob{
					Kind:   world.Pick(rt, kinds, "kind"),
					Prog:   world.Uniform(rt, len(cases), "prog"),
					Config: world.Uniform(rt, len(req.Configs), "config"),
					Base:   world.Uniform(rt, len(cases), "base"),
				}
				k := req.Configs[j.Config]
				solve := func(p int) *world.Solution {
					return cases[p].Model.Solve(refs[k.Classifier], cases[p].Queried, k.Disable)
				}
				sol := solve(j.Prog)
				entries := func(sol *world.Solution, g analyzer.Granularity) map[string]bool {
					switch g {
					case analyzer.GranularityPackage:
						return sol.PackagePairs()
					case analyzer.GranularityIntermediate:
						return sol.IntermediatePairs(has[k.Caps])
					}
					return sol.Pairs()
				}
				w := map[string]bool{}
				switch j.Kind {
				case "graph":
					h := has[k.Caps]
					if k.Caps < 0 || req.CapLists[k.Caps] == "" {
						h = nil
					}
					for e := range sol.GraphEdges(h) {
						w[e[0]+" -> "+e[1]] = true
					}
				case "counts", "stats":
					count := map[string]int{}
					for p := range sol.Pairs() {
						_, k, _ := strings.Cut(p, "|")
						count[k]++
					}
					for k, n := range count {
						w[fmt.Sprintf("%s %d", k, n)] = true
					}
				case "info":
					w = entries(sol, analyzer.Granularity(k.Gran))
				case "compare":
					g := analyzer.Granularity(k.Gran)
					if g == analyzer.GranularityUnset {
						g = analyzer.GranularityPackage
					}
					before, after := entries(solve(j.Base), g), entries(sol, g)
					for p := range minus(after, before) {
						w["new "+p] = true
					}
					for p := range minus(before, after) {
						w["gone "+p] = true
					}
				}
				if len(w) > 0 {
					full++
				}
				req.Jobs = append(req.Jobs, j)
				want = append(want, w)
			}
			// At the same time, in some groups; text output is not for that.
			ngroups := rapid.IntRange(2, 5).Draw(rt, "ngroups")
			if first {
				ngroups = n
			}
			groups := make([][]int, ngroups)
			var all []int
			for i, j := range req.Jobs {
				all = append(all, i)
				if !strings.HasPrefix(j.Kind, "text:") && j.Kind != "compare" {
					g := i
					if !first {
						g = world.Uniform(rt, len(groups), "group")
					}
					groups[g] = append(groups[g], i)
				}
			}
			req.Phases = []world.ConcPhase{
				{Groups: groups},
				{Groups: [][]int{rapid.Permutation(all).Draw(rt, "order")}},
				{Groups: [][]int{rapid.Permutation(all).Draw(rt, "order2")}, Reuse: true},
			}
			if first {
				delays := make([]int, len(groups))
				for i := range delays {
					if world.Pct(rt, 50, "late") {
						delays[i] = world.Uniform(rt, 400, "delay")
					}
				}
				req.Phases[0].Delays = delays
			}
			desc := func() string {
				var b strings.Builder
				for i, k := range req.Configs {
					fmt.Fprintf(&b, "configuration %d: map %d, list %d, granularity %s, omit_paths %v, disable_builtin %v\n", i, k.Classifier, k.Caps, granNames[k.Gran], k.Omit, k.Disable)
				}
				for i, j := range req.Jobs {
					fmt.Fprintf(&b, "analysis %d: %s of program %d with configuration %d (base for compare: program %d)\n", i, j.Kind, j.Prog, j.Config, j.Base)
				}
				fmt.Fprintf(&b, "at the same time: %v\nthen in the order %v\nthen on shared packages in the order %v\n", groups, req.Phases[1].Groups[0], req.Phases[2].Groups[0])
				for i, s := range req.CapLists {
					fmt.Fprintf(&b, "list %d: %q\n", i, s)
				}
				for i, m := range req.Classifiers {
					fmt.Fprintf(&b, "map %d: %s noisy=%v\n%s", i, m.Mode, m.Noisy, m.Text)
				}
				for i, p := range req.Programs {
					fmt.Fprintf(&b, "==== program %d ====\n%s", i, p)
				}
				return b.String()
			}
			c.Seen(desc(), full >= 2)
			c.Class("several programs", len(cases) > 1)
			c.Class("several maps", len(refs) > 1)
			c.Class("4 or more analyses with something to report", full >= 4)
			if srv.served >= 40 || first && srv.served > 0 {
				// What happens only once in a process should happen often.
				srv.stop()
				srv = startServer()
			}
			ans, crash := srv.do(req)
			if crash != "" {
				srv = startServer()
				c.Fail(rt, "analyses at the same time interfere\n%s\n\n%s", crash, desc())
			}
			if ans.Error != "" {
				c.Fail(rt, "%s\n\n%s", ans.Error, desc())
			}
			phases := []string{"at the same time as others", "after others", "after others on the same packages"}
			for i, j := range req.Jobs {
				first := ""
				for k, name := range phases {
					r, ok := ans.Results[k][i]
					if !ok {
						continue
					}
					if r.Panic != "" {
						c.Fail(rt, "analysis %d, run %s, panics: %s\n\n%s", i, name, r.Panic, desc())
					}
					if r.Changed != "" {
						c.Fail(rt, "analysis %d, run %s, changed its %s\n\n%s", i, name, r.Changed, desc())
					}
					if j.Kind == "compare" {
						added, gone, _ := parseCompare(r.Text)
						for p := range added {
							r.Set["new "+p] = true
						}
						for p := range gone {
							r.Set["gone "+p] = true
						}
					}
					if j.Kind != "classifier" && !strings.HasPrefix(j.Kind, "text:") {
						if missing, extra := world.Diff(want[i], r.Set); len(missing)+len(extra) > 0 {
							c.Fail(rt, "analysis %d, run %s\n%s\n\n%s", i, name, diffText(missing, extra), desc())
						}
					}
					text := name + ":\n" + r.Text
					if first == "" {
						first = text
					} else if _, a, _ := strings.Cut(first, "\n"); a != r.Text {
						c.Fail(rt, "analysis %d differs\n%s\n%s\n\n%s", i, first, text, desc())
					}
				}
			}
		})
}
