// Command conc runs histories of analyses in one process.  It reads requests
// from standard input and writes the answers to standard output.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/types"
	"io"
	"maps"
	"os"
	"runtime/debug"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/packages"
	"verif/harness/world"
)

func main() {
	out := os.Stdout
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	enc := json.NewEncoder(out)
	for {
		var req world.ConcRequest
		if err := in.Decode(&req); err == io.EOF {
			return
		} else if err != nil {
			panic(err)
		}
		if err := enc.Encode(answer(&req)); err != nil {
			panic(err)
		}
	}
}

func answer(req *world.ConcRequest) (ans world.ConcAnswer) {
	r := &runner{req: req}
	for _, c := range req.Classifiers {
		cl, err := r.makeClassifier(c)
		if err != nil {
			return world.ConcAnswer{Error: "a valid map was rejected: " + err.Error()}
		}
		r.classifiers = append(r.classifiers, cl)
	}
	for _, s := range req.CapLists {
		cs, err := analyzer.NewCapabilitySet(s)
		if err != nil {
			return world.ConcAnswer{Error: "a valid list was rejected: " + err.Error()}
		}
		r.capSets = append(r.capSets, cs)
	}
	for _, k := range req.Configs {
		cfg := analyzer.Config{Classifier: r.classifiers[k.Classifier], Granularity: analyzer.Granularity(k.Gran), OmitPaths: k.Omit, DisableBuiltin: k.Disable}
		if k.Caps >= 0 {
			cfg.CapabilitySet = r.capSets[k.Caps]
		}
		r.configs = append(r.configs, &cfg)
	}
	before := make([]analyzer.Config, len(r.configs))
	for i, c := range r.configs {
		before[i] = *c
	}
	for i, j := range req.Jobs {
		if j.Kind != "compare" {
			continue
		}
		// A baseline made with a configuration of its own.
		l, err := world.Load(req.Programs[j.Base])
		if err != nil {
			panic(err)
		}
		cfg := *r.configs[j.Config]
		js := capture(func() {
			if err := analyzer.RunCapslock(nil, "json", l.Queried, analyzer.GetQueriedPackages(l.Queried), &cfg); err != nil {
				panic(err)
			}
		})
		name := fmt.Sprintf("base%d.json", i)
		if err := os.WriteFile(name, []byte(js), 0o644); err != nil {
			panic(err)
		}
		defer os.Remove(name)
	}
	for _, ph := range req.Phases {
		// Packages are loaded before the phase begins.
		shared := map[int]*world.Loaded{}
		loaded := map[int]*world.Loaded{}
		for _, g := range ph.Groups {
			for _, j := range g {
				p := req.Jobs[j].Prog
				if ph.Reuse && shared[p] != nil {
					loaded[j] = shared[p]
					continue
				}
				l, err := world.Load(req.Programs[p])
				if err != nil {
					panic(err)
				}
				loaded[j], shared[p] = l, l
			}
		}
		res := map[int]world.ConcResult{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, g := range ph.Groups {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if i < len(ph.Delays) {
					time.Sleep(time.Duration(ph.Delays[i]) * time.Millisecond)
				}
				for _, j := range g {
					x := r.job(j, loaded[j])
					mu.Lock()
					res[j] = x
					mu.Unlock()
				}
			}()
		}
		close(start)
		wg.Wait()
		for i, c := range r.configs {
			if *c != before[i] {
				return world.ConcAnswer{Error: fmt.Sprintf("an analysis changed configuration %d", i)}
			}
		}
		ans.Results = append(ans.Results, res)
	}
	return ans
}

type runner struct {
	req         *world.ConcRequest
	classifiers []*interesting.Classifier
	capSets     []*analyzer.CapabilitySet
	configs     []*analyzer.Config
}

func (r *runner) makeClassifier(c world.ConcClassifier) (*interesting.Classifier, error) {
	if c.Of > 0 {
		return interesting.ClassifierExcludingUnanalyzed(r.classifiers[c.Of-1]), nil
	}
	if c.Mode == "default" {
		return analyzer.GetClassifier(c.Noisy), nil
	}
	cl, err := interesting.LoadClassifier("user.cm", strings.NewReader(c.Text), c.Mode == "user")
	if err == nil && c.Noisy {
		cl = interesting.ClassifierExcludingUnanalyzed(cl)
	}
	return cl, err
}

func (r *runner) job(num int, l *world.Loaded) (res world.ConcResult) {
	j := r.req.Jobs[num]
	defer func() {
		if x := recover(); x != nil {
			res.Panic = fmt.Sprintf("%v\n%s", x, debug.Stack())
		}
	}()
	pkgs := slices.Clone(l.Queried)
	q := analyzer.GetQueriedPackages(pkgs)
	res.Set = map[string]bool{}
	pkgs1, q1 := slices.Clone(pkgs), maps.Clone(q)
	r.analyse(num, pkgs, q, r.configs[j.Config], &res)
	switch {
	case !slices.Equal(pkgs, pkgs1):
		res.Changed = "list of packages"
	case !maps.Equal(q, q1):
		res.Changed = "set of queried packages"
	}
	return res
}

func (r *runner) analyse(num int, pkgs []*packages.Package, q map[*types.Package]struct{}, cfg *analyzer.Config, res *world.ConcResult) {
	j := r.req.Jobs[num]
	var b strings.Builder
	switch j.Kind {
	case "info":
		cil := analyzer.GetCapabilityInfo(pkgs, q, cfg)
		for _, ci := range cil.GetCapabilityInfo() {
			fmt.Fprintf(&b, "%s %s %s %s %s", ci.GetCapability(), ci.GetPackageDir(), ci.GetPackageName(), ci.GetCapabilityType(), ci.GetDepPath())
			path(&b, ci.Path)
			if cfg.Granularity == analyzer.GranularityFunction || cfg.Granularity == analyzer.GranularityUnset {
				res.Set[ci.Path[0].GetName()+"|"+ci.GetCapability().String()] = true
			} else {
				res.Set[ci.GetPackageDir()+"|"+ci.GetCapability().String()] = true
			}
		}
		for _, p := range cil.GetPackageInfo() {
			fmt.Fprintf(&b, "package %s %q\n", p.GetPath(), p.GetIgnoredFiles())
		}
	case "counts":
		m := analyzer.GetCapabilityCounts(pkgs, q, cfg).GetCapabilityCounts()
		for k, n := range m {
			res.Set[fmt.Sprintf("%s %d", k, n)] = true
		}
	case "stats":
		for _, st := range analyzer.GetCapabilityStats(pkgs, q, cfg).GetCapabilityStats() {
			res.Set[fmt.Sprintf("%s %d", st.GetCapability(), st.GetCount())] = true
			fmt.Fprintf(&b, "%s %d %d %d", st.GetCapability(), st.GetCount(), st.GetDirectCount(), st.GetTransitiveCount())
			path(&b, st.ExampleCallpath)
		}
	case "graph":
		var filter func(cpb.Capability) bool
		if cfg.CapabilitySet != nil {
			filter = cfg.CapabilitySet.Has
		}
		edge := func(x, y string) {
			fmt.Fprintf(&b, "%s -> %s\n", x, y)
			res.Set[x+" -> "+y] = true
		}
		analyzer.CapabilityGraph(pkgs, q, cfg, nil,
			func(e *callgraph.Edge) { edge(e.Caller.Func.String(), e.Callee.Func.String()) },
			func(n *callgraph.Node, c cpb.Capability) { edge(n.Func.String(), c.String()) },
			filter)
	case "classifier":
		// Making further ones has no effect on the others.
		k := r.req.Configs[j.Config].Classifier
		c := r.req.Classifiers[k]
		cl, err := r.makeClassifier(c)
		if err != nil {
			panic(err)
		}
		for _, c := range []*interesting.Classifier{cl, r.classifiers[k], interesting.DefaultClassifier(), analyzer.GetClassifier(true)} {
			for _, line := range append(strings.Split(r.req.Classifiers[k].Text, "\n"), "func os.ReadFile", "func net.Dial", "package os", "unanalyzed runtime.main", "func (*os.File).Read") {
				f := strings.Fields(line)
				if len(f) < 2 {
					continue
				}
				fmt.Fprintf(&b, "%v %v\n", c.FunctionCategory("none", f[1]), c.FunctionCategory(f[1], "none.F"))
			}
		}
		for _, s := range r.req.CapLists {
			cs, err := analyzer.NewCapabilitySet(s)
			if err != nil {
				panic(err)
			}
			for _, k := range world.AllCaps {
				fmt.Fprint(&b, cs.Has(k), " ")
			}
		}
	case "compare":
		b.WriteString(capture(func() {
			err := analyzer.RunCapslock([]string{fmt.Sprintf("base%d.json", num)}, "compare", pkgs, q, cfg)
			fmt.Printf("%v", err)
		}))
	default:
		mode := strings.TrimPrefix(j.Kind, "text:")
		b.WriteString(capture(func() {
			if err := analyzer.RunCapslock(nil, mode, pkgs, q, cfg); err != nil {
				fmt.Printf("%v", err)
			}
		}))
	}
	res.Text = b.String()
}

func path(b *strings.Builder, p []*cpb.Function) {
	for _, f := range p {
		fmt.Fprintf(b, " / %s %s %s:%d:%d", f.GetName(), f.GetPackage(), f.GetSite().GetFilename(), f.GetSite().GetLine(), f.GetSite().GetColumn())
	}
	b.WriteByte('\n')
}

// capture returns what f prints.
func capture(f func()) string {
	old := os.Stdout
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	os.Stdout = pw
	done := make(chan []byte)
	go func() {
		x, _ := io.ReadAll(pr)
		pr.Close()
		done <- x
	}()
	func() {
		defer func() {
			os.Stdout = old
			pw.Close()
		}()
		f()
	}()
	return string(<-done)
}
