// Package checks decides the properties in /verif/properties.jsonl by
// property-based testing.  It is built and run by /verif/run.py.
package checks

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	cpb "github.com/google/capslock/proto"
	"pgregory.net/rapid"
	"verif/harness/world"
)

// shrinkTime limits the minimisation of a failing case.
const shrinkTime = 20 * time.Second

var (
	thorough = os.Getenv("VERIF_TIER") == "thorough"
	outDir   = os.Getenv("VERIF_OUT")
	shard, _ = strconv.Atoi(os.Getenv("VERIF_SHARD"))
	nshards  = max(1, atoi(os.Getenv("VERIF_SHARDS")))
	seed     = atoi(os.Getenv("VERIF_SEED"))
	builtin  = world.Builtin()
)

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

// Ctx collects what one test covers and what it finds.
type Ctx struct {
	t        *testing.T
	ID, Test string

	Evaluations int
	Rule        string
	Classes     map[string]int
	Samples     []string
	hashes      map[uint64]bool
	failures    int
	before      int       // failures when the last case began
	first       time.Time // of the first failure
	last        string
	Known       map[string]int
}

type statFile struct {
	Property, Test string
	Evaluations    int
	Rule           string
	Classes        map[string]int
	Samples        []string
	Known          map[string]int
}

// newCtx returns a context whose results are written out when the test ends.
func newCtx(t *testing.T, rule string) *Ctx {
	name := strings.TrimPrefix(t.Name(), "Test")
	id, test, _ := strings.Cut(name, "_")
	c := &Ctx{t: t, ID: id, Test: test, Rule: rule, Classes: map[string]int{}, hashes: map[uint64]bool{}, Known: map[string]int{}}
	t.Cleanup(c.write)
	return c
}

func (c *Ctx) write() {
	if outDir == "" {
		return
	}
	base := filepath.Join(outDir, fmt.Sprintf("%s_%s.%d", c.ID, c.Test, shard))
	b, _ := json.Marshal(statFile{c.ID, c.Test, c.Evaluations, c.Rule, c.Classes, c.Samples, c.Known})
	os.WriteFile(base+".stats", b, 0o644)
	var sb strings.Builder
	for h := range c.hashes {
		fmt.Fprintf(&sb, "%x\n", h)
	}
	os.WriteFile(base+".hashes", []byte(sb.String()), 0o644)
	if c.failures > 0 {
		os.WriteFile(base+".violation", []byte(c.last), 0o644)
	}
}

// check runs a rapid property.  n is the total number of cases of the quick
// tier over all shards; the thorough tier runs mult times as many.
func check(t *testing.T, rule string, n, mult int, f func(rt *rapid.T, c *Ctx)) {
	c := newCtx(t, rule)
	if thorough {
		n *= mult
	}
	if pct := atoi(os.Getenv("VERIF_SCALE")); pct > 0 { // for development only
		n = max(1, n*pct/100)
	}
	n = (n + nshards - 1) / nshards
	if f := flag.Lookup("rapid.failfile"); f != nil && f.Value.String() != "" {
		n = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	s := uint64(seed)*1000003 + uint64(shard)*7919 + 17
	flag.Set("rapid.seed", strconv.FormatUint(s%(1<<62)+1, 10))
	rapid.Check(t, func(rt *rapid.T) {
		if c.failures == 0 {
			c.Evaluations++
		} else if c.failures == c.before && time.Since(c.first) > shrinkTime {
			// Rapid looks at its own limit too rarely for slow cases.
			rt.SkipNow()
		}
		c.before = c.failures
		f(rt, c)
	})
}

// Seen records a case; only the cases that are not trivial count.
func (c *Ctx) Seen(text string, nontrivial bool) {
	if c.failures > 0 {
		return
	}
	if !nontrivial {
		c.Classes["trivial"]++
		return
	}
	h := fnv.New64a()
	io.WriteString(h, text)
	if len(c.Samples) < 2 && !c.hashes[h.Sum64()] && c.Evaluations > 3 {
		if len(text) > 4000 {
			text = text[:4000] + "...(cut)"
		}
		c.Samples = append(c.Samples, text)
	}
	c.hashes[h.Sum64()] = true
}

// Class counts a case in a class of the input space.
func (c *Ctx) Class(name string, in bool) {
	if in && c.failures == 0 {
		c.Classes[name]++
	}
}

// Fail records a violation.  The description of the last call, which rapid
// makes with the minimised case, becomes the replay file.
func (c *Ctx) Fail(rt fataler, format string, args ...any) {
	if c.failures++; c.failures == 1 {
		c.first = time.Now()
	}
	c.last = fmt.Sprintf(format, args...)
	rt.Fatalf("%s", c.last)
}

type fataler interface{ Fatalf(string, ...any) }

// guard runs code under test; a panic there is a violation.
func guard(rt fataler, c *Ctx, context func() string, f func()) {
	var msg string
	func() {
		defer func() {
			if r := recover(); r != nil {
				if strings.HasPrefix(fmt.Sprintf("%T", r), "rapid.") {
					panic(r) // from Fail or a skipped case
				}
				msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		f()
	}()
	if msg != "" {
		c.Fail(rt, "the analysis panicked\n%s\n\n%s", msg, context())
	}
}

// captureStdout returns what f prints on os.Stdout.
func captureStdout(f func()) string {
	if stdoutFile == nil {
		var err error
		dir := outDir
		if dir == "" {
			dir = os.TempDir()
		}
		stdoutFile, err = os.CreateTemp(dir, "stdout")
		if err != nil {
			panic(err)
		}
		os.Remove(stdoutFile.Name())
	}
	stdoutFile.Truncate(0)
	stdoutFile.Seek(0, 0)
	old := os.Stdout
	os.Stdout = stdoutFile
	defer func() { os.Stdout = old }()
	f()
	stdoutFile.Seek(0, 0)
	b, err := io.ReadAll(stdoutFile)
	if err != nil {
		panic(err)
	}
	return string(b)
}

var stdoutFile *os.File

// mustLoad loads a generated program; a failure is an error of the generator.
func mustLoad(p world.Program) *world.Loaded {
	l, err := world.Load(p)
	if err != nil {
		panic("generator error: " + err.Error())
	}
	return l
}

func info(l *world.Loaded, cfg analyzer.Config) *cpb.CapabilityInfoList {
	return analyzer.GetCapabilityInfo(l.Queried, analyzer.GetQueriedPackages(l.Queried), &cfg)
}

func run(l *world.Loaded, cfg analyzer.Config, output string, args ...string) (string, error) {
	var err error
	s := captureStdout(func() {
		err = analyzer.RunCapslock(args, output, l.Queried, analyzer.GetQueriedPackages(l.Queried), &cfg)
	})
	return s, err
}

// loadMap loads a capability map text that must be accepted.
func loadMap(rt fataler, c *Ctx, text string, excludeBuiltin bool) *interesting.Classifier {
	cl, err := interesting.LoadClassifier("user.cm", strings.NewReader(text), excludeBuiltin)
	if err != nil {
		c.Fail(rt, "a valid capability map was rejected: %v\n%s", err, text)
	}
	return cl
}

func pairsOf(cil *cpb.CapabilityInfoList) map[string]bool {
	out := map[string]bool{}
	for _, ci := range cil.GetCapabilityInfo() {
		if len(ci.Path) > 0 {
			out[ci.Path[0].GetName()+"|"+ci.GetCapability().String()] = true
		}
	}
	return out
}

func pkgPairsOf(cil *cpb.CapabilityInfoList) map[string]bool {
	out := map[string]bool{}
	for _, ci := range cil.GetCapabilityInfo() {
		out[ci.GetPackageDir()+"|"+ci.GetCapability().String()] = true
	}
	return out
}

func fmtSet(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, "\n  ")
}

func diffText(missing, extra []string) string {
	return fmt.Sprintf("missing from the report: %q\nnot expected in the report: %q", missing, extra)
}

func TestMain(m *testing.M) {
	switch filepath.Base(os.Args[0]) {
	case "capslock":
		os.Exit(shim())
	case "git":
		os.Exit(gitShim())
	}
	log.SetOutput(io.Discard)
	flag.Parse()
	flag.Set("rapid.shrinktime", shrinkTime.String())
	os.Exit(m.Run())
}
