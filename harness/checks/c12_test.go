package checks

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/google/capslock/analyzer"
	cpb "github.com/google/capslock/proto"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
	"verif/harness/world"
)

// capPath is a call path to a capability: functions named package.name.
type capPath struct {
	Cap string
	Fns []string
}

// shimCaps is the content of caps.json, from which the stand-in for capslock
// makes its reports: package pattern -> call paths.
type shimCaps map[string][]capPath

func fnPkg(f string) string { return pkgOf(f) }

// report makes the report for a granularity.
func (sc shimCaps) report(pattern, gran string, has func(world.Cap) bool) *cpb.CapabilityInfoList {
	cil := new(cpb.CapabilityInfoList)
	seen := map[string]bool{}
	for _, p := range sc[pattern] {
		c := cpb.Capability(cpb.Capability_value[p.Cap])
		var fns []*cpb.Function
		for i, f := range p.Fns {
			x := &cpb.Function{Name: proto.String(f), Package: proto.String(fnPkg(f))}
			if i > 0 {
				x.Site = &cpb.Function_Site{Filename: proto.String("x.go"), Line: proto.Int64(int64(i)), Column: proto.Int64(1)}
			}
			fns = append(fns, x)
		}
		add := func(key, pkg string) {
			if !seen[key+"|"+p.Cap] {
				seen[key+"|"+p.Cap] = true
				cil.CapabilityInfo = append(cil.CapabilityInfo, &cpb.CapabilityInfo{Capability: c.Enum(), PackageDir: proto.String(pkg), PackageName: proto.String(filepath.Base(pkg)), Path: fns})
			}
		}
		switch gran {
		case "package":
			add(fnPkg(p.Fns[0]), fnPkg(p.Fns[0]))
		case "intermediate":
			if has(c) {
				for _, f := range p.Fns {
					add(fnPkg(f), fnPkg(f))
				}
			}
		default:
			add(p.Fns[0], fnPkg(p.Fns[0]))
		}
	}
	return cil
}

// pairs is the relation that is compared.
func relationOf(cil *cpb.CapabilityInfoList, gran string) map[string]bool {
	if gran == "package" || gran == "intermediate" {
		return pkgPairsOf(cil)
	}
	return pairsOf(cil)
}

// shim stands in for the capslock command.
func shim() int {
	fset := flag.NewFlagSet("capslock", flag.ContinueOnError)
	pkgs := fset.String("packages", "", "")
	output := fset.String("output", "", "")
	gran := fset.String("granularity", "", "")
	caps := fset.String("capabilities", "", "")
	fail := func(err any) int { fmt.Fprintln(os.Stderr, err); return 2 }
	if err := fset.Parse(os.Args[1:]); err != nil {
		return fail(err)
	}
	if _, err := analyzer.GranularityFromString(*gran); err != nil {
		return fail(err)
	}
	has, ok := parseCapList(*caps)
	if !ok || *output != "json" && *output != "j" {
		return fail("bad flags")
	}
	b, err := os.ReadFile("caps.json")
	if err != nil {
		return fail(err)
	}
	fault := ""
	if k, _, _ := strings.Cut(os.Getenv("VERIF_FAULT"), " "); k == "capslock" && faultDue() {
		fault = strings.Fields(os.Getenv("VERIF_FAULT"))[1]
	}
	var sc shimCaps
	if err := json.Unmarshal(b, &sc); err != nil {
		return fail(err)
	}
	if _, ok := sc[*pkgs]; !ok {
		return fail("no package " + *pkgs)
	}
	out, err := protojson.MarshalOptions{Multiline: true, Indent: "\t"}.Marshal(sc.report(*pkgs, *gran, has))
	if err != nil {
		return fail(err)
	}
	switch fault {
	case "before":
		return fail("failed")
	case "after":
		fmt.Println(string(out))
		return fail("failed")
	case "partial":
		out = out[:len(out)/2]
	case "nothing":
		return 0
	}
	fmt.Println(string(out))
	return 0
}

// faultDue counts the calls of the command that is to fail, and tells if this
// is the one.
func faultDue() bool {
	f, err := os.OpenFile(os.Getenv("VERIF_FAULT_FILE"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	f.WriteString("x")
	i, err := f.Stat()
	if err != nil {
		panic(err)
	}
	return fmt.Sprint(i.Size()) == os.Getenv("VERIF_FAULT_AT")
}

// gitShim stands in for git: one call of one of its commands fails.
func gitShim() int {
	var fault []string
	if x := os.Getenv("VERIF_FAULT"); strings.HasPrefix(x, "git ") {
		fault = strings.Fields(x)[1:]
	}
	due := len(fault) == 2 && contains(os.Args[1:], fault[1]) && faultDue()
	if due && fault[0] == "before" {
		fmt.Fprintln(os.Stderr, "fatal: failed")
		return 128
	}
	cmd := exec.Command(os.Getenv("VERIF_GIT"), os.Args[1:]...)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	err := cmd.Run()
	if due {
		// What has been checked out is not complete.
		dir, tmp := must(os.Getwd()), os.Getenv("VERIF_FAULT_TMP")
		if fault[1] == "checkout" && strings.HasPrefix(dir, tmp+"/") {
			filepath.WalkDir(dir, func(p string, e fs.DirEntry, err error) error {
				if err == nil && e.Name() == "caps.json" && e.Type().IsRegular() {
					sc := shimCaps{}
					for _, x := range patterns {
						sc[x] = []capPath{}
					}
					return os.WriteFile(p, must(json.Marshal(sc)), 0o644)
				}
				return err
			})
		}
		fmt.Fprintln(os.Stderr, "fatal: failed")
		return 128
	}
	if x, ok := err.(*exec.ExitError); ok {
		return x.ExitCode()
	} else if err != nil {
		panic(err)
	}
	return 0
}

func must[T any](x T, err error) T {
	if err != nil {
		panic(err)
	}
	return x
}

var gitEnv = []string{"GIT_AUTHOR_NAME=a", "GIT_AUTHOR_EMAIL=a@example.com", "GIT_COMMITTER_NAME=a", "GIT_COMMITTER_EMAIL=a@example.com",
	"GIT_AUTHOR_DATE=2024-01-02T03:04:05Z", "GIT_COMMITTER_DATE=2024-01-02T03:04:05Z", "GIT_CONFIG_COUNT=3", "GIT_CONFIG_KEY_0=init.defaultBranch", "GIT_CONFIG_VALUE_0=main",
	"GIT_CONFIG_KEY_1=gc.auto", "GIT_CONFIG_VALUE_1=0", "GIT_CONFIG_KEY_2=maintenance.auto", "GIT_CONFIG_VALUE_2=false"}

func git(dir string, args ...string) string {
	r := command(dir, gitEnv, "git", args...)
	if r.code != 0 {
		panic(fmt.Sprintf("git %q in %s: %s", args, dir, r))
	}
	return strings.TrimSpace(r.stdout)
}

var (
	oneRE   = regexp.MustCompile(`^(Package|Function) (.+) has capability (CAPABILITY_\w+):$`)
	manyRE  = regexp.MustCompile(`^(Package|Function)s (.+) have capability (CAPABILITY_\w+):$`)
	newCapR = regexp.MustCompile(`^Added (\d+) new capabilit(y|ies):$`)
	newUseR = regexp.MustCompile(`^Added (\d+) new uses? of existing capabilit(y|ies):$`)
)

// checkGitDiff checks the result of capslock-git-diff.
func checkGitDiff(rt fataler, c *Ctx, r result, before, after map[string]bool, desc func() string) {
	added := minus(after, before)
	want := 0
	if len(added) > 0 {
		want = 1
	}
	if r.code != want {
		c.Fail(rt, "expected exit status %d (added %q)\n%s\n\n%s", want, world.SortedKeys(added), r, desc())
	}
	got := map[string]int{}
	caps, uses := 0, 0
	summary := map[string]string{} // capability named in the summary -> new or use
	none := false
	lines := strings.Split(r.stdout, "\n")
	for i, line := range lines {
		for _, re := range []*regexp.Regexp{newCapR, newUseR} {
			for j := i + 1; re.MatchString(line) && j < len(lines) && lines[j] != ""; j++ {
				x, _, _ := strings.Cut(strings.TrimSpace(lines[j]), ":")
				if summary[x] != "" {
					c.Fail(rt, "the summary names %s twice\n%s\n\n%s", x, r, desc())
				}
				summary[x] = map[bool]string{true: "new", false: "use"}[re == newCapR]
			}
		}
		none = none || strings.HasPrefix(line, "Between those commits")
		if m := oneRE.FindStringSubmatch(line); m != nil {
			got[m[2]+"|"+m[3]]++
		} else if m := manyRE.FindStringSubmatch(line); m != nil {
			for _, k := range strings.Split(m[2], ", ") {
				got[k+"|"+m[3]]++
			}
		} else if m := newCapR.FindStringSubmatch(line); m != nil {
			caps, _ = strconv.Atoi(m[1])
		} else if m := newUseR.FindStringSubmatch(line); m != nil {
			uses, _ = strconv.Atoi(m[1])
		}
	}
	gotSet := map[string]bool{}
	for k, n := range got {
		gotSet[k] = true
		if n > 1 {
			c.Fail(rt, "%s is announced %d times\n%s\n\n%s", k, n, r, desc())
		}
	}
	if missing, extra := world.Diff(added, gotSet); len(missing)+len(extra) > 0 {
		c.Fail(rt, "not announced: %q; wrongly announced: %q\n%s\n\n%s", missing, extra, r, desc())
	}
	oldCaps, newCaps := map[string]bool{}, map[string]bool{}
	for k := range before {
		oldCaps[k[strings.LastIndex(k, "|")+1:]] = true
	}
	wantUses := 0
	wantSummary := map[string]string{}
	for k := range added {
		if x := k[strings.LastIndex(k, "|")+1:]; oldCaps[x] {
			wantUses++
			wantSummary[x] = "use"
		} else {
			newCaps[x] = true
			wantSummary[x] = "new"
		}
	}
	if a, b := fmt.Sprint(wantSummary), fmt.Sprint(summary); a != b {
		c.Fail(rt, "the summary names %s, want %s\n%s\n\n%s", b, a, r, desc())
	}
	if none != (len(added) == 0) {
		c.Fail(rt, "the output says that there is nothing new: %v; added: %q\n%s\n\n%s", none, world.SortedKeys(added), r, desc())
	}
	if caps != len(newCaps) || uses != wantUses {
		c.Fail(rt, "summary says %d new capabilities and %d new uses, want %d and %d\n%s\n\n%s", caps, uses, len(newCaps), wantUses, r, desc())
	}
}

// checkPaths checks the call path below each announcement.
func checkPaths(rt fataler, c *Ctx, r result, cil *cpb.CapabilityInfoList, gran string, desc func() string) {
	paths := map[string]string{}
	for _, ci := range cil.CapabilityInfo {
		key := ci.GetPackageDir()
		if gran == "" || gran == "function" {
			key = ci.Path[0].GetName()
		}
		var l []string
		for _, f := range ci.Path {
			x := f.GetName()
			if f.Site != nil {
				x = fmt.Sprintf("%s:%d:%d %s", f.Site.GetFilename(), f.Site.GetLine(), f.Site.GetColumn(), x)
			}
			l = append(l, x)
		}
		paths[key+"|"+ci.GetCapability().String()] = strings.Join(l, "\n")
	}
	lines := strings.Split(r.stdout, "\n")
	for i, line := range lines {
		var keys []string
		m := oneRE.FindStringSubmatch(line)
		if m != nil {
			keys = []string{m[2]}
		} else if m = manyRE.FindStringSubmatch(line); m != nil {
			keys = strings.Split(m[2], ", ")
		} else {
			continue
		}
		var l []string
		for j := i + 1; j < len(lines) && lines[j] != ""; j++ {
			l = append(l, strings.Join(strings.Fields(lines[j]), " "))
		}
		path, found := strings.Join(l, "\n"), false
		for _, k := range keys {
			found = found || path == paths[k+"|"+m[3]]
			on := false
			for _, x := range l {
				x = x[strings.LastIndex(x, " ")+1:]
				on = on || x == k || fnPkg(x) == k
			}
			if !on {
				c.Fail(rt, "%s is not on the path below %q\n%s\n\n%s", k, line, r, desc())
			}
		}
		if !found {
			c.Fail(rt, "the path below %q is not that of the report\n%s\n\n%s", line, r, desc())
		}
	}
}

// checkCommits checks the list of commits.
func checkCommits(rt fataler, c *Ctx, r result, cwd string, from, to string, desc func() string) {
	want := git(cwd, "log", "--no-decorate", "--oneline", "^"+from, to, "--")
	_, rest, ok := strings.Cut(r.stdout, "Commits between the two revisions:\n")
	got, _, _ := strings.Cut(rest, "\n\n")
	got = strings.TrimSpace(got)
	if strings.HasPrefix(strings.TrimSpace(rest), "Added") || strings.HasPrefix(strings.TrimSpace(rest), "Between") {
		got = ""
	}
	if n := strings.Count(want, "\n") + 1; n > 100 {
		c.Class("many commits", true)
		w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
		if len(g) < len(w) {
			// Some may be left out, if their number is given.
			i := 0
			for i < len(g) && g[i] == w[i] {
				i++
			}
			k := 0
			for k < len(g)-i && g[len(g)-1-k] == w[len(w)-1-k] {
				k++
			}
			if i+k+1 == len(g) && g[i] == fmt.Sprintf("(...%d commits omitted...)", len(w)-i-k) {
				return
			}
		}
	}
	if !ok || got != want {
		c.Fail(rt, "the commits between the revisions are\n%s\n\n%s\n\n%s", want, r, desc())
	}
}

// snapshot describes all files below the directories.
func snapshot(dirs ...string) map[string]string {
	out := map[string]string{}
	for _, d := range dirs {
		err := filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			if e.IsDir() {
				out[p] = "directory"
				return nil
			}
			if e.Type()&fs.ModeSymlink != 0 {
				l, err := os.Readlink(p)
				out[p] = "link " + l
				return err
			}
			f, err := os.Open(p)
			if err != nil {
				return err
			}
			defer f.Close()
			h := sha256.New()
			_, err = io.Copy(h, f)
			i, _ := e.Info()
			out[p] = fmt.Sprintf("%v %x", i.Mode(), h.Sum(nil))
			return err
		})
		if err != nil {
			panic(err)
		}
	}
	return out
}

func snapshotDiff(a, b map[string]string) (out []string) {
	for k, v := range a {
		if b[k] != v {
			out = append(out, k+" changed")
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, k+" appeared")
		}
	}
	sort.Strings(out)
	return
}

// gitWorld is a repository with a history.
type gitWorld struct {
	dir, origin, tmp string
	log              strings.Builder
	branches, tags   []string
	subjects         []string
	remote           []string
	n                int
	sub              string // a subdirectory
}

var patterns = []string{"./...", "./lib/...", "example.com/x"}

func genCaps(rt *rapid.T, old shimCaps) shimCaps {
	out := shimCaps{}
	fns := []string{"example.com/a.F", "example.com/a.G", "example.com/b.F", "example.com/b.H", "example.com/a/sub.F", "os.ReadFile", "(*example.com/b.T).M",
		"example.com/os.F", "vendor/example.com/a.F", "os/exec.F", "example.com/a.F$1", "example.com/a.F[int]", "example.com/b_test.F", "example.com/A.F"}
	caps := []string{"CAPABILITY_FILES", "CAPABILITY_NETWORK", "CAPABILITY_EXEC", "CAPABILITY_UNANALYZED", "CAPABILITY_SAFE"}
	for _, p := range patterns {
		for _, x := range old[p] {
			if !world.Pct(rt, 20, "drop") {
				out[p] = append(out[p], x)
			}
		}
		if out[p] == nil {
			out[p] = []capPath{}
		}
		for i := rapid.IntRange(0, 3).Draw(rt, "nnew"); i > 0; i-- {
			x := capPath{Cap: world.Pick(rt, caps[:4], "cap")}
			for j := rapid.IntRange(1, 4).Draw(rt, "len"); j > 0; j-- {
				x.Fns = append(x.Fns, world.Pick(rt, fns, "fn"))
			}
			out[p] = append(out[p], x)
		}
	}
	return out
}

func (g *gitWorld) git(args ...string) string {
	fmt.Fprintf(&g.log, "git %s\n", strings.Join(args, " "))
	return git(g.dir, args...)
}

func (g *gitWorld) write(sub string, sc shimCaps) {
	b, err := json.Marshal(sc)
	if err != nil {
		panic(err)
	}
	d := filepath.Join(g.dir, sub)
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(d, "caps.json"), b, 0o644); err != nil {
		panic(err)
	}
	fmt.Fprintf(&g.log, "write %q: %s\n", sub+"/caps.json", b)
}

// commit changes the reports and commits them.
func (g *gitWorld) commit(rt *rapid.T) {
	for _, sub := range []string{".", g.sub} {
		if g.n > 0 && world.Pct(rt, 10, "same") {
			continue
		}
		g.write(sub, genCaps(rt, g.read(sub)))
	}
	if g.n > 0 && world.Pct(rt, 6, "drop sub") {
		os.RemoveAll(filepath.Join(g.dir, g.sub))
	}
	g.n++
	subject := fmt.Sprintf("change %d", g.n)
	g.git("add", "-A")
	g.git("commit", "-q", "--allow-empty", "-m", subject)
	g.subjects = append(g.subjects, subject)
}

func (g *gitWorld) read(sub string) shimCaps {
	b, err := os.ReadFile(filepath.Join(g.dir, sub, "caps.json"))
	var sc shimCaps
	if err == nil {
		json.Unmarshal(b, &sc)
	}
	return sc
}

func newGitWorld(rt *rapid.T, base string) *gitWorld {
	if err := os.RemoveAll(base); err != nil {
		panic(err)
	}
	name := world.Pick(rt, []string{"repo", "my repo", "répo", "Repo", "re:po", "trail "}, "dirname")
	g := &gitWorld{dir: filepath.Join(base, name), origin: filepath.Join(base, "origin"), tmp: filepath.Join(base, "tmp"), sub: "sub"}
	if rapid.Bool().Draw(rt, "oddsub") {
		g.sub = world.Pick(rt, []string{"Sub", "my dir", "trail ", " lead", "é", "a/B/c", "-x", "new\nline", "tab\t", "quo\"te", "HEAD", "sub.git", "%2e"}, "subname")
	}
	for _, d := range []string{g.dir, g.tmp, filepath.Join(base, "tools")} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			panic(err)
		}
	}
	return g
}

// history makes random commits, branches, tags and a remote.
func (g *gitWorld) history(rt *rapid.T) {
	g.git("init", "-q")
	g.commit(rt)
	g.branches = []string{"main"}
	names := []string{"feature", "feature/x2", "sub", "v1", "rel-1", "x~", "caps.json"}
	for i := rapid.IntRange(2, 7).Draw(rt, "nsteps"); i > 0; i-- {
		switch k := rapid.IntRange(0, 9).Draw(rt, "step"); {
		case k <= 4:
			g.commit(rt)
		case k == 5:
			n := fmt.Sprintf("%s%d", strings.TrimSuffix(world.Pick(rt, names, "branch"), "~"), g.n)
			if world.Pct(rt, 30, "plain") {
				n = world.Pick(rt, []string{"sub", "caps.json", "feature"}, "plainbranch")
			}
			if contains(g.branches, n) || n == "feature" && containsPrefix(g.branches, "feature/") || strings.HasPrefix(n, "feature/") && contains(g.branches, "feature") {
				continue
			}
			g.git("checkout", "-q", "-b", n)
			g.branches = append(g.branches, n)
			g.commit(rt)
		case k == 6:
			g.git("checkout", "-q", world.Pick(rt, g.branches, "to"), "--")
		case k == 7:
			n := fmt.Sprintf("t%d", g.n)
			if contains(g.tags, n) {
				continue
			}
			if rapid.Bool().Draw(rt, "annotated") {
				g.git("tag", "-a", "-m", "tag", n)
			} else {
				g.git("tag", n)
			}
			g.tags = append(g.tags, n)
		case k == 8 && len(g.branches) > 1:
			n := world.Pick(rt, g.branches, "tagasbranch")
			if contains(g.tags, n) {
				continue
			}
			// A tag with the name of a branch, on another commit.
			g.git("tag", n, "HEAD")
			g.tags = append(g.tags, n)
		case k == 9 && len(g.remote) == 0:
			if err := os.RemoveAll(g.origin); err != nil {
				panic(err)
			}
			git(filepath.Dir(g.dir), "clone", "-q", "--bare", g.dir, g.origin)
			g.git("remote", "add", "origin", "../origin")
			g.git("fetch", "-q", "origin")
			for _, b := range g.branches {
				g.remote = append(g.remote, "origin/"+b)
			}
			if world.Pct(rt, 50, "upstream") {
				g.git("branch", "-q", "--set-upstream-to=origin/main", "main")
			}
			if world.Pct(rt, 50, "remotehead") {
				g.git("remote", "set-head", "origin", "main")
				g.remote = append(g.remote, "origin")
			}
		}
	}
	if world.Pct(rt, 2, "long") {
		for i := rapid.IntRange(90, 140).Draw(rt, "nlong"); i > 0; i-- {
			git(g.dir, "commit", "-q", "--allow-empty", "-m", fmt.Sprintf("empty %d", i))
		}
		fmt.Fprintf(&g.log, "many empty commits\n")
	}
	if world.Pct(rt, 15, "detach") {
		g.git("checkout", "-q", "--detach", "HEAD")
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func containsPrefix(l []string, s string) bool {
	for _, x := range l {
		if strings.HasPrefix(x, s) {
			return true
		}
	}
	return false
}

// revision draws a name for a revision; it may not exist.
func (g *gitWorld) revision(rt *rapid.T) string {
	b := func() string { return world.Pick(rt, g.branches, "branchname") }
	switch k := rapid.IntRange(0, 19).Draw(rt, "rev"); {
	case k == 1:
		return "HEAD"
	case k == 2:
		return "refs/heads/" + b()
	case k == 3:
		return "heads/" + b()
	case k == 4 && len(g.tags) > 0:
		return world.Pick(rt, g.tags, "tagname")
	case k == 5 && len(g.tags) > 0:
		return "refs/tags/" + world.Pick(rt, g.tags, "tagname")
	case k == 6 && len(g.remote) > 0, k == 7 && len(g.remote) > 0:
		return world.Pick(rt, g.remote, "remotename")
	case k == 8 && len(g.remote) > 0:
		return "refs/remotes/" + world.Pick(rt, g.remote, "remotename")
	case k == 9:
		return git(g.dir, "rev-parse", b()+"^{commit}")
	case k == 10:
		return git(g.dir, "rev-parse", "--short=8", b()+"^{commit}")
	case k == 11:
		return world.Pick(rt, []string{"HEAD~1", "HEAD^", "HEAD~2", "@", "@~1", "HEAD^0", "HEAD^{commit}"}, "rel")
	case k == 12:
		return b() + world.Pick(rt, []string{"~1", "^", "~2", "^0", "^{}"}, "relb")
	case k == 13:
		return world.Pick(rt, []string{"@{1}", "HEAD@{1}", "main@{1}", "@{-1}", "main@{upstream}", "HEAD@{2}"}, "reflog")
	case k == 14:
		return ":/" + world.Pick(rt, g.subjects, "subject")
	case k == 15:
		return "HEAD^{/" + world.Pick(rt, g.subjects, "subject") + "}"
	case k == 16, k == 17:
		return "."
	case k == 18 && world.Pct(rt, 30, "badrev"):
		return world.Pick(rt, []string{"nosuch", "HEAD~99", "0123456789012345678901234567890123456789", "", "--all", "-q", "HEAD:caps.json", "..", "main..main"}, "bad")
	}
	return b()
}

// resolve returns the commit that a name means, or "".
func (g *gitWorld) resolve(rev string) string {
	return command(g.dir, gitEnv, "git", "rev-parse", "--verify", "--quiet", "--end-of-options", rev+"^{commit}").stdout
}

func TestC12_Histories(t *testing.T) {
	needBin()
	self, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	base := filepath.Join(scratch(t), "w")
	shimDir := scratch(t)
	gitDir := scratch(t)
	if err := errors.Join(os.Symlink(self, filepath.Join(shimDir, "capslock")), os.Symlink(self, filepath.Join(gitDir, "git"))); err != nil {
		t.Fatal(err)
	}
	realGit, err := exec.LookPath("git")
	if err != nil {
		t.Fatal(err)
	}
	check(t, "random git history (branches, tags, remote-tracking refs, equal names for tags, branches and files, detached HEAD, subdirectories with odd names, modified working tree; some calls of git or capslock fail) whose commits hold the reports of a stand-in for capslock; capslock-git-diff between two random revision names at a random granularity, capability list, package pattern and directory; announced pairs, counts, exit status, and that nothing is changed or left behind; non-trivial: both revisions can be analysed and something is reported",
		900, 20, func(rt *rapid.T, c *Ctx) {
			g := newGitWorld(rt, base)
			g.history(rt)
			mainDir := g.dir
			if world.Pct(rt, 12, "worktree") {
				wt := filepath.Join(base, "wt")
				g.git("worktree", "add", "-q", "--detach", wt, "HEAD")
				g.dir = wt
			}
			dirty := world.Pct(rt, 40, "dirty")
			if dirty {
				sub := world.Pick(rt, []string{".", g.sub}, "dirtysub")
				g.write(sub, genCaps(rt, g.read(sub)))
				if world.Pct(rt, 30, "staged") {
					g.git("add", "-A")
				}
			}
			for i := 0; i < 2; i++ {
				rev := [2]string{g.revision(rt), g.revision(rt)}
				for try := 0; try < 3 && g.resolve(rev[0]) == g.resolve(rev[1]); try++ {
					rev[1] = g.revision(rt)
				}
				sub := world.Pick(rt, []string{".", ".", g.sub}, "cwd")
				cwd := filepath.Join(g.dir, sub)
				if _, err := os.Stat(cwd); err != nil {
					continue
				}
				gran := world.Pick(rt, []string{"default", "package", "function", "intermediate", "", "bogus"}, "gran")
				if gran == "bogus" && !world.Pct(rt, 20, "reallybogus") {
					gran = "function"
				}
				var args []string
				effective := gran
				if gran == "default" {
					effective = "intermediate"
				} else {
					args = append(args, "-granularity="+gran)
				}
				capsText, has := "-UNANALYZED", func(c world.Cap) bool { return c != world.Unanalyzed }
				if world.Pct(rt, 50, "caps") {
					capsText, has = genCapSet(rt)
					args = append(args, "-capabilities="+capsText)
				}
				if world.Pct(rt, 15, "verbose") {
					args = append(args, "-v")
				}
				args = append(args, rev[0], rev[1])
				pattern := "./..."
				if world.Pct(rt, 40, "pattern") {
					pattern = world.Pick(rt, append([]string{"./none/..."}, patterns...), "patternname")
					args = append(args, pattern)
				}
				if world.Pct(rt, 3, "nargs") {
					args = append(args, pattern, "x")
				}
				tmpVar := "TMPDIR"
				env := []string{"PATH=" + shimDir + ":" + os.Getenv("PATH"), "TMPDIR=" + g.tmp}
				fault, at, faultFile := "", 0, filepath.Join(base, "fault")
				os.Remove(faultFile)
				if world.Pct(rt, 25, "fault") {
					fault = world.Pick(rt, []string{"capslock before", "capslock after", "capslock partial", "capslock nothing", "git before rev-parse", "git before clone", "git before checkout",
						"git after rev-parse", "git after clone", "git after checkout", "git after checkout"}, "faultkind")
					if sub != "." && rapid.Bool().Draw(rt, "faultprefix") {
						fault = "git before rev-parse"
					}
					at = rapid.IntRange(1, 2).Draw(rt, "faultat")
					if strings.Contains(fault, "rev-parse") {
						at = rapid.IntRange(1, 6).Draw(rt, "faultat")
					}
					if strings.HasPrefix(fault, "git ") {
						env = append(env, "PATH="+gitDir+":"+shimDir+":"+os.Getenv("PATH"), "VERIF_GIT="+realGit)
					}
					env = append(env, "VERIF_FAULT="+fault, fmt.Sprint("VERIF_FAULT_AT=", at), "VERIF_FAULT_FILE="+faultFile, "VERIF_FAULT_TMP="+g.tmp)
					fault = fmt.Sprintf("; call %d of %s fails", at, fault)
				}
				if world.Pct(rt, 30, "tmpvar") {
					tmpVar = "CAPSLOCKTOOLSTMPDIR"
					env = append(env, "CAPSLOCKTOOLSTMPDIR="+g.tmp)
				}
				// What the revisions hold.
				valid := effective != "bogus" && len(args) > 0
				var rel [2]map[string]bool
				var second *cpb.CapabilityInfoList
				nargs := 0
				for _, a := range args {
					if a != "-v" && !strings.HasPrefix(a, "-granularity=") && !strings.HasPrefix(a, "-capabilities=") {
						nargs++
					}
				}
				valid = valid && nargs <= 3
				where := [2]string{}
				for k, r := range rev {
					var sc shimCaps
					if r == "." {
						where[k] = "working tree"
						b, err := os.ReadFile(filepath.Join(cwd, "caps.json"))
						if err != nil || json.Unmarshal(b, &sc) != nil {
							valid = false
							continue
						}
					} else {
						x := command(cwd, gitEnv, "git", "rev-parse", "--verify", "--quiet", "--end-of-options", r+"^{commit}")
						if x.code != 0 {
							where[k] = "no such revision"
							valid = false
							continue
						}
						where[k] = strings.TrimSpace(x.stdout)
						x = command(cwd, gitEnv, "git", "show", where[k]+":./caps.json")
						if x.code != 0 || json.Unmarshal([]byte(x.stdout), &sc) != nil {
							valid = false
							continue
						}
					}
					if _, ok := sc[pattern]; !ok {
						valid = false
						continue
					}
					second = sc.report(pattern, effective, has)
					rel[k] = relationOf(second, effective)
				}
				desc := func() string {
					return fmt.Sprintf("in %q: capslock-git-diff %q (%s set%s)\n%q is %s\n%q is %s\n%s", sub, args, tmpVar, fault, rev[0], where[0], rev[1], where[1], g.log.String())
				}
				c.Seen(desc(), valid && len(rel[0])+len(rel[1]) > 0)
				c.Class("valid", valid)
				c.Class("error", !valid)
				c.Class("added", valid && len(minus(rel[1], rel[0])) > 0)
				c.Class("nothing added but not empty", valid && len(minus(rel[1], rel[0])) == 0 && len(rel[1]) > 0)
				c.Class("lost and added", valid && len(minus(rel[1], rel[0])) > 0 && len(minus(rel[0], rel[1])) > 0)
				c.Class("in subdirectory", sub != ".")
				c.Class("working tree", rev[0] == "." || rev[1] == ".")
				c.Class("remote-tracking", strings.Contains(rev[0]+rev[1], "origin"))
				c.Class("linked worktree", g.dir != mainDir)
				before := snapshot(g.dir, mainDir, g.tmp)
				r := command(cwd, env, filepath.Join(binDir, "capslock-git-diff"), args...)
				if d := snapshotDiff(before, snapshot(g.dir, mainDir, g.tmp)); len(d) > 0 {
					c.Fail(rt, "the repository or the temporary directory was changed: %q\n%s\n\n%s", d, r, desc())
				}
				// If git failed the answer is an error, or the right one; if the
				// analysis failed it is an error.
				failed := false
				if i, err := os.Stat(faultFile); err == nil {
					failed = i.Size() >= int64(at) && (r.code == 2 || strings.Contains(fault, "of capslock")) && valid
				}
				c.Class("failing command", failed)
				if !valid || failed {
					if failed && strings.Contains(r.stdout, "capability") {
						c.Fail(rt, "an error, but capabilities are announced\n%s\n\n%s", r, desc())
					}
					if r.code != 2 {
						c.Fail(rt, "expected exit status 2\n%s\n\n%s", r, desc())
					}
					if r.stderr == "" {
						c.Fail(rt, "no message on standard error\n%s\n\n%s", r, desc())
					}
					continue
				}
				c.Class("several keys share a path", strings.Contains(r.stdout, " have capability"))
				checkGitDiff(rt, c, r, rel[0], rel[1], desc)
				checkPaths(rt, c, r, second, effective, desc)
				if rev[0] != "." && rev[1] != "." {
					checkCommits(rt, c, r, cwd, where[0], where[1], desc)
				}
			}
		})
}

func TestC12_Real(t *testing.T) {
	needBin()
	base := filepath.Join(scratch(t), "w")
	check(t, "two random versions of a program on disk committed to a repository and compared by capslock-git-diff with the real capslock; announced pairs, counts and exit status; non-trivial: something is reported",
		60, 20, func(rt *rapid.T, c *Ctx) {
			g := newGitWorld(rt, base)
			d := &diskCase{Dir: g.dir}
			a := world.GenDisk(rt)
			for _, p := range a.Pkgs {
				for _, f := range p.Funcs {
					f.Unsafe = f.Unsafe || !f.Bodyless() && world.Pct(rt, 20, "unsafe")
				}
			}
			prog, m := a.Render(rt, world.Style{Fancy: true})
			d.staticCase = &staticCase{Prog: prog, Model: m, Abs: a, Queried: a.QueriedSet(), Mode: "default", Ref: builtin}
			d.Solution = m.Solve(d.Ref, d.Queried, false)
			d.writeOut()
			gran := world.Pick(rt, []string{"default", "package", "function", "intermediate"}, "gran")
			relation := func() map[string]bool {
				switch gran {
				case "function":
					return d.Solution.Pairs()
				case "package":
					return d.Solution.PackagePairs()
				}
				return d.Solution.IntermediatePairs(func(c world.Cap) bool { return c != world.Unanalyzed })
			}
			before, first := relation(), d.String()
			git(g.dir, "init", "-q")
			git(g.dir, "add", "-A")
			git(g.dir, "commit", "-q", "-m", "first")
			git(g.dir, "branch", "old")
			rev := world.Pick(rt, []string{".", "main", "HEAD"}, "rev")
			for i := rapid.IntRange(1, 4).Draw(rt, "nmut"); i > 0; i-- {
				a.Mutate(rt)
			}
			d.Prog, d.Model = a.Render(rt, world.Style{Fancy: true})
			d.Solution = d.Model.Solve(d.Ref, d.Queried, false)
			files := d.Prog.FilesOnDisk()
			for _, f := range strings.Split(git(g.dir, "ls-files"), "\n") {
				os.Remove(filepath.Join(g.dir, f))
			}
			if err := world.WriteTree(g.dir, files); err != nil {
				panic(err)
			}
			if rev != "." {
				git(g.dir, "add", "-A")
				git(g.dir, "commit", "-q", "--allow-empty", "-m", "second")
			}
			args := []string{"old", rev, strings.Join(world.SortedKeys(d.Queried), ",")}
			if gran != "default" {
				args = append([]string{"-granularity=" + gran}, args...)
			}
			after := relation()
			desc := func() string {
				return fmt.Sprintf("capslock-git-diff %q\n==== old ====\n%s\n==== new ====\n%s", args, first, d)
			}
			c.Seen(desc(), len(before)+len(after) > 0)
			c.Class("added", len(minus(after, before)) > 0)
			env := []string{"PATH=" + binDir + ":" + os.Getenv("PATH"), "TMPDIR=" + g.tmp}
			snap := snapshot(g.dir, g.tmp)
			r := command(g.dir, env, filepath.Join(binDir, "capslock-git-diff"), args...)
			if x := snapshotDiff(snap, snapshot(g.dir, g.tmp)); len(x) > 0 {
				c.Fail(rt, "the repository or the temporary directory was changed: %q\n%s\n\n%s", x, r, desc())
			}
			checkGitDiff(rt, c, r, before, after, desc)
		})
}
