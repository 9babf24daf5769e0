package checks

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	cpb "github.com/google/capslock/proto"
	"google.golang.org/protobuf/encoding/protojson"
	"pgregory.net/rapid"
	"verif/harness/world"
)

var binDir = os.Getenv("VERIF_BIN")

// result is what a command did.
type result struct {
	stdout, stderr string
	code           int
}

func (r result) String() string {
	return fmt.Sprintf("exit status %d\n-- stdout --\n%s\n-- stderr --\n%s", r.code, cut(r.stdout), cut(r.stderr))
}

func cut(s string) string {
	if len(s) > 6000 {
		return s[:6000] + "...(cut)"
	}
	return s
}

// command runs a program; being unable to run it, or a program that does not
// end, is an error of the check.
func command(dir string, env []string, name string, args ...string) result {
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "PWD="+dir)
	cmd.Env = append(cmd.Env, env...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if ctx.Err() != nil {
		panic(fmt.Sprintf("%s %q did not end", name, args))
	}
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		panic(fmt.Sprintf("%s: %v", name, err))
	}
	code := cmd.ProcessState.ExitCode()
	if code < 0 {
		panic(fmt.Sprintf("%s %q: %v\n%s", name, args, cmd.ProcessState, e.String()))
	}
	return result{o.String(), e.String(), code}
}

// capslock runs the capslock command.
func capslock(dir string, args ...string) result {
	return command(dir, nil, filepath.Join(binDir, "capslock"), args...)
}

// diskCase is a static case that is written out as Go modules.
type diskCase struct {
	*staticCase
	Dir  string
	Args []string // flags that select the packages and the map
}

func (d *diskCase) String() string {
	return fmt.Sprintf("capslock %q\n%s", d.Args, d.staticCase)
}

// genDisk draws a case and writes it to dir, which is emptied first.
func genDisk(rt *rapid.T, dir string, st world.Style) *diskCase {
	a := world.GenDisk(rt)
	prog, m := a.Render(rt, st)
	s := &staticCase{Prog: prog, Model: m, Abs: a, Queried: a.QueriedSet()}
	d := &diskCase{staticCase: s, Dir: dir}
	d.pickMap(rt)
	d.writeOut()
	return d
}

// pickMap chooses the map flags.
func (d *diskCase) pickMap(rt *rapid.T) {
	s := d.staticCase
	s.Mode = world.Pick(rt, []string{"merged", "user", "default"}, "mode")
	s.Disable = s.Mode == "user"
	s.Noisy = world.Pct(rt, 25, "noisy")
	s.MapText = ""
	switch s.Mode {
	case "default":
		s.Ref = builtin
	default:
		um := s.genMap(rt, true)
		s.MapText = um.Text()
		s.Ref = um
		if s.Mode == "merged" {
			s.Ref = builtin.Over(um)
		}
	}
	if s.Noisy {
		s.Ref = s.Ref.WithoutUnanalyzed()
	}
	s.Solution = s.Model.Solve(s.Ref, s.Queried, s.Disable)
	main := map[string]bool{}
	for _, p := range s.Abs.Pkgs {
		if world.ModuleOf(p.Path).Dir == "." {
			main[p.Path] = p.Queried
		}
	}
	wildcard := len(main) > 0
	for _, q := range main {
		wildcard = wildcard && q
	}
	wildcard = wildcard && world.Pct(rt, 50, "wildcard")
	var pats []string
	if wildcard {
		pats = append(pats, world.Pick(rt, []string{"./...", "example.com/m/..."}, "wildcardpattern"))
	}
	for _, p := range world.SortedKeys(s.Queried) {
		if main[p] && wildcard && world.Pct(rt, 80, "covered") {
			continue
		}
		if main[p] && world.Pct(rt, 30, "dirpattern") {
			p = "./" + world.DirOf(p)
		}
		pats = append(pats, p)
	}
	d.Args = []string{"-packages=" + strings.Join(rapid.Permutation(pats).Draw(rt, "order"), ",")}
	if s.Noisy {
		d.Args = append(d.Args, "-noisy")
	}
	if s.Mode != "default" {
		d.Args = append(d.Args, "-capability_map=user.cm")
	}
	if s.Disable {
		d.Args = append(d.Args, "-disable_builtin")
	}
}

// writeOut replaces the contents of the directory.
func (d *diskCase) writeOut() {
	files := d.Prog.FilesOnDisk()
	files["user.cm"] = d.MapText
	writeTree(d.Dir, files)
}

// writeTree replaces the contents of dir.
func writeTree(dir string, files map[string]string) {
	if err := os.RemoveAll(dir); err != nil {
		panic(err)
	}
	if err := world.WriteTree(dir, files); err != nil {
		panic(err)
	}
}

func (d *diskCase) run(args ...string) result {
	return capslock(d.Dir, append(append([]string{}, d.Args...), args...)...)
}

// parseReport parses json output.
func parseReport(rt fataler, c *Ctx, r result, desc func() string) *cpb.CapabilityInfoList {
	if r.code != 0 {
		c.Fail(rt, "json output failed\n%s\n\n%s", r, desc())
	}
	cil := new(cpb.CapabilityInfoList)
	if err := protojson.Unmarshal([]byte(r.stdout), cil); err != nil {
		c.Fail(rt, "json output is not valid: %v\n%s\n\n%s", err, r, desc())
	}
	return cil
}

// needBin makes sure that the commands have been built.
func needBin() {
	if _, err := os.Stat(filepath.Join(binDir, "capslock")); err != nil {
		panic(err)
	}
}

// checkCLI is check for tests that run the commands; dir is a scratch
// directory.
func checkCLI(t *testing.T, rule string, n, mult int, f func(rt *rapid.T, c *Ctx, dir string)) {
	needBin()
	dir := filepath.Join(scratch(t), "w")
	check(t, rule, n, mult, func(rt *rapid.T, c *Ctx) { f(rt, c, dir) })
}
