package checks

import (
	"fmt"
	"io"
	"regexp"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/google/capslock/analyzer"
	"github.com/google/capslock/interesting"
	"pgregory.net/rapid"
	"verif/harness/world"
)

var numberRE = regexp.MustCompile(`\d+`)
var quotedRE = regexp.MustCompile(`"(\\.|[^"\\])*"`)

// namesLine reports whether an error message names the file and one of the
// lines.
func namesLine(msg, file string, lines ...int) bool {
	if !strings.Contains(msg, file) {
		return false
	}
	rest := quotedRE.ReplaceAllString(strings.Replace(msg, file, " ", 1), " ")
	for _, n := range numberRE.FindAllString(rest, -1) {
		for _, l := range lines {
			if l > 0 && n == fmt.Sprint(l) {
				return true
			}
		}
	}
	return false
}

// agree compares a classifier with a reference map; it returns a description
// of a disagreement, or "".
func agree(cl analyzer.Classifier, m *world.RefMap, ps []world.Probe, edges [][2]string) string {
	for _, p := range ps {
		if got, want := cl.FunctionCategory(p.Pkg, p.Name), m.Category(p.Pkg, p.Name); got != want {
			return fmt.Sprintf("category of function %.200q of package %q is %v, want %v", p.Name, p.Pkg, got, want)
		}
	}
	for _, e := range edges {
		if got, want := cl.IncludeCall(world.NamedEdge(e[0], e[1])), !m.Edges[e]; got != want {
			return fmt.Sprintf("call from %q to %q included: %v, want %v", e[0], e[1], got, want)
		}
	}
	return ""
}

func shortText(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if len(l) > 300 {
			l = fmt.Sprintf("%s...(%d bytes)", l[:200], len(l))
		}
		out = append(out, fmt.Sprintf("%q", l))
		if len(out) > 60 {
			out = append(out, "...")
			break
		}
	}
	return strings.Join(out, "\n")
}

// reader wraps a text in a reader that delivers it in odd pieces.
func reader(rt *rapid.T, text string) (io.Reader, string) {
	r := io.Reader(strings.NewReader(text))
	switch k := rapid.IntRange(0, 5).Draw(rt, "reader"); {
	case k == 1 && len(text) < 20000:
		return iotest.OneByteReader(r), "one byte at a time"
	case k == 2:
		return iotest.HalfReader(r), "half reads"
	case k == 3:
		return iotest.DataErrReader(r), "EOF with the last data"
	}
	return r, "plain"
}

func TestC13_Parse(t *testing.T) {
	check(t, "random map text (valid entries, comments, odd white space and line ends, very long lines, thousands of lines, mistakes of every kind) read in odd pieces and compared with an independent parser: entries in effect, or file and first bad line named; non-trivial: the text has an entry or a mistake",
		60000, 20, func(rt *rapid.T, c *Ctx) {
			text := world.GenMapText(rt)
			if world.ExtraFields(text) {
				rt.Skip("extra fields")
			}
			file := world.Pick(rt, []string{"user.cm", "dir/my map.cm", "a:b.cm", "map-7.cm", "internal"}, "file")
			m, bad := world.ParseRef(text)
			long := world.LongLines(text)
			r, how := reader(rt, text)
			desc := func() string {
				return fmt.Sprintf("file %q, read %s, first bad line %d\n%s", file, how, bad, shortText(text))
			}
			c.Seen(text, bad > 0 || len(m.Funcs)+len(m.Pkgs)+len(m.Unan)+len(m.Edges)+len(m.Suffixes) > 0)
			c.Class("bad", bad > 0)
			c.Class("bad-not-first-line", bad > 1)
			c.Class("long-line", len(long) > 0)
			c.Class("over-1000-lines", strings.Count(text, "\n") > 1000)
			c.Class("valid-5-entries", bad == 0 && len(m.Funcs)+len(m.Pkgs)+len(m.Unan)+len(m.Edges)+len(m.Suffixes) >= 5)
			c.Class("crlf", strings.Contains(text, "\r\n"))
			var cl *interesting.Classifier
			var err error
			guard(rt, c, desc, func() { cl, err = interesting.LoadClassifier(file, r, true) })
			if err != nil {
				ok := bad > 0 && namesLine(err.Error(), file, bad)
				for _, l := range long {
					// A limit on the length of lines is allowed.
					if (bad == 0 || l <= bad) && namesLine(err.Error(), file, l) {
						ok = true
					}
				}
				if bad == 0 && len(long) == 0 {
					c.Fail(rt, "a valid map was rejected: %v\n%s", err, desc())
				}
				if !ok {
					c.Fail(rt, "the error does not name the file and the first bad line: %.500v\n%s", err, desc())
				}
				if cl != nil {
					c.Fail(rt, "a classifier was returned with an error\n%s", desc())
				}
				return
			}
			if bad > 0 {
				c.Fail(rt, "a map with a mistake was accepted\n%s", desc())
			}
			ps, edges := m.Probes()
			guard(rt, c, desc, func() {
				if msg := agree(cl, m, ps, edges); msg != "" {
					c.Fail(rt, "%s\n%s", msg, desc())
				}
			})
		})
}

func TestC13_ReadError(t *testing.T) {
	check(t, "reading a valid map fails after a random number of bytes; loading must fail; non-trivial: always",
		10000, 10, func(rt *rapid.T, c *Ctx) {
			text := world.GenMapText(rt)
			n := rapid.IntRange(0, len(text)).Draw(rt, "n")
			excl := rapid.Bool().Draw(rt, "exclude")
			desc := fmt.Sprintf("read error after %d bytes of\n%s", n, shortText(text))
			c.Seen(desc, true)
			r := io.MultiReader(strings.NewReader(text[:n]), iotest.ErrReader(fmt.Errorf("disk error")))
			var err error
			guard(rt, c, func() string { return desc }, func() { _, err = interesting.LoadClassifier("user.cm", r, excl) })
			if err == nil {
				c.Fail(rt, "loading succeeded although reading failed\n%s", desc)
			}
		})
}
