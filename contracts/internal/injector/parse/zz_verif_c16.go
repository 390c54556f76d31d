package parse

import (
	"fmt"
	"io"
	"regexp"
	"strings"

	g "github.com/DataDog/orchestrion/internal/zzghost"
)

func digit16(b byte) bool { return g.And(b >= '0', b <= '9') }

// C16_suffix: a position is the digits behind the last colon, if that is all
// there is behind it; the text without one is returned as it is.
func C16_suffix(text string) {
	buf := []byte(text)
	g.Assume(len(buf) < 1000)
	g.NoPanic()
	g.Inv(func(cutOff int) bool { return g.And(cutOff >= -1, cutOff < len(buf)) })
	g.Inv(func(cutOff int) bool {
		return g.Forall(cutOff+1, len(buf), func(i int) bool { return digit16(buf[i]) })
	})
	g.Inv(func(cutOff, pow int) bool { return g.Implies(cutOff == len(buf)-1, pow == 1) })
	rest, pos, ok := cutPositionSuffix(buf)
	k := len(rest)
	g.Assert("a prefix is left", g.And(k <= len(buf), g.Forall(0, k, func(i int) bool { return rest[i] == buf[i] })))
	g.Assert("all of it without a position", g.Implies(!ok, g.And(k == len(buf), pos == 0)))
	g.Assert("a colon precedes a position", g.Implies(ok, g.And(k < len(buf)-1, g.Forall(k, min(k+1, len(buf)), func(i int) bool { return buf[i] == ':' }))))
	g.Assert("a position has digits only", g.Implies(ok, g.Forall(k+1, len(buf), func(i int) bool { return digit16(buf[i]) })))
	g.Cover("suffix")
}

// input16 is the start of a file.
type input16 string

func (s input16) ZZShow() string { return fmt.Sprintf("%q", string(s)) }

func gen_input16(r *g.Rand) input16 {
	s := g.Pick(r, "//line ", "//line ", "//line ", "//line ", "// line ", "//line\t", "", "//lin", "//line")
	for range r.Intn(5) {
		s += g.Pick(r, "f.go", "/a/b.go", ":", ":1", ":1:1", ":2", "12", " ", ":01", "C:\\x.go", "\r")
	}
	return input16(s + g.Pick(r, "\n", "\n", "\r\n", "") + g.Pick(r, "package p\n", "package p", "", "\n\n"))
}

var first16 = regexp.MustCompile(`^//line ([^\r\n]*)\r?\n`)

// C16_run_leading: a leading directive for the first line is consumed, and
// names the file; every other start of a file is left for the parser.
func C16_run_leading(in input16) {
	src := string(in)
	g.Assume(src != "")
	first, _, _ := strings.Cut(src, "\n")
	g.Assume(!strings.HasPrefix(src, "//line ") || strings.Contains(src, "\n") && !strings.Contains(strings.TrimSuffix(first, "\r"), "\r"))
	r := strings.NewReader(src)
	name, err := ConsumeLineDirective(r)
	rest, _ := io.ReadAll(r)
	g.Assert("no error", err == nil)
	want, left := "", src
	if m := first16.FindStringSubmatch(src); m != nil {
		text := strings.TrimSpace(m[1])
		both := regexp.MustCompile(`^(.*):0*1:0*1$`).FindStringSubmatch(text)
		line := regexp.MustCompile(`^(.*):0*1$`).FindStringSubmatch(text)
		position := regexp.MustCompile(`:\d+$`)
		switch {
		case both != nil:
			want, left = both[1], src[len(m[0]):]
		case line != nil && !position.MatchString(line[1]):
			want, left = line[1], src[len(m[0]):]
		case !position.MatchString(text):
			want, left = text, src[len(m[0]):]
		}
	}
	g.Notef("%q, then %q; expected %q, then %q", name, rest, want, left)
	g.Assert("the name of the file", name == want)
	g.Assert("the text that is parsed", string(rest) == left)
}
