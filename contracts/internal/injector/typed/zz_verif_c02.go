package typed

import (
	"strings"

	"github.com/DataDog/orchestrion/internal/fingerprint"
	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// C02_typename: all of the type name can be read back from its text.
func C02_typename(a, b TypeName) {
	g.Assume(g.And(fingerprint.ZZPlain(a.Name), fingerprint.ZZPlain(a.ImportPath), fingerprint.ZZPlain(b.Name), fingerprint.ZZPlain(b.ImportPath)))
	g.NoPanic()
	a1, ta, _ := strings.Cut(fingerprint.ZZText(a), "\x03")
	a2, ta, _ := strings.Cut(ta, "\x03")
	a3, _, _ := strings.Cut(ta, "\x03")
	b1, tb, _ := strings.Cut(fingerprint.ZZText(b), "\x03")
	b2, tb, _ := strings.Cut(tb, "\x03")
	b3, _, _ := strings.Cut(tb, "\x03")
	g.Assert("different type names, different text", g.Implies(g.And(a1 == b1, a2 == b2, a3 == b3), a == b))
	g.Cover("typename")
}
