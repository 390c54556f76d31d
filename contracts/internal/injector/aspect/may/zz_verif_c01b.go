package may

import (
	"strings"

	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// C01_may_file_contains: a file that contains the text is not ruled out.
func C01_may_file_contains(content string, what string, first string, name string) {
	ctx := &FileContext{FileContent: []byte(content), PackageName: name}
	r := ctx.FileContains(what)
	g.Assert("a file with the text is not ruled out", g.Implies(strings.Contains(content, what), r != NeverMatch))
	g.Assert("result is a match type", wf(r))
	// and again, now that the index exists
	r2 := ctx.FileContains(first)
	g.Assert("nor is it when asked again", g.Implies(strings.Contains(content, first), r2 != NeverMatch))
	g.Cover("contains")
}
