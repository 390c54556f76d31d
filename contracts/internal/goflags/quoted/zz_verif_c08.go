package quoted

import (
	"strings"

	g "github.com/DataDog/orchestrion/internal/zzghost"
)

// C08_split: splitting never fails but for a quote that is not closed, and
// what is split off is part of the text.
func C08_split(s string) {
	g.NoPanic()
	f, err := Split(s)
	g.Assert("failure is reported without a result", g.Implies(err != nil, f == nil))
	g.Cover("split")
}

type words08 struct {
	text string
	want []string
}

func gen_words08(r *g.Rand) words08 {
	var w words08
	w.text = g.Pick(r, "", "", " ", "\t\n")
	for range r.Intn(5) {
		word := ""
		for range r.Intn(6) {
			word += g.Pick(r, "a", "-", "=", " ", "\t", "'", "\"", "\\", ",", "é")
		}
		q := g.Pick(r, "", "'", "\"")
		switch {
		case q == "" && (word == "" || strings.ContainsAny(word, " \t\n\r") || strings.HasPrefix(word, "'") || strings.HasPrefix(word, "\"")):
			continue
		case q != "" && strings.Contains(word, q):
			continue
		}
		w.want = append(w.want, word)
		w.text += q + word + q + g.Pick(r, " ", "  ", "\t", "\n", "\r\n")
	}
	w.text = strings.TrimRight(w.text, g.Pick(r, "", " \n"))
	return w
}

// C08_run_words: what was quoted is found again.
func C08_run_words(w words08) {
	got, err := Split(w.text)
	g.Assert("the text is accepted", err == nil)
	g.Notef("%q: %q instead of %q", w.text, got, w.want)
	g.Assert("as many words", len(got) == len(w.want))
	for i := range got {
		g.Assert("the words that were quoted", got[i] == w.want[i])
	}
}
