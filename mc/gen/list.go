package gen

import (
	"verif.local/mc/explore"
)

// List has every step-th string of a corpus, without repetitions.
func List(size, step int) []string {
	c := NewCorpus(size)
	var out []string
	explore.Enumerate(func(t *explore.T) { out = append(out, c.Any(t)) })
	out = Uniq(out)
	var few []string
	for i := 0; i < len(out); i += step {
		few = append(few, out[i])
	}
	return few
}
