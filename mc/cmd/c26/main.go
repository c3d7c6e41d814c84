// C26: the original text is preserved in the result.
package main

import (
	"fmt"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"
)

func main() {
	explore.Main(explore.Check{Property: "C26", Spaces: spaces})
}

func one(t *explore.T, s string) {
	d, err := view.Parse(t, s)
	t.State(view.StateOf(d, err))
	if err != nil || view.Whole(d, err) != "" {
		return
	}
	t.Compared()
	t.Begin()
	str := d.String()
	t.End()
	if d.EDTF != s || str != s {
		t.Fail(s, "its text is %q and its string form %q", d.EDTF, str)
		return
	}
	v := model.Parse(s)
	if m := view.Check(&v, s, d, err, view.Text); m != "" {
		t.Fail(s, "%s", m)
	}
}

func spaces(tier string) []explore.Space {
	size := 0
	if tier == "thorough" {
		size = 1
	}
	sp := append(gen.Short(tier, one), gen.CorpusSpace(size, one))
	return append(sp,
		explore.Space{Name: "years", Desc: "every year -9999..9999 in strings of every kind",
			Body: func(t *explore.T) {
				y := t.Choose(200)*100 + t.Choose(100) - 10000
				if y < -9999 {
					return
				}
				one(t, fmt.Sprintf(t.Pick(forms), model.YearText(y)))
			}},
		explore.Space{Name: "intervals", Desc: "every pair of ends of every kind, some of years of every kind",
			Body: func(t *explore.T) { one(t, t.Pick(ends)+"/"+t.Pick(ends)) }},
		explore.Space{Name: "cases", Desc: "letter case and spacing in seasons and exponents",
			Body: func(t *explore.T) {
				if t.Bool() {
					w := []byte(t.Pick([]string{"spring", "summer", "fall", "winter"}))
					for i := range w {
						if t.Bool() {
							w[i] -= 32
						}
					}
					one(t, string(w)+t.Pick([]string{"", " ", "  "})+","+t.Pick([]string{"", " ", "   ", "\t"})+t.Pick([]string{"0000", "1999", "2024"}))
				} else {
					one(t, t.Pick([]string{"Y", "y"})+t.Pick([]string{"1", "-20", "0019", "00"})+t.Pick([]string{"E", "e"})+t.Pick([]string{"0", "02", "3"})+t.Pick([]string{"", "S1", "S02"}))
				}
			}},
	)
}

var ends = gen.NewCorpus(0).Ends

var forms = []string{"%s", "%s-02", "%s-12-31", "%s-01-01T00:00:00", "%s-06-30T12:00:00Z", "%s-06-30T12:00:00+00:00", "%s?", "~%s", "%s-24", "%s-30", "%s-36", "Y%s", "Y%sE0", "%sS1", "%s/..", "../%s-02", "%s-12-31/", "/%s", "%s/2004-06", "-0044-03/%s", "[%s]", "{%s..}", "[..%s-02]", "[%s,1970]", "{0000..%s,-0300}"}
