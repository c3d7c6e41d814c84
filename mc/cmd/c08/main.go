// C08: every season and sub-year grouping code spans its months, in every year.
package main

import (
	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"
)

const aspects = view.Acceptance | view.Span | view.YMD | view.Flags

func main() {
	explore.Main(explore.Check{Property: "C08", Spaces: spaces, Assumptions: []string{
		"codes 25-41 with a negative year may be rejected; if accepted their span is checked",
		"only the outer bounds (start-lower and end-upper) are specified",
	}})
}

func anyYear(t *explore.T) int {
	y := t.Choose(200)*100 + t.Choose(100) - 10000
	if y < -9999 {
		y = -9999
	}
	return y
}

var words = []string{"spring", "summer", "fall", "winter"}

func spaces(tier string) []explore.Space {
	cases := func(w string, up int) string {
		b := []byte(w)
		for i := range b {
			if up>>i&1 == 1 {
				b[i] -= 32
			}
		}
		return string(b)
	}
	return []explore.Space{
		{Name: "codes", Desc: "every year -9999..9999 with every code 21-41",
			Body: func(t *explore.T) {
				view.Compare(t, model.YearText(anyYear(t))+"-"+model.Two(21+t.Choose(21)), aspects)
			}},
		{Name: "words", Desc: "every year 0000..9999 with every season spelled out, in lower, upper and mixed case, with and without a space",
			Body: func(t *explore.T) {
				y := t.Choose(100)*100 + t.Choose(100)
				w := t.Pick(words)
				s := []string{w, cases(w, 63), cases(w, 1), cases(w, 42)}[t.Choose(4)]
				view.Compare(t, s+t.Pick([]string{",", ", ", " , ", "  ,   "})+model.YearText(y), aspects)
			}},
		{Name: "cases", Desc: "every choice of upper and lower case of every letter of every season",
			Body: func(t *explore.T) {
				w := t.Pick(words)
				s := cases(w, t.Choose(1<<len(w)))
				view.Compare(t, s+t.Pick([]string{",", ", ", " ,", "\t,", ",\n"})+model.YearText(gen.Years[t.Choose(34)]), aspects)
			}},
		{Name: "not codes", Desc: "codes 42-99 and 13-20, misspelt seasons, seasons with other separators, negative or short years",
			Body: func(t *explore.T) {
				var s string
				if t.Bool() {
					y := gen.Years[t.Choose(len(gen.Years))]
					c := 13 + t.Choose(87)
					s = model.YearText(y) + "-" + model.Two(c)
				} else {
					s = t.Pick([]string{"spring", "autumn", "springs", "sprin", "winterr", "xwinter", "summer fall", "", "winter,winter"}) +
						t.Pick([]string{"", ",", ", ", ";", ",,", "-", " "}) +
						t.Pick([]string{"2001", "-2001", "200", "20011", "2001-02", "XXXX", "201X", "", "2001 ", "2001?", "+2001"})
				}
				view.Compare(t, s, aspects)
			}},
	}
}
