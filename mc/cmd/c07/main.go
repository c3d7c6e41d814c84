// C07: qualification marks mark exactly the components they apply to.
package main

import (
	"strings"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"
)

const aspects = view.Span | view.YMD | view.Flags

func main() {
	explore.Main(explore.Check{Property: "C07", Spaces: spaces, Assumptions: []string{
		"a date whose marks are on both sides of components, negative dates with marks on components, and right marks inside intervals may be rejected; if accepted their marks are checked",
	}})
}

func one(t *explore.T, s string, a view.Aspect) { view.Compare(t, s, a) }

// place chooses a mark or none on each side of each component.
func place(t *explore.T, date string) string {
	neg := strings.HasPrefix(date, "-")
	c := strings.Split(strings.TrimPrefix(date, "-"), "-")
	if neg {
		c[0] = "-" + c[0]
	}
	marks := []string{"", "?", "~", "%"}
	for i := range c {
		c[i] = t.Pick(marks) + c[i] + t.Pick(marks)
	}
	return strings.Join(c, "-")
}

func spaces(tier string) []explore.Space {
	dates := gen.Dates([]int{0, 4, 999, 1969, 1970, 1999, 2000, 2001, 2004, 2023, 9999, -1, -5, -400, -2001, -9999}, []int{1, 2, 6, 12}, []int{1, 15, 28, -1})
	for _, d := range gen.Masks([]int{2004, 199}) {
		dates = append(dates, d)
	}
	var ends []string
	for _, d := range []string{"2004", "2004-06", "2004-06-11", "-0005", "-0005-02", "201X", "2004-XX", "2004-06-XX"} {
		ends = append(ends, gen.Qualified(d, false)...)
	}
	ends = gen.Uniq(append(ends, "..", ""))
	var some []string
	for i, e := range ends {
		if i%4 == 0 || len(e) < 9 {
			some = append(some, e)
		}
	}
	if tier == "thorough" {
		some = ends
	}
	return []explore.Space{
		{Name: "alone", Desc: "every choice of a mark or none on each side of each component, of dates of years of every kind and dates with unspecified digits",
			Body: func(t *explore.T) { one(t, place(t, t.Pick(dates)), aspects|view.Acceptance) }},
		{Name: "years", Desc: "every year -9999..9999, its February and its last day, with each single mark on each component",
			Body: func(t *explore.T) {
				y := t.Choose(200)*100 + t.Choose(100) - 10000
				if y < -9999 {
					return
				}
				d := model.YearText(y)
				q := t.Pick(gen.Quals)
				var s string
				switch t.Choose(9) {
				case 0:
					s = d + q
				case 1:
					s = q + d
				case 2:
					s = d + "-02" + q
				case 3:
					s = d + "-" + q + "02"
				case 4:
					s = d + q + "-02"
				case 5:
					s = d + "-12-31" + q
				case 6:
					s = d + "-12-" + q + "31"
				case 7:
					s = d + "-12" + q + "-31"
				case 8:
					s = q + d + "-12-31"
				}
				one(t, s, aspects|view.Acceptance)
			}},
		{Name: "intervals", Desc: "marks of each end of an interval stay on that end: every pair of ends with marks in every placement",
			Body: func(t *explore.T) {
				one(t, t.Pick(some)+"/"+t.Pick(ends), aspects|view.Acceptance)
			}},
		{Name: "unmarked", Desc: "no marks on anything without qualifiers: strings of every feature",
			Body: func(t *explore.T) {
				s := corpus.Any(t)
				one(t, s, view.Flags)
			}},
	}
}

var corpus = gen.NewCorpus(0)
