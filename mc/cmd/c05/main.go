// C05: an interval is composed of exactly its two endpoints.
package main

import (
	"strings"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"
)

const aspects = view.Acceptance | view.Span | view.YMD | view.Flags | view.Text

func main() {
	explore.Main(explore.Check{Property: "C05", Spaces: spaces, Assumptions: []string{
		"an endpoint qualified on its right, a season as an endpoint, and the strings ../.. and / may be rejected or accepted",
	}})
}

func one(t *explore.T, a, b string) {
	s := a + "/" + b
	v := model.Parse(s)
	view.CompareWith(t, s, &v, aspects)
}

func spaces(tier string) []explore.Space {
	c := gen.NewCorpus(1)
	ends := c.Ends
	plain := gen.Uniq(append([]string{"", ".."}, gen.Dates(gen.Years, []int{1, 2, 4, 12}, []int{1, 28, -1})...))
	var marked []string
	for _, d := range gen.Dates([]int{2004, 2001, -5}, []int{2, 12}, []int{1, -1}) {
		marked = append(marked, gen.Qualified(d, false)...)
	}
	marked = gen.Uniq(marked)
	var left []string
	for _, m := range marked {
		if !strings.HasSuffix(m, "?") && !strings.HasSuffix(m, "~") && !strings.HasSuffix(m, "%") {
			left = append(left, m)
		}
	}
	var xs []string
	for _, m := range gen.Masks([]int{0, 199, 1999, 2000, 2001, 2024, 9999}) {
		xs = append(xs, m)
	}
	bad := []string{"2001-02-29", "2004-02-30", "2004-13", "2004-00", "2004-01-00", "2004-04-31", "2001-21", "2001-33", "XXXX", "X001", "2004-02-3X", "2004-1", "204", "20045", "Y2004", "[2004]", "2004-06-11T10:00:00", "2004S2", "hello", "...", ".", "open", "uuuu", " ", "2004 ", " 2004", "2004/2005", "2004-0X-31", "--2004", "2004?-06", "2004-06?-11", "Spring, 2001"}
	few := gen.Uniq(append([]string{"", "..", "2000", "2001-02", "2004-02-29", "-0005-12", "0000", "9999-12-31", "-9999"}, "201X", "2004-XX", "1XXX-12-XX", "?2004", "2004-~06", "~2004-%06-?11", "-0400-02-29"))
	seen := map[string]bool{}
	var all []string
	for _, l := range [][]string{ends, plain, left, marked, xs, bad} {
		for _, e := range l {
			if !seen[e] {
				seen[e] = true
				all = append(all, e)
			}
		}
	}
	sp := []explore.Space{
		{Name: "plain", Desc: "every pair of plain dates of years of every kind, the open and the unknown end",
			Body: func(t *explore.T) { one(t, t.Pick(plain), t.Pick(plain)) }},
		{Name: "sides", Desc: "every end (plain, qualified in every way, with unspecified digits in every form, impossible, misspelt, of another feature), on either side, with ends of every kind on the other",
			Body: func(t *explore.T) {
				e, f := t.Pick(all), t.Pick(few)
				if t.Bool() {
					e, f = f, e
				}
				one(t, e, f)
			}},
		{Name: "years", Desc: "every year -9999..9999, its February, and its last day, on either side",
			Body: func(t *explore.T) {
				y := t.Choose(200)*100 + t.Choose(100) - 10000
				if y < -9999 {
					return
				}
				e := model.YearText(y) + t.Pick([]string{"", "-02", "-12-31"})
				f := t.Pick([]string{"..", "", "2004", "1985-04-12", "?2004-06"})
				if t.Bool() {
					e, f = f, e
				}
				one(t, e, f)
			}},
		{Name: "bad", Desc: "two ends of which at least one denotes no date",
			Body: func(t *explore.T) { one(t, t.Pick(bad), t.Pick(bad)) }},
		{Name: "malformed", Desc: "every single edit of intervals of every kind",
			Body: func(t *explore.T) {
				base := []string{"2004-06-11/2005-07", "../2005-02", "1984-02-29/..", "/1985", "1985-04-12/", "-0005/-0004", "?2004/2005-~06", "201X/2004-XX", "2004/2005"}
				s := gen.Edit(t, t.Pick(base), gen.EditLetters)
				view.Compare(t, s, aspects)
			}},
	}
	if tier == "thorough" {
		sp = append(sp, explore.Space{Name: "pairs", Desc: "every pair of ends of every kind", Body: func(t *explore.T) { one(t, t.Pick(all), t.Pick(all)) }})
	} else {
		var some []string
		for i, e := range all {
			if i%2 == 0 {
				some = append(some, e)
			}
		}
		sp = append(sp, explore.Space{Name: "pairs", Desc: "every pair out of half of the ends of every kind", Body: func(t *explore.T) { one(t, t.Pick(some), t.Pick(some)) }})
	}
	return sp
}
