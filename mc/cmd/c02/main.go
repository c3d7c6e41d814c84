// C02: a plain date spans exactly its day, month or year, for every year -9999..9999.
package main

import (
	"verif.local/mc/explore"
	"verif.local/mc/model"
	"verif.local/mc/view"

	"github.com/sfomuseum/go-edtf/level0"
)

const aspects = view.Acceptance | view.Span | view.YMD | view.Flags

func main() {
	explore.Main(explore.Check{Property: "C02", Spaces: spaces})
}

func spaces(tier string) []explore.Space {
	return []explore.Space{{
		Name: "dates",
		Desc: "every year -9999..9999, alone, with every month, and with every day: parser.ParseString and level0.ParseDate against the reference calendar",
		Body: func(t *explore.T) {
			// the year in three choices, so that the work splits
			y := t.Choose(200)*100 + t.Choose(100) - 10000
			if y < -9999 {
				return
			}
			s := model.YearText(y)
			if m := t.Choose(13); m > 0 {
				s += "-" + model.Two(m)
				if d := t.Choose(model.DaysIn(y, m) + 1); d > 0 {
					s += "-" + model.Two(d)
				}
			}
			v := model.Parse(s)
			if v.K != model.Accept {
				panic("the model does not accept " + s)
			}
			view.CompareWith(t, s, &v, aspects)
			if t.Failed() {
				return
			}
			if tier == "thorough" || y%50 == 0 {
				t.Begin()
				d, err := level0.ParseDate(s)
				t.End()
				if m := view.Check(&v, s, d, err, aspects); m != "" {
					t.Fail(s, "level0.ParseDate: %s", m)
				}
			}
		},
	}}
}
