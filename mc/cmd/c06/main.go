// C06: unspecified digits span exactly the dates that fill them in.
package main

import (
	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"
)

const aspects = view.Acceptance | view.Span | view.YMD

func main() {
	explore.Main(explore.Check{Property: "C06", Spaces: spaces, Assumptions: []string{
		"masks of forms the library does not document (an X followed by a digit in the year, X0-X9 as month or day) may be rejected; if accepted their span is checked",
	}})
}

func one(t *explore.T, s string) { view.Compare(t, s, aspects) }

const digits = "0123456789X"

// mask2 chooses any two digits or X.
func mask2(t *explore.T) string {
	n := t.Choose(121)
	return string(digits[n/11]) + string(digits[n%11])
}

// rest chooses no month, any month, or any month and day, with digits or X.
func rest(t *explore.T) string {
	switch t.Choose(3) {
	case 0:
		return ""
	case 1:
		return "-" + mask2(t)
	}
	return "-" + mask2(t) + "-" + mask2(t)
}

var edgeMonths = []string{"01", "02", "04", "11", "12", "XX", "0X", "1X", "X2", "X1"}
var edgeDays = []string{"01", "09", "10", "19", "20", "28", "29", "30", "31", "XX", "0X", "1X", "2X", "3X", "X1", "X9"}

func spaces(tier string) []explore.Space {
	year := func(t *explore.T) string {
		n := t.Choose(121)
		m := t.Choose(121)
		return string(digits[n/11]) + string(digits[n%11]) + string(digits[m/11]) + string(digits[m%11])
	}
	sp := []explore.Space{
		{Name: "years", Desc: "every year of digits or X, positive and negative, alone, and with months and days at the edges, with digits or X",
			Body: func(t *explore.T) {
				s := []string{"", "-"}[t.Choose(2)] + year(t)
				switch t.Choose(3) {
				case 1:
					s += "-" + t.Pick(edgeMonths)
				case 2:
					s += "-" + t.Pick(edgeMonths) + "-" + t.Pick(edgeDays)
				}
				one(t, s)
			}},
	}
	var bases []string
	for _, b := range []int{0, 1, 19, 100, 400, 1582, 1900, 1999, 2000, 2004, 2023, 2100, 9999} {
		y := model.YearText(b)
		for m := 0; m < 16; m++ {
			x := []byte(y)
			for k := 0; k < 4; k++ {
				if m>>k&1 == 1 {
					x[3-k] = 'X'
				}
			}
			bases = append(bases, string(x))
		}
	}
	bases = gen.Uniq(bases)
	if tier == "thorough" {
		sp = append(sp, explore.Space{Name: "all", Desc: "every year, month and day of digits or X",
			Body: func(t *explore.T) { one(t, year(t)+rest(t)) }})
	} else {
		sp = append(sp, explore.Space{Name: "rest", Desc: "years of 13 kinds with every choice of digits replaced by X, with every month and day of digits or X",
			Body: func(t *explore.T) { one(t, t.Pick(bases)+rest(t)) }})
	}
	return sp
}
