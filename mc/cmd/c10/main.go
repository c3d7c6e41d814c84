// C10: prefixed, exponential and significant-digit years denote the right years.
package main

import (
	"strconv"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"
)

const aspects = view.Acceptance | view.Span | view.YMD | view.Flags

func main() {
	explore.Main(explore.Check{Property: "C10", Spaces: spaces, Assumptions: []string{
		"Y with fewer than four digits or with leading zeroes beyond four, lower-case y without an exponent, minus zero, and S0 may be rejected; if accepted their span is checked",
		"S<n> larger than the number of significant digits written but not larger than 4 may be rejected",
	}})
}

func one(t *explore.T, s string, a view.Aspect) { view.Compare(t, s, a) }

func anyYear(t *explore.T) int {
	y := t.Choose(200)*100 + t.Choose(100) - 10000
	if y < -9999 {
		y = -9999
	}
	return y
}

func abs(y int) int {
	if y < 0 {
		return -y
	}
	return y
}

func sign(y int) string {
	if y < 0 {
		return "-"
	}
	return ""
}

func spaces(tier string) []explore.Space {
	return []explore.Space{
		{Name: "prefixed", Desc: "Y with every year -9999..9999, and with every year of up to six digits in absolute value beyond it in steps, rejected as unsupported",
			Body: func(t *explore.T) {
				if t.Bool() {
					one(t, "Y"+model.YearText(anyYear(t)), aspects|view.Class)
					return
				}
				y := 10000 + t.Choose(100)*9900 + t.Choose(100)
				one(t, []string{"Y", "Y-"}[t.Choose(2)]+strconv.Itoa(y), aspects|view.Class)
			}},
		{Name: "exponential", Desc: "every mantissa 0-12000 with every exponent 0-6, both signs, upper and lower case, and every year -9999..9999 with exponent 0",
			Body: func(t *explore.T) {
				if t.Bool() {
					y := anyYear(t)
					one(t, "Y"+sign(y)+strconv.Itoa(abs(y))+t.Pick([]string{"E0", "e00"}), aspects|view.Class)
					return
				}
				m := t.Choose(120)*100 + t.Choose(100)
				one(t, []string{"Y", "Y-", "y"}[t.Choose(3)]+strconv.Itoa(m)+t.Pick([]string{"E", "e"})+strconv.Itoa(t.Choose(7)), aspects|view.Class)
			}},
		{Name: "exponents", Desc: "every mantissa 0-1010 with every exponent 0-400 and exponents around the sizes of machine integers",
			Body: func(t *explore.T) {
				m := strconv.Itoa(t.Choose(102)*10 + []int{0, 1, 5}[t.Choose(3)])
				e := t.Choose(401 + len(gen.Exponents))
				x := strconv.Itoa(e)
				if e > 400 {
					x = gen.Exponents[e-401]
				}
				one(t, []string{"Y", "Y-"}[t.Choose(2)]+m+"E"+x, aspects|view.Class)
			}},
		{Name: "significant", Desc: "every year -9999..9999, plain, with Y and as an exponential year, with S0-S12",
			Body: func(t *explore.T) {
				y := anyYear(t)
				n := "S" + strconv.Itoa(t.Choose(13))
				switch t.Choose(3) {
				case 0:
					one(t, model.YearText(y)+n, aspects)
				case 1:
					one(t, "Y"+model.YearText(y)+n, aspects)
				case 2:
					a := abs(y)
					e := 0
					for a > 0 && a%10 == 0 {
						a /= 10
						e++
					}
					one(t, "Y"+sign(y)+strconv.Itoa(a)+"E"+strconv.Itoa(e)+n, aspects)
				}
			}},
		{Name: "numbers", Desc: "mantissas, exponents and counts of every size, up to 1000 digits",
			Body: func(t *explore.T) { one(t, gen.Number(t), aspects|view.Class) }},
		{Name: "malformed", Desc: "every single edit of years of every form",
			Body: func(t *explore.T) {
				one(t, gen.Edit(t, t.Pick([]string{"Y1985", "Y-1985", "Y170000002", "Y17E2", "Y-17E7", "1950S2", "-1950S1", "Y1950S2", "Y3388E0S3", "Y-20E2S2", "Y12345S3"}), gen.EditLetters), aspects)
			}},
	}
}
