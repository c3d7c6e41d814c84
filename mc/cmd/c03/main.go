// C03: a day or month that is not in the calendar is never parsed into a date.
package main

import (
	"strings"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"
)

func main() {
	explore.Main(explore.Check{Property: "C03", Spaces: spaces})
}

// Places where a date can appear: Y is the year, -M the month, -D the day, and @ the whole date.
var places = []string{
	"@", "@?", "@~", "@%", "?@", "~@", "%@",
	"YqMD", "YMqD", "Y-qMD", "YM-qD", "qYM-qD", "YqM-qD", "Y-qMDq",
	"@T00:00:00", "@T23:59:59Z", "@T12:00:00+05", "@T00:30:00-11:45", "@T24:00:00",
	"@/2004", "2004/@", "2004-06/@", "2004-06-11/@", "@/2004-06-11", "@/..", "../@", "@/", "/@", "@/@",
	"?@/2004", "@?/2004", "2004/@~", "2004/%@", "@/?2004", "2004-06-XX/@", "@/2004-06-XX", "201X/@", "@/201X", "-2004/@",
	"[@]", "{@}", "[@,2004]", "[2004,@]", "{1999,@,2004}", "[..@]", "[@..]", "{2000..@}", "{@..2004}", "[1999,@..]", "[1999,2000..@]", "[@..2004,2006]", "{..@,2004}", "[1999,2000,2001,@]", "{@,1999-02,1999-02-03}", "[-0044,@]",
}

// fill replaces the date in a place; q is the qualifier used at q.
func fill(place, y, m, d, q string) string {
	if strings.ContainsAny(place, "Y") {
		// component-wise placement
		var b strings.Builder
		i := 0
		for i < len(place) {
			switch {
			case place[i] == 'Y':
				b.WriteString(y)
			case place[i] == 'M':
				b.WriteString(m)
			case place[i] == 'D':
				b.WriteString(d)
			case place[i] == 'q':
				b.WriteString(q)
			case strings.HasPrefix(place[i:], "-qM"):
				b.WriteString("-" + q + strings.TrimPrefix(m, "-"))
				i += 2
			case strings.HasPrefix(place[i:], "-qD"):
				if d != "" {
					b.WriteString("-" + q + strings.TrimPrefix(d, "-"))
				}
				i += 2
			default:
				b.WriteByte(place[i])
			}
			i++
		}
		return b.String()
	}
	return strings.ReplaceAll(place, "@", y+m+d)
}

func one(t *explore.T, s string) {
	v := model.Parse(s)
	if v.K != model.Reject {
		panic("the model does not reject " + s)
	}
	view.CompareWith(t, s, &v, view.Acceptance)
}

func spaces(tier string) []explore.Space {
	years := []int{1900, 2000, 2001, 2004, -5, -4, 0, 999, 9999, -9999}
	if tier == "thorough" {
		years = gen.Years
	}
	two := func(n int) string { return "-" + model.Two(n) }
	return []explore.Space{
		{
			Name: "days", Desc: "every month 00-99 and day 00-99 that do not exist, in every place a date can have, for years of every kind",
			Body: func(t *explore.T) {
				y := years[t.Choose(len(years))]
				m, d := t.Choose(100), t.Choose(100)
				if model.Exists(y, m, d) {
					return
				}
				one(t, fill(t.Pick(places), model.YearText(y), two(m), two(d), "?"))
			},
		},
		{
			Name: "months", Desc: "every month that is neither a month nor a code, in every place",
			Body: func(t *explore.T) {
				y := gen.Years[t.Choose(len(gen.Years))]
				m := t.Choose(100)
				if m >= 1 && m <= 12 || m >= 21 && m <= 41 {
					return
				}
				one(t, fill(t.Pick(places), model.YearText(y), two(m), "", "%"))
			},
		},
		{
			Name: "years", Desc: "for every year -9999..9999: February 29 (unless leap) and 30, day 31 of every short month, days 00 and 32, months 00 and 13",
			Body: func(t *explore.T) {
				y := t.Choose(200)*100 + t.Choose(100) - 10000
				if y < -9999 {
					return
				}
				md := edges[t.Choose(len(edges))]
				if model.Exists(y, md[0], md[1]) {
					return
				}
				one(t, fill(t.Pick(places), model.YearText(y), two(md[0]), two(md[1]), "~"))
			},
		},
		{
			Name: "masks", Desc: "years with unspecified digits, and months and days with or without, that no calendar date matches",
			Body: func(t *explore.T) {
				y := t.Pick([]string{"201X", "20XX", "2XXX", "190X", "1900", "2001", "2004", "XXXX", "X001"})
				m := t.Pick(mm)
				d := t.Pick(mm)
				s := y + "-" + m + "-" + d
				e, ok := model.ParseExpr(s)
				if !ok {
					panic(s)
				}
				if e.Possible() {
					return
				}
				if tier == "thorough" {
					one(t, fill(t.Pick(places), y, "-"+m, "-"+d, "~"))
					return
				}
				one(t, fill(t.Pick([]string{"@", "@~", "@/2004", "2004/?@", "../@"}), y, "-"+m, "-"+d, "~"))
			},
		},
	}
}

var edges = [][2]int{{2, 29}, {2, 30}, {2, 31}, {4, 31}, {6, 31}, {9, 31}, {11, 31}, {12, 32}, {1, 0}, {12, 0}, {0, 1}, {13, 1}, {13, 31}, {0, 0}}

var mm = func() []string {
	var out []string
	for _, a := range "0123459X" {
		for _, b := range "0123459X" {
			out = append(out, string(a)+string(b))
		}
	}
	return out
}()
