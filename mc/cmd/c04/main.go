// C04: a date and time denotes exactly one UTC instant.
package main

import (
	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"

	"github.com/sfomuseum/go-edtf/level0"
)

const aspects = view.Acceptance | view.Span | view.Flags | view.YMD

func main() {
	explore.Main(explore.Check{Property: "C04", Spaces: spaces, Assumptions: []string{
		"a shift with hour above 23 or minute above 59 is not specified",
		"an instant outside the years -9999..9999 after its shift is not specified",
	}})
}

var mds = [][2]int{{1, 1}, {1, 31}, {2, 1}, {2, 28}, {2, 29}, {3, 1}, {4, 30}, {6, 15}, {12, 1}, {12, 30}, {12, 31}}

func hms(h, m, s int) string { return model.Two(h) + ":" + model.Two(m) + ":" + model.Two(s) }

// offsets are every shift from -23:59 to +23:59, and the hours alone.
var offsets = func() []string {
	out := []string{"", "Z"}
	for _, sg := range []string{"+", "-"} {
		for h := 0; h < 24; h++ {
			out = append(out, sg+model.Two(h))
			for m := 0; m < 60; m++ {
				out = append(out, sg+model.Two(h)+":"+model.Two(m))
			}
		}
	}
	return out
}()

var someOffsets = []string{"", "Z", "+00", "-00", "+00:00", "-00:00", "+00:01", "-00:01", "+01", "-01", "+05:30", "-04", "+09", "-09:30", "+10", "+12:45", "+14", "-12", "+18", "-19:20", "+23", "-23:59", "+23:59"}

func one(t *explore.T, s string) {
	v := model.Parse(s)
	view.CompareWith(t, s, &v, aspects)
	if t.Failed() || v.K == model.Reject {
		return
	}
	t.Begin()
	d, err := level0.ParseDateAndTime(s)
	t.End()
	if m := view.Check(&v, s, d, err, aspects); m != "" {
		t.Fail(s, "level0.ParseDateAndTime: %s", m)
	}
}

func spaces(tier string) []explore.Space {
	thorough := tier == "thorough"
	times := []string{"00:00:00", "00:00:01", "00:59:59", "05:30:00", "12:00:00", "18:29:59", "23:00:00", "23:59:58", "23:59:59"}
	years := gen.Years
	return []explore.Space{
		{
			Name: "shifts", Desc: "dates at the edges of months, years, leap days, the eras and the epoch, with times at the edges of days, and every shift from -23:59 to +23:59 in both forms",
			Body: func(t *explore.T) {
				y := years[t.Choose(len(years))]
				md := mds[t.Choose(len(mds))]
				if !model.Exists(y, md[0], md[1]) {
					return
				}
				s := model.DateText(y, md[0], md[1]) + "T"
				if thorough {
					s += t.Pick(times)
				} else {
					s += t.Pick([]string{"00:00:00", "12:34:56", "23:59:59"})
				}
				one(t, s+t.Pick(offsets))
			},
		},
		{
			Name: "years", Desc: "the first and last instants of every year -9999..9999 with shifts of every kind",
			Body: func(t *explore.T) {
				y := t.Choose(200)*100 + t.Choose(100) - 10000
				if y < -9999 {
					return
				}
				s := model.YearText(y)
				m := t.Choose(3)
				s += []string{"-01-01T00:00:00", "-12-31T23:59:59", "-02-28T23:30:00"}[m]
				one(t, s+t.Pick(someOffsets))
			},
		},
		{
			Name: "times", Desc: "every second of a day, with and without a shift, in two years; every hour 00-99, minute 00-99 and second 00-99 beyond them rejected",
			Body: func(t *explore.T) {
				s := t.Pick([]string{"2024-02-29T", "-0001-12-31T"})
				h, m := t.Choose(100), t.Choose(100)
				var sec int
				if h < 24 && m < 60 {
					sec = t.Choose(100)
				} else {
					sec = []int{0, 1, 30, 59, 60, 61, 99}[t.Choose(7)]
				}
				one(t, s+hms(h, m, sec)+t.Pick([]string{"", "-05"}))
			},
		},
		{
			Name: "days", Desc: "every day of 1969-1972, 1896-1900, -4..4 and 9996..9999 at 12:00 and with a shift across midnight",
			Body: func(t *explore.T) {
				ys := []int{1969, 1970, 1971, 1972, 1896, 1900, -5, -4, -1, 0, 1, 4, 9996, 9999}
				y := ys[t.Choose(len(ys))]
				m := 1 + t.Choose(12)
				d := 1 + t.Choose(model.DaysIn(y, m))
				one(t, model.DateText(y, m, d)+"T"+t.Pick([]string{"12:00:00", "23:30:00-01", "00:10:00+03:30", "00:00:00Z"}))
			},
		},
		{
			Name: "forms", Desc: "date-times with wrong zones, wrong separators, or dates that are not full plain dates",
			Body: func(t *explore.T) {
				d := t.Pick([]string{"2024-02-29", "2023-02-29", "2024-02", "2024", "201X-02-03", "2024-02-XX", "2024-02-29?", "?2024-02-29", "2024-00-10", "-2024-02-29", "..", ""})
				tm := t.Pick([]string{"10:20:30", "10:20", "10", "1:20:30", "10:2:30", "102030", "10:20:30.5", "10:20:30,5", "XX:20:30", "-1:20:30", "10:20:60", "24:00:00", "24:00:01"})
				z := t.Pick([]string{"", "Z", "z", "+5", "+0530", "+05:3", "+05:", "+", "-", "Z+05", "+05Z", "+05:30:00", " Z", "05:30", "+AB", "/2025", "?", "+05:30/.."})
				one(t, d+t.Pick([]string{"T", "t", " ", ""})+tm+z)
			},
		},
	}
}
