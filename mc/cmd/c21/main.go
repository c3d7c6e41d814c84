// C21: the calendar helpers compute the Gregorian calendar.
package main

import (
	"fmt"
	"strconv"
	"time"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/calendar"
	"github.com/sfomuseum/go-edtf/common"
)

func main() {
	explore.Main(explore.Check{Property: "C21", Spaces: spaces, Assumptions: []string{
		"what DaysInMonth answers for a month that does not exist is not specified",
		"months and days are written with two digits and years with four, as everywhere in the library",
	}})
}

func anyYear(t *explore.T) int {
	y := t.Choose(200)*100 + t.Choose(100) - 10000
	if y < -9999 {
		y = -9999
	}
	return y
}

// same reports how an answer differs from the date wanted, if any.
func same(d *edtf.YMD, err error, ok bool, y, m, dd int) string {
	switch {
	case (d == nil) == (err == nil):
		return "both or neither of a date and an error"
	case !ok && err == nil:
		return fmt.Sprintf("gives %d/%d/%d", d.Year, d.Month, d.Day)
	case ok && err != nil:
		return fmt.Sprintf("fails: %v", err)
	case ok && (d.Year != y || d.Month != m || d.Day != dd):
		return fmt.Sprintf("gives %d/%d/%d, not %d/%d/%d", d.Year, d.Month, d.Day, y, m, dd)
	}
	return ""
}

func ymd(t *explore.T, sy, sm, sd string, ok bool, y, m, d int) {
	in := sy + " " + sm + " " + sd
	t.Input(in)
	t.Begin()
	a, aerr := common.YMDFromStrings(sy, sm, sd)
	b, berr := common.YMDFromStringDate(&common.StringDate{Year: sy, Month: sm, Day: sd})
	t.End()
	t.Compared()
	if a != nil {
		t.State(uint64(a.Year+10000)*1000 + uint64(a.Month*40+a.Day))
	}
	if x := same(a, aerr, ok, y, m, d); x != "" {
		t.Fail(in, "YMDFromStrings %s", x)
		return
	}
	if x := same(b, berr, ok, y, m, d); x != "" {
		t.Fail(in, "YMDFromStringDate %s", x)
		return
	}
	if sy == "" || sm == "" && sd != "" {
		return
	}
	s := sy
	if sm != "" {
		s += "-" + sm
		if sd != "" {
			s += "-" + sd
		}
	}
	t.Begin()
	c, cerr := common.YMDFromString(s)
	t.End()
	if x := same(c, cerr, ok, y, m, d); x != "" {
		t.Fail(in, "YMDFromString(%q) %s", s, x)
	}
}

func at(t *explore.T, y, m, d, sod int) {
	hms := model.Two(sod/3600) + ":" + model.Two(sod/60%60) + ":" + model.Two(sod%60)
	in := model.DateText(y, m, d) + " " + hms
	t.Input(in)
	t.Begin()
	a, aerr := common.TimeWithYMD(&edtf.YMD{Year: y, Month: m, Day: d}, hms)
	b, berr := common.TimeWithYMDString(model.YearText(y), model.Two(m), model.Two(d), hms)
	t.End()
	t.Compared()
	want := model.Secs(y, m, d, sod)
	for _, x := range []struct {
		n   string
		t   *time.Time
		err error
	}{{"TimeWithYMD", a, aerr}, {"TimeWithYMDString", b, berr}} {
		switch {
		case x.err != nil || x.t == nil:
			t.Fail(in, "%s fails: %v", x.n, x.err)
		case x.t.Unix() != want || x.t.Nanosecond() != 0:
			t.Fail(in, "%s gives %v", x.n, x.t)
		case x.t.Location() != time.UTC:
			t.Fail(in, "%s gives a time in %v", x.n, x.t.Location())
		case x.t.Year() != y || int(x.t.Month()) != m || x.t.Day() != d:
			t.Fail(in, "%s gives %v", x.n, x.t)
		}
	}
}

func spaces(tier string) []explore.Space {
	return []explore.Space{
		{Name: "months", Desc: "every month of every year -9999..9999, as numbers and as text", Body: func(t *explore.T) {
			y := anyYear(t)
			m := 1 + t.Choose(12)
			s := model.YearText(y) + "-" + model.Two(m)
			t.Input(s)
			t.Begin()
			a, aerr := calendar.DaysInMonth(y, m)
			b, berr := calendar.DaysInMonthWithString(s)
			t.End()
			t.Compared()
			n := model.DaysIn(y, m)
			if aerr != nil || a != n {
				t.Fail(s, "DaysInMonth gives %d %v", a, aerr)
			}
			if berr != nil || b != n {
				t.Fail(s, "DaysInMonthWithString gives %d %v", b, berr)
			}
			t.Begin()
			f := common.FormatYear(y)
			fl := common.FlipYear(y)
			t.End()
			if f != model.YearText(y) || fl != -y {
				t.Fail(s, "FormatYear gives %q, FlipYear %d", f, fl)
			}
		}},
		{Name: "dates", Desc: "every year -9999..9999 alone, with months 00-13 and none, and days 00-32 and none", Body: func(t *explore.T) {
			y := anyYear(t)
			m := t.Choose(15) - 1
			sm, sd := "", ""
			ok := true
			mm, dd := 1, 31
			if m >= 0 {
				sm = model.Two(m)
				d := t.Choose(34) - 1
				ok = m >= 1 && m <= 12
				mm = m
				if ok {
					dd = model.DaysIn(y, m)
				}
				if d >= 0 {
					sd = model.Two(d)
					ok = model.Exists(y, m, d)
					dd = d
				}
			}
			ymd(t, model.YearText(y), sm, sd, ok, y, mm, dd)
		}},
		{Name: "strings", Desc: "years, months and days of every kind of text that names no date, and dates with them", Body: func(t *explore.T) {
			bad := []string{"X", "0X", "XX", "ab", " ", "0x1", "1e1", "--1", "99", "13", "00", "32", "45", "100", "99999999999999999999", "9223372036854775808", "1.0", "٣"}
			y := t.Pick(append([]string{"2004", "-0400", "0000", "10000", "-10000", "99999999999999999999"}, "", "201X", "XXXX", "abcd", "2 04", "--200", "2e03", "0x7d"))
			okY := y == "2004" || y == "-0400" || y == "0000"
			m := t.Pick(append([]string{"", "02", "12"}, bad...))
			d := t.Pick(append([]string{"", "01", "29"}, bad...))
			n := func(s string) int {
				for i := 0; i < 100; i++ {
					if s == model.Two(i) {
						return i
					}
				}
				return -1
			}
			ok := okY
			yy, _ := strconv.Atoi(y)
			mm, dd := 1, 31
			if m == "" {
				ok = ok && d == ""
			} else {
				mm = n(m)
				ok = ok && mm >= 1 && mm <= 12
				if ok && d == "" {
					dd = model.DaysIn(yy, mm)
				} else if ok {
					dd = n(d)
					ok = dd >= 1 && model.Exists(yy, mm, dd)
				}
			}
			ymd(t, y, m, d, ok, yy, mm, dd)
		}},
		{Name: "times", Desc: "every day of every year -9999..9999 at 00:00:00 and 23:59:59", Body: func(t *explore.T) {
			y := anyYear(t)
			m := 1 + t.Choose(12)
			var d int
			if tier == "thorough" {
				d = 1 + t.Choose(model.DaysIn(y, m))
			} else {
				d = []int{1, 15, model.DaysIn(y, m)}[t.Choose(3)]
			}
			at(t, y, m, d, t.Choose(2)*model.EndOfDay)
		}},
		{Name: "seconds", Desc: "every second of a day, in years before and after 0", Body: func(t *explore.T) {
			y := []int{2004, 1970, 0, -4, -9999, 9999}[t.Choose(6)]
			h := t.Choose(24)
			at(t, y, 2, 28, h*3600+t.Choose(3600))
		}},
		{Name: "equal", Desc: "every pair of dates out of some", Body: func(t *explore.T) {
			y := gen.FewYears
			a := &edtf.YMD{Year: y[t.Choose(len(y))], Month: 1 + t.Choose(12), Day: 1 + t.Choose(3)}
			b := &edtf.YMD{Year: y[t.Choose(len(y))], Month: 1 + t.Choose(12), Day: 1 + t.Choose(3)}
			in := fmt.Sprint(*a, *b)
			t.Input(in)
			t.Begin()
			e := a.Equals(b)
			t.End()
			t.Compared()
			if e != (*a == *b) {
				t.Fail(in, "Equals gives %v", e)
			}
		}},
	}
}
