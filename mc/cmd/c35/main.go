// C35: the span functions read every date the same as the parsers, and as each other.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/common"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"
)

func main() {
	explore.Main(explore.Check{Property: "C35", Spaces: spaces, Assumptions: []string{
		"strings that the span functions read and the parsers do not (such as a mark on the right of a component in an interval) are related to the strings without marks and to the spans of the two sides",
		"the texts of the two ranges are not compared",
	}})
}

// read calls DateSpanFromEDTF, and says what is wrong with the shape of its answer.
func read(t *explore.T, s string) (*edtf.DateSpan, error) {
	t.Input(s)
	t.Begin()
	sp, err := common.DateSpanFromEDTF(s)
	t.End()
	t.Compared()
	switch {
	case sp == nil && err == nil:
		t.Fail(s, "neither a span nor an error")
	case sp != nil && err != nil:
		t.Fail(s, "a span and the error %v", err)
	case sp != nil && (sp.Start == nil || sp.End == nil || sp.Start.Lower == nil || sp.Start.Upper == nil || sp.End.Lower == nil || sp.End.Upper == nil):
		t.Fail(s, "a bound is missing")
		return nil, fmt.Errorf("a bound is missing")
	}
	return sp, err
}

// bound is everything a bound says, the marks apart.
func bound(d *edtf.Date) string {
	ts, ymd := "none", "none"
	if d.Timestamp != nil {
		ts = fmt.Sprint(d.Timestamp.Unix())
	}
	if d.YMD != nil {
		ymd = fmt.Sprintf("%d-%d-%d", d.YMD.Year, d.YMD.Month, d.YMD.Day)
	}
	return fmt.Sprintf("%s ts %s ymd %s unspecified %d precision %d open %v unknown %v inclusivity %d", d.DateTime, ts, ymd, d.Unspecified, d.Precision, d.Open, d.Unknown, d.Inclusivity)
}

func marks(d *edtf.Date) string {
	return fmt.Sprintf("uncertain %d approximate %d", d.Uncertain, d.Approximate)
}

var names = [4]string{"start lower", "start upper", "end lower", "end upper"}

func bounds(sp *edtf.DateSpan) [4]*edtf.Date {
	return [4]*edtf.Date{sp.Start.Lower, sp.Start.Upper, sp.End.Lower, sp.End.Upper}
}

// agree compares with the parser where both read the string.
func agree(t *explore.T, s string) {
	d, perr := view.Parse(t, s)
	t.State(view.StateOf(d, perr))
	sp, err := read(t, s)
	if t.Failed() || sp == nil || err != nil {
		return
	}
	if perr == nil && view.Whole(d, perr) == "" {
		p := [4]*edtf.Date{d.Start.Lower, d.Start.Upper, d.End.Lower, d.End.Upper}
		for i, b := range bounds(sp) {
			if x, y := bound(b)+" "+marks(b), bound(p[i])+" "+marks(p[i]); x != y {
				t.Fail(s, "%s is %s, and %s in the date that the parser reads", names[i], x, y)
				return
			}
		}
	}
	if i := strings.IndexByte(s, '/'); i >= 0 {
		if strings.Count(s, "/") > 1 {
			t.Fail(s, "a span is read from more than two dates")
			return
		}
		composed(t, s, sp, s[:i], s[i+1:])
		return
	}
	texts(t, s, sp)
}

// side is the span of one side of an interval.
func side(t *explore.T, s string) [4]string {
	var out [4]string
	if s == "" || s == ".." {
		for i := range out {
			out[i] = bound(&edtf.Date{Open: s == "..", Unknown: s == ""}) + " " + marks(&edtf.Date{})
		}
		return out
	}
	sp, err := read(t, s)
	if t.Failed() {
		return out
	}
	if sp == nil || err != nil {
		t.Fail(s, "is read as an end of an interval, and fails alone: %v", err)
		return out
	}
	for i, b := range bounds(sp) {
		out[i] = bound(b) + " " + marks(b)
	}
	return out
}

// composed checks that the span of two dates is made of their own spans.
func composed(t *explore.T, s string, sp *edtf.DateSpan, left, right string) {
	l := side(t, left)
	if t.Failed() {
		return
	}
	r := side(t, right)
	if t.Failed() {
		return
	}
	want := [4]string{l[0], l[3], r[0], r[3]}
	for i, b := range bounds(sp) {
		if x := bound(b) + " " + marks(b); x != want[i] {
			t.Fail(s, "%s is %s, and %s in the spans of the two dates", names[i], x, want[i])
			return
		}
	}
}

// texts checks that StringRangeFromYMD names the first and last day of the span of one date.
func texts(t *explore.T, s string, sp *edtf.DateSpan) {
	t.Begin()
	r, err := common.StringRangeFromYMD(s)
	t.End()
	t.Compared()
	switch {
	case (r == nil) == (err == nil):
		t.Fail(s, "StringRangeFromYMD gives %v and %v", r, err)
		return
	case err != nil:
		t.Fail(s, "a span is read, and StringRangeFromYMD fails: %v", err)
		return
	case r.Start == nil || r.End == nil:
		t.Fail(s, "StringRangeFromYMD leaves out the start or the end")
		return
	case r.EDTF != s:
		t.Fail(s, "StringRangeFromYMD says it was asked for %q", r.EDTF)
		return
	}
	for _, e := range []struct {
		name, hms string
		text      *common.StringDate
		b         *edtf.Date
	}{{"first", edtf.HMS_LOWER, r.Start, sp.Start.Lower}, {"last", edtf.HMS_UPPER, r.End, sp.End.Upper}} {
		t.Begin()
		y, err := common.YMDFromStringDate(e.text)
		var a, b *time.Time
		var aerr, berr error
		if err == nil {
			a, aerr = common.TimeWithYMD(y, e.hms)
			b, berr = common.TimeWithYMDString(e.text.Year, e.text.Month, e.text.Day, e.hms)
		}
		t.End()
		t.Compared()
		switch {
		case err != nil || aerr != nil || berr != nil:
			t.Fail(s, "the %s day %v of StringRangeFromYMD fails: %v %v %v", e.name, e.text, err, aerr, berr)
			return
		case y == nil || a == nil || b == nil:
			t.Fail(s, "the %s day %v of StringRangeFromYMD has no date or time", e.name, e.text)
			return
		case e.b.YMD == nil || *e.b.YMD != *y:
			t.Fail(s, "the %s day is %v by StringRangeFromYMD, and %v in the span", e.name, y, e.b.YMD)
			return
		case e.b.Timestamp == nil || e.b.Timestamp.Unix() != a.Unix() || a.Unix() != b.Unix():
			t.Fail(s, "the %s instant is %v and %v by StringRangeFromYMD, and %s in the span", e.name, a, b, e.b.DateTime)
			return
		case e.b.Uncertain != r.Uncertain || e.b.Approximate != r.Approximate || e.b.Precision != r.Precision:
			t.Fail(s, "the marks and precision are %d %d %d by StringRangeFromYMD, and %s precision %d in the span", r.Uncertain, r.Approximate, r.Precision, marks(e.b), e.b.Precision)
			return
		}
	}
}

// part is a component with its mark: before it, after it, or none.
type part struct {
	text, left, right string
}

func (p part) String() string { return p.left + p.text + p.right }

var qs = []string{"", "?", "~", "%"}

func pick(t *explore.T, text string) part {
	switch k := t.Choose(7); {
	case k == 0:
		return part{text: text}
	case k < 4:
		return part{text: text, left: qs[k]}
	default:
		return part{text: text, right: qs[k-3]}
	}
}

var units = []edtf.Precision{edtf.YEAR, edtf.MONTH, edtf.DAY}

// want are the marks: one on the left is for its own component, one on the right for all up to there.
func want(ps []part) string {
	var u, a edtf.Precision
	set := func(i int, q string) {
		if q == "?" || q == "%" {
			u |= units[i]
		}
		if q == "~" || q == "%" {
			a |= units[i]
		}
	}
	for i, p := range ps {
		set(i, p.left)
		for k := 0; k <= i; k++ {
			set(k, p.right)
		}
	}
	return marks(&edtf.Date{Uncertain: u, Approximate: a})
}

// marked compares a date with marks with the one without.
func marked(t *explore.T, ps []part) {
	var m, p []string
	for _, x := range ps {
		m, p = append(m, x.String()), append(p, x.text)
	}
	s, plain := strings.Join(m, "-"), strings.Join(p, "-")
	agree(t, s)
	if t.Failed() {
		return
	}
	sp, err := read(t, s)
	if t.Failed() {
		return
	}
	pp, perr := read(t, plain)
	if t.Failed() {
		return
	}
	in := s + " | " + plain
	if (err == nil) != (perr == nil) {
		t.Fail(in, "with marks: %v, and without: %v", err, perr)
		return
	}
	if err != nil {
		return
	}
	b := bounds(pp)
	for i, x := range bounds(sp) {
		if y := bound(b[i]); bound(x) != y {
			t.Fail(in, "%s is %s, and %s without marks", names[i], bound(x), y)
			return
		}
		if marks(x) != want(ps) {
			t.Fail(s, "%s has the marks %s, not %s", names[i], marks(x), want(ps))
			return
		}
	}
}

func spaces(tier string) []explore.Space {
	size := 0
	if tier == "thorough" {
		size = 1
	}
	years := []string{"2004", "2001", "1900", "0000", "-0001", "-0400", "9999", "-9999", "201X", "20XX", "2XXX", "000X", "-000X", "X004", "XXXX", "20X4", "-00XX"}
	months := []string{"", "01", "02", "06", "12", "13", "00", "0X", "1X", "XX", "X2", "21"}
	days := []string{"", "01", "09", "28", "29", "30", "31", "32", "00", "0X", "1X", "2X", "3X", "XX", "X1"}
	if tier == "thorough" {
		years = append(years, "1999", "1970", "-0004", "-0100", "-1999", "199X", "-199X", "0XXX", "9XXX", "-9XXX")
		months = append(months, "03", "04", "05", "07", "08", "09", "10", "11", "X0", "X1", "2X")
		days = append(days, "02", "10", "11", "19", "20", "21", "X0", "X9", "4X")
	}
	ends := []string{"", "..", "2004", "-0400", "0000", "9999", "2004-02", "-0001-12", "2004-02-29", "1985-04-12", "-9999-01-01", "201X", "20XX", "2004-XX", "2004-02-2X", "2003-02-XX", "2004-XX-XX", "1984-1X-31",
		"2004?", "~2004", "2004%", "2004-06~", "2004-?06", "?2004-06", "2004-06-11%", "2004-06-~11", "2004?-06-11", "~2004-06?-%11", "201X?", "?2004-06-XX", "2004-02-2X~", "-0005-%12-01",
		"2004-13", "2003-02-29", "XXXX", "hello", "2001-21", "open", "uuuu", " ", "Y2004", "1985-04-12T10:00:00Z", "2004S2", "[2004]", "...", "."}
	sp := []explore.Space{
		{Name: "marks", Desc: fmt.Sprintf("dates of %d years, %d months and %d days, specified or not, with a mark or none on either side of each component", len(years), len(months), len(days)), Body: func(t *explore.T) {
			ps := []part{pick(t, t.Pick(years))}
			if m := t.Pick(months); m != "" {
				ps = append(ps, pick(t, m))
				if d := t.Pick(days); d != "" {
					ps = append(ps, pick(t, d))
				}
			}
			marked(t, ps)
		}},
		{Name: "ends", Desc: fmt.Sprintf("every ordered pair of %d ends, joined by a slash, and with a third", len(ends)), Body: func(t *explore.T) {
			s := t.Pick(ends) + "/" + t.Pick(ends)
			if t.Bool() {
				s += "/" + t.Pick([]string{"", "..", "2004", "hello", "2004/2005"})
			}
			agree(t, s)
		}},
		{Name: "years", Desc: "every year -9999..9999, its months, and the first, the last and the leap day of each, alone, and (but for the days of the years 0000 to 8999) in an interval", Body: func(t *explore.T) {
			y := t.Choose(200)*100 + t.Choose(100) - 10000
			if y < -9999 {
				return
			}
			s := model.YearText(y)
			if m := t.Choose(13); m > 0 {
				s += "-" + model.Two(m)
				if d := t.Choose(5); d > 0 {
					s += []string{"", "-01", "-28", "-29", "-" + model.Two(model.DaysIn(y, m))}[d]
				}
			}
			n := 1
			if len(s) < 8 || s[0] == '9' || s[0] == '-' {
				n = 3
			}
			switch t.Choose(n) {
			case 0:
				agree(t, s)
			case 1:
				agree(t, s+"/..")
			case 2:
				agree(t, "-9999/"+s)
			}
		}},
		{Name: "constants", Desc: "the spans and ranges that are empty, unknown and open, made twice", Serial: true, Body: func(t *explore.T) {
			k := t.Choose(6)
			make := []func() *edtf.DateSpan{common.EmptyDateSpan, common.UnknownDateSpan, common.OpenDateSpan,
				func() *edtf.DateSpan {
					return &edtf.DateSpan{Start: common.EmptyDateRange(), End: common.EmptyDateRange()}
				},
				func() *edtf.DateSpan {
					return &edtf.DateSpan{Start: common.UnknownDateRange(), End: common.UnknownDateRange()}
				},
				func() *edtf.DateSpan {
					return &edtf.DateSpan{Start: common.OpenDateRange(), End: common.OpenDateRange()}
				}}[k]
			in := []string{"EmptyDateSpan", "UnknownDateSpan", "OpenDateSpan", "EmptyDateRange", "UnknownDateRange", "OpenDateRange"}[k]
			t.Input(in)
			w := bound(&edtf.Date{Unknown: k%3 == 1, Open: k%3 == 2}) + " " + marks(&edtf.Date{})
			for i := 0; i < 2; i++ {
				t.Begin()
				sp := make()
				t.End()
				t.Compared()
				for j, b := range bounds(sp) {
					if x := bound(b) + " " + marks(b); x != w {
						t.Fail(in, "%s is %s", names[j], x)
						return
					}
					for n, c := range bounds(sp) {
						if n/2 != j/2 && b == c {
							t.Fail(in, "%s and %s are one bound", names[j], names[n])
							return
						}
					}
				}
				for _, b := range bounds(sp) {
					b.Open, b.Unknown, b.Precision = true, true, 99
				}
			}
		}},
	}
	sp = append(sp, gen.Short(tier, agree)...)
	return append(sp, gen.CorpusSpace(size, agree))
}
