// C28: spans are ordered, and saying more about a date never widens its span.
package main

import (
	"fmt"
	"strings"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"

	"github.com/sfomuseum/go-edtf"
)

func main() {
	explore.Main(explore.Check{Property: "C28", Spaces: spaces, Assumptions: []string{
		"only strings that are both accepted are compared",
	}})
}

func ts(b *edtf.Date) (int64, bool) {
	if b == nil || b.Timestamp == nil {
		return 0, false
	}
	return b.Timestamp.Unix(), true
}

// ordered checks one string, and returns its date.
func ordered(t *explore.T, s string) *edtf.EDTFDate {
	d, err := view.Parse(t, s)
	t.State(view.StateOf(d, err))
	if err != nil || view.Whole(d, err) != "" {
		return nil
	}
	t.Compared()
	sl, a := ts(d.Start.Lower)
	su, b := ts(d.Start.Upper)
	el, c := ts(d.End.Lower)
	eu, e := ts(d.End.Upper)
	switch {
	case a && b && sl > su:
		t.Fail(s, "start lower %s is after start upper %s", d.Start.Lower.DateTime, d.Start.Upper.DateTime)
	case c && e && el > eu:
		t.Fail(s, "end lower %s is after end upper %s", d.End.Lower.DateTime, d.End.Upper.DateTime)
	case a && e && sl > eu && !strings.Contains(s, "/"):
		t.Fail(s, "start lower %s is after end upper %s", d.Start.Lower.DateTime, d.End.Upper.DateTime)
	}
	return d
}

func order(t *explore.T, s string) { ordered(t, s) }

// inside checks that the span of fine is inside that of coarse.
func inside(t *explore.T, coarse, fine string) {
	c := ordered(t, coarse)
	if c == nil || t.Failed() {
		return
	}
	f := ordered(t, fine)
	if f == nil || t.Failed() {
		return
	}
	in := coarse + " | " + fine
	cl, a := ts(c.Start.Lower)
	cu, b := ts(c.End.Upper)
	fl, x := ts(f.Start.Lower)
	fu, y := ts(f.End.Upper)
	if !a || !b || !x || !y {
		t.Fail(in, "an outer bound is missing")
		return
	}
	if fl < cl || fu > cu {
		t.Fail(in, "%s is not inside %s", view.Brief(f), view.Brief(c))
	}
}

// same checks that the bounds of two strings are the same.
func same(t *explore.T, plain, marked string) {
	p := ordered(t, plain)
	if p == nil || t.Failed() {
		return
	}
	m := ordered(t, marked)
	if m == nil || t.Failed() {
		return
	}
	pb := []*edtf.Date{p.Start.Lower, p.Start.Upper, p.End.Lower, p.End.Upper}
	for i, b := range []*edtf.Date{m.Start.Lower, m.Start.Upper, m.End.Lower, m.End.Upper} {
		x, xo := ts(pb[i])
		y, yo := ts(b)
		if x != y || xo != yo || pb[i].Open != b.Open || pb[i].Unknown != b.Unknown {
			t.Fail(plain+" | "+marked, "bounds are %s and %s", view.Brief(p), view.Brief(m))
			return
		}
	}
}

const dx = "0123456789X"

func mark(t *explore.T, c string) string {
	q := []string{"", "?", "~", "%"}
	return t.Pick(q) + c + t.Pick(q)
}

func spaces(tier string) []explore.Space {
	size := 0
	if tier == "thorough" {
		size = 1
	}
	some, most := dx, 6
	if tier != "thorough" {
		some, most = "01289X", 2
	}
	anyYear := func(t *explore.T) int {
		y := t.Choose(200)*100 + t.Choose(100) - 10000
		if y < -9999 {
			y = -9999
		}
		return y
	}
	return []explore.Space{
		gen.CorpusSpace(size, order),
		gen.EditSpace(order),
		gen.NumberSpace(order),
		{Name: "digits", Desc: "every date with an X anywhere, with that X replaced by every digit", Body: func(t *explore.T) {
			s := ""
			for k := 0; k < 4; k++ {
				s += string(some[t.Choose(len(some))])
			}
			s += t.Pick([]string{"", "-XX", "-0X", "-1X", "-02", "-12", "-XX-XX", "-0X-1X", "-02-XX", "-02-29", "-02-2X", "-1X-3X", "-12-XX", "-XX-31", "-04-3X", "-04-0X"})
			n := strings.Count(s, "X")
			if n == 0 {
				return
			}
			k := t.Choose(n)
			i := 0
			for ; ; i++ {
				if s[i] == 'X' {
					if k == 0 {
						break
					}
					k--
				}
			}
			inside(t, s, s[:i]+string(dx[t.Choose(10)])+s[i+1:])
		}},
		{Name: "components", Desc: "every year -9999..9999 with every month added, and every month with every day added", Body: func(t *explore.T) {
			y := anyYear(t)
			s := model.YearText(y)
			m := 1 + t.Choose(12)
			f := s + "-" + model.Two(m)
			k := t.Choose(3)
			if k == 0 {
				inside(t, s, f)
				return
			}
			d := model.Two([]int{1, 15, 28, 29, 30, 31}[t.Choose(6)])
			if k == 1 {
				inside(t, f, f+"-"+d)
			} else {
				inside(t, s, f+"-"+d)
			}
		}},
		{Name: "masked components", Desc: "years with unspecified digits with months and days added", Body: func(t *explore.T) {
			s := ""
			for k := 0; k < 4; k++ {
				s += string(some[t.Choose(len(some))])
			}
			f := s + "-" + t.Pick([]string{"01", "02", "12", "XX", "0X", "1X"})
			if t.Bool() {
				inside(t, s, f)
			} else {
				g := f + "-" + t.Pick([]string{"01", "28", "29", "31", "XX", "0X", "2X", "3X"})
				inside(t, []string{s, f}[t.Choose(2)], g)
			}
		}},
		{Name: "marks", Desc: "dates of years of every kind and masks, with a mark or none on each side of each component", Body: func(t *explore.T) {
			s := t.Pick(marked)
			neg := strings.HasPrefix(s, "-")
			c := strings.Split(strings.TrimPrefix(s, "-"), "-")
			if neg {
				c[0] = "-" + c[0]
			}
			for i := range c {
				c[i] = mark(t, c[i])
			}
			same(t, s, strings.Join(c, "-"))
		}},
		{Name: "marked years", Desc: "every year -9999..9999, its February and its last day, with each single mark", Body: func(t *explore.T) {
			s := model.YearText(anyYear(t))
			q := t.Pick(gen.Quals)
			switch t.Choose(7) {
			case 0:
				same(t, s, s+q)
			case 1:
				same(t, s, q+s)
			case 2:
				same(t, s+"-02", s+"-02"+q)
			case 3:
				same(t, s+"-02", s+"-"+q+"02")
			case 4:
				same(t, s+"-12-31", s+"-12-31"+q)
			case 5:
				same(t, s+"-12-31", s+"-12-"+q+"31")
			case 6:
				same(t, s+"-12-31", q+s+"-12-31")
			}
		}},
		{Name: "marked intervals", Desc: "intervals with a mark on the left of each component of each end, against the same interval without", Body: func(t *explore.T) {
			l := []string{"2004", "2004-06", "2004-06-11", "201X", "2004-06-XX", "-0005-02"}
			a, b := t.Pick(l), t.Pick(l)
			m := func(s string) string {
				neg := strings.HasPrefix(s, "-")
				c := strings.Split(strings.TrimPrefix(s, "-"), "-")
				if neg {
					c[0] = "-" + c[0]
				}
				for i := range c {
					c[i] = t.Pick([]string{"", "?", "~", "%"}) + c[i]
				}
				return strings.Join(c, "-")
			}
			same(t, a+"/"+b, m(a)+"/"+m(b))
		}},
		{Name: "marked ends", Desc: "masked and plain dates of every form, with a mark or none on each side of each component, as an end of an interval or range, or as a member of a set, against the same without marks", Body: func(t *explore.T) {
			y := t.Pick([]string{"2004", "2001", "0000", "201X", "20XX", "XXXX", "-0004", "X004"})
			m := t.Pick([]string{"", "01", "02", "04", "06", "12", "0X", "1X", "XX", "X2"})
			d := ""
			if m != "" {
				d = t.Pick([]string{"", "01", "28", "30", "0X", "1X", "2X", "3X", "XX", "X1", "X9"})
			}
			form := t.Pick([]string{"%s/2030", "-0100/%s", "%s/..", "../%s", "%s/", "[%s..2030]", "{-0100..%s}", "[%s,2030]", "{-0100,%s,2030}", "%s"})
			p := func() string {
				return t.Pick([]string{"", "?", "~", "%"})
			}
			plain, k := y, p()+y+p()
			if m != "" {
				plain += "-" + m
				k += "-" + p() + m + p()
			}
			if d != "" {
				plain += "-" + d
				k += "-" + p() + d + p()
			}
			if k != plain && strings.Count(k, "?")+strings.Count(k, "~")+strings.Count(k, "%") <= most {
				same(t, strings.ReplaceAll(form, "%s", plain), strings.ReplaceAll(form, "%s", k))
			}
		}},
		{Name: "digits of ends", Desc: "every date with an X anywhere, with that X replaced by every digit, as both ends of an interval, and as the only member of a set or range", Body: func(t *explore.T) {
			s := t.Pick([]string{"2004", "201X", "20XX", "1XXX", "X004", "-001X"})
			s += t.Pick([]string{"", "-XX", "-0X", "-1X", "-02", "-XX-XX", "-0X-1X", "-02-XX", "-02-2X", "-1X-3X", "-12-XX", "-XX-31", "-04-3X", "-04-0X", "-X1", "-X2-X1"})
			n := strings.Count(s, "X")
			if n == 0 {
				return
			}
			k := t.Choose(n)
			i := 0
			for ; ; i++ {
				if s[i] == 'X' {
					if k == 0 {
						break
					}
					k--
				}
			}
			f := s[:i] + string(dx[t.Choose(10)]) + s[i+1:]
			form := t.Pick([]string{"%s/%s", "?%s/~%s", "[%s]", "{%s}", "[%s..%s]", "{%s..%s}"})
			inside(t, strings.ReplaceAll(form, "%s", s), strings.ReplaceAll(form, "%s", f))
		}},
		{Name: "years", Desc: "every year -9999..9999 in strings of every kind", Body: func(t *explore.T) {
			order(t, strings.ReplaceAll(t.Pick(forms), "%s", model.YearText(anyYear(t))))
		}},
		{Name: "narrower", Desc: "every year with more and fewer significant digits, and its decade, century and millennium", Body: func(t *explore.T) {
			y := t.Choose(100)*100 + t.Choose(100)
			s := model.YearText(y)
			n := t.Choose(3)
			switch t.Choose(4) {
			case 0:
				inside(t, s+"S"+fmt.Sprint(n+2), s+"S"+fmt.Sprint(n+1))
			case 1:
				inside(t, s+"S"+fmt.Sprint(n+1), s)
			case 2:
				inside(t, s[:3-n]+strings.Repeat("X", n+1), s)
			case 3:
				inside(t, "-"+s+"S"+fmt.Sprint(n+1), "-"+s)
			}
		}},
	}
}

var marked = append(gen.Dates([]int{2004, 2001, 1970, 0, -5, -400, 9999}, []int{2, 12}, []int{1, -1}), gen.Masks([]int{2004, 199})...)

var forms = []string{"%s", "%s-02", "%s-12-31", "%s-01-01T00:00:00", "%s-21", "%s-22", "%s-23", "%s-24", "%s-25", "%s-28", "%s-29", "%s-30", "%s-32", "%s-33", "%s-36", "%s-37", "%s-39", "%s-40", "%s-41", "Y%s", "Y%sE0", "%sS1", "%sS4", "%s/..", "../%s-02", "%s-12-31/", "%s/2004-06", "[%s]", "{%s..}", "[..%s-02]", "[%s,1970]", "{0000..%s,-0300}", "[%s-06..%s-05]"}
