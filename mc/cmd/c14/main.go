// C14: within a bound, text, Unix time and calendar fields tell the same instant.
package main

import (
	"fmt"
	"time"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"

	"github.com/sfomuseum/go-edtf"
)

func main() {
	explore.Main(explore.Check{Property: "C14", Spaces: spaces})
}

func one(t *explore.T, s string) {
	d, err := view.Parse(t, s)
	if err != nil || view.Whole(d, err) != "" {
		return
	}
	t.Compared()
	t.State(view.StateOf(d, err))
	dt := d.Feature == "Date and Time"
	for i, x := range []*edtf.Date{d.Start.Lower, d.Start.Upper, d.End.Lower, d.End.Upper} {
		if m := coherent(x, dt); m != "" {
			t.Fail(s, "%s: %s", [...]string{"start lower", "start upper", "end lower", "end upper"}[i], m)
			return
		}
	}
	t.Begin()
	lo, lerr := d.Lower()
	up, uerr := d.Upper()
	t.End()
	if m := overall("lower", lo, lerr, d.Start.Lower); m != "" {
		t.Fail(s, "%s", m)
		return
	}
	if m := overall("upper", up, uerr, d.End.Upper); m != "" {
		t.Fail(s, "%s", m)
	}
}

func coherent(x *edtf.Date, dt bool) string {
	if x.Timestamp == nil {
		switch {
		case x.DateTime != "":
			return "text " + x.DateTime + " without a timestamp"
		case x.YMD != nil:
			return "calendar fields without a timestamp"
		case x.Open == x.Unknown:
			return fmt.Sprintf("no instant, open %v, unknown %v", x.Open, x.Unknown)
		}
		return ""
	}
	if x.Open || x.Unknown {
		return fmt.Sprintf("an instant, open %v, unknown %v", x.Open, x.Unknown)
	}
	sec := x.Timestamp.Unix()
	y, m, d, _, ok := model.FromSecs(sec)
	if !ok {
		return fmt.Sprintf("timestamp %d is out of range", sec)
	}
	if want := view.Stamp(sec); x.DateTime != want {
		return fmt.Sprintf("text %q with timestamp %d, which is %s", x.DateTime, sec, want)
	}
	tm := x.Timestamp.Time()
	if tm == nil {
		return "a timestamp without a time"
	}
	if tm.Unix() != sec || tm.Nanosecond() != 0 {
		return fmt.Sprintf("the time of the timestamp is %v, not %d", tm, sec)
	}
	if n, off := tm.Zone(); off != 0 || tm.Location() != time.UTC {
		return fmt.Sprintf("the time of the timestamp is in zone %s", n)
	}
	if x.YMD == nil {
		if !dt {
			return "no calendar fields"
		}
		return ""
	}
	if x.YMD.Year != y || x.YMD.Month != m || x.YMD.Day != d {
		return fmt.Sprintf("fields %d/%d/%d with %s", x.YMD.Year, x.YMD.Month, x.YMD.Day, x.DateTime)
	}
	return ""
}

func overall(name string, tm *time.Time, err error, x *edtf.Date) string {
	if x.Timestamp == nil {
		if err == nil || tm != nil {
			return fmt.Sprintf("the overall %s is %v, and there is none", name, tm)
		}
		if !edtf.IsNotSet(err) {
			return fmt.Sprintf("the missing overall %s fails with %T %v", name, err, err)
		}
		return ""
	}
	if err != nil || tm == nil {
		return fmt.Sprintf("the overall %s fails: %v", name, err)
	}
	if tm.Unix() != x.Timestamp.Unix() || tm.Nanosecond() != 0 || tm.Location() != time.UTC {
		return fmt.Sprintf("the overall %s is %v, not %s", name, tm, x.DateTime)
	}
	return ""
}

func spaces(tier string) []explore.Space {
	size := 0
	if tier == "thorough" {
		size = 1
	}
	return []explore.Space{
		gen.CorpusSpace(size, one), gen.NumberSpace(one), gen.EditSpace(one),
		{Name: "years", Desc: "every year -9999..9999 in every kind of string",
			Body: func(t *explore.T) {
				y := t.Choose(200)*100 + t.Choose(100) - 10000
				if y < -9999 {
					return
				}
				s := model.YearText(y)
				p := t.Pick(forms)
				one(t, fmt.Sprintf(p, s))
			}},
		{Name: "masks", Desc: "unspecified digits of every form, in years of every kind",
			Body: func(t *explore.T) {
				const dx = "0129X"
				s := ""
				for k := 0; k < 4; k++ {
					s += string(dx[t.Choose(5)])
				}
				one(t, s+t.Pick([]string{"", "-XX", "-02", "-XX-XX", "-02-29", "-02-XX", "-1X-31", "-0X-0X", "-12-3X", "-04-2X"}))
			}},
		{Name: "times", Desc: "dates at the edges with every shift by hours and by half hours",
			Body: func(t *explore.T) {
				y := gen.Years[t.Choose(len(gen.Years))]
				s := model.YearText(y) + t.Pick([]string{"-01-01", "-02-28", "-03-01", "-12-31"}) + "T" + t.Pick([]string{"00:00:00", "12:30:01", "23:59:59"})
				one(t, s+t.Pick([]string{"+", "-"})+model.Two(t.Choose(24))+t.Pick([]string{"", ":30", ":59"}))
			}},
	}
}

var forms = []string{"%s", "%s-02", "%s-12-31", "%s-02-29", "%s-01-01T00:00:00", "%s-12-31T23:59:59Z", "%s?", "%s-06~", "%s-11-30%%", "~%s", "%s-~02", "%s-21", "%s-24", "%s-28", "%s-30", "%s-33", "%s-36", "%s-39", "%s-41", "winter, %s", "Y%s", "Y%sE0", "%sS1", "%sS3", "Y%sE0S2", "%s/..", "../%s-02", "/%s", "%s-12-31/", "%s/2004-06", "-0044-03/%s", "[%s]", "{%s..}", "[..%s-02]", "[%s,1970]", "{0000..%s,-0300}"}
