// C16: Unix ranges are the four bounds of the parsed date, or nothing.
package main

import (
	"fmt"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/unix"
)

func main() {
	explore.Main(explore.Check{Property: "C16", Spaces: spaces})
}

func one(t *explore.T, s string) {
	d, err := view.Parse(t, s)
	t.Begin()
	ok, r, rerr := unix.DeriveRanges(s)
	t.End()
	t.Compared()
	t.State(view.StateOf(d, err))
	switch s {
	case "..", "", "open", "uuuu":
		if ok || r != nil || rerr != nil {
			t.Fail(s, "a keyword gives %v %v %v", ok, r, rerr)
		}
		return
	}
	if err != nil {
		if ok || r != nil || rerr == nil {
			t.Fail(s, "does not parse, but gives %v %v %v", ok, r, rerr)
		}
		return
	}
	if view.Whole(d, err) != "" {
		return
	}
	if rerr != nil {
		t.Fail(s, "parses, but deriving ranges fails: %v", rerr)
		return
	}
	var ts [4]int64
	whole := true
	for i, b := range []*edtf.Date{d.Start.Lower, d.Start.Upper, d.End.Lower, d.End.Upper} {
		if b.Timestamp == nil {
			whole = false
			continue
		}
		ts[i] = b.Timestamp.Unix()
	}
	if ok != whole {
		t.Fail(s, "gives %v, although its bounds are %s", ok, view.Brief(d))
		return
	}
	if !ok {
		if r != nil {
			t.Fail(s, "gives false and a range")
		}
		return
	}
	if r == nil || r.Outer == nil || r.Inner == nil {
		t.Fail(s, "gives true without a whole range")
		return
	}
	got := [4]int64{r.Outer.Start, r.Inner.Start, r.Inner.End, r.Outer.End}
	if got != ts {
		t.Fail(s, "gives outer %v inner %v, although its bounds are %v", *r.Outer, *r.Inner, ts)
		return
	}
	v := model.Parse(s)
	if v.K == model.Accept {
		for i, p := range []*model.Point{&v.S.Lo, nil, nil, &v.E.Hi} {
			if p != nil && p.SecSet && got[i] != p.Sec {
				t.Fail(s, "gives outer %v, although its span is from %s to %s", *r.Outer, view.Stamp(v.S.Lo.Sec), view.Stamp(v.E.Hi.Sec))
			}
		}
	}
}

func spaces(tier string) []explore.Space {
	size := 0
	if tier == "thorough" {
		size = 1
	}
	sp := append(gen.Short("quick", one), gen.CorpusSpace(size, one))
	return append(sp,
		explore.Space{Name: "years", Desc: "every year -9999..9999 in strings of every kind",
			Body: func(t *explore.T) {
				y := t.Choose(200)*100 + t.Choose(100) - 10000
				if y < -9999 {
					return
				}
				one(t, fmt.Sprintf(t.Pick(forms), model.YearText(y)))
			}},
		explore.Space{Name: "epoch", Desc: "every form in which one of the bounds is at the epoch or a second before it",
			Body: func(t *explore.T) {
				a := t.Pick([]string{"1970", "1970-01", "1970-01-01", "1969", "1969-12", "1969-12-31", "197X", "1970-XX", "1969-12-XX", "1970-01-01T00:00:00", "..", "", "?1970", "1969-12-31~"})
				switch t.Choose(4) {
				case 0:
					one(t, a)
				case 1:
					one(t, a+"/"+t.Pick([]string{"1970", "1969-12-31", "1970-01-01", "..", "", "2000"}))
				case 2:
					one(t, "["+a+t.Pick([]string{"..", "", ",1970-01-01", "..1971", ",1969-12-31"})+"]")
				case 3:
					one(t, "{"+t.Pick([]string{"..", "", "1969,", "1970-01-01.."})+a+"}")
				}
			}},
	)
}

var forms = []string{"%s", "%s-02", "%s-12-31", "%s-01-01T00:00:00", "%s?", "~%s", "%s-24", "%s-30", "%s-36", "Y%s", "Y%sE0", "%sS1", "%s/..", "../%s-02", "%s-12-31/", "%s/2004-06", "-0044-03/%s", "[%s]", "{%s..}", "[..%s-02]", "[%s,1970]", "{0000..%s,-0300}"}
