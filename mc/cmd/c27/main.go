// C27: precision names the granularity left by unspecified digits.
package main

import (
	"fmt"
	"math/bits"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"

	"github.com/sfomuseum/go-edtf"
)

func main() {
	explore.Main(explore.Check{Property: "C27", Spaces: spaces, Assumptions: []string{
		"which flag a plain date, or a date with unspecified digits in other places, has is not specified, except that it is exactly one",
	}})
}

func one(t *explore.T, s string) {
	d, err := view.Parse(t, s)
	t.State(view.StateOf(d, err))
	if err != nil || view.Whole(d, err) != "" {
		return
	}
	t.Compared()
	v := model.Parse(s)
	if v.K != model.Reject {
		if m := view.Check(&v, s, d, err, view.Precision); m != "" {
			t.Fail(s, "%s", m)
			return
		}
	}
	if d.Feature == "Date and Time" {
		return
	}
	for i, r := range []*edtf.DateRange{d.Start, d.End} {
		name := [...]string{"start", "end"}[i]
		for _, b := range []*edtf.Date{r.Lower, r.Upper} {
			if b.Timestamp == nil {
				continue
			}
			p := uint32(b.Precision)
			if bits.OnesCount32(p) != 1 || p&(8|16|32|64|128|256|512) == 0 {
				t.Fail(s, "a bound of the %s has precision %d", name, p)
				return
			}
		}
		if r.Lower.Timestamp != nil && r.Upper.Timestamp != nil && r.Lower.Precision != r.Upper.Precision {
			t.Fail(s, "the bounds of the %s have precisions %d and %d", name, r.Lower.Precision, r.Upper.Precision)
			return
		}
	}
}

const digits = "0123456789X"

func spaces(tier string) []explore.Space {
	size := 0
	if tier == "thorough" {
		size = 1
	}
	return []explore.Space{
		{Name: "masks", Desc: "every year of digits or X, with months and days of every kind", Body: func(t *explore.T) {
			y := ""
			for k := 0; k < 4; k++ {
				y += string(digits[t.Choose(11)])
			}
			rests := []string{"", "-XX", "-02", "-12", "-XX-XX", "-04-XX", "-12-31", "-02-29", "-XX-01", "-1X", "-0X-05", "-06-1X", "-06-3X"}
			one(t, y+t.Pick(rests))
		}},
		{Name: "months", Desc: "every month and day of digits or X with years of every kind of mask", Body: func(t *explore.T) {
			y := t.Pick([]string{"2004", "2001", "200X", "20XX", "2XXX", "19X5", "1X85", "1X8X", "0000", "000X", "-2004", "-201X"})
			m := t.Choose(121)
			s := y + "-" + string(digits[m/11]) + string(digits[m%11])
			if t.Bool() {
				n := t.Choose(121)
				s += "-" + string(digits[n/11]) + string(digits[n%11])
			}
			one(t, s)
		}},
		{Name: "ends", Desc: "masks of every kind as ends of intervals", Body: func(t *explore.T) {
			one(t, t.Pick(ends)+"/"+t.Pick(ends))
		}},
		{Name: "years", Desc: "every year -9999..9999 in strings of every kind", Body: func(t *explore.T) {
			y := t.Choose(200)*100 + t.Choose(100) - 10000
			if y < -9999 {
				return
			}
			one(t, fmt.Sprintf(t.Pick(forms), model.YearText(y)))
		}},
		gen.CorpusSpace(size, one),
		gen.NumberSpace(one),
	}
}

var ends = func() []string {
	l := append([]string{"", "..", "2004", "2004-06", "2004-06-11", "-0005", "?2004", "2004-~06"}, gen.Masks([]int{199, 2004})...)
	return gen.Uniq(l)
}()

var forms = []string{"%s", "%s-02", "%s-12-31", "%s?", "~%s", "%s-06~", "%s-24", "%s-25", "%s-30", "%s-36", "%s-39", "%s-41", "Y%s", "Y%sE0", "%sS1", "%sS4", "%s/..", "../%s-02", "%s-12-31/", "/%s", "%s/2004-06", "-0044-03/%s", "[%s]", "{%s..}", "[..%s-02]", "[%s,1970]", "{0000..%s,-0300}"}
