// C15: before, after and between follow from the spans alone.
package main

import (
	"fmt"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/cmp"
	"github.com/sfomuseum/go-edtf/parser"
)

func main() {
	explore.Main(explore.Check{Property: "C15", Spaces: spaces, Assumptions: []string{
		"the spans are those of the parsed dates; where the reference model specifies a span it is used instead, so that both are compared",
	}})
}

// span is what a comparison may depend on.
type span struct {
	s          string
	d          *edtf.EDTFDate
	open       bool
	ok         bool // parses
	hasL, hasU bool
	l, u       int64
}

func load(list []string) []span {
	var out []span
	for _, s := range gen.Uniq(list) {
		p := span{s: s, open: s == ".."}
		d, err := func() (d *edtf.EDTFDate, err error) {
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Errorf("panic %v", e)
				}
			}()
			return parser.ParseString(s)
		}()
		if err == nil && view.Whole(d, err) == "" {
			p.ok, p.d = true, d
			if ts := d.Start.Lower.Timestamp; ts != nil {
				p.hasL, p.l = true, ts.Unix()
			}
			if ts := d.End.Upper.Timestamp; ts != nil {
				p.hasU, p.u = true, ts.Unix()
			}
		}
		if v := model.Parse(s); v.K == model.Accept {
			p.ok = true
			set := func(e *model.End, pt *model.Point, has *bool, x *int64) {
				switch {
				case e.Kind == model.Open || e.Kind == model.Unknown:
					*has = false
				case e.Kind == model.Dated && pt.SecSet:
					*has, *x = true, pt.Sec
				}
			}
			set(&v.S, &v.S.Lo, &p.hasL, &p.l)
			set(&v.E, &v.E.Hi, &p.hasU, &p.u)
		}
		out = append(out, p)
	}
	return out
}

// ans is an answer: false, true, or an error.
type ans int

const (
	no ans = iota
	yes
	failure
	both
)

func (a ans) String() string { return [...]string{"false", "true", "an error", "true and an error"}[a] }

func got(b bool, err error) ans {
	switch {
	case err != nil && b:
		return both
	case err != nil:
		return failure
	case b:
		return yes
	}
	return no
}

func is(b bool) ans {
	if b {
		return yes
	}
	return no
}

func before(a, b *span) ans {
	switch {
	case !a.ok || !b.ok:
		return failure
	case a.open:
		return no
	case !b.hasL || !a.hasU:
		return failure
	}
	return is(a.u < b.l)
}

func after(a, b *span) ans {
	switch {
	case !a.ok || !b.ok:
		return failure
	case a.open:
		return no
	case !b.hasU || !a.hasL:
		return failure
	}
	return is(a.l > b.u)
}

func between(d, i, c *span) ans {
	switch b := before(d, i); {
	case b == failure:
		return failure
	case b == yes:
		return no
	case c.open:
		return yes
	}
	switch a := after(d, c); {
	case a == failure:
		return failure
	case a == yes:
		return no
	}
	return yes
}

func pair(t *explore.T, a, b *span) {
	in := a.s + " | " + b.s
	t.Input(in)
	t.Begin()
	cb := got(cmp.IsBefore(a.s, b.s))
	ca := got(cmp.IsAfter(a.s, b.s))
	t.End()
	t.Compared()
	wb, wa := before(a, b), after(a, b)
	t.State(explore.Hash(wb, wa, a.u-b.l, a.l-b.u))
	if cb != wb {
		t.Fail(in, "cmp.IsBefore gives %v, not %v", cb, wb)
		return
	}
	if ca != wa {
		t.Fail(in, "cmp.IsAfter gives %v, not %v", ca, wa)
		return
	}
	if a.d != nil && b.d != nil {
		t.Begin()
		mb, ma := got(a.d.Before(b.d)), got(a.d.After(b.d))
		t.End()
		if mb != wb || ma != wa {
			t.Fail(in, "Before gives %v and After %v, not %v and %v", mb, ma, wb, wa)
		}
	}
}

func triple(t *explore.T, d, i, c *span) {
	in := d.s + " | " + i.s + " | " + c.s
	t.Input(in)
	t.Begin()
	g := got(cmp.IsBetween(d.s, i.s, c.s))
	t.End()
	t.Compared()
	w := between(d, i, c)
	t.State(explore.Hash(w, before(d, i), after(d, c), d.l-i.u, d.u-c.l))
	if g != w {
		t.Fail(in, "cmp.IsBetween gives %v, not %v", g, w)
	}
}

func spaces(tier string) []explore.Space {
	c := gen.NewCorpus(0)
	var all []string
	add := func(step int, l []string) {
		for i, s := range l {
			if i%step == 0 {
				all = append(all, s)
			}
		}
	}
	all = append(all, gen.Seeds...)
	k := 5
	if tier == "thorough" {
		k = 1
	}
	add(k, gen.Dates(gen.FewYears, []int{1, 2, 12}, []int{1, 28, -1}))
	add(k*40, c.Masks)
	add(k*60, c.Quals)
	for _, d := range []string{"1969-12-31T23:59:59Z", "1970-01-01T00:00:00Z", "1970-01-01T00:00:01Z", "2000-12-31T23:59:59Z", "2001-01-01T00:00:00Z", "2001-01-01T01:00:00+01", "-0001-12-31T23:59:59", "0000-01-01T00:00:00", "2004-02-29T12:00:00"} {
		all = append(all, d)
	}
	for _, a := range []string{"..", "", "1970", "1969-12-31", "2001-02", "-0005", "?2001"} {
		for _, b := range []string{"..", "", "1970", "1970-01-01", "2001-02", "0000", "201X"} {
			all = append(all, a+"/"+b)
		}
	}
	spans := load(all)
	tri := load([]string{"", "..", "1969", "1970", "1971", "1969-12-31", "1970-01-01", "1970-12-31", "1971-01-01", "1970-01-01T00:00:00Z", "1969-12-31T23:59:59Z", "1970-12-31T23:59:59Z", "1971-01-01T00:00:00Z",
		"1960/1980", "../1970", "1970/..", "/1970", "1970/", "[1960,1980]", "[..1970]", "{1970..}", "197X", "19XX", "-0001", "0000", "-9999", "9999", "1970?", "Y1970", "1970S2", "1970-33", "1969-24", "open", "uuuu", "hello", "2001-02-30", "Y99999", "1970/1960"})
	if tier == "thorough" {
		more := []string{"1970-06-15", "1970-06", "2000-02-29", "9999-12-31", "-9999-01-01", "9999-12-31T23:59:59Z", "[..1970..]", "../..", "{1970-05,-0300}", "1984/..", "1969-30", "Y197E1", "197X-XX", "~1970-06"}
		tri = append(tri, load(more)...)
	}
	return []explore.Space{
		{Name: "pairs", Desc: fmt.Sprintf("every pair of %d strings of every feature, including adjacent and identical spans, open and unknown bounds, and strings that do not parse", len(spans)),
			Body: func(t *explore.T) { pair(t, &spans[t.Choose(len(spans))], &spans[t.Choose(len(spans))]) }},
		{Name: "triples", Desc: fmt.Sprintf("every triple of %d strings", len(tri)),
			Body: func(t *explore.T) {
				triple(t, &tri[t.Choose(len(tri))], &tri[t.Choose(len(tri))], &tri[t.Choose(len(tri))])
			}},
		{Name: "neighbours", Desc: "every day of some months against every other, and against the months and years around, with date-times at the seconds where they meet",
			Body: func(t *explore.T) {
				pair(t, &near[t.Choose(len(near))], &near[t.Choose(len(near))])
			}},
	}
}

var near = func() []span {
	var l []string
	for _, m := range [][2]int{{-1, 12}, {0, 1}, {1969, 12}, {1970, 1}, {2000, 2}, {2000, 3}} {
		l = append(l, model.YearText(m[0]), model.YearText(m[0])+"-"+model.Two(m[1]))
		for d := 1; d <= model.DaysIn(m[0], m[1]); d++ {
			l = append(l, model.DateText(m[0], m[1], d))
		}
		l = append(l, model.DateText(m[0], m[1], 1)+"T00:00:00Z", model.DateText(m[0], m[1], model.DaysIn(m[0], m[1]))+"T23:59:59Z")
	}
	return load(l)
}()
