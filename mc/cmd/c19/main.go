// C19: errors are classified truthfully and by exactly one predicate.
package main

import (
	"errors"
	"fmt"
	"strings"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/parser"
)

func main() {
	explore.Main(explore.Check{Property: "C19", Spaces: spaces, Assumptions: []string{
		"the class of other failures (an impossible date, a bad interval end) is not specified",
	}})
}

var kinds = []string{"not set", "not implemented", "invalid", "unsupported", "unrecognized"}

var predicates = []func(error) bool{edtf.IsNotSet, edtf.IsNotImplemented, edtf.IsInvalid, edtf.IsUnsupported, edtf.IsUnrecognized}

func build(k int, label, s string) error {
	switch k {
	case 0:
		return edtf.NotSet()
	case 1:
		return edtf.NotImplemented(label, s)
	case 2:
		return edtf.Invalid(label, s)
	case 3:
		return edtf.Unsupported(label, s)
	}
	return edtf.Unrecognized(label, s)
}

func classes(err error) string {
	var c []string
	for i, p := range predicates {
		if p(err) {
			c = append(c, kinds[i])
		}
	}
	return strings.Join(c, " and ")
}

type mine struct{ s string }

func (m mine) Error() string { return m.s }

var labels = []string{"", "exponential year", "A label, with %d and %s", "level 1", "NotSetError", "Invalid or unsupported EDTF string", "Not implemented", "Unrecognized EDTF string '2004'", "Unsupported", "This property has not (or can not) been set"}

func constructed(t *explore.T) {
	makes(t, t.Choose(5), t.Pick(labels), t.Pick(gen.Seeds))
}

// texted are strings and labels of every length, and of letters that mean something to formats, quotes and encodings.
func texted(t *explore.T) {
	var s string
	switch t.Choose(2) {
	case 0:
		n := t.Choose(303)
		if n > 300 {
			n = []int{4096, 70000}[n-301]
		}
		s = strings.Repeat(t.Pick([]string{"2004-06/", "x", "é"}), n)[:n]
	case 1:
		l := []string{"%", "%s", "%v", "%!", "%d%", "'", "\"", "\\", "\n", "\x00", "\t", "<", "&", "é", "\u2028", "\xff", " ", "(", ")", "$1", "{}", "0"}
		s = t.Pick(l) + t.Pick(l) + t.Pick(append(l, ""))
	}
	if t.Bool() {
		makes(t, t.Choose(5), s, "2004-06")
	} else {
		makes(t, t.Choose(5), "level 1", s)
	}
}

func makes(t *explore.T, k int, l, s string) {
	in := fmt.Sprintf("%s(%q, %q)", kinds[k], l, s)
	t.Input(in)
	t.Begin()
	err := build(k, l, s)
	c := ""
	text := ""
	if err != nil {
		c = classes(err)
		text = err.Error()
	}
	t.End()
	t.Compared()
	t.State(explore.Hash(c, len(text)))
	switch {
	case err == nil:
		t.Fail(in, "the constructor gives nil")
	case c != kinds[k]:
		t.Fail(in, "is classified as %q", c)
	case k > 0 && (!strings.Contains(text, l) || !strings.Contains(text, s)):
		t.Fail(in, "its text %q does not name the label and the string", text)
	case text == "":
		t.Fail(in, "it has no text")
	}
}

func foreign(t *explore.T) {
	errs := []error{errors.New("x"), nil, mine{"NotSetError"}, fmt.Errorf("a %d", 1), errors.New("Invalid day"), errors.New("Invalid EDTF string"), errors.New(""), mine{""}}
	for k := range kinds {
		// errors that say the same, made by somebody else
		for _, s := range []string{"", "2004", "hello"} {
			x := build(k, labels[len(s)%len(labels)], s).Error()
			errs = append(errs, errors.New(x), mine{x}, mine{kinds[k]}, fmt.Errorf("failed: %v", x))
		}
	}
	err := errs[t.Choose(len(errs))]
	t.Input(fmt.Sprint(err))
	t.Begin()
	c := classes(err)
	t.End()
	t.Compared()
	if c != "" {
		t.Fail(fmt.Sprint(err), "an error of none of the classes is classified as %q", c)
	}
}

// failing compares the class of the error of a parse with the specified one.
func failing(t *explore.T, s string) {
	d, err := view.Parse(t, s)
	t.Compared()
	t.State(view.StateOf(d, err))
	if err == nil {
		if view.Whole(d, err) != "" {
			return
		}
		t.Begin()
		_, lerr := d.Lower()
		_, uerr := d.Upper()
		t.End()
		for _, e := range []struct {
			err error
			b   *edtf.Date
		}{{lerr, d.Start.Lower}, {uerr, d.End.Upper}} {
			if (e.err != nil) != (e.b.Timestamp == nil) {
				t.Fail(s, "reading an overall bound: %v, with %+v", e.err, *e.b)
			} else if e.err != nil && classes(e.err) != "not set" {
				t.Fail(s, "reading a missing overall bound is classified as %q", classes(e.err))
			}
		}
		return
	}
	v := model.Parse(s)
	if v.K == model.Reject && v.Err != model.ErrAny {
		if c := classes(err); c != v.Err {
			t.Fail(s, "%s: fails as %q (%v), not as %s", v.Why, c, err, v.Err)
			return
		}
		t.Begin()
		text := err.Error()
		t.End()
		if !strings.Contains(text, s) && !strings.Contains(s, "/") && v.Err == model.ErrUnrecognized {
			t.Fail(s, "the text of its error does not name it: %s", text)
			return
		}
	}
	if v.K == model.Reject && v.Err == model.ErrUnrecognized {
		t.Begin()
		_, _, merr := parser.Matches(s)
		t.End()
		if merr == nil {
			t.Fail(s, "%s, but it matches", v.Why)
		} else if c := classes(merr); c != v.Err {
			t.Fail(s, "matching it fails as %q (%v), not as %s", c, merr, v.Err)
		}
	}
	// whatever the class, at most one predicate holds
	if c := classes(err); strings.Contains(c, " and ") {
		t.Fail(s, "the error %v is classified as %s", err, c)
	}
}

func spaces(tier string) []explore.Space {
	size := 0
	if tier == "thorough" {
		size = 1
	}
	sp := []explore.Space{
		{Name: "constructors", Desc: "every constructor with labels and strings of every kind", Body: constructed},
		{Name: "texts", Desc: "every constructor with strings and labels of every length to 300, and longer, and of three letters out of 22 that are special to formats, quotes or encodings", Body: texted},
		{Name: "foreign", Desc: "errors of other kinds, some with the texts of the library's", Body: foreign},
		{Name: "unspecified", Desc: "every year with X as its first digit, with months and days of every kind, alone and as interval ends",
			Body: func(t *explore.T) {
				const dx = "0159X"
				y := "X" + string(dx[t.Choose(5)]) + string(dx[t.Choose(5)]) + string(dx[t.Choose(5)])
				y += t.Pick([]string{"", "-02", "-12", "-XX", "-1X", "-02-03", "-12-XX", "-XX-XX", "-02-30", "-12-31"})
				failing(t, t.Pick([]string{"", "-", "", "2001/", "../"})+y+t.Pick([]string{"", "", "/2001", "/.."}))
			}},
		{Name: "big", Desc: "years from 10000 on, of every number of digits up to 40, in every form",
			Body: func(t *explore.T) {
				n := 5 + t.Choose(36)
				d := t.Pick([]string{"1", "9", "5", "2"}) + strings.Repeat(t.Pick([]string{"0", "9", "3"}), n-1)
				sg := []string{"", "-"}[t.Choose(2)]
				failing(t, strings.ReplaceAll(t.Pick([]string{"Y%", "Y%E0", "Y%E2", "y%e7", "Y%S1", "Y%S4", "Y%E1S2"}), "%", sg+d))
			}},
	}
	sp = append(sp, gen.Short(tier, failing)...)
	return append(sp, gen.CorpusSpace(size, failing))
}
