// C01: every string gets exactly one answer from every entry point.
package main

import (
	"strings"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/view"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/cmp"
	"github.com/sfomuseum/go-edtf/level0"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"
	"github.com/sfomuseum/go-edtf/parser"
	"github.com/sfomuseum/go-edtf/unix"
)

func main() {
	explore.Main(explore.Check{Property: "C01", Spaces: spaces, Assumptions: []string{
		"a call that takes more than 40 seconds, or needs more than 12 GB, is a hang",
		"strings outside the enumerated spaces are not covered",
	}})
}

type parse struct {
	name string
	f    func(string) (*edtf.EDTFDate, error)
}

var parsers = []parse{
	{"parser.ParseString", parser.ParseString},
	{"level0.ParseString", level0.ParseString},
	{"level1.ParseString", level1.ParseString},
	{"level2.ParseString", level2.ParseString},
	{"level0.ParseDate", level0.ParseDate},
	{"level0.ParseDateAndTime", level0.ParseDateAndTime},
	{"level0.ParseTimeInterval", level0.ParseTimeInterval},
	{"level1.ParseExtendedInterval", level1.ParseExtendedInterval},
	{"level1.ParseExtendedIntervalStart", level1.ParseExtendedIntervalStart},
	{"level1.ParseExtendedIntervalEnd", level1.ParseExtendedIntervalEnd},
	{"level1.ParseLetterPrefixedCalendarYear", level1.ParseLetterPrefixedCalendarYear},
	{"level1.ParseNegativeCalendarYear", level1.ParseNegativeCalendarYear},
	{"level1.ParseQualifiedDate", level1.ParseQualifiedDate},
	{"level1.ParseSeason", level1.ParseSeason},
	{"level1.ParseUnspecifiedDigits", level1.ParseUnspecifiedDigits},
	{"level2.ParseExponentialYear", level2.ParseExponentialYear},
	{"level2.ParseGroupQualification", level2.ParseGroupQualification},
	{"level2.ParseIndividualQualification", level2.ParseIndividualQualification},
	{"level2.ParseInterval", level2.ParseInterval},
	{"level2.ParseSetRepresentations", level2.ParseSetRepresentations},
	{"level2.ParseSignificantDigits", level2.ParseSignificantDigits},
	{"level2.ParseSubYearGroupings", level2.ParseSubYearGroupings},
	{"level2.ParseUnspecifiedDigit", level2.ParseUnspecifiedDigit},
}

var predicates = []func(string) bool{
	parser.IsValid, level0.IsLevel0, level1.IsLevel1, level2.IsLevel2,
	level0.IsDate, level0.IsDateAndTime, level0.IsTimeInterval,
	level1.IsExtendedInterval, level1.IsLetterPrefixedCalendarYear, level1.IsNegativeCalendarYear, level1.IsQualifiedDate, level1.IsSeason, level1.IsUnspecifiedDigits,
	level2.IsExponentialYear, level2.IsGroupQualification, level2.IsIndividualQualification, level2.IsInterval, level2.IsSetRepresentation, level2.IsSignificantDigits, level2.IsSubYearGrouping, level2.IsUnspecifiedDigit,
	edtf.IsOpen, edtf.IsUnknown, edtf.IsUnspecified, edtf.IsDeprecated,
}

var matchers = []struct {
	name string
	f    func(string) (string, error)
}{
	{"level0.Matches", level0.Matches},
	{"level1.Matches", level1.Matches},
	{"level2.Matches", level2.Matches},
	{"parser.Matches", func(s string) (string, error) { _, f, err := parser.Matches(s); return f, err }},
}

// others are the second arguments of comparisons.
var others = []string{"2000", "..", "", "[..1984]", "hello"}

func all(t *explore.T, s string) {
	t.Input(s)
	t.Begin()
	defer t.End()
	for _, p := range parsers {
		d, err := p.f(s)
		t.Compared()
		if m := view.Whole(d, err); m != "" {
			t.Fail(s, "%s: %s", p.name, m)
			t.End()
			return
		}
		if p.name == "parser.ParseString" {
			t.State(view.StateOf(d, err))
			if err == nil {
				_ = d.String()
				_, lerr := d.Lower()
				_, uerr := d.Upper()
				_, _ = lerr, uerr
			}
		}
	}
	for _, p := range predicates {
		p(s)
	}
	for _, m := range matchers {
		f, err := m.f(s)
		if (f != "") != (err == nil) {
			t.Fail(s, "%s: feature %q with error %v", m.name, f, err)
			return
		}
	}
	edtf.ReplaceDeprecated(s)
	for _, o := range others {
		for _, f := range []func(string, string) (bool, error){cmp.IsBefore, cmp.IsAfter} {
			f(s, o)
			f(o, s)
		}
	}
	cmp.IsBetween(s, "1900", "2000")
	cmp.IsBetween("1950", s, "..")
	cmp.IsBetween("1950", "1900", s)
	ok, r, err := unix.DeriveRanges(s)
	switch {
	case ok && (r == nil || err != nil), !ok && r != nil:
		t.Fail(s, "unix.DeriveRanges: %v %v %v", ok, r, err)
	case ok && (r.Outer == nil || r.Inner == nil):
		t.Fail(s, "unix.DeriveRanges: half a range")
	}
}

func spaces(tier string) []explore.Space {
	var sp []explore.Space
	if tier == "thorough" {
		sp = append(gen.Short(tier, all), gen.CorpusSpace(1, all))
	} else {
		sp = []explore.Space{gen.EditSpace(all), gen.NumberSpace(all), gen.CharSpace(4, all), gen.TokenSpace(3, all), gen.SmallTwoEditSpace(23, all), gen.CorpusSpace(-1, all)}
	}
	// long strings: repeated parts
	parts := []string{"0", "9", "X", "-", "/", "..", "?", "2001,", "2001..", "1999-12-31,", "-0001,2001-05..", "[", "{", "-01", "2001/", "Y", "1E", "S1", " ", "\x00", "\xff", "é", "2001-01-01,", "T", ":00"}
	ns := []int{2, 3, 5, 10, 16, 17, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 1000, 1025, 4096, 20000}
	pre := []string{"", "[", "{", "Y", "Y-", "Y1E", "Y1E1S", "2001S", "2001", "2001-", "2001-01-01", "2001-01-01T10:00:00", "2001/", "spring"}
	post := []string{"", "]", "}", "2001", "/2001", "E1", "S1", ",2001", "2001]", "..]", "2001-05..2003}", "2001-02-30]"}
	sp = append(sp, explore.Space{Name: "long", Desc: "a prefix, a part repeated up to 20000 times, and a suffix",
		Body: func(t *explore.T) {
			s := t.Pick(pre)
			p := t.Pick(parts)
			n := ns[t.Choose(len(ns))]
			if n > 4096 && len(p) > 3 {
				n = 6000
			}
			s += strings.Repeat(p, n)
			all(t, s+t.Pick(post))
		}})
	return sp
}
