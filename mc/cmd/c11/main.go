// C11: level and feature are the same however you ask, and follow the syntax used.
package main

import (
	"strings"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/level0"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"
	"github.com/sfomuseum/go-edtf/parser"
)

func main() {
	explore.Main(explore.Check{Property: "C11", Spaces: spaces, Assumptions: []string{
		"a date with unspecified digits beyond the five forms of Level 1, and other strings two levels could claim, may be reported at either level, consistently",
	}})
}

type feature struct {
	is    func(string) bool
	parse func(string) (*edtf.EDTFDate, error)
}

type level struct {
	is       func(string) bool
	matches  func(string) (string, error)
	parse    func(string) (*edtf.EDTFDate, error)
	shape    func(string) bool
	features map[string]feature
}

var levels = []level{
	{level0.IsLevel0, level0.Matches, level0.ParseString, model.Shape0, map[string]feature{
		level0.DATE:          {level0.IsDate, level0.ParseDate},
		level0.DATE_AND_TIME: {level0.IsDateAndTime, level0.ParseDateAndTime},
		level0.TIME_INTERVAL: {level0.IsTimeInterval, level0.ParseTimeInterval},
	}},
	{level1.IsLevel1, level1.Matches, level1.ParseString, model.Shape1, map[string]feature{
		level1.LETTER_PREFIXED_CALENDAR_YEAR: {level1.IsLetterPrefixedCalendarYear, level1.ParseLetterPrefixedCalendarYear},
		level1.SEASON:                        {level1.IsSeason, level1.ParseSeason},
		level1.QUALIFIED_DATE:                {level1.IsQualifiedDate, level1.ParseQualifiedDate},
		level1.UNSPECIFIED_DIGITS:            {level1.IsUnspecifiedDigits, level1.ParseUnspecifiedDigits},
		level1.NEGATIVE_CALENDAR_YEAR:        {level1.IsNegativeCalendarYear, level1.ParseNegativeCalendarYear},
		level1.EXTENDED_INTERVAL_START:       {level1.IsExtendedInterval, level1.ParseExtendedIntervalStart},
		level1.EXTENDED_INTERVAL_END:         {level1.IsExtendedInterval, level1.ParseExtendedIntervalEnd},
	}},
	{level2.IsLevel2, level2.Matches, level2.ParseString, model.Shape2, map[string]feature{
		level2.EXPONENTIAL_YEAR:         {level2.IsExponentialYear, level2.ParseExponentialYear},
		level2.SIGNIFICANT_DIGITS:       {level2.IsSignificantDigits, level2.ParseSignificantDigits},
		level2.SUB_YEAR_GROUPINGS:       {level2.IsSubYearGrouping, level2.ParseSubYearGroupings},
		level2.SET_REPRESENTATIONS:      {level2.IsSetRepresentation, level2.ParseSetRepresentations},
		level2.GROUP_QUALIFICATION:      {level2.IsGroupQualification, level2.ParseGroupQualification},
		level2.INDIVIDUAL_QUALIFICATION: {level2.IsIndividualQualification, level2.ParseIndividualQualification},
		level2.UNSPECIFIED_DIGIT:        {level2.IsUnspecifiedDigit, level2.ParseUnspecifiedDigit},
		level2.INTERVAL:                 {level2.IsInterval, level2.ParseInterval},
	}},
}

func one(t *explore.T, s string) {
	t.Input(s)
	t.Begin()
	d, err := parser.ParseString(s)
	lv, feat, merr := parser.Matches(s)
	var is [3]bool
	for i := range levels {
		is[i] = levels[i].is(s)
	}
	t.End()
	t.Compared()
	t.State(view.StateOf(d, err))
	for i, l := range levels {
		if is[i] && !l.shape(s) {
			t.Fail(s, "IsLevel%d is true, but as a whole it does not have the syntax of level %d", i, i)
			return
		}
		for name, f := range l.features {
			t.Begin()
			ok := f.is(s)
			t.End()
			if ok && !l.shape(s) {
				t.Fail(s, "the predicate of %q is true, but as a whole it does not have the syntax of level %d", name, i)
				return
			}
		}
	}
	if merr == nil {
		if lv < 0 || lv > 2 {
			t.Fail(s, "matching gives level %d", lv)
			return
		}
		if !levels[lv].shape(s) {
			t.Fail(s, "matching gives level %d, but as a whole it does not have its syntax", lv)
			return
		}
	}
	if err != nil {
		return
	}
	v := model.Parse(s)
	if m := view.Check(&v, s, d, err, view.Level); m != "" {
		t.Fail(s, "%s", m)
		return
	}
	if s == "" || s == ".." {
		return
	}
	if merr != nil {
		t.Fail(s, "parses but does not match: %v", merr)
		return
	}
	if lv != d.Level || feat != d.Feature {
		t.Fail(s, "matches as level %d %q and parses as level %d %q", lv, feat, d.Level, d.Feature)
		return
	}
	for i := 0; i <= lv; i++ {
		if is[i] != (i == lv) {
			t.Fail(s, "matches as level %d but IsLevel%d is %v", lv, i, is[i])
			return
		}
	}
	f, ok := levels[lv].features[feat]
	if !ok {
		t.Fail(s, "feature %q is not one of level %d", feat, lv)
		return
	}
	t.Begin()
	lfeat, lerr := levels[lv].matches(s)
	ld, lperr := levels[lv].parse(s)
	fis := f.is(s)
	fd, fderr := f.parse(s)
	valid := parser.IsValid(s)
	t.End()
	switch want := view.Full(d, err); {
	case lerr != nil || lfeat != feat:
		t.Fail(s, "matches as level %d %q, but matching at that level gives %q %v", lv, feat, lfeat, lerr)
	case !fis:
		t.Fail(s, "matches as %q but the predicate of that is false", feat)
	case view.Full(ld, lperr) != want:
		t.Fail(s, "parsing at level %d gives %s and not %s", lv, view.Full(ld, lperr), want)
	case view.Full(fd, fderr) != want:
		t.Fail(s, "parsing as %q gives %s and not %s", feat, view.Full(fd, fderr), want)
	case !valid:
		t.Fail(s, "has a level but is not valid")
	}
}

func spaces(tier string) []explore.Space {
	size := 0
	if tier == "thorough" {
		size = 1
	}
	sp := append(gen.Short(tier, one), gen.CorpusSpace(size, one))
	return append(sp,
		explore.Space{Name: "affixes", Desc: "every string of every feature with another one, or anything else, written before or after it",
			Body: func(t *explore.T) {
				a := t.Pick(gen.Seeds)
				b := t.Pick(affixes)
				if t.Bool() {
					one(t, b+a)
				} else {
					one(t, a+b)
				}
			}},
		explore.Space{Name: "both", Desc: "every two strings of every feature, side by side",
			Body: func(t *explore.T) { one(t, t.Pick(gen.Seeds)+t.Pick(gen.Seeds)) }},
		explore.Space{Name: "placements", Desc: "every choice of a mark or none on each side of each component of dates, alone and as an end",
			Body: func(t *explore.T) {
				d := strings.Split(t.Pick([]string{"2004", "2004-06", "2004-06-11", "201X", "2004-XX", "2004-06-XX", "1XXX-12"}), "-")
				marks := []string{"", "?", "~", "%"}
				for i := range d {
					d[i] = t.Pick(marks) + d[i] + t.Pick(marks)
				}
				s := strings.Join(d, "-")
				one(t, []string{s, "-" + s, s + "/2005", "../" + s}[t.Choose(4)])
			}},
		explore.Space{Name: "codes", Desc: "every year of every kind with every number 00-99 as its month, with and without a day, and with each digit unspecified",
			Body: func(t *explore.T) {
				y := model.YearText(gen.Years[t.Choose(len(gen.Years))])
				const dx = "0123456789X"
				m := string(dx[t.Choose(11)]) + string(dx[t.Choose(11)])
				one(t, y+"-"+m+t.Pick([]string{"", "-01", "-31", "-XX", "?", "~", "/2020", "S1"}))
			}},
	)
}

var affixes = []string{" ", "\n", "\t", "\x00", "x", "X", "0", "1", "-", "/", ".", "..", "?", "~", "%", "Z", "T", "S1", "E1", "Y", "[", "]", "{", "}", ",", "2001", "/2001", "2001/", "../", "/..", " 2001", "2001 ", "hello ", " hello", "a2001-06b", "--", "-06", "T10:00:00", "é"}
