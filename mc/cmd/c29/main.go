// C29: every parser that reads a string reads it the same.
package main

import (
	"fmt"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/level0"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"
)

func main() {
	explore.Main(explore.Check{Property: "C29", Spaces: spaces, Assumptions: []string{
		"of a season or grouping read at another level, the end of the start range and the start of the end range are not compared: the library gives the last month there at Level 2, and the last day at Level 1",
	}})
}

type reader struct {
	name     string
	level    int
	features []string
	is       func(string) bool
	parse    func(string) (*edtf.EDTFDate, error)
}

var readers = []reader{
	{"level0.ParseString", 0, nil, level0.IsLevel0, level0.ParseString},
	{"level1.ParseString", 1, nil, level1.IsLevel1, level1.ParseString},
	{"level2.ParseString", 2, nil, level2.IsLevel2, level2.ParseString},
	{"level0.ParseDate", 0, []string{level0.DATE}, level0.IsDate, level0.ParseDate},
	{"level0.ParseDateAndTime", 0, []string{level0.DATE_AND_TIME}, level0.IsDateAndTime, level0.ParseDateAndTime},
	{"level0.ParseTimeInterval", 0, []string{level0.TIME_INTERVAL}, level0.IsTimeInterval, level0.ParseTimeInterval},
	{"level1.ParseLetterPrefixedCalendarYear", 1, []string{level1.LETTER_PREFIXED_CALENDAR_YEAR}, level1.IsLetterPrefixedCalendarYear, level1.ParseLetterPrefixedCalendarYear},
	{"level1.ParseSeason", 1, []string{level1.SEASON}, level1.IsSeason, level1.ParseSeason},
	{"level1.ParseQualifiedDate", 1, []string{level1.QUALIFIED_DATE}, level1.IsQualifiedDate, level1.ParseQualifiedDate},
	{"level1.ParseUnspecifiedDigits", 1, []string{level1.UNSPECIFIED_DIGITS}, level1.IsUnspecifiedDigits, level1.ParseUnspecifiedDigits},
	{"level1.ParseNegativeCalendarYear", 1, []string{level1.NEGATIVE_CALENDAR_YEAR}, level1.IsNegativeCalendarYear, level1.ParseNegativeCalendarYear},
	{"level1.ParseExtendedInterval", 1, []string{level1.EXTENDED_INTERVAL_START, level1.EXTENDED_INTERVAL_END}, level1.IsExtendedInterval, level1.ParseExtendedInterval},
	{"level1.ParseExtendedIntervalStart", 1, []string{level1.EXTENDED_INTERVAL_START}, level1.IsExtendedInterval, level1.ParseExtendedIntervalStart},
	{"level1.ParseExtendedIntervalEnd", 1, []string{level1.EXTENDED_INTERVAL_END}, level1.IsExtendedInterval, level1.ParseExtendedIntervalEnd},
	{"level2.ParseExponentialYear", 2, []string{level2.EXPONENTIAL_YEAR}, level2.IsExponentialYear, level2.ParseExponentialYear},
	{"level2.ParseSignificantDigits", 2, []string{level2.SIGNIFICANT_DIGITS}, level2.IsSignificantDigits, level2.ParseSignificantDigits},
	{"level2.ParseSubYearGroupings", 2, []string{level2.SUB_YEAR_GROUPINGS}, level2.IsSubYearGrouping, level2.ParseSubYearGroupings},
	{"level2.ParseSetRepresentations", 2, []string{level2.SET_REPRESENTATIONS}, level2.IsSetRepresentation, level2.ParseSetRepresentations},
	{"level2.ParseGroupQualification", 2, []string{level2.GROUP_QUALIFICATION}, level2.IsGroupQualification, level2.ParseGroupQualification},
	{"level2.ParseIndividualQualification", 2, []string{level2.INDIVIDUAL_QUALIFICATION}, level2.IsIndividualQualification, level2.ParseIndividualQualification},
	{"level2.ParseUnspecifiedDigit", 2, []string{level2.UNSPECIFIED_DIGIT}, level2.IsUnspecifiedDigit, level2.ParseUnspecifiedDigit},
	{"level2.ParseInterval", 2, []string{level2.INTERVAL}, level2.IsInterval, level2.ParseInterval},
}

// bound is everything a bound says.
func bound(d *edtf.Date) string {
	c := *d
	ts, ymd := "none", "none"
	if c.Timestamp != nil {
		ts = fmt.Sprint(c.Timestamp.Unix())
	}
	if c.YMD != nil {
		ymd = fmt.Sprintf("%d-%d-%d", c.YMD.Year, c.YMD.Month, c.YMD.Day)
	}
	return fmt.Sprintf("%s ts %s ymd %s uncertain %d approximate %d unspecified %d precision %d open %v unknown %v inclusivity %d", c.DateTime, ts, ymd, c.Uncertain, c.Approximate, c.Unspecified, c.Precision, c.Open, c.Unknown, c.Inclusivity)
}

func bounds(d *edtf.EDTFDate, inner bool) []string {
	out := []string{"start lower " + bound(d.Start.Lower), "end upper " + bound(d.End.Upper)}
	if inner {
		out = append(out, "start upper "+bound(d.Start.Upper), "end lower "+bound(d.End.Lower))
	}
	return out
}

func grouping(d *edtf.EDTFDate) bool {
	return d.Feature == level1.SEASON || d.Feature == level2.SUB_YEAR_GROUPINGS
}

func one(t *explore.T, s string) {
	d, err := view.Parse(t, s)
	t.State(view.StateOf(d, err))
	for _, r := range readers {
		t.Begin()
		rd, rerr := r.parse(s)
		is := r.is(s)
		t.End()
		t.Compared()
		if w := view.Whole(rd, rerr); w != "" {
			t.Fail(s, "%s: %s", r.name, w)
			return
		}
		if rerr != nil {
			continue
		}
		if err != nil {
			t.Fail(s, "%s accepts what parser.ParseString rejects with %v", r.name, err)
			return
		}
		if s == "" || s == ".." {
			continue
		}
		if !is && r.features != nil {
			t.Fail(s, "%s accepts what its predicate does not", r.name)
			return
		}
		if rd.Level != r.level {
			t.Fail(s, "%s gives level %d", r.name, rd.Level)
			return
		}
		ok := r.features == nil
		for _, f := range r.features {
			ok = ok || rd.Feature == f
		}
		if !ok {
			t.Fail(s, "%s gives the feature %q", r.name, rd.Feature)
			return
		}
		if rd.EDTF != d.EDTF {
			t.Fail(s, "%s gives the text %q", r.name, rd.EDTF)
			return
		}
		inner := !grouping(d) && !grouping(rd) || r.level == d.Level
		a, b := bounds(d, inner), bounds(rd, inner)
		for i := range a {
			if a[i] != b[i] {
				t.Fail(s, "%s gives the %s; parser.ParseString the %s", r.name, b[i], a[i])
				return
			}
		}
	}
}

func spaces(tier string) []explore.Space {
	size := 0
	if tier == "thorough" {
		size = 1
	}
	sp := append(gen.Short(tier, one), gen.CorpusSpace(size, one))
	return append(sp,
		explore.Space{Name: "codes", Desc: "every year of every kind with every pair of digits and X as its month, with and without a day, mark or end",
			Body: func(t *explore.T) {
				y := model.YearText(gen.Years[t.Choose(len(gen.Years))])
				const dx = "0123456789X"
				m := string(dx[t.Choose(11)]) + string(dx[t.Choose(11)])
				one(t, y+"-"+m+t.Pick([]string{"", "-01", "-31", "-XX", "-3X", "?", "~", "/2020", "/..", "S1"}))
			}},
		explore.Space{Name: "both", Desc: "every two strings of every feature, with or without a slash between",
			Body: func(t *explore.T) { one(t, t.Pick(gen.Seeds)+t.Pick([]string{"", "/"})+t.Pick(gen.Seeds)) }},
	)
}
