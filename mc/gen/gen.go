// Package gen builds EDTF strings out of choices.
package gen

import (
	"strconv"
	"strings"

	"verif.local/mc/explore"
	"verif.local/mc/model"
)

// Years of every kind: leap and common, century rules, BCE, 0, short, and the ends of the range.
var Years = []int{0, 1, 4, 9, 10, 99, 100, 400, 999, 1000, 1582, 1600, 1700, 1899, 1900, 1904, 1969, 1970, 1971,
	1972, 1999, 2000, 2001, 2004, 2019, 2020, 2023, 2024, 2100, 4000, 8000, 9996, 9998, 9999,
	-1, -4, -9, -10, -99, -100, -400, -999, -1000, -1582, -1900, -1972, -2000, -2001, -2004, -9996, -9998, -9999}

// FewYears is a small selection of them.
var FewYears = []int{0, 4, 999, 1900, 1969, 1970, 2000, 2001, 2024, 9999, -1, -4, -400, -999, -1900, -2001, -9999}

var Quals = []string{"?", "~", "%"}

// Dates lists plain dates of the given years: the year, months and days at the edges.
func Dates(years []int, months []int, days []int) []string {
	var out []string
	for _, y := range years {
		out = append(out, model.YearText(y))
		for _, m := range months {
			out = append(out, model.YearText(y)+"-"+model.Two(m))
			for _, d := range days {
				if d < 0 {
					d = model.DaysIn(y, m)
				}
				if model.Exists(y, m, d) {
					out = append(out, model.DateText(y, m, d))
				}
			}
		}
	}
	return Uniq(out)
}

func Uniq(in []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// Masks are dates with unspecified digits, of every form.
func Masks(years []int) []string {
	var out []string
	for _, y := range years {
		if y < 0 {
			continue
		}
		t := model.YearText(y)
		for n := 0; n <= 3; n++ {
			ym := t[:4-n] + strings.Repeat("X", n)
			if n > 0 {
				out = append(out, ym)
			}
			for _, m := range []string{"02", "04", "12", "XX", "0X", "1X"} {
				if n > 0 || strings.Contains(m, "X") {
					out = append(out, ym+"-"+m)
				}
				for _, d := range []string{"01", "28", "29", "31", "XX", "0X", "1X", "2X", "3X"} {
					if n > 0 || strings.Contains(m+d, "X") {
						out = append(out, ym+"-"+m+"-"+d)
					}
				}
			}
		}
	}
	return Uniq(out)
}

// Qualified places qualifiers around the components of a date: every placement of at most one mark per component.
func Qualified(date string, both bool) []string {
	neg := strings.HasPrefix(date, "-")
	c := strings.Split(strings.TrimPrefix(date, "-"), "-")
	if neg {
		c[0] = "-" + c[0]
	}
	opts := func(x string) []string {
		o := []string{x}
		for _, q := range Quals {
			o = append(o, q+x, x+q)
			if both {
				for _, r := range Quals {
					o = append(o, q+x+r)
				}
			}
		}
		return o
	}
	out := opts(c[0])
	for _, x := range c[1:] {
		var next []string
		for _, p := range out {
			for _, o := range opts(x) {
				next = append(next, p+"-"+o)
			}
		}
		out = next
	}
	return out
}

// Seeds has at least one string of every feature and form, and the examples of the specification.
var Seeds = []string{
	"", "..", "open", "uuuu", "1985", "-1985", "0000", "1985-04", "-1985-04", "1985-04-12", "-0400-02-29", "9999-12-31",
	"1985-04-12T23:20:30", "1985-04-12T23:20:30Z", "1985-04-12T23:20:30-04", "1985-04-12T23:20:30+04:30", "-1972-12-31T23:00:00-05",
	"1964/2008", "2004-06/2006-08", "2004-02-01/2005-02-08", "2004-02-01/2005", "-0005/0005", "2005/-2006-02",
	"Y1985", "Y-1985", "Y170000002", "Y-170000002", "Y0005", "Y5",
	"2001-21", "2001-22", "2001-23", "2001-24", "-0400-24", "Spring, 2001", "winter,1999", "FALL , 0900",
	"1984?", "2004-06~", "2004-06-11%", "-1984~",
	"201X", "20XX", "2XXX", "XXXX", "2004-XX", "1985-04-XX", "1985-XX-XX",
	"1985-04-12/..", "1985-04/..", "1985/..", "../1985-04-12", "../1985-04", "../1985", "1985-04-12/", "1985/", "/1985-04-12", "/1985", "../..", "/",
	"Y-17E7", "Y10E7", "Y20E2", "Y-20E2", "y1e3", "Y5E2", "Y1E64", "Y0E0",
	"1950S2", "Y171010000S3", "Y3388E2S3", "Y-20E2S3", "-1950S1", "Y1950S4", "1950S5",
	"2001-25", "2001-28", "2001-30", "2001-32", "2001-33", "2001-34", "2001-36", "2001-37", "2001-39", "2001-40", "2001-41", "9999-28",
	"[1667,1668,1670..1672]", "[..1760-12-03]", "[1760-12..]", "[1760-01,1760-02,1760-12..]", "[1667,1760-12]", "[..1984]",
	"{1667,1668,1670..1672}", "{1960,1961-12}", "{..1984}", "[-0200,-0100]", "{1960-05,1960}", "[..1760,1770..]", "[1984]",
	"2004-06~-11", "2004?-06-11", "2004%-06~-11?", "?2004-06-~11", "2004-%06-11", "~2004", "2004-~06",
	"156X-12-25", "15XX-12-25", "1XXX-XX", "1XXX-12", "1984-1X", "1984-0X", "1984-02-2X", "1984-04-3X", "1984-04-0X", "XXXX-12-XX",
	"2004-06-~01/2004-06-~20", "2004-06-XX/2004-07-03", "201X/2020", "?2004/%2005-06", "-2004/2005-XX",
	"2004-13", "2004-00", "2004-02-30", "2004-04-31", "2004-01-00", "2004-06-11?/2005", "2004-06-11T24:00:00", "hello", "2001 hello",
}

// Letters of short strings.
var Letters = []string{"0", "1", "2", "9", "-", "X", "Y", "E", "S", "T", "Z", "/", ".", ",", "[", "]", "{", "}", "?", "~", "%", ":", "+", " "}

// Tokens of token strings.
var Tokens = []string{"2001", "0", "1", "12", "02", "29", "31", "2X", "XX", "20XX", "-", "/", "..", ",", "[", "]", "{", "}", "?", "~", "%",
	"T", "T10:20:30", "Z", "+05", ":30", "Y", "E", "S", "24", "34", "spring", ",2001", " ", "-02", "-1999"}

// Chars is every string of at most n letters.
func Chars(t *explore.T, n int, letters []string) string {
	b := make([]byte, 0, 16)
	for i := 0; i < n; i++ {
		c := t.Choose(len(letters) + 1)
		if c == 0 {
			break
		}
		b = append(b, letters[c-1]...)
	}
	return string(b)
}

// EditLetters are what single edits insert.
var EditLetters = func() []string {
	var out []string
	for c := 1; c < 128; c++ {
		out = append(out, string(rune(c)))
	}
	return append(out, "\x00", "\xff", "é", "ſ", "０", "..", "XX", "2001", "-02", "/", "//", "99999999999999999999", "\r\n")
}()

var FewEditLetters = []string{"0", "1", "9", "-", "X", "x", "Y", "E", "S", "T", "Z", "/", ".", ",", "[", "]", "{", "}", "?", "%", ":", "+", " ", "\n", "..", "h"}

// Edit makes one edit in s: insertion, replacement, removal, swap of neighbours, duplication, truncation.
func Edit(t *explore.T, s string, letters []string) string {
	op := t.Choose(5)
	if op == 0 || len(s) == 0 {
		i := t.Choose(len(s) + 1)
		return s[:i] + letters[t.Choose(len(letters))] + s[i:]
	}
	i := t.Choose(len(s))
	switch op {
	case 1:
		return s[:i] + letters[t.Choose(len(letters))] + s[i+1:]
	case 2:
		return s[:i] + s[i+1:]
	case 3:
		if i+1 < len(s) {
			return s[:i] + s[i+1:i+2] + s[i:i+1] + s[i+2:]
		}
		return s + s[i:]
	}
	if t.Bool() {
		return s[:i]
	}
	return s[i:]
}

// Numbers builds Y, exponential and significant-digit years with digit counts and values of every size.
var Mantissas = []string{"0", "1", "5", "9", "10", "12", "19", "99", "100", "500", "999", "1000", "1234", "1985", "2000", "9999", "10000", "12345", "99999", "00", "0001", "0500", "00001985",
	"2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "9223372036854775810", "18446744073709551616", "18446744073709551617",
	"100000000000000000000", "184467440737095516160", "99999999999999999999999999999999999999999", "1" + strings.Repeat("0", 400), strings.Repeat("9", 1000), strings.Repeat("0", 300) + "7"}

var Exponents = []string{"0", "1", "2", "3", "4", "5", "6", "9", "10", "17", "18", "19", "20", "21", "38", "63", "64", "65", "99", "127", "128", "308", "309", "400", "999", "1024", "4096", "65536", "100000",
	"646456993", "646456994", "700000000", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "00", "01", "0002"}

var Counts = []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "19", "20", "99", "100", "4294967297", "9223372036854775807", "18446744073709551617", "99999999999999999999999", "00", "01", "04", "05", ""}

func Number(t *explore.T) string {
	sign := []string{"", "-"}[t.Choose(2)]
	m := t.Pick(Mantissas)
	k := t.Choose(6)
	y := []string{"Y", "Y", "y", "", "Y", "Y"}[k] + sign + m
	if k == 1 || k == 2 || k == 4 {
		y += []string{"E", "E", "e", "", "E", ""}[k] + t.Pick(Exponents)
	}
	if k >= 3 {
		y += "S" + t.Pick(Counts)
	}
	return y
}

// Any builds a string of any feature, mostly but not only acceptable ones. Bigger sizes have more years, days and pairs.
type Corpus struct {
	Years     []int
	Dates     []string // plain
	FewDates  []string
	Masks     []string
	Quals     []string
	Ends      []string // interval endpoints
	Times     []string
	DateTimes []string
	Members   []string
}

func NewCorpus(size int) *Corpus {
	c := &Corpus{}
	c.Years = FewYears
	if size > 0 {
		c.Years = Years
	}
	months := []int{1, 2, 3, 4, 9, 11, 12}
	days := []int{1, 9, 28, 29, -1}
	c.Dates = Dates(Years, months, days)
	c.FewDates = Dates(FewYears, []int{1, 2, 12}, []int{1, -1})
	if size < 0 {
		few := Dates([]int{0, 1969, 2000, 9999, -400, -1}, []int{2, 12}, []int{-1})
		c.FewDates = few
	}
	mys := []int{0, 999, 1984, 2000, 2001, 1900, 9999}
	if size > 0 {
		mys = Years
	}
	c.Masks = Masks(mys)
	for _, d := range Dates([]int{2004, 1970, 0, -5, 9999}, []int{2, 12}, []int{1, 29}) {
		c.Quals = append(c.Quals, Qualified(d, false)...)
	}
	c.Quals = Uniq(c.Quals)
	c.Ends = append(c.Ends, "", "..")
	if size > 0 {
		c.Ends = append(c.Ends, Dates(Years, []int{1, 2, 12}, []int{1, 28, -1})...)
	} else {
		c.Ends = append(c.Ends, c.FewDates...)
	}
	ms, qs := 7, 11
	if size > 0 {
		ms, qs = 1, 5
	} else if size < 0 {
		ms, qs = 31, 41
	}
	for i, m := range c.Masks {
		if i%ms == 0 {
			c.Ends = append(c.Ends, m)
		}
	}
	for i, q := range c.Quals {
		if i%qs == 0 {
			c.Ends = append(c.Ends, q)
		}
	}
	c.Ends = Uniq(c.Ends)
	for _, y := range FewYears {
		for _, md := range [][2]int{{1, 1}, {2, 28}, {2, 29}, {3, 1}, {12, 31}} {
			if model.Exists(y, md[0], md[1]) {
				c.DateTimes = append(c.DateTimes, model.DateText(y, md[0], md[1]))
			}
		}
	}
	c.Times = []string{"00:00:00", "23:59:59", "12:34:56", "00:30:00", "24:00:00"}
	c.Members = []string{"1667", "1668", "-0200", "-0100", "1960", "1960-05", "1960-05-07", "0000", "1970", "1969-12-31", "1970-01-01", "9999-12-31", "-9999"}
	return c
}

var Zones = []string{"", "Z", "+00", "-00:00", "+05", "-05", "+04:30", "-11:45", "+14:00", "-23:59", "+23"}

func (c *Corpus) Any(t *explore.T) string {
	switch t.Choose(13) {
	case 0:
		return t.Pick(c.Dates)
	case 1:
		return t.Pick(c.DateTimes) + "T" + t.Pick(c.Times) + t.Pick(Zones)
	case 2:
		return t.Pick(c.Ends) + "/" + t.Pick(c.Ends)
	case 3:
		return "Y" + model.YearText(c.Years[t.Choose(len(c.Years))])
	case 4:
		return model.YearText(c.Years[t.Choose(len(c.Years))]) + "-" + strconv.Itoa(20+t.Choose(23))
	case 5:
		w := t.Pick([]string{"spring", "Summer", "FALL", "wInTeR"})
		return w + t.Pick([]string{",", ", ", " , "}) + t.Pick([]string{"0000", "0999", "1969", "1970", "1999", "2000", "2023", "9998", "9999"})
	case 6:
		return t.Pick(c.Quals)
	case 7:
		return t.Pick(c.Masks)
	case 8:
		m := []string{"0", "1", "5", "20", "985", "1970", "2000", "9999", "0100"}
		return t.Pick([]string{"Y", "Y-", "y"}) + t.Pick(m) + t.Pick([]string{"E", "e"}) + t.Pick([]string{"0", "1", "2", "3"})
	case 9:
		y := model.YearText(c.Years[t.Choose(len(c.Years))])
		return t.Pick([]string{"", "Y"}) + y + "S" + strconv.Itoa(t.Choose(6))
	case 10:
		y := t.Pick([]string{"Y", "Y-"}) + t.Pick([]string{"0", "5", "20", "985", "1970", "2000", "9999"}) + "E" + t.Pick([]string{"0", "1", "2"})
		return y + "S" + strconv.Itoa(t.Choose(5))
	case 11:
		return Set(t, c.Members, 1+t.Choose(2))
	default:
		return t.Pick(Seeds)
	}
}

// Set builds a set with n members out of the list, with every separator and both open ends.
func Set(t *explore.T, members []string, n int) string {
	b := t.Choose(2)
	var s strings.Builder
	s.WriteString([]string{"[", "{"}[b])
	open := t.Choose(4)
	if open&1 != 0 {
		s.WriteString("..")
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			s.WriteString([]string{",", ".."}[t.Choose(2)])
		}
		s.WriteString(t.Pick(members))
	}
	if open&2 != 0 {
		s.WriteString("..")
	}
	s.WriteString([]string{"]", "}"}[b])
	return s.String()
}
