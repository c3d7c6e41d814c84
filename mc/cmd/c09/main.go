// C09: a set spans its earliest to its latest member and says which kind it is.
package main

import (
	"strings"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"
)

const aspects = view.Acceptance | view.Span | view.YMD | view.Incl | view.Flags

func main() {
	explore.Main(explore.Check{Property: "C09", Spaces: spaces, Assumptions: []string{
		"a set whose range runs backwards or mixes precisions, with an open mark on an inner item, or open at both ends of one item, may be rejected; if accepted its span and marks are checked",
		"only the outer bounds (start-lower and end-upper) of a set are specified, and the marks on all of them",
	}})
}

func one(t *explore.T, s string) { view.Compare(t, s, aspects) }

var brackets = []string{"[]", "{}", "[}", "{]"}

// set chooses brackets, open ends, members and separators.
func set(t *explore.T, members []string, n int, seps []string, br int) string {
	b := brackets[t.Choose(br)]
	open := t.Choose(4)
	var s strings.Builder
	s.WriteByte(b[0])
	if open&1 != 0 {
		s.WriteString("..")
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			s.WriteString(t.Pick(seps))
		}
		s.WriteString(t.Pick(members))
	}
	if open&2 != 0 {
		s.WriteString("..")
	}
	s.WriteByte(b[1])
	return s.String()
}

func spaces(tier string) []explore.Space {
	many := gen.Dates(gen.Years, []int{1, 2, 12}, []int{1, 28, -1})
	some := gen.Dates([]int{-9999, -400, -5, -1, 0, 1, 999, 1667, 1969, 1970, 2000, 9999}, []int{2, 12}, []int{1, -1})
	few := []string{"-0200", "-0200-05", "-0199-02-28", "0000", "0000-12", "1667-12-03", "1667-12", "1667", "1668", "1970-01-01", "9999-12-31"}
	tiny := []string{"-0200", "-0199-02-28", "0000-12", "1667-12", "1667", "1970-01-01"}
	bad := []string{"", "..", "2001-02-29", "2001-13", "2001-00-01", "2001-21", "201X", "2001?", "?2001", "200", "20011", "2001-2", " 2001", "XXXX", "Y2001", "2001-01-01T00:00:00", "2001/2002", "[2001]", "open", "2001-04-31", "-"}
	seps := []string{",", ".."}
	sp := []explore.Space{
		{Name: "one", Desc: "one member out of all kinds of dates, both brackets, all open ends, mismatched brackets",
			Body: func(t *explore.T) { one(t, set(t, many, 1, seps, 4)) }},
		{Name: "two", Desc: "every two members out of dates of every sign and precision, with comma or range, all open ends",
			Body: func(t *explore.T) { one(t, set(t, some, 2, seps, 4)) }},
		{Name: "three", Desc: "every three members out of a small list, in every order, with every separator",
			Body: func(t *explore.T) { one(t, set(t, few, 3, seps, 2)) }},
		{Name: "four", Desc: "every four members out of a smaller list",
			Body: func(t *explore.T) { one(t, set(t, tiny, 4, seps, 2)) }},
		{Name: "years", Desc: "every year -9999..9999 in a set with an earlier and a later one",
			Body: func(t *explore.T) {
				y := t.Choose(200)*100 + t.Choose(100) - 10000
				if y < -9999 {
					return
				}
				s := model.YearText(y) + t.Pick([]string{"", "-02", "-12-31"})
				one(t, t.Pick([]string{"[" + s + "]", "{0050," + s + "}", "[" + s + ",-0044-03-15,1970]", "[.." + s + "]", "{" + s + "..}", "{-0500.." + s + ",1999}"}))
			}},
		{Name: "bad", Desc: "empty, impossible, misspelt and unsupported members in every position of sets of up to three members, and stray separators",
			Body: func(t *explore.T) {
				n := 1 + t.Choose(3)
				k := t.Choose(n)
				b := brackets[t.Choose(3)]
				var s strings.Builder
				s.WriteByte(b[0])
				s.WriteString(t.Pick([]string{"", "..", ","}))
				for i := 0; i < n; i++ {
					if i > 0 {
						s.WriteString(t.Pick([]string{",", "..", ",,", ", ", "...", ".", "/", ",..", "..,"}))
					}
					if i == k {
						s.WriteString(t.Pick(bad))
					} else {
						s.WriteString([]string{"1667", "-0200-05", "1970-01-01"}[i])
					}
				}
				s.WriteString(t.Pick([]string{"", "..", ",", "...", "....", " "}))
				s.WriteByte(b[1])
				s.WriteString(t.Pick([]string{"", "]", " "}))
				one(t, s.String())
			}},
		{Name: "long", Desc: "sets of 5 to 130 members with the earliest, the latest, and an impossible one at every place (of longer ones, at some places), as members of their own and in ranges",
			Body: func(t *explore.T) {
				sizes := []int{5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 24, 32, 33, 64, 65, 100, 130}
				n := sizes[t.Choose(len(sizes))]
				place := func() int {
					if n <= 13 {
						return t.Choose(n)
					}
					p := []int{0, 1, 7, 8, 9, 10, 12, 15, 16, 19, 31, 32, 63, 64, 99, 128, n / 2, n - 2, n - 1}
					return p[t.Choose(len(p))] % n
				}
				kind := t.Choose(5)
				m := make([]string, n)
				for i := range m {
					switch kind {
					case 0:
						m[i] = model.YearText(1500 + i)
					case 1:
						m[i] = model.DateText(1700-i, 1+i%12, 1+i%28)
					case 2:
						m[i] = model.YearText(-100 - i)
					case 3:
						m[i] = []string{"1601", "1602-05", "1603-07-09"}[i%3]
					case 4: // before and after the year 0, in turn
						m[i] = model.YearText([]int{200 + i, -100 - i}[i%2])
					}
				}
				i := place()
				j := []int{0, n - 1, (i + 1) % n}[t.Choose(3)]
				if n <= 13 {
					j = place()
				}
				m[i] = t.Pick([]string{"-0300-02", "-0450", "0100-06-05", "2002-02-30"})
				m[j] = t.Pick([]string{"-0050-12", "1999", "1888-11", "1777-07-07"})
				var s strings.Builder
				b := t.Choose(2)
				s.WriteByte("[{"[b])
				ranges := t.Choose(3) // none, all, the last two
				for k, x := range m {
					if k > 0 {
						if ranges == 1 && k%2 == 1 || ranges == 2 && k == n-1 {
							s.WriteString("..")
						} else {
							s.WriteString(",")
						}
					}
					s.WriteString(x)
				}
				s.WriteByte("]}"[b])
				one(t, s.String())
			}},
		{Name: "longest", Desc: "sets of up to 20000 members with the earliest, the latest, and an impossible one at the ends, next to them, or in the middle",
			Body: func(t *explore.T) {
				sizes := []int{200, 256, 257, 500, 512, 1000, 1024, 4096, 5000, 20000}
				n := sizes[t.Choose(len(sizes))]
				ps := []int{0, 1, n / 2, n - 2, n - 1}
				i, j := ps[t.Choose(5)], ps[t.Choose(5)]
				if n > 1024 {
					i, j = n/2, n-1
					if t.Bool() {
						i, j = 0, n-2
					}
				}
				m := make([]string, n)
				for k := range m {
					m[k] = model.YearText(k%1900 - 40)
				}
				m[i] = t.Pick([]string{"-0300-02", "2002-02-30"})
				m[j] = t.Pick([]string{"1999", "-0450-06-07"})
				b := t.Pick(brackets[:2])
				one(t, b[:1]+strings.Join(m, ",")+t.Pick([]string{"", ".."})+b[1:])
			}},
		{Name: "pieces", Desc: "every sequence of at most n pieces of set syntax",
			Body: func(t *explore.T) {
				n := 6
				if tier == "thorough" {
					n = 7
				}
				one(t, gen.Chars(t, n, []string{"[", "]", "{", "}", ",", "..", "1667", "-0200-05", "1970-02-30"}))
			}},
	}
	if tier == "thorough" {
		sp = append(sp,
			explore.Space{Name: "many", Desc: "every two members out of all kinds of dates", Body: func(t *explore.T) { one(t, set(t, many, 2, seps, 2)) }},
			explore.Space{Name: "three of some", Desc: "every three members out of dates of every sign and precision", Body: func(t *explore.T) { one(t, set(t, some, 3, seps, 2)) }},
			explore.Space{Name: "five", Desc: "every five members out of a smaller list", Body: func(t *explore.T) { one(t, set(t, tiny, 5, seps, 2)) }},
		)
	}
	return sp
}
