// C34: the work done for a string grows with its length, not with the numbers in it.
package main

import (
	"fmt"
	"runtime"
	"strings"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/ops"
	"verif.local/mc/vsched"
)

// The library takes at most 60 statements and 300 bytes for each character of the longest strings, and 1500
// statements for a short one; the bounds leave room for other ways of writing it.
const (
	baseSteps = 6000
	charSteps = 400
	baseBytes = 256 << 10
	charBytes = 4000
)

var all []ops.Op // the calls, to be given the string

func init() {
	for _, k := range ops.Kinds1 {
		all = append(all, ops.Op{Kind: k, Args: []string{""}})
	}
	for _, k := range ops.Kinds2 {
		all = append(all, ops.Op{Kind: k, Args: []string{"", "2000"}})
		all = append(all, ops.Op{Kind: k, Args: []string{"2000", ""}})
	}
	all = append(all, ops.Op{Kind: "between", Args: []string{"", "1984", "2000"}})
}

func with(o ops.Op, s string) ops.Op {
	a := append([]string{}, o.Args...)
	for i := range a {
		if a[i] == "" {
			a[i] = s
		}
	}
	return ops.Op{Kind: o.Kind, Args: a}
}

// steps runs a call and counts the statements of the library.
func steps(t *explore.T, o ops.Op) uint64 {
	vsched.Counted, vsched.Counting = 0, true
	t.Begin()
	o.Run()
	t.End()
	vsched.Counting = false
	return vsched.Counted
}

// bytes runs calls and counts what is allocated.
func bytes(t *explore.T, os ...ops.Op) (uint64, []uint64) {
	var a, b runtime.MemStats
	n := make([]uint64, len(os))
	runtime.ReadMemStats(&a)
	for i, o := range os {
		n[i] = steps(t, o)
	}
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc, n
}

func one(t *explore.T, s string) { measure(t, s, all, len(s)) }

func measure(t *explore.T, s string, calls []ops.Op, n int) {
	t.Input(s)
	os := make([]ops.Op, len(calls))
	for i, o := range calls {
		os[i] = with(o, s)
	}
	maxSteps := uint64(baseSteps + charSteps*n)
	maxBytes := uint64(baseBytes + charBytes*n)
	by, st := bytes(t, os...)
	t.Compared()
	h := uint64(0)
	for i := range st {
		h = h*31 + st[i]
		if st[i] <= maxSteps {
			continue
		}
		// what is done once and for all is not counted
		k := st[i]
		for j := 0; j < 2; j++ {
			if x := steps(t, os[i]); x < k {
				k = x
			}
		}
		if k > maxSteps {
			t.Fail(s, "%s runs %d statements of the library for %d characters, more than %d", os[i], k, n, maxSteps)
			return
		}
	}
	t.State(h)
	if by <= maxBytes {
		return
	}
	for i := range os {
		k, _ := bytes(t, os[i])
		for j := 0; j < 3 && k > maxBytes; j++ {
			if x, _ := bytes(t, os[i]); x < k {
				k = x
			}
		}
		if k > maxBytes {
			t.Fail(s, "%s allocates %d bytes for %d characters, more than %d", os[i], k, n, maxBytes)
			return
		}
	}
}

var (
	units = []string{"1", "0", "9", "X", "-", "?", "~", "%", "..", "[", "{", "]", ",", "/", ":", " ", "+", "Y", "E", "S", "T", "Z", "W", "é", "\x00", "\n",
		"1984,", "-0001,", "1984-01,", "1984-01-01,", "1984..1985,", "1984-02..1985-03,", "-9999..9999,", "1984-06-02..2004-08-08,", "..1984,", "1984..,", "1984/", "1984?,"}
	before = []string{"", "[", "{", "Y", "Y-", "Y1E", "Y1S", "Y1E2S", "1984", "1984-", "1984-01-", "1984S", "1984/", "../", "-", "1984-01-01T", "1984-01-01T00:00:00", "1984-01-01T00:00:00+", "spring,", "{1984,", "[..1984,"}
	after  = []string{"", "2000]", "2000}", "..]", "]", "}", "/1984", "-01", "-01-01", "?", "Z", "S2", "E2", "..2000]"}
)

func spaces(tier string) []explore.Space {
	thorough := tier == "thorough"
	lens, longest, long := []int{1, 30, 300}, 5000, []string{"1984,", "1984-01-01,", "1984..1985,", "0", "X"}
	size := -1
	if thorough {
		lens, longest, long = []int{1, 2, 7, 30, 200, 1500}, 30000, units
		size = 0
	}
	ends := []string{"-9999", "-1000", "-0001", "0000", "0001", "0999", "1970", "9999"}
	suffix := []string{"", "-01", "-12", "-01-01", "-12-31"}
	sp := []explore.Space{
		{Name: "ranges", Desc: "sets and intervals between all of 40 dates from -9999 to 9999, with all that may surround them",
			Body: func(t *explore.T) {
				a := t.Pick(ends) + t.Pick(suffix)
				b := t.Pick(ends) + t.Pick(suffix)
				switch t.Choose(7) {
				case 0:
					one(t, "["+a+".."+b+"]")
				case 1:
					one(t, "{"+a+".."+b+"}")
				case 2:
					one(t, "{..1667,"+a+".."+b+",1670..1672}")
				case 3:
					one(t, a+"/"+b)
				case 4:
					one(t, "["+a+","+b+"]")
				case 5:
					one(t, a+"~/"+b+"?")
				case 6:
					one(t, "[.."+a+","+b+"..]")
				}
			}},
		{Name: "long", Desc: fmt.Sprintf("%d texts repeated up to %d times, after %d and before %d others", len(units), lens[len(lens)-1], len(before), len(after)),
			Body: func(t *explore.T) {
				n := lens[t.Choose(len(lens))]
				u := t.Pick(units)
				one(t, t.Pick(before)+strings.Repeat(u, n)+t.Pick(after))
			}},
		{Name: "longest", Desc: fmt.Sprintf("sets, dates and years with %d members or digits", longest),
			Body: func(t *explore.T) {
				one(t, t.Pick([]string{"[", "{", "[..1984,", "Y", "1984-", ""})+strings.Repeat(t.Pick(long), longest)+t.Pick([]string{"2000]", "2000}", "..1999]", ""}))
			}},
		{Name: "hundred thousand", Desc: "one of 17 characters 100000 times, within seasons, years, marks and other texts",
			Body: func(t *explore.T) {
				u := t.Pick([]string{" ", "\t", "\n", "0", "9", "X", "-", "?", "%", ".", "/", ",", ":", "[", "]", "Z", "\xff"})
				ps := [][2]string{{"Spring,", "2001"}, {"winter", ",2001"}, {"", "2004"}, {"2004", ""}, {"Y", ""}, {"Y1E", ""}, {"1985S", ""}, {"2004-06-11T", ""}, {"[1984", "]"}, {"[1984..", "2000]"}, {"2004/", "/2005"}, {"2004-", "06"}}
				p := ps[t.Choose(len(ps))]
				s := p[0] + strings.Repeat(u, 100000) + p[1]
				few := []ops.Op{{Kind: "parse", Args: []string{""}}, {Kind: "valid", Args: []string{""}}, {Kind: "matches", Args: []string{""}}, {Kind: "unix", Args: []string{""}}, {Kind: "before", Args: []string{"", "2000"}}}
				measure(t, s, few, len(s))
			}},
		{Name: "members", Desc: fmt.Sprintf("sets with %d different members, ascending, descending and mixed, with and without ranges", longest),
			Body: func(t *explore.T) {
				kind, order, b := t.Choose(4), t.Choose(3), t.Choose(2)
				m := make([]string, longest)
				for i := range m {
					k := i
					switch order {
					case 1:
						k = longest - 1 - i
					case 2:
						k = i * 7919 % longest
					}
					switch kind {
					case 0:
						m[i] = fmt.Sprintf("%04d-%02d", 1000+k/12, 1+k%12)
					case 1:
						m[i] = fmt.Sprintf("%04d-%02d-%02d", 1000+k/(12*28), 1+k/28%12, 1+k%28)
					case 2:
						m[i] = fmt.Sprintf("-%04d-%02d", 1000+k/12, 1+k%12)
					case 3:
						m[i] = fmt.Sprintf("%04d-%02d..%04d-%02d", 1000+k/12, 1+k%12, 9999-k/12, 1+k%12)
					}
				}
				x := "[{"[b:b+1] + strings.Join(m, ",") + "]}"[b:b+1]
				few := []ops.Op{{Kind: "parse", Args: []string{""}}, {Kind: "valid", Args: []string{""}}, {Kind: "matches", Args: []string{""}}, {Kind: "unix", Args: []string{""}}}
				measure(t, x, few, len(x))
			}},
		gen.NumberSpace(one),
		gen.CorpusSpace(size, one),
		{Name: "helpers", Desc: "calendar.DaysInMonth and common.TimeWithYMD for years of every size, and months and days in and out of range",
			Body: func(t *explore.T) {
				y := t.Pick([]string{"0", "1", "-1", "4", "1900", "9999", "-9999", "10000", "99999", "-123456789", "2147483647", "-2147483648"})
				m := t.Pick([]string{"-1", "0", "1", "2", "12", "13", "2147483647"})
				d := t.Pick([]string{"-1", "0", "1", "28", "29", "31", "32", "2147483647"})
				h := t.Pick([]string{"00:00:00", "23:59:59", ""})
				measure(t, y+" "+m+" "+d+" "+h, []ops.Op{{Kind: "daysin", Args: []string{y, m}}, {Kind: "timeymd", Args: []string{y, m, d, h}}}, len(y+m+d+h))
			}},
	}
	for i := range sp {
		sp[i].Serial = true
	}
	return sp
}

func main() {
	explore.Main(explore.Check{Property: "C34", Spaces: spaces, Assumptions: []string{
		fmt.Sprintf("work is the statements of the library that are run, at most %d and %d for each character, and the bytes it allocates, at most %d and %d for each character; the work of the standard library shows in what it allocates, and in the time limit of a call", baseSteps, charSteps, baseBytes, charBytes),
		"what is done once and for all, and not again for the same string, is not counted",
	}, Extra: func(env explore.Env, st *explore.Stats, cov map[string]interface{}) error {
		samples := map[string]uint64{}
		for _, x := range []string{"1984", "[1667,1668,1670..1672]", "[-9999..9999]", "Y1E3", "[" + strings.Repeat("1984,", 200) + "1985]"} {
			vsched.Counted, vsched.Counting = 0, true
			ops.Op{Kind: "parse", Args: []string{x}}.Run()
			vsched.Counting = false
			samples[fmt.Sprintf("%.24q, %d characters", x, len(x))] = vsched.Counted
		}
		cov["statements_to_parse"] = samples // all 0: the library could not be instrumented
		return nil
	}})
}
