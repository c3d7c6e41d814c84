package main

import (
	"crypto/md5"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"hash/fnv"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/ops"
)

// Twins are two calls that a memory of earlier answers takes for the same when its key is made of
// something less than the whole string: a hash, a prefix, the text without its marks, ...

type twins struct {
	name  string
	pairs func() [][2]string
	two   func() [][2]ops.Op
}

// days are all days and hours of some length 10 and 13 texts: more than enough for two to share each 32-bit hash.
var days = sync.OnceValue(func() []string {
	var out []string
	for y := 0; y <= 9999; y++ {
		for m := 1; m <= 12; m++ {
			for d := 1; d <= model.DaysIn(y, m); d += 3 {
				out = append(out, model.DateText(y, m, d))
			}
		}
	}
	return out
})

const most = 60

// others are intervals, sets, qualified months and strings that are not dates, some of which have the hashes of days.
var others = sync.OnceValue(func() []string {
	var out []string
	for y := 0; y <= 9999; y++ {
		for k := 1; k <= 30; k++ {
			out = append(out, model.YearText(y)+"/"+model.YearText((y+37*k)%10000))
		}
		for k := 1; k <= 20; k++ {
			out = append(out, "["+model.YearText(y)+","+model.YearText((y+41*k)%10000)+"]")
		}
		for m := 1; m <= 12; m++ {
			out = append(out, fmt.Sprintf("%04d-%02d?", y, m), fmt.Sprintf("%04d:%02d", y, m))
		}
	}
	return out
})

// sameHash is pairs of days, and pairs of a day (or other string) and a string of another kind, with the same hash.
func sameHash(h func(string) uint32) func() [][2]string {
	return func() [][2]string {
		l := append(append([]string{}, days()...), others()...)
		kind := func(s string) byte {
			if c := s[0]; c < '0' || c > '9' {
				return c
			}
			return s[4] + s[len(s)-1]&0x10<<1
		}
		es := make([]uint64, len(l))
		for i, s := range l {
			es[i] = uint64(h(s))<<32 | uint64(i)
		}
		slices.Sort(es)
		var same, cross [][2]string
		for i := 1; i < len(es); i++ {
			if es[i]>>32 != es[i-1]>>32 {
				continue
			}
			p := [2]string{l[uint32(es[i-1])], l[uint32(es[i])]}
			if kind(p[0]) == kind(p[1]) {
				same = append(same, p)
			} else {
				cross = append(cross, p)
			}
		}
		var out [][2]string
		for _, ps := range [][][2]string{same, cross} {
			// spread
			step := (len(ps) + most - 1) / most
			for i := 0; i < len(ps); i += step {
				out = append(out, ps[i])
			}
		}
		return out
	}
}

func loop(start uint32, f func(h uint32, c byte) uint32) func(string) uint32 {
	return func(s string) uint32 {
		h := start
		for i := 0; i < len(s); i++ {
			h = f(h, s[i])
		}
		return h
	}
}

var hashes = []struct {
	name string
	f    func(string) uint32
}{
	{"FNV-1", func(s string) uint32 { h := fnv.New32(); h.Write([]byte(s)); return h.Sum32() }},
	{"FNV-1a", func(s string) uint32 { h := fnv.New32a(); h.Write([]byte(s)); return h.Sum32() }},
	{"FNV-1 of 64 bits, the lower half", func(s string) uint32 { h := fnv.New64(); h.Write([]byte(s)); return uint32(h.Sum64()) }},
	{"FNV-1a of 64 bits, the lower half", func(s string) uint32 { h := fnv.New64a(); h.Write([]byte(s)); return uint32(h.Sum64()) }},
	{"FNV-1a of 64 bits, folded", func(s string) uint32 {
		h := fnv.New64a()
		h.Write([]byte(s))
		x := h.Sum64()
		return uint32(x) ^ uint32(x>>32)
	}},
	{"CRC-32", func(s string) uint32 { return crc32.ChecksumIEEE([]byte(s)) }},
	{"CRC-32C", func(s string) uint32 { return crc32.Checksum([]byte(s), castagnoli) }},
	{"CRC-32K", func(s string) uint32 { return crc32.Checksum([]byte(s), koopman) }},
	{"Adler-32", func(s string) uint32 { return adler32.Checksum([]byte(s)) }},
	{"31 h + c", loop(0, func(h uint32, c byte) uint32 { return 31*h + uint32(c) })},
	{"17, 31 h + c", loop(17, func(h uint32, c byte) uint32 { return 31*h + uint32(c) })},
	{"33 h + c", loop(5381, func(h uint32, c byte) uint32 { return 33*h + uint32(c) })},
	{"33 h ^ c", loop(5381, func(h uint32, c byte) uint32 { return 33*h ^ uint32(c) })},
	{"65599 h + c", loop(0, func(h uint32, c byte) uint32 { return 65599*h + uint32(c) })},
	{"131 h + c", loop(0, func(h uint32, c byte) uint32 { return 131*h + uint32(c) })},
	{"37 h + c", loop(0, func(h uint32, c byte) uint32 { return 37*h + uint32(c) })},
	{"the sum of bytes", loop(0, func(h uint32, c byte) uint32 { return h + uint32(c) })},
	{"the exclusive or of bytes", loop(0, func(h uint32, c byte) uint32 { return h ^ uint32(c) })},
	{"rotate and exclusive or", loop(0, func(h uint32, c byte) uint32 { return (h<<5 | h>>27) ^ uint32(c) })},
	{"one at a time", func(s string) uint32 {
		h := loop(0, func(h uint32, c byte) uint32 { h += uint32(c); h += h << 10; return h ^ h>>6 })(s)
		h += h << 3
		h ^= h >> 11
		return h + h<<15
	}},
	{"MD5, the first 32 bits", func(s string) uint32 { x := md5.Sum([]byte(s)); return binary.BigEndian.Uint32(x[:]) }},
	{"SHA-1, the first 32 bits", func(s string) uint32 { x := sha1.Sum([]byte(s)); return binary.BigEndian.Uint32(x[:]) }},
}

var castagnoli, koopman = crc32.MakeTable(crc32.Castagnoli), crc32.MakeTable(crc32.Koopman)

// sameKey is pairs of strings of the corpus, neighbours among those with the same key.
func sameKey(key func(string) string) func() [][2]string {
	return func() [][2]string {
		last := map[string]string{}
		n := map[string]int{}
		var out [][2]string
		for _, s := range corpus() {
			k := key(s)
			if p, ok := last[k]; ok && p != s && n[k] < 12 {
				out = append(out, [2]string{p, s})
				n[k]++
			}
			last[k] = s
		}
		for len(out) > 1200 {
			var few [][2]string
			for i := 0; i < len(out); i += 2 {
				few = append(few, out[i])
			}
			out = few
		}
		return out
	}
}

// corpus is strings of all features and long ones with a common start or end.
var corpus = sync.OnceValue(func() []string {
	l := append([]string{}, gen.List(-1, 9)...)
	for _, s := range gen.Seeds {
		l = append(l, s, s+" ", " "+s, strings.ToUpper(s), strings.ToLower(s), s+"?", "-"+s, "?"+s, s+"\x00", s+"\x00x", s+"\n", s+"Z", strings.ReplaceAll(s, "-", ""), strings.ReplaceAll(s, "-", "/"))
	}
	for n := 1; n <= 300; n = n*3/2 + 1 {
		a := strings.Repeat("1985,", n)
		l = append(l, "["+a+"1984]", "["+a+"1986]", "{"+a+"1985-04}", "["+a+"1987..]", "[1983,"+a+"1985]", "[1988,"+a+"1985]", "["+a[:len(a)-1], "["+a+"hello]")
		z := strings.Repeat("0", n)
		l = append(l, "Y1"+z+"E1", "Y2"+z+"E1", "Y"+z+"1E3", "Y"+z+"2E3", "Y"+z+"1985", "Y"+z+"1986", "1985S"+z+"1", "1985S"+z+"2")
	}
	return gen.Uniq(l)
})

func head(n int) func(string) string {
	return func(s string) string {
		if len(s) > n {
			return s[:n]
		}
		return s
	}
}

func tail(n int) func(string) string {
	return func(s string) string {
		if len(s) > n {
			return s[len(s)-n:]
		}
		return s
	}
}

func without(chars string) func(string) string {
	return func(s string) string {
		return strings.Map(func(r rune) rune {
			if strings.ContainsRune(chars, r) {
				return -1
			}
			return r
		}, s)
	}
}

var allTwins = sync.OnceValue(func() []twins {
	var out []twins
	for _, h := range hashes {
		out = append(out, twins{name: "days and others with the same hash (" + h.name + ")", pairs: sameHash(h.f)})
	}
	for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 24, 32, 48, 63, 64, 100, 127, 128, 255, 256, 512, 1000, 1024} {
		out = append(out,
			twins{name: fmt.Sprintf("strings that start with the same %d bytes", n), pairs: sameKey(head(n))},
			twins{name: fmt.Sprintf("strings that end with the same %d bytes", n), pairs: sameKey(tail(n))})
	}
	sorted := func(s string) string {
		b := []byte(s)
		sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
		return string(b)
	}
	for _, k := range []struct {
		name string
		f    func(string) string
	}{
		{"of the same length", func(s string) string { return fmt.Sprint(len(s)) }},
		{"of the same length, first and last byte", func(s string) string {
			if s == "" {
				return ""
			}
			return fmt.Sprint(len(s), s[0], s[len(s)-1])
		}},
		{"of the same characters", sorted},
		{"of the same digits", without("XYES?~%-/.,[]{}T:Z+ \x00\n")},
		{"of the same shape", func(s string) string {
			return strings.Map(func(r rune) rune {
				if r >= '0' && r <= '9' {
					return '9'
				}
				return r
			}, s)
		}},
		{"equal but for marks", without("?~%")},
		{"equal but for signs", without("-+")},
		{"equal but for hyphens and slashes", without("-/")},
		{"equal but for brackets", without("[]{}")},
		{"equal but for spaces and control characters", without(" \t\n\x00")},
		{"equal but for dots", without(".")},
		{"equal but for zeroes", without("0")},
		{"equal but for the case of letters", strings.ToLower},
		{"equal but for the kind of mark", func(s string) string { return strings.NewReplacer("~", "?", "%", "?").Replace(s) }},
		{"equal up to a NUL", func(s string) string { return strings.SplitN(s, "\x00", 2)[0] }},
		{"equal up to a slash", func(s string) string { return strings.SplitN(s, "/", 2)[0] }},
		{"equal up to a comma", func(s string) string { return strings.SplitN(s, ",", 2)[0] }},
		{"equal up to a T", func(s string) string { return strings.SplitN(s, "T", 2)[0] }},
		{"equal from a slash", func(s string) string { return s[strings.LastIndexByte(s, '/')+1:] }},
		{"equal in even bytes", func(s string) string {
			var b []byte
			for i := 0; i < len(s); i += 2 {
				b = append(b, s[i])
			}
			return string(b)
		}},
	} {
		out = append(out, twins{name: "strings " + k.name, pairs: sameKey(k.f)})
	}
	for _, sep := range []string{"", "-", "/", ",", " ", "..", "|", ":", "_", "\x00", "&", ";"} {
		sep := sep
		out = append(out, twins{name: fmt.Sprintf("pairs of arguments that are the same with %q between them", sep), two: func() [][2]ops.Op {
			var l [][2]ops.Op
			for _, s := range []string{"2004-06-11", "2004-06-11/2005", "../2004/2005", "[1667,1668,1670..1672]", "{1960,1961-12}", "1985..1986", "-0100-02", "20042005", "200420052006", "Spring, 2001", "2004|2005|2006", "2004 2005 2006", "2004:2005:2006", "2004_2005", "2004\x002005\x002006", "2004&2005", "2004;2005;2006", "2004,2005,2006", "2004-2005-2006"} {
				var at []int
				for i := 0; i+len(sep) <= len(s); i++ {
					if s[i:i+len(sep)] == sep {
						at = append(at, i)
					}
				}
				for k := 1; k < len(at); k++ {
					a, b := at[k-1], at[k]
					for _, kind := range ops.Kinds2 {
						l = append(l, [2]ops.Op{op(kind, s[:a], s[a+len(sep):]), op(kind, s[:b], s[b+len(sep):])})
					}
					l = append(l, [2]ops.Op{op("between", s[:a], s[a+len(sep):], "2010"), op("between", s[:b], s[b+len(sep):], "2010")},
						[2]ops.Op{op("between", "1900", s[:a], s[a+len(sep):]), op("between", "1900", s[:b], s[b+len(sep):])})
				}
			}
			for _, kind := range ops.Kinds2 {
				for _, x := range [][2]string{{"2004", "2005"}, {"2004-06", ".."}, {"201X", "-0100"}, {"1985", "1984/1986"}} {
					l = append(l, [2]ops.Op{op(kind, x[0], x[1]), op(kind, x[1], x[0])}, [2]ops.Op{op(kind, x[0], x[0]), op(kind, x[1], x[1])}, [2]ops.Op{op(kind, x[0], x[1]), op(kind, x[0], x[0])})
				}
			}
			return l
		}})
	}
	return out
})

// twinCalls are the calls of a list of twins, two by two.
func twinCalls(i int) []ops.Op {
	tw := allTwins()[i]
	var out []ops.Op
	if tw.two != nil {
		for _, p := range tw.two() {
			out = append(out, p[0], p[1])
		}
		return out
	}
	ps := tw.pairs()
	for _, k := range ops.Kinds1 {
		for _, p := range ps {
			out = append(out, op(k, p[0]), op(k, p[1]))
		}
	}
	return out
}

// twin asks the calls two by two, in one order or the other, then all of them once more.
func twin(j ops.Job) ops.Reply {
	var r ops.Reply
	os := twinCalls(j.Arg >> 1)
	sums := make([]uint64, len(os))
	for round := 0; round < 2; round++ {
		for c := range os {
			i := c ^ j.Arg&1
			a := os[i].Run()
			r.Count++
			h := explore.Hash(a.Show())
			if round > 0 && h != sums[i] {
				r.Failed = fmt.Sprintf("asked again after %d other calls, %s answers %s, unlike the first time", r.Count-1, os[i], a.Show())
				return r
			}
			sums[i] = h
			ops.Scribble(a)
		}
	}
	for _, h := range sums {
		r.Texts = append(r.Texts, fmt.Sprintf("%x", h))
	}
	return r
}

func twinOrders(t *explore.T, k int) {
	name := allTwins()[k].name
	t.Input(name)
	defer t.Waiting()()
	var sums [2][]string
	for d := range sums {
		r, err := ops.Call(ops.Job{Mode: "twin", Arg: k<<1 | d}, 200*time.Second)
		t.Covered(r.Count, r.Count)
		if err != nil || r.Failed != "" {
			if err != nil {
				r.Failed = err.Error()
			}
			t.Fail(name, "%s", r.Failed)
			return
		}
		sums[d] = r.Texts
	}
	t.State(explore.Hash(sums[0]))
	for i := range sums[0] {
		if sums[0][i] != sums[1][i] {
			os := twinCalls(k)
			t.Fail(name, "%s answers differently right before and right after %s", os[i], os[i^1])
			return
		}
	}
}
