// C17: answers never depend on what was asked, or done to results, before.
package main

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/ops"
	"verif.local/mc/view"

	"github.com/sfomuseum/go-edtf/parser"
)

var fresh ops.Fresh
var corpusOnce sync.Once

func main() {
	ops.Worker(map[string]func(ops.Job) ops.Reply{"history": history, "long": long, "many": many, "kind": kind, "twin": twin})
	explore.Main(explore.Check{Property: "C17", Spaces: spaces, Assumptions: []string{
		"a fresh process is one that made no other call, and answers are compared with those of such processes, each asked twice",
		"a caller writes to what exported fields, methods and assignment reach; errors are not written to",
		"a process that runs a single history has no state but that of its own calls: the module reads no file and no clock, and C24 varies its environment",
	}})
}

// history runs the operations in this process, in phases, and compares each answer with the one wanted.
func history(j ops.Job) ops.Reply {
	var r ops.Reply
	keep := make([]ops.Result, len(j.Ops))
	// results are kept and left alone
	for i, o := range j.Ops {
		keep[i] = o.Run()
		r.Count++
		if got := keep[i].Show(); got != j.Want[i] {
			return fail(r, j, "call %d answers %s, and in a fresh process %s", i+1, got, j.Want[i])
		}
	}
	for i := range j.Ops {
		if got := keep[i].Show(); got != j.Want[i] {
			return fail(r, j, "the result of call %d was %s, and changed in later calls to %s", i+1, j.Want[i], got)
		}
	}
	if m := ops.Shared(keep); m != "" {
		return fail(r, j, "%s", m)
	}
	// results are overwritten, in one order and the other
	for _, k := range keep {
		ops.Scribble(k)
	}
	for i, o := range j.Ops {
		a := o.Run()
		r.Count++
		if got := a.Show(); got != j.Want[i] {
			return fail(r, j, "once the results of the same calls were overwritten, call %d answers %s, and in a fresh process %s", i+1, got, j.Want[i])
		}
		ops.Scribble(a)
		ops.Detach(a)
	}
	for i := len(j.Ops) - 1; i >= 0; i-- {
		a := j.Ops[i].Run()
		r.Count++
		if got := a.Show(); got != j.Want[i] {
			return fail(r, j, "asked again in reverse order, each result being overwritten, call %d answers %s, and in a fresh process %s", i+1, got, j.Want[i])
		}
		ops.Scribble(a)
	}
	return r
}

func fail(r ops.Reply, j ops.Job, format string, args ...interface{}) ops.Reply {
	r.Failed = fmt.Sprintf(format, args...)
	if len(j.Ops) < 8 {
		r.Failed += " [calls: " + ops.Names(j.Ops) + "]"
	}
	return r
}

// long asks all operations, in an order, overwriting every result, then all again in other orders.
func long(j ops.Job) ops.Reply {
	var r ops.Reply
	n := len(j.Ops)
	ask := func(i int, when string) bool {
		a := j.Ops[i].Run()
		r.Count++
		if got := a.Show(); got != j.Want[i] {
			r.Failed = fmt.Sprintf("%s, after %d calls, %s answers %s, and in a fresh process %s", when, r.Count-1, j.Ops[i], got, j.Want[i])
			return false
		}
		ops.Scribble(a)
		return true
	}
	for round := 0; round < 3; round++ {
		for k := 0; k < n; k++ {
			i := k
			when := "in the order of the corpus"
			switch {
			case j.Arg == 1:
				i, when = n-1-k, "in reverse order"
			case j.Arg > 1:
				// a permutation: n is made coprime to the stride by skipping
				i, when = (k*j.Arg+round)%n, fmt.Sprintf("with a stride of %d", j.Arg)
			}
			if !ask(i, when) {
				return r
			}
			if round == 2 && !ask(i, when+", each twice") {
				return r
			}
		}
	}
	return r
}

// many parses very many distinct strings, compares with the model, and asks all of them again.
func many(j ops.Job) ops.Reply {
	var r ops.Reply
	type seen struct {
		s string
		h uint64
	}
	var all []seen
	ask := func(s string) {
		if r.Failed != "" {
			return
		}
		d, err := parser.ParseString(s)
		r.Count++
		full := view.Full(d, err)
		v := model.Parse(s)
		if m := view.Check(&v, s, d, err, view.Acceptance|view.Span|view.YMD|view.Flags|view.Level|view.Text); m != "" {
			r.Failed = fmt.Sprintf("after %d other strings, %q: %s", r.Count-1, s, m)
			return
		}
		all = append(all, seen{s, explore.Hash(full)})
		if d != nil {
			ops.Scribble(ops.Result{Roots: []interface{}{d}})
		}
	}
	manyStrings(j.Arg, ask)
	for round := 0; round < 2 && r.Failed == ""; round++ {
		for i := range all {
			x := all[i]
			if round == 1 {
				x = all[len(all)-1-i]
			}
			d, err := parser.ParseString(x.s)
			r.Count++
			if explore.Hash(view.Full(d, err)) != x.h {
				r.Failed = fmt.Sprintf("asked again after %d calls, %q answers %s, unlike the first time", r.Count-1, x.s, view.Full(d, err))
				break
			}
			if d != nil {
				ops.Scribble(ops.Result{Roots: []interface{}{d}})
			}
		}
	}
	return r
}

var mixed = sync.OnceValue(func() []string {
	l := gen.List(-1, 4)
	// neighbours are made to be of different features
	n := len(l)
	stride := n/7*3 + 1
	for gcd(n, stride) != 1 {
		stride++
	}
	out := make([]string, n)
	for i := range out {
		out[i] = l[i*stride%n]
	}
	return out
})

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

var kinds = append(append([]string{}, ops.Kinds1...), ops.Kinds2...)

// kindOp is call i of a history of one kind of call, or (the last) of all kinds in turn.
func kindOp(k, i int) ops.Op {
	l := mixed()
	if k == len(kinds) {
		k = i % len(kinds)
	}
	if k < len(ops.Kinds1) {
		return op(kinds[k], l[i])
	}
	return op(kinds[k], l[i], l[(i+1)%len(l)])
}

// kind asks one kind of call of very many strings, and of all of them again, in one order and the
// other, and returns the first answers.
func kind(j ops.Job) ops.Reply {
	var r ops.Reply
	n := len(mixed())
	k := j.Arg >> 1
	sums := make([]uint64, n)
	for round := 0; round < 4; round++ {
		for c := 0; c < n; c++ {
			i := c
			if (round+j.Arg)&1 == 1 {
				i = n - 1 - c
			}
			o := kindOp(k, i)
			a := o.Run()
			r.Count++
			h := explore.Hash(a.Show())
			if round > 0 && h != sums[i] {
				r.Failed = fmt.Sprintf("asked again after %d other calls, %s answers %s, unlike the first time", r.Count-1, o, a.Show())
				return r
			}
			sums[i] = h
			ops.Scribble(a)
		}
	}
	for _, h := range sums {
		r.Texts = append(r.Texts, fmt.Sprintf("%x", h))
	}
	return r
}

// bothOrders compares the first answers of two processes, which ask in opposite orders.
func bothOrders(t *explore.T, k int) {
	name := "all kinds in turn"
	if k < len(kinds) {
		name = kinds[k]
	}
	name = fmt.Sprintf("%s of %d strings", name, len(mixed()))
	t.Input(name)
	defer t.Waiting()()
	var sums [2][]string
	for d := range sums {
		r, err := ops.Call(ops.Job{Mode: "kind", Arg: k<<1 | d}, 200*time.Second)
		t.Covered(r.Count, r.Count)
		if err != nil || r.Failed != "" {
			if err != nil {
				r.Failed = err.Error()
			}
			t.Fail(name, "%s", r.Failed)
			return
		}
		sums[d] = r.Texts
	}
	t.State(explore.Hash(sums[0]))
	for i := range sums[0] {
		if sums[0][i] != sums[1][i] {
			t.Fail(name, "%s answers differently as call %d and as call %d of a process that asks for the same in the opposite order", kindOp(k, i), i+1, len(sums[0])-i)
			return
		}
	}
}

var families = []string{"days of 12 years", "years, months and Y-years of -9999 to 9999", "date-times of a day with zones", "intervals of years", "seasons and groupings of 1000 years", "sets of two years", "qualified and masked dates", "exponents and significant digits"}

func manyStrings(family int, ask func(string)) {
	switch family {
	case 0:
		for _, y := range []int{0, 4, 1582, 1900, 1969, 1970, 2000, 2024, 9999, -1, -400, -9999} {
			for m := 1; m <= 12; m++ {
				for d := 1; d <= model.DaysIn(y, m); d++ {
					ask(model.DateText(y, m, d))
					ask(model.DateText(y, m, d) + "T12:00:00Z")
				}
			}
		}
	case 1:
		for y := -9999; y <= 9999; y++ {
			ask(model.YearText(y))
			ask("Y" + model.YearText(y))
			ask(model.YearText(y) + "-02")
		}
	case 2:
		for m := 0; m < 1440; m++ {
			for _, z := range []string{"Z", "+05:30", "-11", ""} {
				ask(fmt.Sprintf("2004-02-29T%02d:%02d:07%s", m/60, m%60, z))
				ask(fmt.Sprintf("-0400-01-01T%02d:%02d:59%s", m/60, m%60, z))
			}
		}
	case 3:
		for a := -300; a <= 2100; a += 60 {
			for b := a; b <= 2100; b += 7 {
				ask(model.YearText(a) + "/" + model.YearText(b))
				ask(model.YearText(a) + "/" + model.YearText(b) + "-06")
			}
		}
	case 4:
		for y := 1500; y < 2500; y++ {
			for k := 21; k <= 41; k++ {
				ask(fmt.Sprintf("%d-%d", y, k))
			}
			ask(fmt.Sprintf("Spring, %d", y))
		}
	case 5:
		for a := 0; a < 9999; a += 97 {
			for b := 0; b < 9999; b += 101 {
				ask("[" + model.YearText(a) + "," + model.YearText(b) + "]")
				ask("{" + model.YearText(a) + ".." + model.YearText(b) + "}")
			}
		}
	case 6:
		for y := 0; y < 2400; y++ {
			for _, f := range []string{"%04d?", "%04d-06~", "%04d-XX", "%04d-XX-XX", "%04d-02-2X", "%04d-1X", "?%04d-02", "%04d-06-11%%"} {
				ask(fmt.Sprintf(f, y))
			}
		}
		for y := 0; y < 1000; y++ {
			ask(fmt.Sprintf("%03dX", y))
		}
	case 7:
		for y := 1; y < 3000; y++ {
			ask(fmt.Sprintf("Y%dE0", y))
			ask(fmt.Sprintf("Y-%dE1S1", y))
			ask(fmt.Sprintf("%04dS2", y))
			ask(fmt.Sprintf("-%04dS3", y))
		}
	}
}

func run(t *explore.T, label string, j ops.Job) {
	t.Input(label)
	defer t.Waiting()()
	if len(j.Ops) > 100 {
		corpusOnce.Do(func() { fresh.All(j.Ops) })
	}
	if j.Want == nil && len(j.Ops) > 0 {
		for _, o := range j.Ops {
			w, err := fresh.Answer(o)
			if err != nil {
				t.Fail(o.String(), "%v", err)
				return
			}
			j.Want = append(j.Want, w)
		}
	}
	r, err := ops.Call(j, 200*time.Second)
	t.Compared()
	t.State(explore.Hash(j.Mode, j.Arg, j.Want))
	switch {
	case err != nil:
		t.Fail(label, "%v", err)
	case r.Failed != "":
		t.Fail(label, "%s", r.Failed)
	}
}

func hist(t *explore.T, os ...ops.Op) {
	run(t, ops.Names(os), ops.Job{Mode: "history", Ops: os})
}

func op(kind string, args ...string) ops.Op { return ops.Op{Kind: kind, Args: args} }

// everything is every kind of operation on every seed, and on pairs of some.
func everything() []ops.Op {
	var out []ops.Op
	for _, k := range ops.Kinds0 {
		out = append(out, op(k))
	}
	for _, k := range ops.Kinds1 {
		for _, s := range gen.Seeds {
			out = append(out, op(k, s))
		}
	}
	for _, k := range ops.Kinds2 {
		for _, a := range []string{"1985-04-12", "-0400", "..", "", "2004/..", "[1667,1760-12]", "201X", "hello", "Y1985"} {
			for _, b := range []string{"2004-06-11T10:20:30-05", "-0400", "..", "1985/", "2001-25", "XXXX", "1985-04-12"} {
				out = append(out, op(k, a, b))
			}
		}
	}
	for _, y := range []string{"2004", "-0400", "0000", "20XX", "", "99999"} {
		for _, m := range []string{"02", "12", "", "13"} {
			for _, d := range []string{"29", "", "31"} {
				out = append(out, op("ymds", y, m, d), op("time", y, m, d, "00:00:00"), op("time", y, m, d, "23:59:59"), op("timeymd", y, m, d, "23:59:59"))
			}
			out = append(out, op("daysin", y, m))
		}
	}
	return out
}

// one operation of each feature and failure, and few of the other kinds.
func alphabet() []ops.Op {
	var out []ops.Op
	for _, s := range []string{
		"", "..", "open", "1985", "-1985", "0000", "1985-04", "1985-04-12", "-0400-02-29", "9999-12-31", "2004-02-29",
		"1985-04-12T23:20:30", "1985-04-12T23:20:30-04", "1985-04-12T23:20:30+04:30", "-1972-12-31T23:00:00-05",
		"1964/2008", "2004-02-01/2005", "2005/-2006-02", "Y1985", "Y-1985", "Y170000002",
		"2001-21", "2001-22", "Spring, 2001", "winter,1999", "1984?", "2004-06~", "2004-06-11%", "201X", "20XX", "XXXX", "2004-XX", "1985-XX-XX", "1985-04-XX",
		"1985/..", "../1985", "1985/", "/1985", "../..", "1985-04-12/..", "Y20E2", "Y-20E2", "Y-17E7", "1950S2", "-1950S1", "Y171010000S3", "Y-20E2S3",
		"2001-25", "2001-33", "2001-40", "2001-41", "[1667,1668,1670..1672]", "[..1760-12-03]", "{1667,1668,1670..1672}", "{1960,1961-12}", "[-0200,-0100]", "[1760-12..]", "[..1760,1770..]",
		"2004-06~-11", "2004?-06-11", "?2004-06-~11", "2004-~06", "156X-12-25", "1984-1X", "1984-0X", "1984-02-2X", "2004-06-~01/2004-06-~20", "?2004/%2005-06",
		"2004-13", "2004-02-30", "2004-06-11T24:00:00", "hello",
	} {
		out = append(out, op("parse", s))
	}
	for _, s := range []string{"1985-04-12", "..", "2001-21", "[1667,1668,1670..1672]", "201X", "hello"} {
		out = append(out, op("matches", s), op("valid", s))
	}
	for _, s := range []string{"2004-06-11", "1964/2008", "..", "2004-02-30"} {
		out = append(out, op("unix", s), op("lower", s), op("json", s))
	}
	for _, s := range []string{"2004-06~", "-0400-02", "20XX"} {
		out = append(out, op("span", s), op("stringrange", s), op("ymd", s))
	}
	out = append(out, op("openspan"), op("unknownspan"), op("openrange"), op("unknownrange"), op("errors"), op("days", "2004-02"), op("days", "-2003-02"), op("daysin", "2004", "2"),
		op("before", "2004", "2005"), op("after", "2004", ".."), op("between", "2004", "2003", "2005"), op("deprecated", "open"), op("exponent", "20E2"),
		op("time", "-0400", "02", "29", "23:59:59"), op("timeymd", "2004", "2", "29", "00:00:00"))
	return out
}

func few() []ops.Op {
	var out []ops.Op
	for _, s := range []string{"..", "", "1985-04-12", "-0400-02-29", "1985-04-12T23:20:30+04:30", "1964/2008", "1985/..", "2001-21", "2004-06~", "201X", "Y-20E2", "1950S2", "[1667,1668,1670..1672]", "[..1760-12-03]", "?2004-06-~11", "156X-12-25", "hello", "2004-02-30"} {
		out = append(out, op("parse", s))
	}
	return append(out, op("matches", "2001-21"), op("unix", "2004-06-11"), op("openspan"), op("before", "2004", "2005"), op("json", "2004-06-11"), op("lower", "-0001"))
}

// relatives are strings that differ little from s: what a careless cache takes for the same.
func relatives(s string) []string {
	out := []string{s, s + " ", " " + s, strings.ToLower(s), strings.ToUpper(s), s + "?", "-" + s, "?" + s, s + "Z", s + "/..", "../" + s, "[" + s + "]", "{" + s + "}", "Y" + s, s + "S1", s + "\n", s + "~", s + "-01", s + "-21", s + "T00:00:00", s + "T00:00:00+01"}
	if len(s) > 0 {
		out = append(out, s[1:], s[:len(s)-1])
		for i := 0; i < len(s); i++ {
			if c := s[i]; c >= '0' && c <= '9' {
				out = append(out, s[:i]+string('0'+(c-'0'+1)%10)+s[i+1:], s[:i]+"X"+s[i+1:])
			}
		}
	}
	return gen.Uniq(out)
}

func spaces(tier string) []explore.Space {
	all := everything()
	al := alphabet()
	fw := few()
	step := 23
	if tier == "thorough" {
		step = 4
	}
	var corpus []ops.Op
	for i, s := range gen.List(-1, step) {
		corpus = append(corpus, op("parse", s))
		if i%7 == 0 {
			corpus = append(corpus, op(ops.Kinds1[i/7%len(ops.Kinds1)], s))
		}
	}
	for len(corpus)%2 == 0 || len(corpus)%3 == 0 || len(corpus)%5 == 0 || len(corpus)%7 == 0 || len(corpus)%11 == 0 || len(corpus)%13 == 0 {
		corpus = corpus[1:]
	}
	orders := []int{0, 1, 2, 3, 5, 7, 11, 13}
	sp := []explore.Space{
		{Name: "ones", Desc: fmt.Sprintf("each of %d calls (every entry point on strings of every feature) three times in a process of its own, its results kept, compared for shared memory, and overwritten", len(all)), Body: func(t *explore.T) {
			hist(t, all[t.Choose(len(all))])
		}},
		{Name: "pairs", Desc: fmt.Sprintf("every ordered pair of %d calls, each pair in a process of its own: results kept, compared for shared memory, overwritten, and asked again in both orders", len(al)), Body: func(t *explore.T) {
			a := al[t.Choose(len(al))]
			hist(t, a, al[t.Choose(len(al))])
		}},
		{Name: "kinds", Desc: "every ordered pair of entry points on the same string, for strings of each feature", Body: func(t *explore.T) {
			s := t.Pick([]string{"..", "1985-04-12", "-0400-02-29", "1985-04-12T23:20:30-04", "201X", "2004-06~", "[1667,1760-12]", "hello"})
			a := t.Pick(ops.Kinds1)
			hist(t, op(a, s), op(t.Pick(ops.Kinds1), s))
		}},
		{Name: "relatives", Desc: "for each of the seeds, a history of it and all strings that differ little from it", Body: func(t *explore.T) {
			s := t.Pick(gen.Seeds)
			var os []ops.Op
			for _, x := range relatives(s) {
				os = append(os, op("parse", x))
			}
			run(t, fmt.Sprintf("relatives of %q", s), ops.Job{Mode: "history", Ops: os})
		}},
		{Name: "triples", Desc: fmt.Sprintf("every ordered triple of %d calls, each in a process of its own", len(fw)), Body: func(t *explore.T) {
			a := fw[t.Choose(len(fw))]
			b := fw[t.Choose(len(fw))]
			hist(t, a, b, fw[t.Choose(len(fw))])
		}},
		{Name: "long", Desc: fmt.Sprintf("histories of %d calls in %d orders, all results overwritten", 4*len(corpus), len(orders)), Body: func(t *explore.T) {
			o := orders[t.Choose(len(orders))]
			run(t, fmt.Sprintf("corpus in order %d", o), ops.Job{Mode: "long", Ops: corpus, Arg: o})
		}},
		{Name: "many", Desc: "histories of thousands of distinct strings of a kind, compared with the model, overwritten, and asked again in both orders: " + strings.Join(families, "; "), Body: func(t *explore.T) {
			f := t.Choose(len(families))
			run(t, families[f], ops.Job{Mode: "many", Arg: f})
		}},
	}
	sp = append(sp, explore.Space{Name: "calls", Desc: fmt.Sprintf("histories of one kind of call (%s, and all in turn) for each of %d distinct strings of all features, asked four times, in alternating orders, and the first answers compared with those of a process that asks in the opposite order", strings.Join(kinds, ", "), len(mixed())), Body: func(t *explore.T) {
		bothOrders(t, t.Choose(len(kinds)+1))
	}})
	sp = append(sp, explore.Space{Name: "twins", Desc: fmt.Sprintf("%d lists of twins: two calls that a hash or another incomplete key of a memory takes for the same, each asked right before and right after the other, in two processes", len(allTwins())), Body: func(t *explore.T) {
		twinOrders(t, t.Choose(len(allTwins())))
	}})
	if tier == "thorough" {
		tiny := fw[:9]
		tiny = append(append([]ops.Op{}, tiny...), fw[12], fw[17], fw[20])
		sp = append(sp, explore.Space{Name: "fours", Desc: fmt.Sprintf("every sequence of four of %d calls, each in a process of its own", len(tiny)), Body: func(t *explore.T) {
			var os []ops.Op
			for i := 0; i < 4; i++ {
				os = append(os, tiny[t.Choose(len(tiny))])
			}
			hist(t, os...)
		}})
	}
	return sp
}
