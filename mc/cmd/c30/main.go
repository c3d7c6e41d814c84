// C30: 32-bit builds give the same answers as 64-bit builds.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/ops"
)

func main() {
	ops.Worker(map[string]func(ops.Job) ops.Reply{"hashes": hashes, "int": intSize})
	explore.Main(explore.Check{Property: "C30", Spaces: spaces, Assumptions: []string{
		"the 32-bit build is GOARCH=386, which this machine runs; both builds are of the same tree, by the same toolchain",
	}})
}

// hashes answers every operation and gives a hash of each answer.
func hashes(j ops.Job) ops.Reply {
	var r ops.Reply
	for _, o := range j.Ops {
		r.Texts = append(r.Texts, strconv.FormatUint(explore.Hash(o.Run().Show()), 16))
	}
	return r
}

func intSize(j ops.Job) ops.Reply { return ops.Reply{Count: strconv.IntSize} }

var small = filepath.Join(os.Getenv("MC_BIN"), "check386")

// same compares the answers of the two builds.
func same(t *explore.T, qs []ops.Op) {
	t.Input(qs[0].String() + " ...")
	defer t.Waiting()()
	r, err := ops.CallBin(small, ops.Job{Mode: "hashes", Ops: qs}, 150*time.Second)
	if err != nil {
		// which call is it?
		for _, q := range qs {
			if _, err := ops.CallBin(small, ops.Job{Mode: "hashes", Ops: []ops.Op{q}}, 60*time.Second); err != nil {
				t.Fail(q.String(), "in a 32-bit build: %v", err)
				return
			}
		}
		t.Fail(qs[0].String(), "in a 32-bit build, with the %d calls after it: %v", len(qs)-1, err)
		return
	}
	t.Covered(int64(len(qs)), int64(len(qs)))
	for i, q := range qs {
		t.Begin()
		want := q.Run().Show()
		t.End()
		h := explore.Hash(want)
		t.State(h)
		if r.Texts[i] != strconv.FormatUint(h, 16) {
			a, err := ops.CallBin(small, ops.Job{Mode: "answers", Ops: []ops.Op{q}}, 60*time.Second)
			got := fmt.Sprint(err)
			if err == nil {
				got = a.Texts[0]
			}
			if got == want {
				got = "something else after other calls"
			}
			t.Fail(q.String(), "a 32-bit build answers %s, and a 64-bit build %s", got, want)
			return
		}
	}
}

func op(kind string, args ...string) ops.Op { return ops.Op{Kind: kind, Args: args} }

const batch = 3000

// space has the questions in batches.
func space(name, desc string, qs []ops.Op) explore.Space {
	n := (len(qs) + batch - 1) / batch
	return explore.Space{Name: name, Desc: fmt.Sprintf("%s: %d calls", desc, len(qs)), Body: func(t *explore.T) {
		i := t.Choose(n) * batch
		j := i + batch
		if j > len(qs) {
			j = len(qs)
		}
		same(t, qs[i:j])
	}}
}

func strs(f func(*explore.T) string) []string {
	var out []string
	explore.Enumerate(func(t *explore.T) { out = append(out, f(t)) })
	return gen.Uniq(out)
}

func each(kinds []string, l []string) []ops.Op {
	var out []ops.Op
	for _, k := range kinds {
		for _, s := range l {
			out = append(out, op(k, s))
		}
	}
	return out
}

func spaces(tier string) []explore.Space {
	r, err := ops.CallBin(small, ops.Job{Mode: "int"}, 60*time.Second)
	if err != nil || r.Count != 32 || strconv.IntSize != 64 {
		fmt.Fprintln(os.Stderr, "check error: the two builds do not run here as 32-bit and 64-bit programs:", err, r.Count)
		os.Exit(2)
	}
	size, few := -1, 3
	if tier == "thorough" {
		size, few = 1, 4
	}
	var years []ops.Op
	for y := -9999; y <= 9999; y++ {
		s := model.YearText(y)
		for _, f := range []string{s, s + "-02", s + "-12-31", s + "-06-30T23:59:59-14:00", "Y" + strings.TrimLeft(s, "0"), s + "S2"} {
			years = append(years, op("unix", f))
		}
		years = append(years, op("parse", s+"-02-XX"), op("json", s), op("daysin", strconv.Itoa(y), "2"))
	}
	numbers := strs(gen.Number)
	var exps []string
	for _, n := range numbers {
		exps = append(exps, strings.TrimPrefix(n, "Y"))
	}
	for m := 1; m < 100; m++ {
		for e := 0; e <= 20; e++ {
			exps = append(exps, fmt.Sprintf("%dE%d", m, e), fmt.Sprintf("-%dE%d", m, e))
		}
	}
	// around powers of two, and what wraps around to a year
	for _, base := range []int64{1 << 31, 1 << 32, 1 << 33, 3 << 32, 1 << 53, 1 << 62} {
		for d := int64(-3); d < 10000; d++ {
			if d > 10 && d%97 != 0 && d < 9990 && d != 1985 {
				continue
			}
			for _, sign := range []string{"", "-"} {
				s := sign + strconv.FormatInt(base+d, 10)
				exps = append(exps, s, s+"E0", s+"E1")
				numbers = append(numbers, "Y"+s, "Y"+s+"E0", "Y"+s+"S3", s, s+"S2", s+"-01", s+"E2", "[1985,"+s+"]")
			}
		}
	}
	var pairs []ops.Op
	for _, k := range ops.Kinds2 {
		for i, a := range gen.Seeds {
			for j, b := range gen.Seeds {
				if tier == "thorough" || (i+j)%5 == 0 {
					pairs = append(pairs, op(k, a, b))
				}
			}
		}
	}
	for _, k := range ops.Kinds0 {
		pairs = append(pairs, op(k))
	}
	return []explore.Space{
		space("years", "years -9999..9999 as date, month, day, date-time, Y-year and significant digits", years),
		space("numbers", "numbers of every size and around powers of two, wherever a year can be", append(each([]string{"parse", "unix", "matches"}, gen.Uniq(numbers)), each([]string{"exponent"}, gen.Uniq(exps))...)),
		space("calls", "every entry point on strings of every feature, and comparisons", append(each(ops.Kinds1, gen.Seeds), pairs...)),
		space("edits", "every single edit of strings of every feature", each([]string{"parse", "unix"}, strs(func(t *explore.T) string { return gen.Edit(t, t.Pick(gen.Seeds), gen.FewEditLetters) }))),
		space("chars", "every short string over the letters of EDTF", each([]string{"parse"}, strs(func(t *explore.T) string { return gen.Chars(t, few, gen.Letters) }))),
		space("features", "strings of every feature", each([]string{"json", "unix"}, strs(gen.NewCorpus(size).Any))),
	}
}
