// C22: the command-line tools report exactly what the library says, in order.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"

	"github.com/sfomuseum/go-edtf/parser"
)

func main() {
	explore.Main(explore.Check{Property: "C22", Spaces: spaces, Assumptions: []string{
		"a list whose first argument starts with a minus sign follows the argument --, as for every program with flags",
		"the library's answers are those of the library linked into the check, built from the same tree",
		"what is on standard output when an argument fails is not specified",
	}})
}

func run(tool string, args []string) (code int, stdout, stderr string) {
	cmd := exec.Command(filepath.Join(os.Getenv("MC_BIN"), tool), args...)
	cmd.Env = []string{"PATH=/usr/bin:/bin", "TZ=UTC"}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			code = x.ExitCode()
			if code < 0 {
				code = 255
			}
		} else {
			panic(fmt.Sprintf("%s: %v", tool, err))
		}
	}
	return code, o.String(), e.String()
}

func one(t *explore.T, args []string, dashes bool) {
	in := fmt.Sprintf("%q", args)
	t.Input(in)
	argv := args
	if dashes || len(args) > 0 && strings.HasPrefix(args[0], "-") && args[0] != "-" {
		argv = append([]string{"--"}, args...)
	}
	parse(t, in, args, argv)
	if !t.Failed() {
		match(t, in, args, argv)
	}
}

func parse(t *explore.T, in string, args, argv []string) {
	var want [][]byte
	bad := -1
	badErr := ""
	t.Begin()
	for i, a := range args {
		d, err := parser.ParseString(a)
		if err != nil {
			bad, badErr = i, err.Error()
			break
		}
		b, err := json.Marshal(d)
		if err != nil {
			bad = i
			break
		}
		want = append(want, b)
	}
	t.End()
	code, out, errs := run("parse", argv)
	t.Compared()
	t.State(explore.Hash("parse", code, out, bad))
	if bad >= 0 {
		failed(t, "parse", in, args[bad], badErr, code, errs)
		return
	}
	if code != 0 {
		t.Fail(in, "parse exits with %d: %s", code, errs)
		return
	}
	dec := json.NewDecoder(strings.NewReader(out))
	var got []json.RawMessage
	if err := dec.Decode(&got); err != nil {
		t.Fail(in, "the output of parse is no JSON array: %v: %s", err, out)
		return
	}
	if dec.More() {
		t.Fail(in, "parse prints more than one value: %s", out)
		return
	}
	if got == nil || len(got) != len(want) {
		t.Fail(in, "parse prints %d dates for %d arguments: %s", len(got), len(want), out)
		return
	}
	for i := range want {
		var c bytes.Buffer
		if err := json.Compact(&c, got[i]); err != nil || !bytes.Equal(c.Bytes(), want[i]) {
			t.Fail(in, "parse prints %s for %q, not %s", got[i], args[i], want[i])
			return
		}
	}
}

func match(t *explore.T, in string, args, argv []string) {
	type answer struct {
		level   int
		feature string
	}
	var want []answer
	bad := -1
	badErr := ""
	t.Begin()
	for i, a := range args {
		l, f, err := parser.Matches(a)
		if err != nil {
			bad, badErr = i, err.Error()
			break
		}
		want = append(want, answer{l, f})
	}
	t.End()
	code, out, errs := run("matches", argv)
	t.Compared()
	t.State(explore.Hash("matches", code, out, bad))
	if bad >= 0 {
		failed(t, "matches", in, args[bad], badErr, code, errs)
		return
	}
	if code != 0 {
		t.Fail(in, "matches exits with %d: %s", code, errs)
		return
	}
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	if out == "" {
		lines = nil
	}
	if len(lines) != len(want) {
		t.Fail(in, "matches prints %d lines for %d arguments: %q", len(lines), len(want), out)
		return
	}
	for i, l := range lines {
		rest := strings.TrimPrefix(l, args[i])
		if rest == l && args[i] != "" || !strings.Contains(rest, fmt.Sprintf("level %d ", want[i].level)) || !strings.HasSuffix(rest, "("+want[i].feature+")") {
			t.Fail(in, "matches prints %q for %q, of level %d and feature %q", l, args[i], want[i].level, want[i].feature)
			return
		}
	}
}

func failed(t *explore.T, tool, in, arg, msg string, code int, errs string) {
	switch {
	case code == 0:
		t.Fail(in, "%s exits with 0 although %q fails", tool, arg)
	case !strings.Contains(errs, "'"+arg+"'") && !strings.Contains(errs, fmt.Sprintf("%q", arg)) && !strings.Contains(errs, " "+arg+" ") && !strings.Contains(errs, " "+arg+","):
		t.Fail(in, "%s exits with %d, but does not name %q, the first to fail, on standard error: %s", tool, code, arg, errs)
	case strings.Count(strings.TrimSpace(errs), "\n") > strings.Count(arg+msg, "\n")+2:
		t.Fail(in, "%s writes more than one report: %s", tool, errs)
	}
}

func spaces(tier string) []explore.Space {
	good := []string{"1985-04-12", "-0400-02-29", "2004-06-11T10:20:30+05:30", "..", "", "[1667,1670..]", "1964/..", "201X", "Y-17E2", "2004?"}
	bad := []string{"hello", "2001-02-30", "XXXX", "Y170000002", "-"}
	both := append(append([]string{}, good...), bad...)
	n := 2
	if tier == "thorough" {
		n = 3
	}
	var seeds []string
	for _, s := range gen.Seeds {
		if !strings.ContainsAny(s, "\x00\n") {
			seeds = append(seeds, s)
		}
	}
	edges := []string{"\t", "\n", "\v", "\f", "\r", "\r\n", " ", "\x01", "\x1b", "\x7f", "\u0085", "\u00a0", "\u200b", "\u2028", "\u3000", "\ufeff", "\xff", "\"", "'", "`", "\\", "/", "-", "+", "=", "@", "#", ",", ";", "?", "*", "(", ")", "<", "&", "$", "!", "0", "X", "Z", "e\u0301"}
	return []explore.Space{
		{Name: "lists", Desc: fmt.Sprintf("every list of at most %d arguments out of %d that parse and %d that do not, with and without --", n, len(good), len(bad)), Body: func(t *explore.T) {
			var args []string
			for i := 0; i < n; i++ {
				k := t.Choose(len(both) + 1)
				if k == 0 {
					break
				}
				args = append(args, both[k-1])
			}
			one(t, args, t.Bool())
		}},
		{Name: "threes", Desc: "every list of three arguments out of few that parse or do not", Body: func(t *explore.T) {
			few := []string{"1985-04-12", "-0400-02-29", "..", "[1667,1670..]", "hello", "2001-02-30"}
			one(t, []string{t.Pick(few), t.Pick(few), t.Pick(few)}, false)
		}},
		{Name: "features", Desc: "every string of every feature, alone, and between two others", Body: func(t *explore.T) {
			s := t.Pick(seeds)
			if t.Bool() {
				one(t, []string{s}, false)
			} else {
				one(t, []string{"2004", s, "1985"}, false)
			}
		}},
		{Name: "strings", Desc: "strings with spaces, quotes, percent signs, control characters, flags, and other text that must be reported as it is", Body: func(t *explore.T) {
			odd := []string{" ", "%s", "%d%n", "2004%", "2004%\"", "'", "\"", "\\", "a\tb", "é", "\xff", "-h", "--help", "-x", "--", "$HOME", "*", strings.Repeat("9", 5000), "Spring, 2001", "spring , 2001", "2004 ", "open", "uuuu", "<>&", "2004-06-11%"}
			a := t.Pick(odd)
			switch t.Choose(3) {
			case 0:
				one(t, []string{a}, true)
			case 1:
				one(t, []string{"2004", a}, false)
			case 2:
				one(t, []string{"2004-06", "..", a, "1985", a}, false)
			}
		}},
		{Name: "edges", Desc: fmt.Sprintf("strings of every feature with one of %d letters (white space, control characters, quotes, marks of other alphabets) before, within, after or on both sides, alone or after another", len(edges)), Body: func(t *explore.T) {
			s, c := t.Pick([]string{"2004", "1985-04-12", "2004-06/..", "[1667,1670..1672]", "2001-21", "hello", ".."}), t.Pick(edges)
			switch t.Choose(4) {
			case 0:
				s = c + s
			case 1:
				s += c
			case 2:
				s = c + s + c
			case 3:
				s = s[:len(s)/2] + c + s[len(s)/2:]
			}
			if t.Bool() {
				one(t, []string{s}, true)
			} else {
				one(t, []string{"1985", s, "2004"}, false)
			}
		}},
		{Name: "lengths", Desc: "lists of every length from 4 to 520, all parsing, or failing at the first or last argument, and a list of 520 failing at every place", Body: func(t *explore.T) {
			k, b := 520, -1
			if t.Bool() {
				k = 4 + t.Choose(517)
				b = []int{-1, 0, k - 1}[t.Choose(3)]
			} else {
				b = t.Choose(520)
			}
			args := make([]string, k)
			for i := range args {
				args[i] = model.YearText(i + 1)
			}
			if b >= 0 {
				args[b] = t.Pick([]string{"hello", "2001-02-30"})
			}
			one(t, args, false)
		}},
		{Name: "sizes", Desc: "one argument that fails, of every length from 1 to 300 and of some up to 100000, alone and after another", Body: func(t *explore.T) {
			n := 1 + t.Choose(306)
			if n > 300 {
				n = []int{511, 512, 1023, 4096, 65536, 100000}[n-301]
			}
			a := strings.Repeat("x", n)
			if t.Bool() {
				one(t, []string{a}, false)
			} else {
				one(t, []string{"2004", a}, false)
			}
		}},
		{Name: "long", Desc: "lists of 10 to 3000 arguments, all parsing, or with one failing at the start, in the middle or at the end", Body: func(t *explore.T) {
			k := []int{10, 100, 1000, 3000}[t.Choose(4)]
			args := make([]string, k)
			for i := range args {
				args[i] = model.YearText(i + 1)
			}
			if b := t.Choose(4); b > 0 {
				args[[]int{0, 0, k / 2, k - 1}[b]] = t.Pick([]string{"hello", "2001-02-30"})
			}
			one(t, args, false)
		}},
	}
}
