// C31: a tool that cannot write all of its output says so.
package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/nodejs"
)

func main() {
	explore.Main(explore.Check{Property: "C31", Spaces: spaces, Assumptions: []string{
		"a fault is an error of the system call that writes to standard output; it is injected below the os package, in the standard library the tools are built with, and not in the tools",
		"a write that takes only some of its bytes is followed by one that fails, as on a full disk",
	}})
}

var bin = os.Getenv("MC_BIN")

type result struct {
	code     int
	out, err string
}

func run(tool string, args []string, fault string) result {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(bin, tool), append([]string{"--"}, args...)...)
	cmd.Env = []string{"PATH=/usr/bin:/bin", "TZ=UTC"}
	if fault != "" {
		cmd.Env = append(cmd.Env, "VERIF_FAULT="+fault)
	}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := result{0, o.String(), e.String()}
	if ctx.Err() != nil {
		return result{-1, r.out, "it does not end"}
	}
	if err != nil {
		x, ok := err.(*exec.ExitError)
		if !ok {
			panic(fmt.Sprintf("%s: %v", tool, err))
		}
		if r.code = x.ExitCode(); r.code < 0 {
			r.code = 255
		}
	}
	return r
}

// runWASI runs the WASI program under each fault.
func runWASI(args []string, faults []string) []result {
	type job struct {
		Args []string          `json:"args"`
		Env  map[string]string `json:"env"`
	}
	var jobs []job
	for _, f := range faults {
		j := job{args, map[string]string{}}
		if f != "" {
			j.Env["VERIF_FAULT"] = f
		}
		jobs = append(jobs, j)
	}
	dir, err := os.MkdirTemp("", "wasi")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	_, nerr := nodejs.Run([]string{filepath.Join(bin, "fault.mjs"), bin, dir}, jobs)
	var out []result
	for i := range jobs {
		p := filepath.Join(dir, strconv.Itoa(i))
		o, _ := os.ReadFile(p)
		e, _ := os.ReadFile(p + ".err")
		c, err := os.ReadFile(p + ".code")
		if err != nil {
			if nerr != nil && strings.Contains(nerr.Error(), "no answer") {
				return append(out, result{-1, string(o), "it does not end"})
			}
			panic(fmt.Sprintf("node: %v", nerr))
		}
		n, _ := strconv.Atoi(string(c))
		out = append(out, result{n, string(o), string(e)})
	}
	return out
}

// judge tells what is wrong with a run under a fault, compared with a run without one.
func judge(tool string, whole, r result, after int, mode string) string {
	what := fmt.Sprintf("%s, of whose output of %d bytes only %d can be written", tool, len(whole.out), after)
	if mode == "o" {
		what = fmt.Sprintf("%s, one of whose writes fails after %d of %d bytes", tool, after, len(whole.out))
	}
	if after >= len(whole.out) {
		if r.code != 0 || r.out != whole.out {
			return fmt.Sprintf("%s, exits with %d: %s", what, r.code, r.err)
		}
		return ""
	}
	switch {
	case r.code == -1:
		return what + ", does not end"
	case mode == "o" && r.code == 0 && r.out == whole.out: // it tried again
		return ""
	case r.code == 0:
		return what + ", exits with 0"
	case strings.TrimSpace(r.err) == "":
		return fmt.Sprintf("%s, exits with %d and says nothing on standard error", what, r.code)
	case mode == "s" && !strings.HasPrefix(whole.out, r.out):
		return fmt.Sprintf("%s, writes something else before that: %q", what, r.out)
	}
	return ""
}

var modes = []string{"s", "o"}

type cache struct {
	mu sync.Mutex
	m  map[string]result
}

func (c *cache) whole(tool string, args []string) result {
	k := fmt.Sprintf("%s %q", tool, args)
	c.mu.Lock()
	r, ok := c.m[k]
	c.mu.Unlock()
	if !ok {
		if tool == "parse-wasi" {
			r = runWASI(args, []string{""})[0]
		} else {
			r = run(tool, args, "")
		}
		c.mu.Lock()
		c.m[k] = r
		c.mu.Unlock()
	}
	return r
}

func spaces(tier string) []explore.Space {
	c := &cache{m: map[string]result{}}
	// a run that fails without a fault is the subject of C22 and C23
	whole := func(t *explore.T, tool string, args []string) (result, bool) {
		w := c.whole(tool, args)
		return w, w.code == 0
	}
	native := func(t *explore.T, args []string, at func(n int) []int) {
		tool := t.Pick([]string{"parse", "matches"})
		mode := t.Pick(modes)
		in := fmt.Sprintf("%s %q", tool, args)
		t.Input(in)
		w, ok := whole(t, tool, args)
		if !ok {
			return
		}
		points := at(len(w.out))
		k := points[t.Choose(len(points))]
		in = fmt.Sprintf("%s %q %d%s", tool, args, k, mode)
		t.Input(in)
		r := run(tool, args, fmt.Sprintf("%d%s", k, mode))
		t.Compared()
		t.State(explore.Hash(in, r.code))
		if m := judge(tool, w, r, k, mode); m != "" {
			t.Fail(in, "%s", m)
		}
	}
	all := func(n int) []int {
		p := make([]int, n+1)
		for i := range p {
			p[i] = i
		}
		return p
	}
	lists := [][]string{{}, {"2004"}, {"1985-04-12", "-0400-02-29"}, {"..", ""}, {"2004-06-11%", "../1985", "1985/"}, {"[1667,1670..]", "1964/.."}, {"2004-06-11T10:20:30+05:30", "2004", "Y-17E2", "201X"}}
	var seeds []string
	for i, s := range gen.Seeds {
		if !strings.ContainsAny(s, "\x00\n") && (tier == "thorough" || i%24 == 0) {
			seeds = append(seeds, s)
		}
	}
	seeds = accepted(seeds)
	sp := []explore.Space{
		{Name: "lists", Desc: "lists of arguments: standard output fails for good, or once, after each number of bytes", Body: func(t *explore.T) {
			native(t, lists[t.Choose(len(lists))], all)
		}},
		{Name: "features", Desc: "strings of every feature: standard output fails for good, or once, after each number of bytes", Body: func(t *explore.T) {
			native(t, []string{t.Pick(seeds)}, all)
		}},
		{Name: "long", Desc: "lists of 50 and 3000 arguments: standard output fails around every multiple of a block, and at both ends", Body: func(t *explore.T) {
			k := []int{50, 3000}[t.Choose(2)]
			args := make([]string, k)
			for i := range args {
				args[i] = model.YearText(i + 1)
			}
			native(t, args, func(n int) []int {
				var p []int
				step := 512
				if k > 50 {
					step = 4096 * 4
				}
				for b := 0; b <= n; b += step {
					for _, d := range []int{-1, 0, 1} {
						if b+d >= 0 && b+d <= n {
							p = append(p, b+d)
						}
					}
				}
				return append(p, n-2, n-1, n)
			})
		}},
		{Name: "wasi", Desc: "the WASI program, with lists of arguments: standard output fails for good, or once, after each number of bytes", Body: func(t *explore.T) {
			ls := [][]string{{"2004"}, {"..", "hello"}, {"1985", "2001-02-30", ""}}
			args := ls[t.Choose(len(ls))]
			mode := t.Pick(modes)
			in := fmt.Sprintf("parse-wasi %q", args)
			t.Input(in)
			defer t.Waiting()()
			w, ok := whole(t, "parse-wasi", args)
			if !ok {
				return
			}
			const chunk = 64
			i := t.Choose(len(w.out)/chunk+1) * chunk
			var faults []string
			for k := i; k < i+chunk && k <= len(w.out); k++ {
				faults = append(faults, fmt.Sprintf("%d%s", k, mode))
			}
			for j, r := range runWASI(args, faults) {
				in := fmt.Sprintf("parse-wasi %q %s", args, faults[j])
				t.Compared()
				t.State(explore.Hash(in, r.code))
				if m := judge("parse-wasi", w, r, i+j, mode); m != "" {
					t.Fail(in, "%s", m)
					return
				}
			}
		}},
	}
	return sp
}

// accepted are the strings that the model says parse.
func accepted(l []string) []string {
	var out []string
	for _, s := range l {
		if model.Parse(s).K == model.Accept {
			out = append(out, s)
		}
	}
	return out
}
