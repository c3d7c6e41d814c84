// C18: concurrent callers get the same answers as sequential callers.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif.local/mc/explore"
	"verif.local/mc/ops"
	"verif.local/mc/vsched"
)

var fresh ops.Fresh

// stuck counts the calls that wait for something the scheduler does not control. After some of
// them, it is not tried any more.
var stuck atomic.Int64

func main() {
	ops.Worker(map[string]func(ops.Job) ops.Reply{"explore": exploreJob, "free": freeJob, "robin": robinJob})
	explore.Main(explore.Check{Property: "C18", Spaces: spaces, Assumptions: []string{
		"a schedule switches threads between statements of the library (sequential consistency); within a statement, and for weaker memory, the data-race detector decides, on the schedules explored and in free runs",
		"variables of packages are set to their initial values between the schedules of one process",
		"the standard library is not instrumented: its calls happen at once",
	}})
}

// body is what a thread does: one call, whose result it reads and then overwrites.
func body(o ops.Op, got *string) func() {
	return func() {
		r := o.Run()
		vsched.P(1)
		*got = r.Show()
		vsched.P(1)
		ops.Scribble(r)
	}
}

// threads has one thread for each call.
func threads(j ops.Job) func() ([]func(), func() string) {
	return func() ([]func(), func() string) {
		got := make([]string, len(j.Ops))
		var wg sync.WaitGroup
		var bs []func()
		for i, o := range j.Ops {
			b := body(o, &got[i])
			wg.Add(1)
			bs = append(bs, func() { b(); wg.Done() })
		}
		return bs, func() string {
			wg.Wait()
			for i := range got {
				if got[i] != j.Want[i] {
					return fmt.Sprintf("%s answers %s, and alone %s", j.Ops[i], got[i], j.Want[i])
				}
			}
			return ""
		}
	}
}

// robinJob runs the calls under every round-robin schedule of a family.
func robinJob(j ops.Job) ops.Reply {
	var r ops.Reply
	for _, inter := range []bool{true, false} {
		for every := 1; every <= j.Arg; every++ {
			steps, failed, stuck := vsched.RoundRobin(threads(j), every, inter)
			r.Stuck = stuck
			if stuck {
				return r
			}
			r.Count++
			r.Steps += int64(steps)
			if failed != "" {
				which := "statements"
				if inter {
					which = "statements that refer to variables of packages"
				}
				r.Failed = fmt.Sprintf("%s, when %d goroutines take turns after %d %s", failed, len(j.Ops), every, which)
				return r
			}
		}
	}
	return r
}

// exploreJob runs all schedules of the calls.
func exploreJob(j ops.Job) ops.Reply {
	var r ops.Reply
	bound := j.Arg & 15
	mk := threads(j)
	budget := 25 * time.Second
	if j.Arg&64 != 0 {
		budget = 100 * time.Second
	}
	st, failed, schedule, stuck := vsched.Explore(mk, bound, j.Arg&16 != 0, j.Arg&32 != 0, time.Now().Add(budget))
	r.Count, r.Steps, r.Stuck, r.Cut = st.Schedules, st.Steps, stuck, !st.Complete
	if failed != "" {
		r.Failed = fmt.Sprintf("%s, under the schedule with the switches (step: thread) %v", failed, schedule)
	}
	return r
}

// freeJob runs the calls in goroutines, freely, many times.
func freeJob(j ops.Job) ops.Reply {
	var r ops.Reply
	done := make(chan string, 1)
	go func() {
		for round := 0; round < j.Arg; round++ {
			var wg sync.WaitGroup
			gate := make(chan bool)
			errs := make([]string, 8)
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					<-gate
					for k := range j.Ops {
						// all goroutines make the first calls together, and then go separate ways
						i := k
						if round%2 == 1 {
							i = (k*(g+1) + round) % len(j.Ops)
						}
						a := j.Ops[i].Run()
						if got := a.Show(); got != j.Want[i] && errs[g] == "" {
							errs[g] = fmt.Sprintf("%s answers %s, and alone %s", j.Ops[i], got, j.Want[i])
						}
						ops.Scribble(a)
					}
				}(g)
			}
			close(gate)
			wg.Wait()
			for _, e := range errs {
				if e != "" {
					done <- e
					return
				}
			}
		}
		done <- ""
	}()
	select {
	case r.Failed = <-done:
	case <-time.After(30 * time.Second):
		r.Failed = "8 goroutines making these calls do not end within 30 seconds: deadlock"
	}
	r.Count = int64(j.Arg)
	return r
}

func built(bin string) (string, bool) {
	p := filepath.Join(os.Getenv("MC_BIN"), bin)
	_, err := os.Stat(p)
	return p, err == nil
}

func run(t *explore.T, bin string, j ops.Job) {
	names := make([]string, len(j.Ops))
	for i, o := range j.Ops {
		names[i] = o.String()
	}
	label := strings.Join(names, " || ")
	if len(label) > 600 {
		label = label[:600] + "..."
	}
	t.Input(label)
	defer t.Waiting()()
	for _, o := range j.Ops {
		w, err := fresh.Answer(o)
		if err != nil {
			t.Fail(o.String(), "%v", err)
			return
		}
		j.Want = append(j.Want, w)
	}
	p, ok := built(bin)
	if !ok || stuck.Load() > 24 {
		p, _ = built("free")
		j.Mode, j.Arg = "free", 20
	}
	r, err := ops.CallBin(p, j, 130*time.Second, "GORACE=halt_on_error=1 exitcode=66 history_size=2 atexit_sleep_ms=0")
	if err == nil && r.Stuck {
		stuck.Add(1)
		// something this scheduler does not control: the goroutines run freely
		p, _ = built("free")
		j.Mode, j.Arg = "free", 20
		r, err = ops.CallBin(p, j, 130*time.Second, "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	}
	t.Covered(r.Count, r.Steps)
	t.State(explore.Hash(label, bin))
	switch {
	case err != nil && strings.Contains(err.Error(), "DATA RACE"):
		t.Fail(label, "data race: %v", err)
	case err != nil:
		t.Fail(label, "%v", err)
	case r.Failed != "":
		t.Fail(label, "%s", r.Failed)
	}
}

func op(kind string, args ...string) ops.Op { return ops.Op{Kind: kind, Args: args} }

func alphabet() []ops.Op {
	var out []ops.Op
	for _, s := range []string{"..", "", "1985-04-12", "-0400-02-29", "1985-04-12T23:20:30+04:30", "1964/2008", "1985/..", "../-0005-03", "Y-1985", "2001-21", "Spring, 2001", "2001-28", "2004-06~", "201X", "1985-XX-XX",
		"Y-20E2", "1950S2", "[1667,1668,1670..1672]", "{..1760-12-03}", "?2004-06-~11", "2004?-06-11", "156X-12-25", "2004-06-~01/2004-06-~20", "hello", "2004-02-30", "XXXX"} {
		out = append(out, op("parse", s))
	}
	return append(out, op("matches", "2001-21"), op("valid", "201X"), op("unix", "2004-06-11"), op("before", "2004", "2005/.."), op("between", "2004", "2003", "2005"), op("json", "2004-06-11"), op("upper", "-0001"), op("dafter", "2004-06", "1985"),
		op("openspan"), op("unknownspan"), op("span", "2004-06~"), op("stringrange", "1984-XX-~01"), op("ymd", "-2004-06"), op("days", "2004-02"), op("deprecated", "open"), op("exponent", "20E2"), op("is", "1985/.."), op("errors"), op("time", "-0400", "02", "29", "23:59:59"))
}

func spaces(tier string) []explore.Space {
	al := alphabet()
	// few calls, of different features, for deeper exploration
	few := []ops.Op{op("parse", ".."), op("parse", "-0400-02-29"), op("parse", "1985/.."), op("parse", "2001-21"), op("parse", "[1667,1670..]"), op("parse", "1984-~06"), op("unix", "1985"), op("before", "2004", ".."), op("ymd", "-2004-06"), op("deprecated", "uuuu"), op("exponent", "20E2"), op("stringrange", "201X")}
	nt := 5
	if tier == "thorough" {
		nt = len(few)
	}
	turns := 12
	if tier == "thorough" {
		turns = 60
	}
	pair := func(t *explore.T, l []ops.Op) []ops.Op {
		i := t.Choose(len(l))
		return []ops.Op{l[i], l[i+t.Choose(len(l)-i)]}
	}
	sp := []explore.Space{
		{Name: "free", Desc: fmt.Sprintf("8 goroutines making %d calls, in a build with the data-race detector, not instrumented, running freely", len(al)), Body: func(t *explore.T) {
			run(t, "free", ops.Job{Mode: "free", Ops: al, Arg: 6})
		}},
		{Name: "races", Desc: fmt.Sprintf("every pair of %d calls, at once, under the data-race detector: both orders, and every preemption at a statement that refers to a variable of a package", len(al)), Body: func(t *explore.T) {
			run(t, "schedrace", ops.Job{Mode: "explore", Ops: pair(t, al), Arg: 1 | 16})
		}},
		{Name: "pairs1", Desc: fmt.Sprintf("every pair of %d calls, at once: every schedule with at most one preemption, before any statement of the library", len(al)), Body: func(t *explore.T) {
			run(t, "sched", ops.Job{Mode: "explore", Ops: pair(t, al), Arg: 1})
		}},
		{Name: "threes", Desc: fmt.Sprintf("every three of %d calls, at once: every schedule with at most one preemption, before any statement", nt), Body: func(t *explore.T) {
			i := t.Choose(nt)
			j := i + t.Choose(nt-i)
			run(t, "sched", ops.Job{Mode: "explore", Ops: []ops.Op{few[i], few[j], few[j+t.Choose(nt-j)]}, Arg: 1})
		}},
		{Name: "robin", Desc: fmt.Sprintf("2 to 32 goroutines making one of %d calls each, the same or different ones: every schedule in which they take turns after 1 to %d statements, of all or of those that refer to variables of packages", len(al), turns), Body: func(t *explore.T) {
			n := []int{2, 3, 4, 5, 8, 9, 16, 32}[t.Choose(8)]
			step := t.Choose(2) // the same call, or neighbours
			i := t.Choose(len(al))
			os := make([]ops.Op, n)
			for k := range os {
				os[k] = al[(i+k*step)%len(al)]
			}
			run(t, "sched", ops.Job{Mode: "robin", Ops: os, Arg: turns})
		}},
		{Name: "pairs3", Desc: fmt.Sprintf("every pair of %d calls, at once: every schedule with at most three preemptions, of which the second and third before statements that refer to variables of packages", len(al)), Body: func(t *explore.T) {
			run(t, "sched", ops.Job{Mode: "explore", Ops: pair(t, al), Arg: 3 | 16})
		}},
	}
	if _, ok := built("sched"); !ok {
		// without scheduling points, only free runs remain
		return []explore.Space{sp[0], {Name: "freepairs", Desc: "NOT EXPLORED: the library could not be instrumented; pairs of calls run freely", Body: func(t *explore.T) {
			run(t, "free", ops.Job{Mode: "free", Ops: pair(t, al), Arg: 20})
		}}}
	}
	if tier == "thorough" {
		sp = append(sp, explore.Space{Name: "pairs2", Desc: "pairs of short calls: every schedule with at most two preemptions, before any statement", Body: func(t *explore.T) {
			short := []ops.Op{op("ymd", "-2004-06"), op("deprecated", "uuuu"), op("exponent", "20E2"), op("openspan"), op("days", "2004-02"), op("parse", ".."), op("parse", "1985"), op("before", "..", "2004"), op("valid", "1985")}
			run(t, "sched", ops.Job{Mode: "explore", Ops: pair(t, short), Arg: 2 | 32 | 64})
		}})
	}
	return sp
}
