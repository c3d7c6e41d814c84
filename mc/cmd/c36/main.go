// C36: a call leaves nothing behind.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif.local/mc/explore"
	"verif.local/mc/model"
	"verif.local/mc/nodejs"
	"verif.local/mc/ops"
)

func main() {
	ops.Worker(map[string]func(ops.Job) ops.Reply{"left": left, "huge": huge})
	explore.Main(explore.Check{Property: "C36", Spaces: spaces, Assumptions: []string{
		"live memory is what the collector of the Go runtime leaves, in objects and bytes; memory from elsewhere (mapped files, cgo) is not seen, and the module uses none",
		"a memory of earlier answers that stops growing within 200 thousand calls is no violation",
		"in the browser, memory is that of the WebAssembly instance, and values those that its Go runtime holds of the page",
	}})
}

// A family is strings of one feature, or one failure: the i-th of as many as are asked for.
type family struct {
	name string
	text func(i int) string
}

func day(i int) string {
	y, m, d := i%10000, i/10000%12+1, i/120000%28+1
	return model.DateText(y, m, d)
}

func back(i int) string { return "-" + day(i+10000) }

var long = strings.Repeat("2004-06-11/", 90)

var families = []family{
	{"years", func(i int) string { return model.YearText(i%19999 - 9999) }},
	{"months", func(i int) string { return day(i)[:7] }},
	{"days", day},
	{"days of negative years", back},
	{"dates and times", func(i int) string {
		return day(i) + []string{"T10:20:30", "T23:59:59Z", "T00:00:00-05", "T12:34:56+05:30"}[i%4]
	}},
	{"intervals", func(i int) string { return day(i) + "/" + day(i+7) }},
	{"open and unknown intervals", func(i int) string {
		return []string{"../" + day(i), day(i) + "/..", "/" + day(i), day(i) + "/"}[i%4]
	}},
	{"Y years", func(i int) string { return "Y" + model.YearText(i%19999-9999) }},
	{"seasons", func(i int) string { return fmt.Sprintf("%04d-%d", i%9999, 21+i/9999%21) }},
	{"spelled seasons", func(i int) string {
		b := []byte([]string{"spring", "summer", "winter"}[i%3])
		for k := range b {
			if i/30000>>uint(k)&1 == 1 {
				b[k] -= 32
			}
		}
		return string(b) + fmt.Sprintf(", %04d", i/3%9999)
	}},
	{"qualified dates", func(i int) string {
		return day(i) + "?~%"[i%3:i%3+1]
	}},
	{"marked dates", func(i int) string {
		d := day(i)
		return []string{d[:4] + "?" + d[4:], d[:4] + "-~" + d[5:], d[:7] + "%" + d[7:], "?" + d, d[:8] + "~" + d[8:]}[i%5]
	}},
	{"marked intervals", func(i int) string {
		d := day(i)
		return d[:8] + "~" + d[8:] + "/" + d[:8] + "?28"
	}},
	{"unspecified digits", func(i int) string {
		d := day(i)
		return []string{d[:3] + "X", d[:2] + "XX", d[:4] + "-XX", d[:7] + "-XX", d[:4] + "-XX-XX", d[:3] + "X" + d[4:], d[:7] + "-1X", d[:4] + "-1X"}[i%8]
	}},
	{"exponents", func(i int) string { return fmt.Sprintf("Y%dE%d", i%9999, i/9999%3) }},
	{"significant digits", func(i int) string { return fmt.Sprintf("%s%04dS%d", []string{"", "-"}[i%2], i/2%10000, i/20000%4+1) }},
	{"sets", func(i int) string {
		d := day(i)
		return []string{"[" + d + "," + d[:4] + "]", "{" + d[:7] + ".." + d + "}", "[.." + d + "]", "{" + d[:4] + "..}"}[i%4]
	}},
	{"dates that do not exist", func(i int) string {
		d := day(i)
		return []string{d[:4] + "-02-30", d[:7] + "-32", d[:4] + "-13-01", d[:4] + "/" + d[:4] + "-02-31", "[" + d[:4] + "-00-01]"}[i%5]
	}},
	{"years that are too large", func(i int) string {
		return []string{fmt.Sprintf("Y%d", 10000+i), fmt.Sprintf("Y-%dE%d", i+1, 4+i%50), fmt.Sprintf("Y%dS3", 10000+i)}[i%3]
	}},
	{"years that are not implemented", func(i int) string {
		d := day(i)
		return []string{"X" + d[1:], "X" + d[1:4], "[X" + d[1:4] + "]", d[:4] + "/X" + d[1:4]}[i%4]
	}},
	{"unrecognized strings", func(i int) string { return fmt.Sprintf("hello %d", i) }},
	{"keywords", func(i int) string { return []string{"..", "", "open", "uuuu"}[i%4] }},
	{"long strings", func(i int) string { return long + day(i) }},
}

// all features and failures in turn
func init() {
	n := len(families)
	l := families[:n:n]
	families = append(families, family{"all features in turn", func(i int) string { return l[i%n].text(i / n) }})
}

// calls are the calls of a history: each is given the i-th string, or its parts.
type call struct {
	name string
	op   func(f func(int) string, i int) ops.Op
}

var calls []call

func init() {
	for _, k := range ops.Kinds1 {
		calls = append(calls, call{k, func(f func(int) string, i int) ops.Op { return ops.Op{Kind: k, Args: []string{f(i)}} }})
	}
	for _, k := range ops.Kinds2 {
		calls = append(calls, call{k, func(f func(int) string, i int) ops.Op { return ops.Op{Kind: k, Args: []string{f(i), f(i + 1)}} }})
	}
	calls = append(calls, call{"between", func(f func(int) string, i int) ops.Op {
		return ops.Op{Kind: "between", Args: []string{f(i), f(i + 1), f(i + 2)}}
	}})
	n := len(calls)
	l := calls[:n:n]
	calls = append(calls, call{"all kinds in turn", func(f func(int) string, i int) ops.Op { return l[i%n].op(f, i/n) }})
	// these do not depend on the family
	for _, k := range []string{"ymds", "time", "timeymd", "daysin"} {
		others = append(others, call{k, func(_ func(int) string, i int) ops.Op {
			d := day(i)
			return ops.Op{Kind: k, Args: []string{d[:4], d[5:7], d[8:], "23:59:59"}}
		}})
	}
	for _, k := range ops.Kinds0 {
		others = append(others, call{k, func(_ func(int) string, i int) ops.Op { return ops.Op{Kind: k} }})
	}
}

var others []call

// state is what the process holds.
type state struct {
	objects, bytes     int64
	goroutines, opened int
}

func opened() int {
	l, _ := os.ReadDir("/proc/self/fd")
	return len(l)
}

// hold is measured when goroutines that are about to end have ended.
func hold(base int) state {
	var s state
	for i := 0; i < 100; i++ {
		s.goroutines = runtime.NumGoroutine()
		if s.goroutines <= base {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	s.objects, s.bytes, s.opened = int64(m.HeapObjects), int64(m.HeapAlloc), opened()
	return s
}

// grown says how much more is held after n calls, or "" if it is not more than a little.
func (s state) grown(o state, n int) string {
	var w []string
	if d := o.objects - s.objects; d > int64(n/100) {
		w = append(w, fmt.Sprintf("%d more objects", d))
	}
	if d := o.bytes - s.bytes; d > int64(n)*2 {
		w = append(w, fmt.Sprintf("%d more bytes", d))
	}
	if d := o.goroutines - s.goroutines; d > n/1000 {
		w = append(w, fmt.Sprintf("%d more goroutines", d))
	}
	if d := o.opened - s.opened; d > n/1000 {
		w = append(w, fmt.Sprintf("%d more open files", d))
	}
	if len(w) == 0 {
		return ""
	}
	return fmt.Sprintf("%s held after %d more calls", strings.Join(w, ", "), n)
}

const (
	warm  = 6000
	watch = 12000
	// once more is held, until a memory of a fixed size would be full
	full   = 200000
	wathen = 60000
)

// left runs a history and says what it leaves.
func left(j ops.Job) ops.Reply {
	var r ops.Reply
	threads, fixed := j.Arg>>24, j.Arg>>23&1 == 1
	f := families[j.Arg>>8&0xff].text
	c := calls
	if j.Arg>>22&1 == 1 {
		c = others
	}
	op := c[j.Arg&0xff].op
	if fixed {
		g := f
		f = func(i int) string { return g(i % 5) }
	}
	next := 0
	run := func(n int) {
		if threads == 0 {
			for i := 0; i < n; i++ {
				op(f, next).Run()
				next++
			}
		} else {
			var wg sync.WaitGroup
			for k := 0; k < threads; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					for i := k; i < n; i += threads {
						op(f, next+i).Run()
					}
				}(k)
			}
			wg.Wait()
			next += n
		}
		r.Count += int64(n)
	}
	base := runtime.NumGoroutine()
	run(warm)
	a := hold(base)
	run(watch)
	b := hold(a.goroutines)
	if a.grown(b, watch) == "" {
		return r
	}
	run(full)
	a = hold(base)
	run(wathen)
	r.Failed = a.grown(hold(a.goroutines), wathen)
	if r.Failed != "" {
		r.Failed = fmt.Sprintf("after %d calls %s, such as %s", r.Count-wathen, r.Failed, op(f, next-1))
	}
	return r
}

func history(t *explore.T, name string, arg int) { asked(t, name, "left", arg) }

func asked(t *explore.T, name, mode string, arg int) {
	t.Input(name)
	defer t.Waiting()()
	r, err := ops.Call(ops.Job{Mode: mode, Arg: arg}, 200*time.Second)
	t.Covered(r.Count, r.Count)
	t.Compared()
	t.State(explore.Hash(name))
	if err != nil {
		r.Failed = err.Error()
	}
	if r.Failed != "" {
		t.Fail(name, "%s", r.Failed)
	}
}

// hugeStrings are strings whose answers take a while.
var hugeStrings = []family{
	{"sets of thousands of members", func(i int) string { return "[" + strings.Repeat(day(i)+",", 20000) + "1984]" }},
	{"sets of thousands of members of which the last does not exist", func(i int) string { return "{" + strings.Repeat(day(i)[:7]+",", 20000) + "1984-02-30}" }},
	{"years of very many digits", func(i int) string { return "Y1" + strings.Repeat("0", 300000) + fmt.Sprint(i) }},
	{"seasons with very many spaces", func(i int) string { return "Spring," + strings.Repeat(" ", 300000) + model.YearText(i) }},
	{"long strings that are not recognized", func(i int) string { return strings.Repeat(day(i)+"/", 30000) }},
}

// huge asks a few calls that each take a while, waits, and says what goroutines and open files
// are left of them: what memory is left the other histories show.
func huge(j ops.Job) ops.Reply {
	var r ops.Reply
	f, op := hugeStrings[j.Arg>>8].text, calls[j.Arg&0xff].op
	next := 0
	run := func(n int) {
		for i := 0; i < n; i++ {
			op(f, next).Run()
			next++
		}
		r.Count += int64(n)
	}
	base := runtime.NumGoroutine()
	for n := 6; n <= 24; n *= 4 {
		run(2)
		a := hold(base)
		run(n)
		b := hold(base)
		r.Failed = ""
		switch m := n / 2; {
		case b.goroutines-a.goroutines >= m:
			r.Failed = fmt.Sprintf("%d more goroutines after %d more calls", b.goroutines-a.goroutines, n)
		case b.opened-a.opened >= m:
			r.Failed = fmt.Sprintf("%d more open files after %d more calls", b.opened-a.opened, n)
		}
		if r.Failed == "" {
			return r
		}
	}
	return r
}

// browser calls parse_edtf with the strings of a family, over and over. The program lets go of the values of the page
// when its collector runs, so that what it holds goes up and down: the least of several rounds counts.
func browser(t *explore.T, f family) {
	const n, rounds = 4000, 24
	name := "parse_edtf of " + f.name
	t.Input(name)
	defer t.Waiting()()
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, f.text(i))
	}
	bin := os.Getenv("MC_BIN")
	out, err := nodejs.Run([]string{"--expose-gc", filepath.Join(bin, "js.mjs"), bin, fmt.Sprint(rounds)}, l)
	type round struct{ Memory, Values, Heap int64 }
	var r struct {
		Exited string
		Rounds []round
	}
	if err == nil {
		err = json.Unmarshal(out, &r)
	}
	switch {
	case err != nil:
		t.Fail(name, "%v", err)
		return
	case r.Exited != "" || len(r.Rounds) != rounds:
		t.Fail(name, "the program ends: %s", r.Exited)
		return
	}
	t.Covered(n*rounds, n*rounds)
	t.Compared()
	t.State(explore.Hash(name))
	least := func(l []round) round {
		m := l[0]
		for _, x := range l {
			m.Memory, m.Values, m.Heap = min(m.Memory, x.Memory), min(m.Values, x.Values), min(m.Heap, x.Heap)
		}
		return m
	}
	const q = rounds / 4
	a, b := least(r.Rounds[q:2*q]), least(r.Rounds[3*q:])
	const calls = int64(n * q * 2)
	if d := b.Values - a.Values; d > calls/2 {
		t.Fail(name, "%d more values of the page are held after %d more calls", d, calls)
	} else if d := b.Memory - a.Memory; d > calls*60 {
		t.Fail(name, "the memory of the program is %d bytes larger after %d more calls", d, calls)
	} else if d := b.Heap - a.Heap; d > calls*60 {
		t.Fail(name, "the heap of the page is %d bytes larger after %d more calls", d, calls)
	}
}

func spaces(tier string) []explore.Space {
	fams := len(families)
	every, page := 4, 6
	if tier == "thorough" {
		every, page = 1, 1
	}
	sp := []explore.Space{
		{Name: "calls", Desc: fmt.Sprintf("each of %d kinds of call, and all in turn, on ever new strings of each of %d families, and of all in turn: %d calls in a process of their own", len(calls)-1, fams-1, warm+watch), Body: func(t *explore.T) {
			k, f := t.Choose(len(calls)), t.Choose(fams)
			history(t, calls[k].name+" of "+families[f].name, k|f<<8)
		}},
		{Name: "again", Desc: "the same on five strings of each family, over and over", Body: func(t *explore.T) {
			k, f := len(calls)-1-every*t.Choose((len(calls)+every-1)/every), t.Choose(fams)
			history(t, calls[k].name+" of five "+families[f].name, k|f<<8|1<<23)
		}},
		{Name: "others", Desc: fmt.Sprintf("%d kinds of call that take no string, or parts of dates", len(others)), Body: func(t *explore.T) {
			k := t.Choose(len(others))
			history(t, others[k].name, k|1<<22)
		}},
		{Name: "threads", Desc: "calls of all kinds in turn from eight goroutines, on each family", Body: func(t *explore.T) {
			f := t.Choose(fams)
			history(t, "eight goroutines: "+families[f].name, (len(calls)-1)|f<<8|8<<24)
		}},
		{Name: "huge", Desc: fmt.Sprintf("each kind of call on %d kinds of strings of hundreds of thousands of characters", len(hugeStrings)), Body: func(t *explore.T) {
			k, f := t.Choose(len(calls)-1), t.Choose(len(hugeStrings))
			asked(t, calls[k].name+" of "+hugeStrings[f].name, "huge", k|f<<8)
		}},
		{Name: "browser", Desc: "the browser function, on 4000 strings of each of some families, 24 times", Body: func(t *explore.T) {
			f := fams - 1 - page*t.Choose((fams+page-1)/page)
			browser(t, families[f])
		}},
	}
	return sp
}
