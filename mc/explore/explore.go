// Package explore is a stateless model checker: a Space is a program whose only
// nondeterminism is Choose, and Run executes it once for every sequence of choices
// (depth-first, in parallel, nothing sampled). Each execution compares the
// implementation with the reference model.
package explore

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Space is a finite set of executions, enumerated by the choices Body makes.
type Space struct {
	Name string
	// What is enumerated, for the evidence file.
	Desc string
	Body func(*T)
	// Serial spaces run in a single worker (order of executions is then part of the check).
	Serial bool
}

// T is the handle of one execution.
type T struct {
	path  []int32
	width []int32
	pos   int
	w     *worker
	in    string
	inImp bool
	fails []failure
	fixed bool
}

type failure struct{ in, detail string }

// Choose returns each of 0..n-1, in different executions.
func (t *T) Choose(n int) int {
	if n <= 0 {
		panic("explore: Choose of nothing")
	}
	p := t.pos
	t.pos++
	if p < len(t.path) {
		t.width[p] = int32(n)
		if int(t.path[p]) >= n {
			panic(fmt.Sprintf("explore: choice %d of %d at %d: the space is not deterministic", t.path[p], n, p))
		}
		return int(t.path[p])
	}
	t.path = append(t.path, 0)
	t.width = append(t.width, int32(n))
	return 0
}

// Bool is Choose(2) == 1.
func (t *T) Bool() bool { return t.Choose(2) == 1 }

// Pick chooses one of the strings.
func (t *T) Pick(s []string) string { return s[t.Choose(len(s))] }

// Input records what is about to be given to the implementation.
func (t *T) Input(s string) {
	t.in = s
	if t.w != nil {
		t.w.record(t, s)
	}
}

// Impl runs f, which calls the implementation: a panic in it is a violation and not an error of the check.
func (t *T) Impl(f func()) {
	t.inImp = true
	f()
	t.inImp = false
}

// Begin and End bracket a call of the implementation, as Impl does.
func (t *T) Begin() { t.inImp = true }
func (t *T) End()   { t.inImp = false }

// Alive tells the monitor that a long execution makes progress.
func (t *T) Alive() {
	if t.w != nil {
		atomic.AddInt64(&t.w.seq, 1)
	}
}

// Waiting calls Alive until the returned function is called.
func (t *T) Waiting() (done func()) {
	c := make(chan bool)
	go func() {
		tk := time.NewTicker(3 * time.Second)
		defer tk.Stop()
		for {
			select {
			case <-c:
				return
			case <-tk.C:
				t.Alive()
			}
		}
	}()
	return func() { close(c) }
}

// Covered counts executions and transitions that a process of its own compared.
func (t *T) Covered(traces, transitions int64) {
	if t.w != nil {
		t.w.traces += traces
		t.w.transitions += transitions
	}
}

// Compared counts one execution compared with the implementation.
func (t *T) Compared() {
	if t.w != nil {
		t.w.traces++
	}
}

// State records a visited state of the model.
func (t *T) State(h uint64) {
	if t.w != nil {
		t.w.run.state(h)
	}
}

// Fail reports that the property does not hold for the input in.
func (t *T) Fail(in string, format string, args ...interface{}) {
	t.fails = append(t.fails, failure{in, fmt.Sprintf(format, args...)})
}

// Failed reports whether this execution failed already.
func (t *T) Failed() bool { return len(t.fails) > 0 }

// Violation is a failing execution.
type Violation struct {
	Space  string  `json:"space"`
	Path   []int32 `json:"path"`
	Input  string  `json:"input"`
	Detail string  `json:"detail"`
	Again  int     `json:"reproduced"`
}

// Stats is what a run covered.
type Stats struct {
	Executions  int64                  `json:"executions"`
	Transitions int64                  `json:"transitions"`
	Traces      int64                  `json:"traces"`
	States      int64                  `json:"states"`
	Complete    bool                   `json:"complete"`
	PerSpace    map[string]*SpaceStats `json:"spaces"`
	Samples     []string               `json:"samples"`
	Violations  []Violation            `json:"violations"`
	Harness     string                 `json:"harness_error,omitempty"`
	Known       []string               `json:"known,omitempty"`
}

type SpaceStats struct {
	Desc       string  `json:"desc"`
	Executions int64   `json:"executions"`
	Traces     int64   `json:"traces"`
	Complete   bool    `json:"complete"`
	WallS      float64 `json:"wall_s"`
}

const stateBits = 30

type run struct {
	states   []uint64
	nstates  int64
	stop     int32
	mu       sync.Mutex
	cond     *sync.Cond
	queue    [][]int32
	idle     int32
	nworkers int
	active   int
	space    *Space
	viol     []Violation
	harness  string
	timedout bool
	maxViol  int
	crash    *CrashFile
	spaceIdx int
	known    map[string]bool
	knownHit map[string]bool
}

func (r *run) state(h uint64) {
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	h &= 1<<stateBits - 1
	p := &r.states[h>>6]
	m := uint64(1) << (h & 63)
	for {
		o := atomic.LoadUint64(p)
		if o&m != 0 {
			return
		}
		if atomic.CompareAndSwapUint64(p, o, o|m) {
			atomic.AddInt64(&r.nstates, 1)
			return
		}
	}
}

type worker struct {
	id          int
	run         *run
	execs       int64
	transitions int64
	traces      int64
	samples     []string
	seq         int64 // incremented per recorded input
}

func (w *worker) record(t *T, s string) {
	atomic.AddInt64(&w.seq, 1)
	if w.run.crash != nil {
		w.run.crash.Put(w.id, w.run.spaceIdx, t.path, s)
	}
}

// exec runs the body once along path (extending it with zeroes) and returns the handle.
func (w *worker) exec(path, width []int32) *T {
	t := &T{path: path, width: width, w: w}
	runBody(w.run.space, t)
	return t
}

type HarnessError struct{ msg string }

func runBody(sp *Space, t *T) {
	defer func() {
		if e := recover(); e != nil {
			if t.inImp || inImpl(debug.Stack()) {
				t.Fail(t.in, "panic: %v%s", e, where(debug.Stack()))
				return
			}
			panic(HarnessError{fmt.Sprintf("space %s input %q path %v: %v\n%s", sp.Name, t.in, t.path, e, debug.Stack())})
		}
	}()
	sp.Body(t)
}

// inImpl tells whether the panic came out of the implementation: its frames come before those of the check.
func inImpl(stack []byte) bool {
	for _, l := range splitLines(string(stack)) {
		switch {
		case strings.HasPrefix(l, "github.com/sfomuseum/go-edtf"):
			return true
		case strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "verif.local/mc/") && !strings.HasPrefix(l, "verif.local/mc/explore.runBody"):
			return false
		}
	}
	return false
}

func where(stack []byte) string {
	// the first frame inside the implementation
	s := string(stack)
	lines := splitLines(s)
	for i, l := range lines {
		if i > 0 && containsImpl(l) {
			return " at " + trim(l)
		}
	}
	return ""
}

func splitLines(s string) []string {
	var out []string
	st := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			out = append(out, s[st:i])
			st = i + 1
		}
	}
	return out
}
func trim(s string) string {
	for len(s) > 0 && (s[0] == ' ' || s[0] == '\t') {
		s = s[1:]
	}
	return s
}
func containsImpl(l string) bool {
	const k = "go-edtf"
	for i := 0; i+len(k) <= len(l); i++ {
		if l[i:i+len(k)] == k {
			return true
		}
	}
	return false
}

func sample(s string) string {
	if len(s) > 120 {
		return s[:120] + "..."
	}
	return s
}

func (w *worker) subtree(prefix []int32) {
	r := w.run
	base := len(prefix)
	path := append([]int32(nil), prefix...)
	width := make([]int32, len(prefix))
	newFrom := base - 1
	if newFrom < 0 {
		newFrom = 0
	}
	limit := []int32{} // exclusive upper limit per level >= base, lowered when siblings are given away
	for {
		if atomic.LoadInt32(&r.stop) != 0 {
			return
		}
		t := w.exec(path, width)
		path, width = t.path, t.width
		w.execs++
		if t.pos < len(path) {
			panic(HarnessError{fmt.Sprintf("space %s: execution used %d of %d choices: not deterministic", r.space.Name, t.pos, len(path))})
		}
		w.transitions += int64(len(path) - newFrom)
		if len(t.fails) > 0 {
			w.report(t)
		}
		if n := w.execs; (n < 4 || n&(n-1) == 0) && len(w.samples) < 12 && t.in != "" {
			w.samples = append(w.samples, sample(t.in))
		}
		for len(limit) < len(path)-base {
			limit = append(limit, -1)
		}
		// share work
		if atomic.LoadInt32(&r.idle) > 0 {
			for i := base; i < len(path); i++ {
				lim := width[i]
				if limit[i-base] >= 0 {
					lim = limit[i-base]
				}
				if path[i]+1 < lim {
					r.mu.Lock()
					for j := path[i] + 1; j < lim; j++ {
						r.queue = append(r.queue, append(append([]int32(nil), path[:i]...), j))
					}
					r.mu.Unlock()
					r.cond.Broadcast()
					limit[i-base] = path[i] + 1
					break
				}
			}
		}
		// backtrack
		i := len(path) - 1
		for ; i >= base; i-- {
			lim := width[i]
			if limit[i-base] >= 0 {
				lim = limit[i-base]
			}
			if path[i]+1 < lim {
				break
			}
		}
		if i < base {
			return
		}
		path[i]++
		path = path[:i+1]
		width = width[:i+1]
		limit = limit[:i-base+1]
		newFrom = i
	}
}

func (w *worker) report(t *T) {
	r := w.run
	f := t.fails[0]
	path := append([]int32(nil), t.path...)
	again := 0
	for k := 0; k < 5; k++ {
		t2 := &T{path: append([]int32(nil), path...), width: make([]int32, len(path)), w: w}
		runBody(r.space, t2)
		if len(t2.fails) > 0 {
			again++
		}
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.known[f.in] {
		r.knownHit[f.in] = true
		return
	}
	for _, v := range r.viol {
		if v.Input == f.in && v.Space == r.space.Name {
			return
		}
	}
	r.viol = append(r.viol, Violation{r.space.Name, path, f.in, f.detail, again})
	if len(r.viol) >= r.maxViol {
		atomic.StoreInt32(&r.stop, 1)
	}
}

// Explore runs every space to the end, or to the deadline.
func Explore(spaces []Space, deadline time.Time, crash *CrashFile, known map[string]bool) *Stats {
	st := &Stats{PerSpace: map[string]*SpaceStats{}, Complete: true}
	states := make([]uint64, 1<<(stateBits-6))
	knownHit := map[string]bool{}
	var nstates int64
	for si := range spaces {
		sp := &spaces[si]
		if st.PerSpace[sp.Name] != nil {
			st.Harness = "two spaces are called " + sp.Name
			return st
		}
		t0 := time.Now()
		n := runtime.GOMAXPROCS(0)
		if sp.Serial {
			n = 1
		}
		r := &run{states: states, nworkers: n, space: sp, maxViol: 20, crash: crash, spaceIdx: si, known: known, knownHit: knownHit}
		r.cond = sync.NewCond(&r.mu)
		r.queue = [][]int32{{}}
		late := time.AfterFunc(time.Until(deadline), func() {
			r.mu.Lock()
			r.timedout = true
			r.mu.Unlock()
			atomic.StoreInt32(&r.stop, 1)
		})
		r.active = 0
		ws := make([]*worker, n)
		var wg sync.WaitGroup
		for i := range ws {
			ws[i] = &worker{id: i, run: r}
		}
		done := make(chan bool)
		go monitor(ws, crash, done)
		for i := range ws {
			wg.Add(1)
			go func(w *worker) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						r.mu.Lock()
						if r.harness == "" {
							if h, ok := e.(HarnessError); ok {
								r.harness = h.msg
							} else {
								r.harness = fmt.Sprintf("%v\n%s", e, debug.Stack())
							}
						}
						atomic.StoreInt32(&r.stop, 1)
						r.active--
						r.mu.Unlock()
						r.cond.Broadcast()
					}
				}()
				for {
					if crash != nil {
						crash.Clear(w.id)
					}
					r.mu.Lock()
					atomic.AddInt32(&r.idle, 1)
					for len(r.queue) == 0 && r.active > 0 && atomic.LoadInt32(&r.stop) == 0 {
						r.cond.Wait()
					}
					atomic.AddInt32(&r.idle, -1)
					if len(r.queue) == 0 || atomic.LoadInt32(&r.stop) != 0 {
						r.mu.Unlock()
						r.cond.Broadcast()
						return
					}
					p := r.queue[len(r.queue)-1]
					r.queue = r.queue[:len(r.queue)-1]
					r.active++
					r.mu.Unlock()
					w.subtree(p)
					r.mu.Lock()
					r.active--
					r.mu.Unlock()
					r.cond.Broadcast()
				}
			}(ws[i])
		}
		wg.Wait()
		late.Stop()
		close(done)
		ss := &SpaceStats{Desc: sp.Desc, Complete: true, WallS: time.Since(t0).Seconds()}
		var samples []string
		for _, w := range ws {
			ss.Executions += w.execs
			ss.Traces += w.traces
			st.Transitions += w.transitions
			samples = append(samples, w.samples...)
			if crash != nil {
				crash.Clear(w.id)
			}
		}
		sort.Strings(samples)
		for i, s := range samples {
			if i%(len(samples)/4+1) == 0 {
				st.Samples = append(st.Samples, sp.Name+": "+s)
			}
		}
		r.mu.Lock()
		timedout := r.timedout
		r.mu.Unlock()
		if timedout || len(r.viol) > 0 && atomic.LoadInt32(&r.stop) != 0 {
			ss.Complete = false
			st.Complete = false
		}
		st.Executions += ss.Executions
		st.Traces += ss.Traces
		st.PerSpace[sp.Name] = ss
		nstates += r.nstates
		st.Violations = append(st.Violations, r.viol...)
		if r.harness != "" {
			st.Harness = r.harness
			st.Complete = false
			break
		}
		if len(st.Violations) > 0 {
			// enough: the remaining spaces are not explored
			if si+1 < len(spaces) {
				st.Complete = false
			}
			break
		}
	}
	for k := range knownHit {
		st.Known = append(st.Known, k)
	}
	sort.Strings(st.Known)
	st.States = nstates
	return st
}

// monitor ends the process when one call of the implementation takes too long;
// the parent then re-runs what was being executed.
func monitor(ws []*worker, crash *CrashFile, done chan bool) {
	last := make([]int64, len(ws))
	since := make([]time.Time, len(ws))
	for i := range since {
		since[i] = time.Now()
	}
	tk := time.NewTicker(500 * time.Millisecond)
	defer tk.Stop()
	for {
		select {
		case <-done:
			return
		case <-tk.C:
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 12<<30 {
			exitWith(crash, ExitMemory)
		}
		for i, w := range ws {
			s := atomic.LoadInt64(&w.seq)
			if s != last[i] || !(crash != nil && crash.Busy(i)) {
				last[i] = s
				since[i] = time.Now()
				continue
			}
			if time.Since(since[i]) > 40*time.Second {
				exitWith(crash, ExitHang)
			}
		}
	}
}

// RunPath executes one path of a space and returns its failure, if any.
func RunPath(sp *Space, path []int32) (input string, fails []string) {
	t := &T{path: append([]int32(nil), path...), width: make([]int32, len(path)), fixed: true}
	runBody(sp, t)
	for _, f := range t.fails {
		fails = append(fails, fmt.Sprintf("%q: %s", f.in, f.detail))
	}
	return t.in, fails
}

// Hash is a helper for State.
func Hash(parts ...interface{}) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return h.Sum64()
}
