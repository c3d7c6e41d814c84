// Package vsched runs a few goroutines one at a time, under a schedule that is given, and
// explores all schedules up to a bound. Instrumented code calls P before each statement.
package vsched

import (
	"fmt"
	"reflect"
	"sync/atomic"
	"time"
)

// Interesting is set in the sites of statements that refer to variables of packages.
const Interesting = 1 << 30

const maxSteps = 1 << 19

// Deviation: at decision Step, run Thread instead of the default.
type Deviation struct {
	Step   int
	Thread int
}

type decision struct {
	enabled uint64 // threads that can run
	chosen  uint8
	forced  bool // the running thread ended or is blocked
	inter   bool
}

type thread struct {
	wake    chan struct{}
	blocked func() bool // true while blocked, nil if not
	done    bool
	started bool
	body    func()
}

// Counted is the number of statements run outside a schedule while Counting is set. Both are
// for a single goroutine.
var (
	Counting bool
	Counted  uint64
)

var (
	active   bool
	threads  [48]*thread
	nthreads int
	cur      int
	n        int
	progress int64
	trace    [maxSteps]decision
	devs     []Deviation
	nextDev  int
	devAt    int
	finished chan string
	resets   []func()

	every      int  // switch to the next thread after so many points
	everyInter bool // of which only those before interesting statements count
	since      int
)

// OnReset registers a function that sets variables of a package to their initial values.
func OnReset(f func()) { resets = append(resets, f) }

// Active tells whether the calling goroutine is under a schedule.
//
//go:norace
func Active() bool { return active }

// P is a point at which another thread may be scheduled.
//
//go:norace
func P(site uint32) {
	if !active {
		if Counting {
			Counted++
		}
		return
	}
	step(site&Interesting != 0)
}

//go:norace
func step(inter bool) {
	d := &trace[n]
	n++
	atomic.StoreInt64(&progress, int64(n))
	if n >= maxSteps {
		end("more than the maximal number of steps: livelock")
		park()
	}
	d.enabled = enabled()
	d.forced = false
	d.inter = inter
	to := cur
	if n-1 == devAt {
		to = takeDev()
		if to >= nthreads || d.enabled&(uint64(1)<<uint(to)) == 0 {
			to = cur
		}
	}
	if every > 0 && (inter || !everyInter) {
		if since++; since >= every {
			since = 0
			for k := 1; k < nthreads; k++ {
				if u := (cur + k) % nthreads; d.enabled&(uint64(1)<<uint(u)) != 0 {
					to = u
					break
				}
			}
		}
	}
	d.chosen = uint8(to)
	if to != cur {
		switchTo(to)
	}
}

//go:norace
func takeDev() int {
	to := devs[nextDev].Thread
	nextDev++
	devAt = -1
	if nextDev < len(devs) {
		devAt = devs[nextDev].Step
	}
	return to
}

//go:norace
func enabled() uint64 {
	var m uint64
	for i := 0; i < nthreads; i++ {
		t := threads[i]
		if t.done {
			continue
		}
		if t.blocked != nil && t.blocked() {
			continue
		}
		m |= 1 << uint(i)
	}
	return m
}

// park never returns: the execution is over.
func park() { select {} }

//go:norace
func switchTo(to int) {
	me := threads[cur]
	hand(to)
	raceDisable()
	<-me.wake
	raceEnable()
}

// hand gives the token to a thread.
//
//go:norace
func hand(to int) {
	cur = to
	t := threads[to]
	raceDisable()
	t.wake <- struct{}{}
	raceEnable()
}

//go:norace
func end(why string) {
	active = false
	raceDisable()
	select {
	case finished <- why:
	default:
	}
	raceEnable()
}

// pick chooses the next thread when the running one cannot go on.
//
//go:norace
func pick() int {
	m := enabled()
	if m == 0 {
		return -1
	}
	d := &trace[n]
	n++
	atomic.StoreInt64(&progress, int64(n))
	if n >= maxSteps {
		return -2
	}
	d.enabled, d.forced, d.inter = m, true, true
	to := 0
	for m&(uint64(1)<<uint(to)) == 0 {
		to++
	}
	if n-1 == devAt {
		if u := takeDev(); u < nthreads && m&(uint64(1)<<uint(u)) != 0 {
			to = u
		}
	}
	d.chosen = uint8(to)
	return to
}

// Block waits, scheduling others, while held is true. It is called by the thread that runs.
//
//go:norace
func Block(held func() bool) {
	for held() {
		me := threads[cur]
		me.blocked = held
		to := pick()
		if to < 0 {
			end("deadlock")
			park()
		}
		if threads[to] != me {
			switchTo(to)
		}
		me.blocked = nil
	}
}

//go:norace
func start(t *thread) {
	raceDisable()
	<-t.wake
	raceEnable()
	body := t.body
	func() {
		defer func() {
			if e := recover(); e != nil {
				end(fmt.Sprintf("panic: %v", e))
				park()
			}
		}()
		body()
	}()
	t.done = true
	all := true
	for i := 0; i < nthreads; i++ {
		if !threads[i].done {
			all = false
		}
	}
	if all {
		end("")
		return
	}
	to := pick()
	if to < 0 {
		end("deadlock")
		return
	}
	hand(to)
}

// Go starts a goroutine of the code under test.
//
//go:norace
func Go(f func()) {
	if !active {
		go f()
		return
	}
	if nthreads == len(threads) {
		end("too many goroutines")
		park()
	}
	t := &thread{wake: make(chan struct{}, 1), body: f}
	threads[nthreads] = t
	nthreads++
	go start(t)
	step(true)
}

// Bind is f with its arguments evaluated.
func Bind(f interface{}, args ...interface{}) func() {
	fv := reflect.ValueOf(f)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if fv.Type().IsVariadic() && i >= fv.Type().NumIn()-1 {
			pt = fv.Type().In(fv.Type().NumIn() - 1).Elem()
		} else {
			pt = fv.Type().In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
		} else {
			in[i] = reflect.ValueOf(a).Convert(pt)
		}
	}
	return func() { fv.Call(in) }
}

// Outcome of one execution.
type Outcome struct {
	Failed string // deadlock, panic, livelock
	Stuck  bool   // a thread waits for something this scheduler does not control
	Steps  int
}

// execute runs the bodies under a schedule.
func execute(bodies []func(), ds []Deviation) Outcome {
	for _, f := range resets {
		f()
	}
	nthreads = len(bodies)
	for i := range threads {
		threads[i] = nil
	}
	for i, b := range bodies {
		threads[i] = &thread{wake: make(chan struct{}, 1), body: b}
	}
	n, nextDev, devs, devAt = 0, 0, ds, -1
	if len(ds) > 0 {
		devAt = ds[0].Step
	}
	finished = make(chan string, 1)
	for i := 0; i < len(bodies); i++ {
		go start(threads[i])
	}
	active = true
	to := pick()
	hand(to)
	tk := time.NewTicker(time.Second)
	defer tk.Stop()
	last, quiet := int64(-1), 0
	for {
		select {
		case why := <-finished:
			active = false
			return Outcome{Failed: why, Steps: n}
		case <-tk.C:
			p := atomic.LoadInt64(&progress)
			if p == last {
				quiet++
			} else {
				quiet = 0
			}
			last = p
			if quiet >= 5 {
				return Outcome{Stuck: true}
			}
		}
	}
}

// RoundRobin runs the one schedule that switches to the next thread at every k-th point (of those
// before interesting statements, if inter).
func RoundRobin(mk func() (bodies []func(), check func() string), k int, inter bool) (steps int, failed string, stuck bool) {
	every, everyInter, since = k, inter, 0
	defer func() { every = 0 }()
	bodies, check := mk()
	o := execute(bodies, nil)
	if o.Stuck {
		return o.Steps, "", true
	}
	if o.Failed != "" {
		return o.Steps, o.Failed, false
	}
	return o.Steps, check(), false
}

// Stats of an exploration.
type Stats struct {
	Schedules int64
	Steps     int64
	Complete  bool
}

// Explore runs every schedule with at most bound preemptions, of which all but the first happen at
// interesting statements (all of them, if onlyInteresting; none need to, if anywhere), and calls check
// after each. It stops at the first failure.
func Explore(mk func() (bodies []func(), check func() string), bound int, onlyInteresting, anywhere bool, deadline time.Time) (st Stats, failed string, schedule []Deviation, stuck bool) {
	st.Complete = true
	var rec func(ds []Deviation, preemptions int) bool
	rec = func(ds []Deviation, preemptions int) bool {
		if time.Now().After(deadline) {
			st.Complete = false
			return false
		}
		bodies, check := mk()
		o := execute(bodies, ds)
		if o.Stuck {
			stuck = true
			return false
		}
		st.Schedules++
		st.Steps += int64(o.Steps)
		msg := o.Failed
		if msg == "" {
			msg = check()
		}
		if msg != "" {
			failed, schedule = msg, ds
			return false
		}
		from := 0
		if len(ds) > 0 {
			from = ds[len(ds)-1].Step + 1
		}
		// the alternatives, copied: executions overwrite the trace
		var alts []Deviation
		var costs []int
		for k := from; k < o.Steps && k < maxSteps; k++ {
			d := trace[k]
			for u := 0; u < nthreads; u++ {
				if u == int(d.chosen) || d.enabled&(uint64(1)<<uint(u)) == 0 {
					continue
				}
				cost := 1
				if d.forced {
					cost = 0
				} else {
					if preemptions+1 > bound {
						continue
					}
					if !d.inter && (onlyInteresting || preemptions > 0 && !anywhere) {
						continue
					}
				}
				alts = append(alts, Deviation{k, u})
				costs = append(costs, cost)
			}
		}
		for i, a := range alts {
			if !rec(append(append([]Deviation(nil), ds...), a), preemptions+costs[i]) {
				return false
			}
		}
		return true
	}
	rec(nil, 0)
	return
}
