package ops

import (
	"bufio"
	"bytes"
	"context"
	"encoding/gob"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// Job is what a process of its own is asked to do.
type Job struct {
	Mode string
	Ops  []Op
	Want []string
	Arg  int
}

// Reply is what it found. Failed is empty if the property held.
type Reply struct {
	Texts  []string
	Failed string
	Count  int64
	Steps  int64
	Stuck  bool
	Cut    bool
}

// Worker runs a job, if this process was started for one, and never returns then.
func Worker(modes map[string]func(Job) Reply) {
	if len(os.Args) < 2 || os.Args[1] != "-job" {
		return
	}
	var j Job
	if err := gob.NewDecoder(bufio.NewReader(os.Stdin)).Decode(&j); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	f := modes[j.Mode]
	if f == nil {
		f = builtin[j.Mode]
	}
	r := f(j)
	os.Stdout.Write([]byte("\x01REPLY"))
	gob.NewEncoder(os.Stdout).Encode(r)
	os.Exit(0)
}

var builtin = map[string]func(Job) Reply{
	"answers": func(j Job) Reply {
		var r Reply
		for _, o := range j.Ops {
			r.Texts = append(r.Texts, o.Run().Show())
		}
		return r
	},
}

// Call runs a job in a fresh process. err is set if the process failed to answer.
func Call(j Job, timeout time.Duration, env ...string) (Reply, error) {
	return CallBin(os.Args[0], j, timeout, env...)
}

func CallBin(bin string, j Job, timeout time.Duration, env ...string) (Reply, error) {
	var r Reply
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(j); err != nil {
		return r, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-job")
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "TZ=UTC", "GOMAXPROCS=2", "GOGC=400", "GOTRACEBACK=single", "HOME=" + os.Getenv("HOME")}, env...)
	cmd.Stdin = &b
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err := cmd.Run()
	if ctx.Err() != nil {
		return r, fmt.Errorf("no answer within %v", timeout)
	}
	if err != nil {
		e := errs.String()
		if len(e) > 1500 {
			e = e[:1500]
		}
		return r, fmt.Errorf("the process ends with %v: %s", err, e)
	}
	o := out.Bytes()
	i := bytes.LastIndex(o, []byte("\x01REPLY"))
	if i < 0 {
		return r, fmt.Errorf("no reply: %s", out.String())
	}
	err = gob.NewDecoder(bytes.NewReader(o[i+6:])).Decode(&r)
	return r, err
}

// Fresh caches what each operation answers in a process of its own.
type Fresh struct {
	mu  sync.Mutex
	m   map[string]*freshEntry
	Env []string
}

type freshEntry struct {
	once sync.Once
	text string
	err  error
}

// Answer is the answer of an operation that is the only one of its process. It is asked twice.
func (f *Fresh) Answer(o Op) (string, error) {
	k := o.String()
	f.mu.Lock()
	if f.m == nil {
		f.m = map[string]*freshEntry{}
	}
	e := f.m[k]
	if e == nil {
		e = &freshEntry{}
		f.m[k] = e
	}
	f.mu.Unlock()
	e.once.Do(func() {
		for i := 0; i < 2; i++ {
			r, err := Call(Job{Mode: "answers", Ops: []Op{o}}, 60*time.Second, f.Env...)
			if err != nil {
				e.err = fmt.Errorf("%s: %v", o, err)
				return
			}
			if i == 1 && r.Texts[0] != e.text {
				e.err = fmt.Errorf("%s answers %s in one process and %s in another", o, e.text, r.Texts[0])
				return
			}
			e.text = r.Texts[0]
		}
	})
	return e.text, e.err
}

// Names describes a list of operations.
func Names(os []Op) string {
	n := make([]string, len(os))
	for i, o := range os {
		n[i] = o.String()
	}
	return strings.Join(n, "; ")
}

// All asks for the answers of many operations at once.
func (f *Fresh) All(os []Op) {
	var wg sync.WaitGroup
	c := make(chan Op)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range c {
				f.Answer(o)
			}
		}()
	}
	for _, o := range os {
		c <- o
	}
	close(c)
	wg.Wait()
}
