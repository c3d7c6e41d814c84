package explore

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Check is one property's check.
type Check struct {
	Property    string
	Spaces      func(tier string) []Space
	Assumptions []string
	// Extra, if set, runs in the parent after the spaces and adds to the evidence.
	Extra func(env Env, st *Stats, cov map[string]interface{}) error
}

type Env struct {
	Tier    string
	Seed    int
	Verif   string
	Scratch string
	Self    string
}

type Replay struct {
	Property string  `json:"property"`
	Tier     string  `json:"tier"`
	Space    string  `json:"space"`
	Path     []int32 `json:"path"`
	Input    string  `json:"input"`
	Detail   string  `json:"detail"`
	How      string  `json:"how_to_replay"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	return d
}

func tierOf() string {
	t := os.Getenv("MC_TIER")
	if t == "" {
		t = os.Getenv("VERIF_TIER")
	}
	if t != "thorough" {
		t = "quick"
	}
	return t
}

func deadlineOf(tier string) time.Duration {
	if s := os.Getenv("MC_DEADLINE"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			return time.Duration(n) * time.Second
		}
	}
	if tier == "thorough" {
		return 780 * time.Second
	}
	return 420 * time.Second
}

// Known reads the inputs listed for the property in the known-findings file.
func Known(verif, prop string) map[string]bool {
	m := map[string]bool{}
	f, err := os.Open(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		pre := "known: property=" + prop + " input="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		rest := l[len(pre):]
		if q, err := strconv.QuotedPrefix(rest); err == nil {
			if s, err := strconv.Unquote(q); err == nil {
				m[s] = true
			}
		}
	}
	return m
}

// Main is the whole program of a check.
func Main(c Check) {
	child := flag.Bool("child", false, "")
	one := flag.String("one", "", "run a single execution: SPACE-INDEX:CHOICES")
	replay := flag.String("replay", "", "re-run the execution of a replay file")
	crashPath := flag.String("crash", "", "")
	resPath := flag.String("result", "", "")
	deadline := flag.Int64("deadline", 0, "")
	flag.Parse()
	tier := tierOf()
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			die(err)
		}
		var r Replay
		if err := json.Unmarshal(b, &r); err != nil {
			die(err)
		}
		os.Setenv("MC_TIER", r.Tier)
		for _, sp := range c.Spaces(r.Tier) {
			if sp.Name == r.Space {
				sp := sp
				in, fails := RunPath(&sp, r.Path)
				fmt.Printf("property %s space %s input %q\n", c.Property, sp.Name, in)
				for _, f := range fails {
					fmt.Println("  " + f)
				}
				if len(fails) > 0 {
					os.Exit(1)
				}
				fmt.Println("  the property holds")
				os.Exit(0)
			}
		}
		die(fmt.Errorf("no space %q", r.Space))
	}
	if *one != "" {
		i := strings.IndexByte(*one, ':')
		si, _ := strconv.Atoi((*one)[:i])
		var path []int32
		for _, p := range strings.Split((*one)[i+1:], ",") {
			if p != "" {
				n, _ := strconv.Atoi(p)
				path = append(path, int32(n))
			}
		}
		limitMemory(8 << 30)
		sp := c.Spaces(tier)[si]
		_, fails := RunPath(&sp, path)
		if len(fails) > 0 {
			fmt.Println(strings.Join(fails, "\n"))
			os.Exit(1)
		}
		os.Exit(0)
	}
	if *child {
		cf, err := OpenCrashFile(*crashPath)
		if err != nil {
			die(err)
		}
		st := Explore(c.Spaces(tier), time.Unix(*deadline, 0), cf, Known(verifDir(), c.Property))
		b, _ := json.Marshal(st)
		if err := os.WriteFile(*resPath+".tmp", b, 0644); err != nil {
			die(err)
		}
		os.Rename(*resPath+".tmp", *resPath)
		return
	}
	os.Exit(parent(c, tier))
}

// limitMemory makes a process that wants more end by itself.
func limitMemory(bytes uint64) {
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: bytes, Max: bytes})
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "check error:", err)
	os.Exit(2)
}

func parent(c Check, tier string) int {
	t0 := time.Now()
	verif := verifDir()
	scratch, err := os.MkdirTemp("", "mc-"+c.Property+"-")
	if err != nil {
		die(err)
	}
	defer os.RemoveAll(scratch)
	self, err := os.Executable()
	if err != nil {
		die(err)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	dl := t0.Add(deadlineOf(tier))
	crash := filepath.Join(scratch, "crash")
	res := filepath.Join(scratch, "result")
	st := &Stats{PerSpace: map[string]*SpaceStats{}, Complete: true}
	if c.Spaces != nil {
		cmd := exec.Command(self, "-child", "-crash", crash, "-result", res, "-deadline", strconv.FormatInt(dl.Unix(), 10))
		var errbuf tail
		cmd.Stdout = os.Stdout
		cmd.Stderr = &errbuf
		grace := 300 * time.Second // for executions under way that wait for other processes
		if tier == "thorough" {
			grace = 100 * time.Second
		}
		err = runTimeout(cmd, time.Until(dl)+grace)
		b, rerr := os.ReadFile(res)
		if rerr == nil {
			if err := json.Unmarshal(b, st); err != nil {
				die(err)
			}
		} else {
			// the process died: find out which execution did it
			st = died(c, tier, self, crash, errbuf.String(), err)
		}
	}
	cov := map[string]interface{}{}
	if c.Extra != nil && len(st.Violations) == 0 && st.Harness == "" {
		if err := c.Extra(Env{tier, seed, verif, scratch, self}, st, cov); err != nil {
			st.Harness = err.Error()
		}
	}
	if st.Harness != "" {
		fmt.Fprintln(os.Stderr, "check error:", st.Harness)
		return 2
	}
	cov["states"] = st.States
	cov["transitions"] = st.Transitions
	cov["traces_validated_against_impl"] = st.Traces
	cov["executions"] = st.Executions
	cov["exhaustive"] = st.Complete
	cov["spaces"] = st.PerSpace
	if len(st.Samples) > 40 {
		st.Samples = st.Samples[:40]
	}
	cov["samples"] = st.Samples
	ev := map[string]interface{}{
		"property": c.Property, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": len(st.Violations),
		"assumptions": c.Assumptions,
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", c.Property+".json"), append(b, '\n'), 0644); err != nil {
		die(err)
	}
	for _, k := range st.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %q\n", c.Property, k)
	}
	var names []string
	for n := range st.PerSpace {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s := st.PerSpace[n]
		fmt.Printf("%s %-28s executions=%d compared=%d complete=%v %.1fs\n", c.Property, n, s.Executions, s.Traces, s.Complete, s.WallS)
	}
	fmt.Printf("%s %s states=%d transitions=%d executions=%d compared=%d complete=%v %.1fs\n", c.Property, tier, st.States, st.Transitions, st.Executions, st.Traces, st.Complete, time.Since(t0).Seconds())
	if len(st.Violations) == 0 {
		return 0
	}
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0755)
	for i, v := range st.Violations {
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.Property, i))
		r := Replay{c.Property, tier, v.Space, v.Path, v.Input, v.Detail, fmt.Sprintf("cd %s && bash check.sh %s %s -replay %s", verif, c.Property, tier, p)}
		b, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(p, append(b, '\n'), 0644)
		if i < 5 {
			fmt.Printf("  [%s] %q: %s (again %d times)\n", v.Space, v.Input, v.Detail, v.Again)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.Property, p)
		}
	}
	return 1
}

func died(c Check, tier, self, crash, errtext string, err error) *Stats {
	st := &Stats{PerSpace: map[string]*SpaceStats{}}
	cf, cerr := OpenCrashFile(crash)
	if cerr != nil {
		st.Harness = cerr.Error()
		return st
	}
	spaces := c.Spaces(tier)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, s := range cf.Suspects() {
		if s.Space >= len(spaces) {
			continue
		}
		strs := make([]string, len(s.Path))
		for i, p := range s.Path {
			strs[i] = strconv.Itoa(int(p))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			detail := ""
			const times = 2
			for k := 0; k < times; k++ {
				cmd := exec.Command(self, "-one", fmt.Sprintf("%d:%s", s.Space, strings.Join(strs, ",")))
				var out tail
				cmd.Stdout = &out
				cmd.Stderr = &out
				e := runTimeout(cmd, 60*time.Second)
				if e == nil {
					return
				}
				detail = fmt.Sprintf("a single execution ends with %v: %s", e, firstLine(out.String()))
			}
			mu.Lock()
			st.Violations = append(st.Violations, Violation{spaces[s.Space].Name, s.Path, s.Input, detail, times})
			mu.Unlock()
		}()
	}
	wg.Wait()
	if len(st.Violations) == 0 {
		st.Harness = fmt.Sprintf("the exploring process died (%v) and no single execution explains it\n%s", err, errtext)
	}
	return st
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			return l
		}
	}
	return ""
}

func runTimeout(cmd *exec.Cmd, d time.Duration) error {
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case e := <-done:
		return e
	case <-time.After(d):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return fmt.Errorf("no answer in %v", d)
	}
}

// tail keeps the first part of what is written to it.
type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }

var _ io.Writer = (*tail)(nil)
