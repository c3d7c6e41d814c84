// C24: answers do not depend on the machine's time zone.
package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
	_ "time/tzdata"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/ops"
)

func main() {
	ops.Worker(map[string]func(ops.Job) ops.Reply{"zone": zone})
	explore.Main(explore.Check{Property: "C24", Spaces: spaces, Assumptions: []string{
		"the zone is the one of the variable TZ, which is how a Go program gets a local zone that is not that of /etc/localtime; zones come from the system's files and those built into the check",
		"a process whose local zone is not the one asked for is an error of the check, so that no zone passes by being unknown",
	}})
}

// probes are instants at which local zones differ from UTC, in all sorts of ways.
var probes = []time.Time{
	time.Date(-9999, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1800, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1942, 7, 1, 0, 0, 0, 0, time.UTC),
	time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2004, 6, 11, 0, 0, 0, 0, time.UTC), time.Date(2004, 1, 11, 0, 0, 0, 0, time.UTC),
}

// zone answers all the operations, in this process's zone.
func zone(j ops.Job) ops.Reply {
	var r ops.Reply
	want, err := time.LoadLocation(os.Getenv("TZ"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	for _, p := range probes {
		_, a := p.In(want).Zone()
		_, b := p.Local().Zone()
		if a != b {
			fmt.Fprintf(os.Stderr, "the local zone is not %s\n", os.Getenv("TZ"))
			os.Exit(4)
		}
	}
	for i, o := range j.Ops {
		r.Count++
		if got := o.Run().Show(); got != j.Want[i] {
			r.Failed = fmt.Sprintf("%s answers %s, and in UTC %s", o, got, j.Want[i])
			return r
		}
	}
	return r
}

// zones are the names of all zones on this machine, and in the Go distribution.
func zones() []string {
	m := map[string]bool{}
	const dir = "/usr/share/zoneinfo"
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil || !bytes.HasPrefix(b, []byte("TZif")) {
			return nil
		}
		n, _ := filepath.Rel(dir, p)
		if _, err := time.LoadLocation(n); err == nil {
			m[n] = true
		}
		return nil
	})
	for _, root := range []string{os.Getenv("GOROOT"), "/opt/veriftools/go1.27.3"} {
		z, err := zip.OpenReader(filepath.Join(root, "lib/time/zoneinfo.zip"))
		if err != nil {
			continue
		}
		for _, f := range z.File {
			if _, err := time.LoadLocation(f.Name); err == nil && !strings.HasSuffix(f.Name, "/") {
				m[f.Name] = true
			}
		}
		z.Close()
	}
	for _, n := range builtin {
		if _, err := time.LoadLocation(n); err == nil {
			m[n] = true
		}
	}
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// zones that must not be missing: half hours, quarters, both ends of the day, negative daylight saving, the date line, local mean time.
var builtin = []string{"UTC", "America/New_York", "Europe/London", "Europe/Dublin", "Europe/Amsterdam", "Asia/Kolkata", "Asia/Kathmandu", "Australia/Lord_Howe", "Pacific/Apia", "Pacific/Kiritimati", "Etc/GMT+12", "Etc/GMT-14", "Africa/Monrovia", "America/St_Johns", "Asia/Tehran", "Antarctica/Troll", "America/Sao_Paulo", "Asia/Tokyo", "Pacific/Chatham"}

func op(kind string, args ...string) ops.Op { return ops.Op{Kind: kind, Args: args} }

func questions(tier string) []ops.Op {
	var out []ops.Op
	// date-times with every shift, by quarters of an hour
	for _, d := range []string{"2004-06-11T00:00:00", "2004-01-11T23:59:59", "1970-01-01T00:00:00", "1942-07-01T12:00:00", "0000-12-31T23:30:00", "-0400-02-29T00:30:00", "1883-11-18T12:00:00", "2011-12-30T10:00:00", "2021-03-28T02:30:00", "2021-11-07T01:30:00"} {
		for m := -14 * 60; m <= 14*60; m += 15 {
			a, sign := m, "+"
			if m < 0 {
				a, sign = -m, "-"
			}
			out = append(out, op("parse", fmt.Sprintf("%s%s%02d:%02d", d, sign, a/60, a%60)))
			if a%60 == 0 {
				out = append(out, op("parse", fmt.Sprintf("%s%s%02d", d, sign, a/60)))
			}
		}
		out = append(out, op("parse", d), op("parse", d+"Z"), op("lower", d), op("upper", d+"Z"), op("unix", d), op("unix", d+"Z"), op("json", d+"-05"), op("settime", d), op("span", d))
	}
	// odd shifts, those of local mean times among them
	for _, z := range []string{"-00:44", "+00:20", "+00:19", "-04:56", "-23:59", "+23:59", "+00:01", "-00:01", "-12:30", "+05:53"} {
		out = append(out, op("parse", "1850-01-01T00:00:00"+z), op("unix", "2004-06-11T10:20:30"+z))
	}
	for _, k := range append(append([]string{}, ops.Kinds1...), "parse") {
		for i, s := range gen.Seeds {
			if k == "parse" || tier == "thorough" || i%3 == 0 {
				out = append(out, op(k, s))
			}
		}
	}
	step := 11
	if tier == "thorough" {
		step = 1
	}
	for _, s := range gen.List(-1, step) {
		out = append(out, op("parse", s))
	}
	pairs := []string{"1985-04-12", "1985-04-12T00:00:00-05", "1985-04-12T05:00:00Z", "1985-04-11T23:59:59", "1985-04-13", "1985-04", "-0400", "..", "1985-04-12/1985-04-13", "1985-04-12T10:00:00+05:45"}
	for _, k := range ops.Kinds2 {
		for _, a := range pairs {
			for _, b := range pairs {
				out = append(out, op(k, a, b))
			}
		}
	}
	for _, a := range pairs {
		out = append(out, op("between", a, "1985-04-11T20:00:00", "1985-04-13T03:00:00Z"))
	}
	for y := 1880; y <= 2040; y += 1 {
		for _, md := range []string{"01-01", "02-28", "03-29", "04-05", "06-30", "10-31", "12-31"} {
			out = append(out, op("parse", fmt.Sprintf("%d-%s", y, md)), op("parse", fmt.Sprintf("%d-%sT00:30:00", y, md)))
		}
	}
	for _, y := range []string{"2004", "-0400", "0000"} {
		for _, m := range []string{"02", "03", "12"} {
			for _, h := range []string{"00:00:00", "23:59:59", "02:30:00"} {
				out = append(out, op("time", y, m, "28", h), op("timeymd", y, m, "28", h))
			}
			out = append(out, op("ymds", y, m, "28"), op("daysin", y, m))
		}
	}
	for _, k := range ops.Kinds0 {
		out = append(out, op(k))
	}
	return out
}

// changes are the calls about the days on which the clocks of a zone change, and the days beside them.
func changes(z string) []ops.Op {
	l, err := time.LoadLocation(z)
	if err != nil {
		return nil
	}
	var out []ops.Op
	days, months := map[string]bool{}, map[string]bool{}
	t := time.Date(1800, 1, 1, 12, 0, 0, 0, time.UTC)
	_, last := t.In(l).Zone()
	for ; t.Year() < 2040; t = t.AddDate(0, 0, 1) {
		_, off := t.In(l).Zone()
		if off == last {
			continue
		}
		last = off
		for k := -2; k <= 1; k++ {
			d := t.AddDate(0, 0, k)
			if s := d.Format("2006-01-02"); !days[s] {
				days[s] = true
				out = append(out, op("parse", s), op("parse", s+"T00:00:00"), op("parse", s+"T02:30:00Z"))
			}
			if s := d.Format("2006-01"); !months[s] {
				months[s] = true
				out = append(out, op("parse", s), op("parse", s+"-XX"), op("daysin", d.Format("2006"), d.Format("01")))
			}
		}
	}
	return out
}

func spaces(tier string) []explore.Space {
	zs := zones()
	own := make([][]ops.Op, len(zs))
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := w; i < len(zs); i += 8 {
				own[i] = changes(zs[i])
			}
		}(w)
	}
	wg.Wait()
	index := map[string]int{}
	var union []ops.Op
	for _, o := range own {
		for _, q := range o {
			if _, ok := index[q.String()]; !ok {
				index[q.String()] = len(union)
				union = append(union, q)
			}
		}
	}
	var answers []string
	qs := questions(tier)
	var once sync.Once
	var want []string
	var wantErr error
	utc := func() {
		r, err := ops.Call(ops.Job{Mode: "answers", Ops: qs}, 100*time.Second, "TZ=UTC")
		want, wantErr = r.Texts, err
		if err != nil {
			return
		}
		u, err := ops.Call(ops.Job{Mode: "answers", Ops: union}, 100*time.Second, "TZ=UTC")
		answers, wantErr = u.Texts, err
		if err != nil {
			return
		}
		for q, w := range want {
			for _, f := range strings.Fields(w) {
				if i := strings.LastIndex(f, "@"); i > 0 && strings.Contains(f[:i], "T") && f[i+1:] != "UTC" {
					wantErr = fmt.Errorf("%s answers with the time %s, which is not in UTC", qs[q], f)
					return
				}
			}
		}
	}
	ask := func(t *explore.T, zi int) {
		z := zs[zi]
		t.Input("TZ=" + z)
		defer t.Waiting()()
		once.Do(utc)
		if wantErr != nil {
			t.Fail("TZ=UTC", "%v", wantErr)
			return
		}
		calls, wanted := append([]ops.Op{}, qs...), append([]string{}, want...)
		for _, q := range own[zi] {
			calls, wanted = append(calls, q), append(wanted, answers[index[q.String()]])
		}
		r, err := ops.Call(ops.Job{Mode: "zone", Ops: calls, Want: wanted}, 100*time.Second, "TZ="+z)
		t.Compared()
		t.State(explore.Hash(z))
		if err != nil {
			if strings.Contains(err.Error(), "exit status 4") {
				panic(err)
			}
			t.Fail("TZ="+z, "%v", err)
			return
		}
		if r.Failed != "" {
			t.Fail("TZ="+z, "%s", r.Failed)
		}
	}
	return []explore.Space{
		{Name: "zones", Desc: fmt.Sprintf("each of %d time zones, in a process of its own: the answers to %d calls (date-times with every shift of a quarter of an hour, every entry point on strings of every feature, comparisons), and to those about the days and months in which its own clocks change (%d calls in all), are those given in UTC, with every time in UTC", len(zs), len(qs), len(union)), Body: func(t *explore.T) {
			ask(t, t.Choose(len(zs)))
		}},
	}
}
