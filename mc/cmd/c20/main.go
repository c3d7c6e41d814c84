// C20: precision values behave as a set of flags.
package main

import (
	"fmt"

	"verif.local/mc/explore"

	"github.com/sfomuseum/go-edtf"
)

func main() {
	explore.Main(explore.Check{Property: "C20", Spaces: spaces, Assumptions: []string{
		"the value NONE names no flag: whether it is reported present is not specified",
	}})
}

var names = []string{"ALL", "ANY", "DAY", "WEEK", "MONTH", "YEAR", "DECADE", "CENTURY", "MILLENIUM"}
var flags = []edtf.Precision{edtf.ALL, edtf.ANY, edtf.DAY, edtf.WEEK, edtf.MONTH, edtf.YEAR, edtf.DECADE, edtf.CENTURY, edtf.MILLENIUM}
var documented = []uint32{2, 4, 8, 16, 32, 64, 128, 256, 512}

const nflags = 9

// set is the model: bit i is flag i.
type set uint16

// step applies an operation to the model and the implementation.
func step(p *edtf.Precision, m set, op, f int) set {
	switch op {
	case 0:
		p.AddFlag(flags[f])
		return m | 1<<f
	case 1:
		p.ClearFlag(flags[f])
		return m &^ (1 << f)
	}
	p.ToggleFlag(flags[f])
	return m ^ 1<<f
}

var opNames = []string{"add", "clear", "toggle"}

// differs compares a value with the model.
func differs(p edtf.Precision, m set) string {
	want := uint32(0)
	for i, f := range flags {
		has := m>>i&1 == 1
		if has {
			want |= documented[i]
		}
		if p.HasFlag(f) != has {
			return fmt.Sprintf("%s is reported present: %v", names[i], !has)
		}
	}
	if uint32(p) != want {
		return fmt.Sprintf("the value is %d and not %d", p, want)
	}
	q := p
	if q.IsAnnual() != (m>>5&1 == 1) {
		return "the annual predicate is not the presence of YEAR"
	}
	if q.IsMonthly() != (m>>4&1 == 1) {
		return "the monthly predicate is not the presence of MONTH"
	}
	if q.IsDaily() != (m>>2&1 == 1) {
		return "the daily predicate is not the presence of DAY"
	}
	if q != p || uint32(p) != want {
		return "asking changes the value"
	}
	return ""
}

func spaces(tier string) []explore.Space {
	depth, most := 4, 3
	if tier == "thorough" {
		depth, most = 5, 4
	}
	return []explore.Space{
		{Name: "constants", Desc: "the nine named flags and NONE", Body: func(t *explore.T) {
			i := t.Choose(nflags)
			t.Input(names[i])
			t.Compared()
			if uint32(flags[i]) != documented[i] || edtf.NONE != 0 {
				t.Fail(names[i], "has value %d", flags[i])
			}
		}},
		{Name: "transitions", Desc: "the whole transition relation: every set of flags, built one by one from NONE, and every operation on every flag in it; the value is determined by the set, so that these are all reachable states", Body: func(t *explore.T) {
			m := set(t.Choose(1 << nflags))
			op, f := t.Choose(3), t.Choose(nflags)
			in := fmt.Sprintf("set %09b %s %s", m, opNames[op], names[f])
			t.Input(in)
			t.Begin()
			p := edtf.NONE
			for i := 0; i < nflags; i++ {
				if m>>i&1 == 1 {
					p.AddFlag(flags[i])
				}
			}
			d := differs(p, m)
			if d == "" {
				m = step(&p, m, op, f)
				d = differs(p, m)
			}
			t.End()
			t.Compared()
			t.State(uint64(m))
			if d != "" {
				t.Fail(in, "%s", d)
			}
		}},
		{Name: "bits", Desc: fmt.Sprintf("every value of at most %d of all 32 bits, or of at most two of them with all named flags, and every operation with every bit and every pair of bits: only those bits change, and as the operation says", most), Body: func(t *explore.T) {
			v := uint32(0)
			if t.Bool() {
				for n, from := t.Choose(most+1), 0; n > 0; n-- {
					b := from + t.Choose(32-from)
					v |= 1 << b
					if from = b + 1; from == 32 {
						break
					}
				}
			} else {
				v = 1023 | 1<<t.Choose(32) | 1<<t.Choose(32)
			}
			f := uint32(1) << t.Choose(32)
			if t.Bool() {
				f |= 1 << t.Choose(32)
			}
			op := t.Choose(3)
			in := fmt.Sprintf("%#x %s %#x", v, opNames[op], f)
			t.Input(in)
			t.Begin()
			p := edtf.Precision(v)
			var want uint32
			switch op {
			case 0:
				p.AddFlag(edtf.Precision(f))
				want = v | f
			case 1:
				p.ClearFlag(edtf.Precision(f))
				want = v &^ f
			case 2:
				p.ToggleFlag(edtf.Precision(f))
				want = v ^ f
			}
			a, m, d := p.IsAnnual(), p.IsMonthly(), p.IsDaily()
			t.End()
			t.Compared()
			t.State(uint64(want))
			if uint32(p) != want || a != (want&64 != 0) || m != (want&32 != 0) || d != (want&8 != 0) {
				t.Fail(in, "gives %#x (annual %v, monthly %v, daily %v), and not %#x", uint32(p), a, m, d, want)
				return
			}
			for b := 0; b < 32; b++ {
				if p.HasFlag(edtf.Precision(1)<<b) != (want>>b&1 == 1) {
					t.Fail(in, "flag %#x is reported present: %v", uint32(1)<<b, want>>b&1 == 0)
					return
				}
			}
		}},
		{Name: "search", Serial: true, Desc: "breadth-first search over the values of the implementation from NONE, to the fixed point", Body: func(t *explore.T) {
			t.Input("breadth-first search")
			type node struct {
				p edtf.Precision
				m set
			}
			seen := map[edtf.Precision]set{edtf.NONE: 0}
			todo := []node{{edtf.NONE, 0}}
			for len(todo) > 0 {
				n := todo[0]
				todo = todo[1:]
				for op := 0; op < 3; op++ {
					for f := 0; f < nflags; f++ {
						p := n.p
						t.Begin()
						m := step(&p, n.m, op, f)
						d := differs(p, m)
						t.End()
						t.Compared()
						t.State(uint64(m))
						if d != "" {
							t.Fail(fmt.Sprintf("%d %s %s", n.p, opNames[op], names[f]), "%s", d)
							return
						}
						if o, ok := seen[p]; ok && o != m {
							t.Fail(fmt.Sprint(p), "two sets have this value: %b and %b", o, m)
							return
						} else if !ok {
							seen[p] = m
							todo = append(todo, node{p, m})
						}
					}
				}
			}
			if len(seen) != 1<<nflags {
				t.Fail("reachable", "%d values are reachable, not 512", len(seen))
			}
		}},
		{Name: "histories", Desc: fmt.Sprintf("every sequence of at most %d operations on one value, and on a second one in turn", depth), Body: func(t *explore.T) {
			var p, other edtf.Precision
			other.AddFlag(edtf.WEEK)
			var m set
			in := ""
			for i := 0; i < depth; i++ {
				k := t.Choose(3*nflags + 1)
				if k == 0 {
					break
				}
				op, f := (k-1)/nflags, (k-1)%nflags
				in += opNames[op] + " " + names[f] + ";"
				t.Begin()
				m = step(&p, m, op, f)
				d := differs(p, m)
				od := differs(other, 1<<3)
				t.End()
				if d != "" || od != "" {
					t.Input(in)
					t.Fail(in, "%s%s", d, od)
					return
				}
			}
			t.Input(in)
			t.Compared()
			t.State(uint64(m))
		}},
	}
}
