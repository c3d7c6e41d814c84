// Package ops has every entry point of the library as an operation with a comparable answer,
// and helpers to run operations in processes of their own.
package ops

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"time"

	"verif.local/mc/view"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/calendar"
	"github.com/sfomuseum/go-edtf/cmp"
	"github.com/sfomuseum/go-edtf/common"
	"github.com/sfomuseum/go-edtf/level0"
	"github.com/sfomuseum/go-edtf/level1"
	"github.com/sfomuseum/go-edtf/level2"
	"github.com/sfomuseum/go-edtf/parser"
	"github.com/sfomuseum/go-edtf/unix"
)

// Op is a call: its kind and its arguments.
type Op struct {
	Kind string
	Args []string
}

func (o Op) String() string {
	q := make([]string, len(o.Args))
	for i, a := range o.Args {
		q[i] = strconv.Quote(a)
	}
	return o.Kind + "(" + strings.Join(q, ", ") + ")"
}

// Result is an answer: Show describes everything that can be read from it, as it is now.
type Result struct {
	Show  func() string
	Roots []interface{}
}

func text(format string, args ...interface{}) Result {
	s := fmt.Sprintf(format, args...)
	return Result{Show: func() string { return s }}
}

func date(d *edtf.EDTFDate, err error) Result {
	if err != nil || d == nil {
		return text("%s", view.Full(d, err))
	}
	return Result{Show: func() string { return Deep(d) }, Roots: []interface{}{d}}
}

// Deep is view.Full and the location of every time.
func Deep(d *edtf.EDTFDate) string {
	s := view.Full(d, nil)
	for _, r := range []*edtf.DateRange{d.Start, d.End} {
		if r == nil {
			continue
		}
		for _, x := range []*edtf.Date{r.Lower, r.Upper} {
			if x != nil && x.Timestamp != nil {
				s += " " + when(x.Timestamp.Time())
			}
		}
	}
	return s
}

func when(t *time.Time) string {
	if t == nil {
		return "nil"
	}
	return t.Format(time.RFC3339Nano) + "@" + t.Location().String()
}

func ranges(ok bool, r *unix.DateRange, err error) Result {
	if r == nil {
		return text("%v nil %v", ok, err)
	}
	return Result{Show: func() string {
		s := fmt.Sprint(ok, err)
		for _, p := range []*unix.DateSpan{r.Outer, r.Inner} {
			if p == nil {
				s += " nil"
			} else {
				s += fmt.Sprint(" ", p.Start, p.End)
			}
		}
		return s
	}, Roots: []interface{}{r}}
}

func span(sp *edtf.DateSpan) Result {
	d := &edtf.EDTFDate{Start: sp.Start, End: sp.End}
	return Result{Show: func() string { return Deep(d) }, Roots: []interface{}{sp}}
}

func rng(r *edtf.DateRange) Result {
	d := &edtf.EDTFDate{Start: r}
	return Result{Show: func() string { return Deep(d) }, Roots: []interface{}{r}}
}

func clock(t *time.Time, err error) Result {
	if t == nil || err != nil {
		return text("nil %v", err)
	}
	return Result{Show: func() string { return when(t) }, Roots: []interface{}{t}}
}

func ymd(y *edtf.YMD, err error) Result {
	if y == nil {
		return text("nil %v", err)
	}
	return Result{Show: func() string { return fmt.Sprint(y.Year, y.Month, y.Day, err) }, Roots: []interface{}{y}}
}

func num(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

// Kinds1 are the kinds of operations with one string.
var Kinds1 = []string{"parse", "matches", "valid", "unix", "json", "lower", "upper", "strings", "level0", "level1", "level2", "matches0", "matches1", "matches2",
	"is", "span", "stringrange", "ymd", "days", "deprecated", "exponent", "settime"}

// Kinds2 are those with two.
var Kinds2 = []string{"before", "after", "dbefore", "dafter", "ymdequals"}

// Kinds0 have none.
var Kinds0 = []string{"openrange", "unknownrange", "openspan", "unknownspan", "errors"}

// Run calls the library. A panic is an answer like any other.
func (o Op) Run() (r Result) {
	defer func() {
		if e := recover(); e != nil {
			r = text("panic: %v", e)
		}
	}()
	arg := func(i int) string {
		if i < len(o.Args) {
			return o.Args[i]
		}
		return ""
	}
	s := arg(0)
	switch o.Kind {
	case "parse":
		return date(parser.ParseString(s))
	case "matches":
		l, f, err := parser.Matches(s)
		return text("%d %q %v", l, f, err)
	case "valid":
		return text("%v", parser.IsValid(s))
	case "unix":
		return ranges(unix.DeriveRanges(s))
	case "json":
		d, err := parser.ParseString(s)
		if err != nil {
			return date(d, err)
		}
		b, err := json.Marshal(d)
		if err != nil {
			return text("%v", err)
		}
		var d2 edtf.EDTFDate
		if err := json.Unmarshal(b, &d2); err != nil {
			return text("%v", err)
		}
		return Result{Show: func() string { return string(b) + " " + view.Full(&d2, nil) }, Roots: []interface{}{d, &d2, &b}}
	case "lower", "upper":
		d, err := parser.ParseString(s)
		if err != nil {
			return date(d, err)
		}
		if o.Kind == "lower" {
			return clock(d.Lower())
		}
		return clock(d.Upper())
	case "strings":
		d, err := parser.ParseString(s)
		if err != nil {
			return date(d, err)
		}
		return text("%v", d)
	case "level0":
		return date(level0.ParseString(s))
	case "level1":
		return date(level1.ParseString(s))
	case "level2":
		return date(level2.ParseString(s))
	case "matches0":
		f, err := level0.Matches(s)
		return text("%q %v", f, err)
	case "matches1":
		f, err := level1.Matches(s)
		return text("%q %v", f, err)
	case "matches2":
		f, err := level2.Matches(s)
		return text("%q %v", f, err)
	case "is":
		out := ""
		for _, f := range []func(string) bool{level0.IsLevel0, level0.IsDate, level0.IsDateAndTime, level0.IsTimeInterval,
			level1.IsLevel1, level1.IsExtendedInterval, level1.IsLetterPrefixedCalendarYear, level1.IsNegativeCalendarYear, level1.IsQualifiedDate, level1.IsSeason, level1.IsUnspecifiedDigits,
			level2.IsLevel2, level2.IsExponentialYear, level2.IsGroupQualification, level2.IsIndividualQualification, level2.IsInterval, level2.IsSetRepresentation, level2.IsSignificantDigits, level2.IsSubYearGrouping, level2.IsUnspecifiedDigit,
			edtf.IsOpen, edtf.IsUnknown, edtf.IsUnspecified, edtf.IsDeprecated} {
			if f(s) {
				out += "1"
			} else {
				out += "0"
			}
		}
		return text("%s", out)
	case "span":
		sp, err := common.DateSpanFromEDTF(s)
		if err != nil || sp == nil {
			return text("nil %v", err)
		}
		return span(sp)
	case "stringrange":
		r, err := common.StringRangeFromYMD(s)
		if err != nil || r == nil {
			return text("nil %v", err)
		}
		return Result{Show: func() string {
			a, b := r.Start, r.End
			return fmt.Sprint(a.Year, "/", a.Month, "/", a.Day, " ", b.Year, "/", b.Month, "/", b.Day, " ", uint32(r.Precision), uint32(r.Uncertain), uint32(r.Approximate), r.EDTF)
		}, Roots: []interface{}{r}}
	case "ymd":
		return ymd(common.YMDFromString(s))
	case "days":
		n, err := calendar.DaysInMonthWithString(s)
		return text("%d %v", n, err)
	case "deprecated":
		n, err := edtf.ReplaceDeprecated(s)
		return text("%v %q %v", edtf.IsDeprecated(s), n, err)
	case "exponent":
		n, err := common.ParseExponentialNotation(s)
		return text("%d %v", n, err)
	case "settime":
		d, err := parser.ParseString(s)
		if err != nil {
			return date(d, err)
		}
		t, err := d.Upper()
		if err != nil {
			return text("%v", err)
		}
		var x edtf.Date
		x.SetTime(t)
		return Result{Show: func() string { return x.DateTime + when(x.Timestamp.Time()) }, Roots: []interface{}{&x}}
	case "before":
		ok, err := cmp.IsBefore(s, arg(1))
		return text("%v %v", ok, err)
	case "after":
		ok, err := cmp.IsAfter(s, arg(1))
		return text("%v %v", ok, err)
	case "between":
		ok, err := cmp.IsBetween(s, arg(1), arg(2))
		return text("%v %v", ok, err)
	case "dbefore", "dafter":
		d, err := parser.ParseString(s)
		if err != nil {
			return text("%v", err)
		}
		u, err := parser.ParseString(arg(1))
		if err != nil {
			return text("%v", err)
		}
		var ok bool
		if o.Kind == "dbefore" {
			ok, err = d.Before(u)
		} else {
			ok, err = d.After(u)
		}
		return text("%v %v", ok, err)
	case "ymdequals":
		a, err := common.YMDFromString(s)
		if err != nil {
			return text("%v", err)
		}
		b, err := common.YMDFromString(arg(1))
		if err != nil {
			return text("%v", err)
		}
		return text("%v", a.Equals(b))
	case "ymds":
		return ymd(common.YMDFromStrings(s, arg(1), arg(2)))
	case "time":
		return clock(common.TimeWithYMDString(s, arg(1), arg(2), arg(3)))
	case "timeymd":
		return clock(common.TimeWithYMD(&edtf.YMD{Year: num(s), Month: num(arg(1)), Day: num(arg(2))}, arg(3)))
	case "daysin":
		n, err := calendar.DaysInMonth(num(s), num(arg(1)))
		return text("%d %v", n, err)
	case "openrange":
		return rng(common.OpenDateRange())
	case "unknownrange":
		return rng(common.UnknownDateRange())
	case "openspan":
		return span(common.OpenDateSpan())
	case "unknownspan":
		return span(common.UnknownDateSpan())
	case "errors":
		out := ""
		for _, e := range []error{edtf.NotSet(), edtf.Invalid("a", "b"), edtf.NotImplemented("a", "b"), edtf.Unrecognized("a", "b"), edtf.Unsupported("a", "b")} {
			out += view.ErrClass(e) + " " + e.Error() + ";"
		}
		return text("%s", out)
	}
	panic("no such operation: " + o.Kind)
}
