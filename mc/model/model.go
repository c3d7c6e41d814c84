// Package model is the reference: what an EDTF string denotes, written by hand from the
// EDTF specification and the library's documentation, sharing nothing with its code
// (no regular expressions, no time package).
package model

import "strings"

type Kind int

const (
	Either Kind = iota // may be accepted or rejected; if accepted, what is specified must hold
	Accept
	Reject
)

func (k Kind) String() string { return [...]string{"either", "accept", "reject"}[k] }

// Error classes.
const (
	ErrAny          = ""
	ErrUnsupported  = "unsupported"
	ErrNotImpl      = "not implemented"
	ErrUnrecognized = "unrecognized"
)

// Flags of edtf.Precision, as documented.
const (
	ALL       = 2
	ANY       = 4
	DAY       = 8
	WEEK      = 16
	MONTH     = 32
	YEAR      = 64
	DECADE    = 128
	CENTURY   = 256
	MILLENIUM = 512
)

// Point is what is specified of one bound.
type Point struct {
	SecSet  bool
	Sec     int64
	YMDSet  bool
	Y, M, D int
}

type EndKind byte

const (
	Unspec EndKind = iota // nothing is specified
	Dated                 // both bounds have instants
	Open
	Unknown
)

// End is what is specified of the start or the end range.
type End struct {
	Kind     EndKind
	Lo, Hi   Point
	FlagsSet bool
	Unc, App uint32
	Prec     uint32 // 0: any one flag
	NoPrec   bool   // date-and-time: no precision is specified at all
	InclSet  bool
	Incl     uint32
	TextSet  bool
	Text     string
}

type Feature int

const (
	FNone Feature = iota
	FDate
	FDateTime
	FInterval0
	FPrefixedYear
	FSeason
	FQualified
	FUnspecified1
	FIntervalStart
	FIntervalEnd
	FExponential
	FSignificant
	FSubYear
	FSet
	FGroup
	FIndividual
	FUnspecified2
	FInterval2
	FOpen
	FUnknown
)

var featureNames = map[Feature]string{
	FDate: "Date", FDateTime: "Date and Time", FInterval0: "Time Interval",
	FPrefixedYear: "Letter-prefixed calendar year", FSeason: "Seasons",
	FQualified: "Qualification of a date (complete)", FUnspecified1: "Unspecified digit(s) from the right",
	FIntervalStart: "Extended Interval (Start)", FIntervalEnd: "Extended Interval (End)",
	FExponential: "Exponential year", FSignificant: "Significant digits", FSubYear: "Sub-year groupings",
	FSet: "Set representation", FGroup: "Qualification (Group)", FIndividual: "Qualification (Individual)",
	FUnspecified2: "Unspecified Digit", FInterval2: "Interval", FOpen: "Open", FUnknown: "Unknown",
}

func (f Feature) String() string { return featureNames[f] }

func (f Feature) Level() int {
	switch {
	case f == FOpen || f == FUnknown:
		return -1
	case f <= FInterval0:
		return 0
	case f <= FIntervalEnd:
		return 1
	}
	return 2
}

type Verdict struct {
	K        Kind
	Err      string
	Feature  Feature // FNone: not specified
	S, E     End
	Interval bool // an interval: its two ends are not ordered
	Why      string
}

func reject(err, why string) Verdict { return Verdict{K: Reject, Err: err, Why: why} }

// Expr is a lexically well-formed date expression: [q][-]dddd[q][-[q]dd[q][-[q]dd[q]]] with d a digit or X.
type Expr struct {
	Neg            bool
	Y              [4]byte
	HasM, HasD     bool
	M, D           [2]byte
	LY, RY, LM, RM byte
	LD, RD         byte
}

func isQ(c byte) bool     { return c == '?' || c == '~' || c == '%' }
func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isDX(c byte) bool    { return isDigit(c) || c == 'X' }

// ParseExpr lexes a whole string as a date expression.
func ParseExpr(s string) (e Expr, ok bool) {
	i := 0
	q := func() byte {
		if i < len(s) && isQ(s[i]) {
			i++
			return s[i-1]
		}
		return 0
	}
	two := func(b *[2]byte) bool {
		if i+2 > len(s) || !isDX(s[i]) || !isDX(s[i+1]) {
			return false
		}
		b[0], b[1] = s[i], s[i+1]
		i += 2
		return true
	}
	e.LY = q()
	if i < len(s) && s[i] == '-' {
		e.Neg = true
		i++
	}
	if i+4 > len(s) {
		return e, false
	}
	for k := 0; k < 4; k++ {
		if !isDX(s[i]) {
			return e, false
		}
		e.Y[k] = s[i]
		i++
	}
	e.RY = q()
	if i == len(s) {
		return e, true
	}
	if s[i] != '-' {
		return e, false
	}
	i++
	e.LM = q()
	if !two(&e.M) {
		return e, false
	}
	e.HasM = true
	e.RM = q()
	if i == len(s) {
		return e, true
	}
	if s[i] != '-' {
		return e, false
	}
	i++
	e.LD = q()
	if !two(&e.D) {
		return e, false
	}
	e.HasD = true
	e.RD = q()
	return e, i == len(s)
}

func (e *Expr) left() bool  { return e.LY != 0 || e.LM != 0 || e.LD != 0 }
func (e *Expr) right() bool { return e.RY != 0 || e.RM != 0 || e.RD != 0 }
func (e *Expr) qual() bool  { return e.left() || e.right() }
func (e *Expr) xYear() bool {
	return e.Y[0] == 'X' || e.Y[1] == 'X' || e.Y[2] == 'X' || e.Y[3] == 'X'
}
func (e *Expr) xMonth() bool { return e.HasM && (e.M[0] == 'X' || e.M[1] == 'X') }
func (e *Expr) xDay() bool   { return e.HasD && (e.D[0] == 'X' || e.D[1] == 'X') }
func (e *Expr) hasX() bool   { return e.xYear() || e.xMonth() || e.xDay() }
func (e *Expr) negZero() bool {
	return e.Neg && e.Y == [4]byte{'0', '0', '0', '0'}
}

// flags is the union of the marks on the components.
func (e *Expr) flags() (unc, app uint32) {
	mark := func(q byte, f uint32) {
		switch q {
		case '?':
			unc |= f
		case '~':
			app |= f
		case '%':
			unc |= f
			app |= f
		}
	}
	mark(e.LY, YEAR)
	mark(e.LM, MONTH)
	mark(e.LD, DAY)
	mark(e.RY, YEAR)
	mark(e.RM, YEAR|MONTH)
	mark(e.RD, YEAR|MONTH|DAY)
	return
}

func num2(b [2]byte) int { return int(b[0]-'0')*10 + int(b[1]-'0') }

func match2(mask [2]byte, n int) bool {
	return (mask[0] == 'X' || int(mask[0]-'0') == n/10) && (mask[1] == 'X' || int(mask[1]-'0') == n%10)
}

// absYears lists the absolute years that match, ascending: the lowest and highest, and iteration by step.
func (e *Expr) eachYear(up bool, f func(y int) bool) {
	// digits odometer
	var lo, hi [4]int
	for k := 0; k < 4; k++ {
		if e.Y[k] == 'X' {
			lo[k], hi[k] = 0, 9
		} else {
			lo[k] = int(e.Y[k] - '0')
			hi[k] = lo[k]
		}
	}
	// ascending in value of the signed year: for negative years the absolute value goes down
	asc := up != e.Neg
	var d [4]int
	if asc {
		d = lo
	} else {
		d = hi
	}
	for {
		y := d[0]*1000 + d[1]*100 + d[2]*10 + d[3]
		if e.Neg {
			y = -y
		}
		if f(y) {
			return
		}
		k := 3
		for ; k >= 0; k-- {
			if asc && d[k] < hi[k] {
				d[k]++
				break
			}
			if !asc && d[k] > lo[k] {
				d[k]--
				break
			}
			if asc {
				d[k] = lo[k]
			} else {
				d[k] = hi[k]
			}
		}
		if k < 0 {
			return
		}
	}
}

type ymd struct{ y, m, d int }

// first returns the earliest completion (first=true) or the latest one.
// For a missing month or day the first or last of the year or month.
func (e *Expr) completion(first bool) (r ymd, ok bool) {
	e.eachYear(first, func(y int) bool {
		m, end, step := 1, 13, 1
		if !first {
			m, end, step = 12, 0, -1
		}
		for ; m != end; m += step {
			if e.HasM && !match2(e.M, m) {
				continue
			}
			n := DaysIn(y, m)
			if !e.HasD {
				d := 1
				if !first {
					d = n
				}
				r, ok = ymd{y, m, d}, true
				return true
			}
			d, dend := 1, n+1
			if !first {
				d, dend = n, 0
			}
			for ; d != dend; d += step {
				if match2(e.D, d) {
					r, ok = ymd{y, m, d}, true
					return true
				}
			}
		}
		// without a February there is no later year that changes this
		if !e.HasD || !e.HasM || !match2(e.M, 2) {
			return true
		}
		return false
	})
	return
}

func minmax2(mask [2]byte, zeroToOne bool) (lo, hi int) {
	for n := 0; n < 100; n++ {
		if match2(mask, n) {
			lo = n
			break
		}
	}
	for n := 99; n >= 0; n-- {
		if match2(mask, n) {
			hi = n
			break
		}
	}
	if zeroToOne && lo == 0 && hi > 0 {
		lo = 1
	}
	return
}

// standardMask reports whether the forms of the X components are the ones the library documents:
// X as rightmost digits of the year (not all of it), XX, 0X or 1X as month, XX, 0X, 1X, 2X or 3X as day.
func (e *Expr) standardMask() bool {
	seen := false
	for k := 0; k < 4; k++ {
		if e.Y[k] == 'X' {
			seen = true
		} else if seen {
			return false
		}
	}
	if e.Y[0] == 'X' {
		return false
	}
	if e.xMonth() && !(e.M[1] == 'X' && (e.M[0] == 'X' || e.M[0] == '0' || e.M[0] == '1')) {
		return false
	}
	if e.xDay() && !(e.D[1] == 'X' && (e.D[0] == 'X' || e.D[0] <= '3')) {
		return false
	}
	return true
}

// replaceable reports that neither the first nor the last year and month lack the given day.
func (e *Expr) replaceable() bool {
	if !e.HasD {
		return true
	}
	var ys, ye int
	e.eachYear(true, func(y int) bool { ys = y; return true })
	e.eachYear(false, func(y int) bool { ye = y; return true })
	ms, me := 1, 12
	for m := 12; m >= 1; m-- {
		if match2(e.M, m) {
			ms = m
		}
	}
	for m := 1; m <= 12; m++ {
		if match2(e.M, m) {
			me = m
		}
	}
	lo, hi := minmax2(e.D, true)
	if !Exists(ys, ms, lo) {
		return false
	}
	if e.xDay() {
		n := DaysIn(ye, me)
		if hi > n {
			hi = n
		}
		return match2(e.D, hi)
	}
	return Exists(ye, me, hi)
}

// precision of the flags property; 0 where only "exactly one flag" is specified.
func (e *Expr) precision() uint32 {
	n := 0
	for k := 3; k >= 0 && e.Y[k] == 'X'; k-- {
		n++
	}
	for k := 0; k < 4-n; k++ {
		if e.Y[k] == 'X' {
			return 0
		}
	}
	xm, xd := e.xMonth(), e.xDay()
	mxx := e.HasM && e.M == [2]byte{'X', 'X'}
	dxx := e.HasD && e.D == [2]byte{'X', 'X'}
	if n > 0 {
		if n == 4 || xm || xd || (e.HasM && !e.HasD) {
			return 0
		}
		return [...]uint32{0, DECADE, CENTURY, MILLENIUM}[n]
	}
	if mxx && (!e.HasD || dxx) {
		return YEAR
	}
	if e.HasM && !xm && dxx {
		return MONTH
	}
	return 0
}

type spanKind int

const (
	spanOK     spanKind = iota
	spanNone            // no calendar date
	spanFirstX          // first digit of the year is X
)

// span computes the endpoints of a date expression. must: the library has to accept it
// (where its feature admits the expression at all).
func (e *Expr) span() (s, t End, kind spanKind, must bool) {
	a, ok := e.completion(true)
	if !ok {
		return s, t, spanNone, false
	}
	b, _ := e.completion(false)
	unc, app := e.flags()
	prec := e.precision()
	s = End{Kind: Dated, FlagsSet: true, Unc: unc, App: app, Prec: prec, InclSet: true}
	t = s
	s.Lo = Point{SecSet: true, Sec: Secs(a.y, a.m, a.d, 0), YMDSet: true, Y: a.y, M: a.m, D: a.d}
	s.Hi = Point{YMDSet: true, Y: a.y, M: a.m, D: a.d}
	t.Lo = Point{YMDSet: true, Y: b.y, M: b.m, D: b.d}
	t.Hi = Point{SecSet: true, Sec: Secs(b.y, b.m, b.d, EndOfDay), YMDSet: true, Y: b.y, M: b.m, D: b.d}
	if !e.hasX() {
		if e.HasD {
			s.Hi.Sec, s.Hi.SecSet = s.Lo.Sec, true
			t.Lo.Sec, t.Lo.SecSet = t.Hi.Sec, true
		} else {
			s.Hi.Sec, s.Hi.SecSet = s.Lo.Sec+EndOfDay, true
			t.Lo.Sec, t.Lo.SecSet = t.Hi.Sec-EndOfDay, true
		}
	}
	if e.Y[0] == 'X' {
		return s, t, spanFirstX, false
	}
	must = !e.hasX() || (!e.Neg && e.standardMask() && e.replaceable())
	if e.negZero() && e.qual() {
		must = false
	}
	return s, t, spanOK, must
}

// Parse decides a string.
func Parse(s string) Verdict {
	if s == ".." {
		return Verdict{K: Accept, Feature: FOpen, S: End{Kind: Open}, E: End{Kind: Open}}
	}
	if s == "" {
		return Verdict{K: Accept, Feature: FUnknown, S: End{Kind: Unknown}, E: End{Kind: Unknown}}
	}
	if !Shape(s) {
		return reject(ErrUnrecognized, "no EDTF syntax")
	}
	if e, ok := ParseExpr(s); ok {
		return single(s, &e)
	}
	switch s[0] {
	case '[', '{':
		return set(s)
	case 'Y', 'y':
		return lettered(s)
	}
	if n := strings.Count(s, "/"); n > 0 {
		return interval(s)
	}
	if i := strings.IndexByte(s, 'S'); i > 0 && isDigit(s[i-1]) {
		return significant(s)
	}
	if strings.IndexByte(s, 'T') > 0 && !isAlpha(s[0]) {
		return dateTime(s)
	}
	if v, ok := seasonWord(s); ok {
		return v
	}
	return Verdict{}
}

func isAlpha(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80 }

func text(v Verdict, s string) Verdict {
	v.S.TextSet, v.S.Text = true, s
	v.E.TextSet, v.E.Text = true, s
	return v
}

func single(s string, e *Expr) Verdict {
	if e.HasM && !e.HasD && !e.hasX() {
		if c := num2(e.M); c >= 21 && c <= 41 {
			if e.qual() {
				return Verdict{}
			}
			return coded(e, c)
		}
	}
	st, en, kind, must := e.span()
	if kind == spanNone {
		if e.HasM && !e.HasD {
			for c := 21; c <= 41; c++ {
				if match2(e.M, c) {
					return Verdict{} // a code with an unspecified digit
				}
			}
		}
		return reject(ErrAny, "no such date")
	}
	v := Verdict{S: st, E: en}
	if e.Neg && e.hasX() {
		if kind == spanFirstX {
			return Verdict{}
		}
		return text(v, s)
	}
	if kind == spanFirstX {
		if e.qual() || !e.stdMonthDay() {
			return Verdict{}
		}
		return reject(ErrNotImpl, "first digit of the year unspecified")
	}
	if must {
		v.K = Accept
	}
	switch {
	case !e.qual() && !e.hasX():
		v.Feature = FDate
	case e.hasX() && e.qual():
		v.K = Either
	case e.hasX():
		if level1Mask(e) {
			v.Feature = FUnspecified1
		}
	default: // qualifiers
		switch {
		case e.left() && e.right():
			v.K = Either
		case e.left():
			if e.Neg {
				v.K = Either
			} else {
				v.Feature = FIndividual
			}
		default:
			n := 0
			for _, q := range []byte{e.RY, e.RM, e.RD} {
				if q != 0 {
					n++
				}
			}
			last := e.RY
			if e.HasD {
				last = e.RD
			} else if e.HasM {
				last = e.RM
			}
			if n == 1 && last != 0 {
				v.Feature = FQualified
			} else if e.Neg {
				v.K = Either
			} else {
				v.Feature = FGroup
			}
		}
	}
	return text(v, s)
}

// stdMonthDay: the month and day are plain or of a standard X form.
func (e *Expr) stdMonthDay() bool {
	f := *e
	f.Y = [4]byte{'2', '0', '0', '0'}
	if !f.standardMask() {
		return false
	}
	_, ok := f.completion(true)
	return ok
}

// level1Mask: the five forms of the specification's Level 1.
func level1Mask(e *Expr) bool {
	ny := 0
	for k := 3; k >= 0 && e.Y[k] == 'X'; k-- {
		ny++
	}
	if e.xYear() {
		return !e.HasM && (ny == 1 || ny == 2) && e.Y[0] != 'X' && e.Y[1] != 'X'
	}
	xx := [2]byte{'X', 'X'}
	switch {
	case e.HasD:
		return e.D == xx && (e.M == xx || !e.xMonth())
	case e.HasM:
		return e.M == xx
	}
	return false
}

// months of the codes: first month, number of months
var codes = map[int][2]int{
	21: {3, 3}, 22: {6, 3}, 23: {9, 3}, 24: {12, 3},
	25: {3, 3}, 26: {6, 3}, 27: {9, 3}, 28: {12, 3},
	29: {9, 3}, 30: {12, 3}, 31: {3, 3}, 32: {6, 3},
	33: {1, 3}, 34: {4, 3}, 35: {7, 3}, 36: {10, 3},
	37: {1, 4}, 38: {5, 4}, 39: {9, 4},
	40: {1, 6}, 41: {7, 6},
}

func (e *Expr) year() int {
	y := int(e.Y[0]-'0')*1000 + int(e.Y[1]-'0')*100 + int(e.Y[2]-'0')*10 + int(e.Y[3]-'0')
	if e.Neg {
		return -y
	}
	return y
}

func months(y, m, n int) (s, t End, ok bool) {
	y2, m2 := y, m+n-1
	if m2 > 12 {
		m2 -= 12
		y2++
	}
	if y2 > 9999 {
		return s, t, false
	}
	d2 := DaysIn(y2, m2)
	s = End{Kind: Dated, FlagsSet: true, InclSet: true}
	t = s
	s.Lo = Point{SecSet: true, Sec: Secs(y, m, 1, 0), YMDSet: true, Y: y, M: m, D: 1}
	t.Hi = Point{SecSet: true, Sec: Secs(y2, m2, d2, EndOfDay), YMDSet: true, Y: y2, M: m2, D: d2}
	return s, t, true
}

func coded(e *Expr, c int) Verdict {
	st, en, ok := months(e.year(), codes[c][0], codes[c][1])
	if !ok {
		return reject(ErrAny, "ends after 9999")
	}
	v := Verdict{K: Accept, S: st, E: en, Feature: FSubYear}
	if c <= 24 {
		v.Feature = FSeason
	} else if e.Neg {
		v.K, v.Feature = Either, FNone
	}
	if e.negZero() {
		v.K = Either
	}
	return v
}

func interval(s string) Verdict {
	i := strings.IndexByte(s, '/')
	a, b := s[:i], s[i+1:]
	if strings.IndexByte(b, '/') >= 0 {
		return reject(ErrAny, "two slashes")
	}
	v := Verdict{Interval: true, K: Accept}
	plain := [2]bool{}
	nodate := [2]bool{}
	for k, h := range []string{a, b} {
		var x, y End
		switch {
		case h == "":
			x = End{Kind: Unknown}
			y = x
			nodate[k] = true
		case h == "..":
			x = End{Kind: Open}
			y = x
			nodate[k] = true
		default:
			e, ok := ParseExpr(h)
			if !ok {
				hv := Parse(h)
				if hv.K == Reject {
					return reject(ErrAny, "an end is not a date")
				}
				return Verdict{Interval: true}
			}
			if e.HasM && !e.HasD && !e.hasX() {
				if c := num2(e.M); c >= 21 && c <= 41 {
					return Verdict{Interval: true} // a season as an end: not specified
				}
			}
			var kind spanKind
			var must bool
			x, y, kind, must = e.span()
			switch kind {
			case spanNone:
				return reject(ErrAny, "no such date")
			case spanFirstX:
				if !e.Neg && !e.right() && e.stdMonthDay() && simple([2]string{b, a}[k]) {
					return reject(ErrNotImpl, "first digit of the year unspecified")
				}
				return reject(ErrAny, "first digit of the year unspecified")
			}
			if !must {
				v.K = Either
			}
			if e.right() {
				v.K = Either
			}
			plain[k] = !e.qual() && !e.hasX()
		}
		d := End{Kind: x.Kind, FlagsSet: true, Unc: x.Unc, App: x.App, Prec: x.Prec, InclSet: true}
		d.Lo, d.Hi = x.Lo, y.Hi
		d.TextSet, d.Text = true, h
		if k == 0 {
			v.S = d
		} else {
			v.E = d
		}
	}
	switch {
	case nodate[0] && nodate[1]:
		v.K = Either
	case nodate[0] && plain[1]:
		v.Feature = FIntervalStart
	case plain[0] && nodate[1]:
		v.Feature = FIntervalEnd
	case nodate[0] || nodate[1]:
		v.K = Either
	case plain[0] && plain[1]:
		v.Feature = FInterval0
	default:
		if v.K == Accept {
			v.Feature = FInterval2
		}
	}
	return v
}

// simple reports that an end is a date every interval accepts, or one whose first digit of the year is unspecified.
func simple(h string) bool {
	e, ok := ParseExpr(h)
	if !ok || e.right() {
		return false
	}
	if e.HasM && !e.HasD && !e.hasX() && num2(e.M) > 12 {
		return false
	}
	_, _, kind, must := e.span()
	if kind == spanFirstX {
		return !e.Neg && e.stdMonthDay()
	}
	return kind == spanOK && must
}

func dateTime(s string) Verdict {
	i := strings.IndexByte(s, 'T')
	e, ok := ParseExpr(s[:i])
	if !ok || !e.HasD || e.qual() || e.hasX() {
		return reject(ErrAny, "not a full date before T")
	}
	t := s[i+1:]
	if len(t) < 8 || t[2] != ':' || t[5] != ':' {
		return reject(ErrAny, "time")
	}
	n := func(k int) int {
		if !isDigit(t[k]) || !isDigit(t[k+1]) {
			return 1000
		}
		return int(t[k]-'0')*10 + int(t[k+1]-'0')
	}
	hh, mm, ss := n(0), n(3), n(6)
	if hh > 23 || mm > 59 || ss > 59 {
		return reject(ErrAny, "time of day")
	}
	st, _, kind, _ := e.span()
	if kind != spanOK {
		return reject(ErrAny, "no such date")
	}
	sec := st.Lo.Sec + int64(hh*3600+mm*60+ss)
	z := t[8:]
	k := Accept
	if z != "" && z != "Z" {
		if (z[0] != '+' && z[0] != '-') || len(z) != 3 && len(z) != 6 || len(z) == 6 && z[3] != ':' {
			return reject(ErrAny, "zone")
		}
		two := func(a string) int {
			if !isDigit(a[0]) || !isDigit(a[1]) {
				return 1000
			}
			return int(a[0]-'0')*10 + int(a[1]-'0')
		}
		zh, zm := two(z[1:3]), 0
		if len(z) == 6 {
			zm = two(z[4:6])
		}
		if zh >= 1000 || zm >= 1000 {
			return reject(ErrAny, "zone")
		}
		if zh > 23 || zm > 59 {
			return Verdict{}
		}
		off := int64(zh*3600 + zm*60)
		if z[0] == '-' {
			off = -off
		}
		sec -= off
	}
	if sec < Secs(-9999, 1, 1, 0) || sec > Secs(9999, 12, 31, EndOfDay) {
		return Verdict{}
	}
	if e.negZero() {
		k = Either
	}
	p := Point{SecSet: true, Sec: sec}
	en := End{Kind: Dated, Lo: p, Hi: p, FlagsSet: true, InclSet: true, NoPrec: true}
	return Verdict{K: k, Feature: FDateTime, S: en, E: en}
}

// decimal is a (saturated) non-negative integer.
const huge = int64(1) << 40

func decimal(s string) (v int64, ok bool) {
	if s == "" {
		return 0, false
	}
	for i := 0; i < len(s); i++ {
		if !isDigit(s[i]) {
			return 0, false
		}
		v = v*10 + int64(s[i]-'0')
		if v > huge {
			v = huge
		}
	}
	return v, true
}

func yearSpan(y int) (s, t End) {
	e := Expr{Neg: y < 0}
	copy(e.Y[:], strings.TrimPrefix(YearText(y), "-"))
	s, t, _, _ = e.span()
	return
}

// letteredYear parses Y[-]digits[E digits], upper or lower case y and e.
func letteredYear(s string) (v int64, digits int, exp, lower, negZero, hugeZero, ok bool) {
	if s == "" || s[0] != 'Y' && s[0] != 'y' {
		return
	}
	lower = s[0] == 'y'
	r := s[1:]
	neg := false
	if strings.HasPrefix(r, "-") {
		neg = true
		r = r[1:]
	}
	i := strings.IndexAny(r, "eE")
	m := r
	e := int64(0)
	if i >= 0 {
		exp = true
		if r[i] == 'e' {
			lower = true
		}
		m = r[:i]
		var eok bool
		e, eok = decimal(r[i+1:])
		if !eok {
			return
		}
	}
	v, ok = decimal(m)
	digits = len(m)
	if !ok {
		return
	}
	hugeZero = v == 0 && e > 1000000
	for ; e > 0 && v != 0 && v < huge; e-- {
		v *= 10
	}
	if v > huge {
		v = huge
	}
	if neg {
		negZero = v == 0
		v = -v
	}
	return
}

func lettered(s string) Verdict {
	if strings.IndexByte(s, '/') >= 0 {
		return reject(ErrAny, "an end is not a date")
	}
	if strings.IndexByte(s, 'S') > 0 {
		return significant(s)
	}
	v, digits, exp, lower, nz, hz, ok := letteredYear(s)
	if !ok {
		return reject(ErrAny, "not a year")
	}
	if v > 9999 || v < -9999 {
		if lower && !exp {
			return reject(ErrAny, "year out of range")
		}
		return reject(ErrUnsupported, "year out of range")
	}
	if hz {
		return Verdict{}
	}
	r := Verdict{K: Accept}
	r.S, r.E = yearSpan(int(v))
	if exp {
		r.Feature = FExponential
	} else {
		r.Feature = FPrefixedYear
		if digits != 4 {
			r.K = Either
		}
	}
	if lower && !exp || nz {
		r.K = Either
	}
	return r
}

func significant(s string) Verdict {
	i := strings.IndexByte(s, 'S')
	y, n := s[:i], s[i+1:]
	nd, ok := decimal(n)
	if !ok {
		return reject(ErrAny, "digits")
	}
	var v int64
	var digits int
	k := Accept
	if e, ok := ParseExpr(y); ok {
		if e.HasM || e.qual() || e.hasX() {
			return reject(ErrAny, "not a year")
		}
		v, digits = int64(e.year()), 4
		if e.negZero() {
			k = Either
		}
	} else {
		var exp, lower, nz, hz bool
		v, digits, exp, lower, nz, hz, ok = letteredYear(y)
		if !ok {
			return reject(ErrAny, "not a year")
		}
		if v > 9999 || v < -9999 {
			if nd < 1 || nd > 4 || lower && !exp {
				return reject(ErrAny, "year out of range")
			}
			return reject(ErrUnsupported, "year out of range")
		}
		if exp {
			digits = 1
			for a := abs(v); a >= 10; a /= 10 {
				digits++
			}
		} else if digits > 4 {
			k = Either
		}
		if nz || hz || lower && !exp {
			k = Either
		}
	}
	if nd > 4 {
		return reject(ErrAny, "more digits than the year has")
	}
	if nd > int64(digits) || nd == 0 || n[0] == '0' {
		k = Either
	}
	p := int64(1)
	for j := int64(0); j < nd; j++ {
		p *= 10
	}
	a := abs(v)
	lo := a / p * p
	hi := lo + p - 1
	ys, ye := int(lo), int(hi)
	if v < 0 {
		ys, ye = -int(hi), -int(lo)
	}
	r := Verdict{K: k, Feature: FSignificant}
	st, _ := yearSpan(ys)
	_, en := yearSpan(ye)
	r.S = End{Kind: Dated, Lo: st.Lo, FlagsSet: true, InclSet: true}
	r.E = End{Kind: Dated, Hi: en.Hi, FlagsSet: true, InclSet: true}
	return r
}

func abs(v int64) int64 {
	if v < 0 {
		return -v
	}
	return v
}

func set(s string) Verdict {
	cl := s[len(s)-1]
	if cl != ']' && cl != '}' {
		return reject(ErrAny, "not closed")
	}
	if (s[0] == '[') != (cl == ']') {
		return reject(ErrAny, "mismatched brackets")
	}
	incl := uint32(ANY)
	if s[0] == '{' {
		incl = ALL
	}
	items := strings.Split(s[1:len(s)-1], ",")
	k := Accept
	openS, openE := false, false
	var lo, hi int64
	var loP, hiP ymd
	n := 0
	var bad bool
	add := func(d string) {
		e, ok := ParseExpr(d)
		if !ok || e.qual() || e.hasX() {
			bad = true
			return
		}
		if e.HasM && !e.HasD {
			if c := num2(e.M); c >= 21 && c <= 41 {
				bad = true
				return
			}
		}
		st, en, kind, _ := e.span()
		if kind != spanOK {
			bad = true
			return
		}
		if e.negZero() {
			k = Either
		}
		if n == 0 || st.Lo.Sec < lo {
			lo, loP = st.Lo.Sec, ymd{st.Lo.Y, st.Lo.M, st.Lo.D}
		}
		if n == 0 || en.Hi.Sec > hi {
			hi, hiP = en.Hi.Sec, ymd{en.Hi.Y, en.Hi.M, en.Hi.D}
		}
		n++
	}
	for i, it := range items {
		if it == "" {
			return reject(ErrAny, "empty member")
		}
		parts := strings.Split(it, "..")
		switch len(parts) {
		case 1:
			add(it)
		case 2:
			switch {
			case parts[0] == "" && parts[1] == "":
				return reject(ErrAny, "empty member")
			case parts[0] == "":
				if i != 0 {
					k = Either
				}
				openS = true
				add(parts[1])
			case parts[1] == "":
				if i != len(items)-1 {
					k = Either
				}
				openE = true
				add(parts[0])
			default:
				if len(parts[0]) != len(parts[1]) || parts[0] > parts[1] && parts[0][0] != '-' {
					k = Either
				}
				add(parts[0])
				add(parts[1])
			}
		default:
			if it == ".."+parts[1]+".." && len(parts) == 3 {
				k = Either
				openS, openE = true, true
				add(parts[1])
				break
			}
			return Verdict{}
		}
		if bad {
			return reject(ErrAny, "a member is not a date")
		}
	}
	v := Verdict{K: k, Feature: FSet}
	v.S = End{Kind: Dated, Lo: Point{SecSet: true, Sec: lo, YMDSet: true, Y: loP.y, M: loP.m, D: loP.d}, FlagsSet: true, InclSet: true, Incl: incl}
	v.E = End{Kind: Dated, Hi: Point{SecSet: true, Sec: hi, YMDSet: true, Y: hiP.y, M: hiP.m, D: hiP.d}, FlagsSet: true, InclSet: true, Incl: incl}
	if openS {
		v.S = End{Kind: Open, InclSet: true, FlagsSet: true}
	}
	if openE {
		v.E = End{Kind: Open, InclSet: true, FlagsSet: true}
	}
	return v
}

var words = map[string]int{"spring": 21, "summer": 22, "fall": 23, "winter": 24}

func seasonWord(s string) (Verdict, bool) {
	i := strings.IndexByte(s, ',')
	if i < 0 {
		return Verdict{}, false
	}
	w, y := s[:i], s[i+1:]
	tw, ty := strings.TrimRight(w, " \t\r\n\f"), strings.TrimLeft(y, " \t\r\n\f")
	c, ok := words[asciiLower(tw)]
	if !ok || len(ty) != 4 {
		return Verdict{}, false
	}
	e, ok := ParseExpr(ty)
	if !ok || e.Neg || e.hasX() || e.qual() {
		return Verdict{}, false
	}
	v := coded(&e, c)
	if strings.ContainsAny(s, "\t\r\n\f") && v.K == Accept {
		v.K = Either
	}
	return v, true
}

func asciiLower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// Possible reports whether some calendar date matches the expression.
func (e *Expr) Possible() bool { _, ok := e.completion(true); return ok }
