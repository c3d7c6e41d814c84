// Package view compares what the implementation returned with what the model specifies.
package view

import (
	"fmt"

	"verif.local/mc/explore"
	"verif.local/mc/model"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/parser"
)

// Parse calls parser.ParseString, recording the input; a panic in it is a violation.
func Parse(t *explore.T, s string) (*edtf.EDTFDate, error) {
	t.Input(s)
	t.Begin()
	d, err := parser.ParseString(s)
	t.End()
	return d, err
}

// Aspect is a set of things to compare.
type Aspect uint

const (
	Acceptance Aspect = 1 << iota // accepted or rejected, as specified
	Class                         // class of the error
	Span                          // instants and open/unknown marks
	YMD                           // calendar fields
	Flags                         // uncertain, approximate
	Precision
	Incl
	Level
	Text
)

// ErrClass is the class of an error, by the library's predicates.
func ErrClass(err error) string {
	switch {
	case edtf.IsUnsupported(err):
		return model.ErrUnsupported
	case edtf.IsNotImplemented(err):
		return model.ErrNotImpl
	case edtf.IsUnrecognized(err):
		return model.ErrUnrecognized
	case edtf.IsInvalid(err):
		return "invalid"
	case edtf.IsNotSet(err):
		return "not set"
	}
	return "other"
}

// Whole reports what is missing of a date (nil bounds), or "".
func Whole(d *edtf.EDTFDate, err error) string {
	switch {
	case d == nil && err == nil:
		return "neither a date nor an error"
	case d != nil && err != nil:
		return "both a date and an error"
	case err != nil:
		return ""
	case d.Start == nil || d.End == nil:
		return "a date without a start or end"
	case d.Start.Lower == nil || d.Start.Upper == nil || d.End.Lower == nil || d.End.Upper == nil:
		return "a date without one of its four bounds"
	}
	return ""
}

// Check compares an answer with a verdict, in the given aspects, and returns the first difference or "".
func Check(v *model.Verdict, s string, d *edtf.EDTFDate, err error, a Aspect) string {
	if w := Whole(d, err); w != "" {
		return w
	}
	if err != nil {
		if a&Acceptance != 0 && v.K == model.Accept {
			return fmt.Sprintf("rejected (%v)", err)
		}
		if a&Class != 0 && v.K == model.Reject && v.Err != model.ErrAny {
			if c := ErrClass(err); c != v.Err {
				return fmt.Sprintf("fails as %s (%T %v), not as %s", c, err, err, v.Err)
			}
		}
		return ""
	}
	if v.K == model.Reject {
		if a&(Acceptance|Span) != 0 {
			return fmt.Sprintf("accepted (%s) although: %s", Brief(d), v.Why)
		}
		return ""
	}
	if a&Level != 0 && v.Feature != model.FNone {
		if d.Level != v.Feature.Level() || d.Feature != v.Feature.String() {
			return fmt.Sprintf("level %d feature %q, not level %d feature %q", d.Level, d.Feature, v.Feature.Level(), v.Feature)
		}
	}
	if a&Text != 0 && d.EDTF != s {
		return fmt.Sprintf("the EDTF text is %q", d.EDTF)
	}
	if m := end("start", d.Start, &v.S, a); m != "" {
		return m
	}
	return end("end", d.End, &v.E, a)
}

func end(name string, r *edtf.DateRange, e *model.End, a Aspect) string {
	if a&Text != 0 && e.TextSet && r.EDTF != e.Text {
		return fmt.Sprintf("the EDTF text of the %s is %q, not %q", name, r.EDTF, e.Text)
	}
	if e.Kind == model.Unspec {
		return ""
	}
	if m := bound(name, "lower", r.Lower, e, &e.Lo, a); m != "" {
		return m
	}
	return bound(name, "upper", r.Upper, e, &e.Hi, a)
}

func bound(name, which string, d *edtf.Date, e *model.End, p *model.Point, a Aspect) string {
	if a&Span != 0 {
		switch e.Kind {
		case model.Dated:
			if d.Timestamp == nil {
				return fmt.Sprintf("%s %s has no time", name, which)
			}
			if d.Open || d.Unknown {
				return fmt.Sprintf("%s %s is marked open %v unknown %v", name, which, d.Open, d.Unknown)
			}
			if p.SecSet && d.Timestamp.Unix() != p.Sec {
				return fmt.Sprintf("%s %s is %s (%d), not %s", name, which, d.DateTime, d.Timestamp.Unix(), Stamp(p.Sec))
			}
			if p.SecSet && d.DateTime != Stamp(p.Sec) {
				return fmt.Sprintf("%s %s reads %s, not %s", name, which, d.DateTime, Stamp(p.Sec))
			}
		case model.Open:
			if !d.Open || d.Unknown || d.Timestamp != nil || d.DateTime != "" || d.YMD != nil {
				return fmt.Sprintf("%s %s is not just open: %+v", name, which, *d)
			}
		case model.Unknown:
			if d.Open || !d.Unknown || d.Timestamp != nil || d.DateTime != "" || d.YMD != nil {
				return fmt.Sprintf("%s %s is not just unknown: %+v", name, which, *d)
			}
		}
	}
	if a&YMD != 0 && e.Kind == model.Dated && p.YMDSet {
		if d.YMD == nil {
			return fmt.Sprintf("%s %s has no year, month and day", name, which)
		}
		if d.YMD.Year != p.Y || d.YMD.Month != p.M || d.YMD.Day != p.D {
			return fmt.Sprintf("%s %s has year %d month %d day %d, not %d %d %d", name, which, d.YMD.Year, d.YMD.Month, d.YMD.Day, p.Y, p.M, p.D)
		}
	}
	if a&Flags != 0 && e.FlagsSet {
		if uint32(d.Uncertain) != e.Unc || uint32(d.Approximate) != e.App {
			return fmt.Sprintf("%s %s has uncertain %d approximate %d, not %d and %d", name, which, d.Uncertain, d.Approximate, e.Unc, e.App)
		}
	}
	if a&Precision != 0 && e.Kind == model.Dated && !e.NoPrec {
		p := uint32(d.Precision)
		if e.Prec != 0 && p != e.Prec {
			return fmt.Sprintf("%s %s has precision %d, not %d", name, which, p, e.Prec)
		}
	}
	if a&Incl != 0 && e.InclSet {
		if uint32(d.Inclusivity) != e.Incl {
			return fmt.Sprintf("%s %s has inclusivity %d, not %d", name, which, d.Inclusivity, e.Incl)
		}
	}
	return ""
}

// Stamp is the RFC 3339 text of an instant.
func Stamp(sec int64) string {
	y, m, d, sod, ok := model.FromSecs(sec)
	if !ok {
		return fmt.Sprintf("@%d", sec)
	}
	return model.DateText(y, m, d) + "T" + model.Two(sod/3600) + ":" + model.Two(sod/60%60) + ":" + model.Two(sod%60) + "Z"
}

// Brief is a short description of a date.
func Brief(d *edtf.EDTFDate) string {
	b := func(x *edtf.Date) string {
		switch {
		case x == nil:
			return "nil"
		case x.Open:
			return "open"
		case x.Unknown:
			return "unknown"
		}
		return x.DateTime
	}
	return fmt.Sprintf("%s..%s %s..%s", b(d.Start.Lower), b(d.Start.Upper), b(d.End.Lower), b(d.End.Upper))
}

// Full describes every field of an answer: two answers are the same when this is.
func Full(d *edtf.EDTFDate, err error) string {
	if err != nil {
		return fmt.Sprintf("error %s: %v", ErrClass(err), err)
	}
	if d == nil {
		return "nil"
	}
	b := make([]byte, 0, 512)
	b = append(b, fmt.Sprintf("%q level %d feature %q", d.EDTF, d.Level, d.Feature)...)
	for i, r := range []*edtf.DateRange{d.Start, d.End} {
		if r == nil {
			b = append(b, fmt.Sprintf("; %d nil", i)...)
			continue
		}
		b = append(b, fmt.Sprintf("; %d %q", i, r.EDTF)...)
		for _, x := range []*edtf.Date{r.Lower, r.Upper} {
			if x == nil {
				b = append(b, " nil"...)
				continue
			}
			ts, ymd := "-", "-"
			if x.Timestamp != nil {
				ts = fmt.Sprint(x.Timestamp.Unix())
			}
			if x.YMD != nil {
				ymd = fmt.Sprintf("%d/%d/%d", x.YMD.Year, x.YMD.Month, x.YMD.Day)
			}
			b = append(b, fmt.Sprintf(" (%s %s %s u%d a%d s%d p%d o%v k%v i%d)", x.DateTime, ts, ymd, x.Uncertain, x.Approximate, x.Unspecified, x.Precision, x.Open, x.Unknown, x.Inclusivity)...)
		}
	}
	return string(b)
}

// StateOf hashes an answer, as a state of the model.
func StateOf(d *edtf.EDTFDate, err error) uint64 {
	h := uint64(14695981039346656037)
	mix := func(x uint64) {
		h ^= x
		h *= 1099511628211
		h ^= h >> 31
	}
	if err != nil {
		for _, c := range ErrClass(err) {
			mix(uint64(c))
		}
		return h
	}
	if d == nil || d.Start == nil || d.End == nil {
		return h
	}
	mix(uint64(d.Level + 2))
	mix(uint64(len(d.Feature)))
	for _, r := range []*edtf.DateRange{d.Start, d.End} {
		for _, x := range []*edtf.Date{r.Lower, r.Upper} {
			if x == nil {
				mix(3)
				continue
			}
			if x.Timestamp != nil {
				mix(uint64(x.Timestamp.Unix()))
			}
			f := uint64(0)
			if x.Open {
				f |= 1
			}
			if x.Unknown {
				f |= 2
			}
			mix(f)
			mix(uint64(x.Uncertain)<<20 ^ uint64(x.Approximate)<<40 ^ uint64(x.Precision) ^ uint64(x.Inclusivity)<<10)
		}
	}
	return h
}
