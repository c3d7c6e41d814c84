// C32: dates have the documented JSON form, and are read from it exactly.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"

	"github.com/sfomuseum/go-edtf"
)

func main() {
	explore.Main(explore.Check{Property: "C32", Spaces: spaces, Assumptions: []string{
		"the documented form is that of the struct definitions in README.md",
		"a timestamp in quotation marks may be read as its integer or refused",
	}})
}

// member is a member of a JSON object, in the order of the documentation.
type member struct {
	name  string
	value interface{} // []member, string, int64, bool or nil
}

func ofDate(d *edtf.Date) interface{} {
	if d == nil {
		return nil
	}
	var m []member
	if d.DateTime != "" {
		m = append(m, member{"datetime", d.DateTime})
	}
	if d.Timestamp != nil {
		m = append(m, member{"timestamp", d.Timestamp.Unix()})
	}
	if d.YMD == nil {
		m = append(m, member{"ymd", nil})
	} else {
		m = append(m, member{"ymd", []member{{"year", int64(d.YMD.Year)}, {"month", int64(d.YMD.Month)}, {"day", int64(d.YMD.Day)}}})
	}
	flag := func(n string, p edtf.Precision) {
		if p != 0 {
			m = append(m, member{n, int64(p)})
		}
	}
	mark := func(n string, b bool) {
		if b {
			m = append(m, member{n, b})
		}
	}
	flag("uncertain", d.Uncertain)
	flag("approximate", d.Approximate)
	flag("unspecified", d.Unspecified)
	flag("precision", d.Precision)
	mark("open", d.Open)
	mark("unknown", d.Unknown)
	flag("inclusivity", d.Inclusivity)
	return m
}

func ofRange(r *edtf.DateRange) interface{} {
	if r == nil {
		return nil
	}
	return []member{{"edtf", r.EDTF}, {"lower", ofDate(r.Lower)}, {"upper", ofDate(r.Upper)}}
}

func document(d *edtf.EDTFDate) []member {
	return []member{{"start", ofRange(d.Start)}, {"end", ofRange(d.End)}, {"edtf", d.EDTF}, {"level", int64(d.Level)}, {"feature", d.Feature}}
}

// style is a way to write a document.
type style struct {
	space    string
	reversed bool
	escape   bool
}

func write(b *bytes.Buffer, v interface{}, st style) {
	switch v := v.(type) {
	case nil:
		b.WriteString("null")
	case string:
		if st.escape {
			b.WriteByte('"')
			for _, r := range v {
				fmt.Fprintf(b, "\\u%04x", r)
			}
			b.WriteByte('"')
			return
		}
		q, _ := json.Marshal(v)
		b.Write(q)
	case int64:
		b.WriteString(strconv.FormatInt(v, 10))
	case bool:
		b.WriteString(strconv.FormatBool(v))
	case []member:
		b.WriteString("{" + st.space)
		for i := range v {
			m := v[i]
			if st.reversed {
				m = v[len(v)-1-i]
			}
			if i > 0 {
				b.WriteString("," + st.space)
			}
			b.WriteString(`"` + m.name + `"` + st.space + ":" + st.space)
			write(b, m.value, st)
		}
		b.WriteString(st.space + "}")
	default:
		panic("no such value")
	}
}

// generic is what encoding/json makes of a document, without the library.
func generic(b []byte) (interface{}, error) {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var v interface{}
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, fmt.Errorf("more than one value")
	}
	return v, nil
}

func plain(v interface{}) interface{} {
	switch v := v.(type) {
	case int64:
		return json.Number(strconv.FormatInt(v, 10))
	case []member:
		m := map[string]interface{}{}
		for _, x := range v {
			m[x.name] = plain(x.value)
		}
		return m
	}
	return v
}

func read(t *explore.T, doc []byte) (*edtf.EDTFDate, error) {
	var e edtf.EDTFDate
	t.Begin()
	err := json.Unmarshal(doc, &e)
	t.End()
	return &e, err
}

func parsed(t *explore.T, s string) *edtf.EDTFDate {
	d, err := view.Parse(t, s)
	if err != nil || d == nil || view.Whole(d, err) != "" {
		return nil
	}
	return d
}

// form checks the JSON of a result.
func form(t *explore.T, s string) {
	d := parsed(t, s)
	if d == nil {
		return
	}
	t.Compared()
	t.State(view.StateOf(d, nil))
	want := plain(document(d))
	t.Begin()
	b, err := json.Marshal(d)
	t.End()
	if err != nil {
		t.Fail(s, "marshalling fails: %v", err)
		return
	}
	got, err := generic(b)
	if err != nil {
		t.Fail(s, "its JSON is not JSON: %v: %s", err, b)
		return
	}
	if !reflect.DeepEqual(got, want) {
		var w bytes.Buffer
		write(&w, document(d), style{})
		t.Fail(s, "its JSON is %s, not %s", b, w.String())
	}
}

// sites are the places of all members of a document.
func sites(v []member, at []int, out *[][]int) {
	for i, m := range v {
		p := append(append([]int{}, at...), i)
		*out = append(*out, p)
		if sub, ok := m.value.([]member); ok {
			sites(sub, p, out)
		}
	}
}

// without has a member removed, or null.
func without(v []member, at []int, null bool) []member {
	out := append([]member{}, v...)
	i := at[0]
	if len(at) > 1 {
		out[i].value = without(out[i].value.([]member), at[1:], null)
		return out
	}
	if null {
		out[i].value = nil
		return out
	}
	return append(out[:i], out[i+1:]...)
}

// zeroed has the field of a member at its zero value.
func zeroed(d *edtf.EDTFDate, v []member, at []int) {
	var path []string
	for _, i := range at {
		path = append(path, v[i].name)
		if sub, ok := v[i].value.([]member); ok {
			v = sub
		}
	}
	x := reflect.ValueOf(d).Elem()
	for _, n := range path {
		if x.Kind() == reflect.Ptr {
			x = x.Elem()
		}
		x = x.FieldByName(fields[n])
	}
	x.Set(reflect.Zero(x.Type()))
}

// clone copies a date, so that no two of its parts are the same.
func clone(d *edtf.EDTFDate) *edtf.EDTFDate {
	date := func(d *edtf.Date) *edtf.Date {
		if d == nil {
			return nil
		}
		c := *d
		if d.YMD != nil {
			y := *d.YMD
			c.YMD = &y
		}
		if d.Timestamp != nil {
			ts := *d.Timestamp
			c.Timestamp = &ts
		}
		return &c
	}
	rng := func(r *edtf.DateRange) *edtf.DateRange {
		if r == nil {
			return nil
		}
		c := *r
		c.Lower, c.Upper = date(r.Lower), date(r.Upper)
		return &c
	}
	c := *d
	c.Start, c.End = rng(d.Start), rng(d.End)
	return &c
}

var fields = map[string]string{"start": "Start", "end": "End", "edtf": "EDTF", "level": "Level", "feature": "Feature", "lower": "Lower", "upper": "Upper", "datetime": "DateTime", "timestamp": "Timestamp", "ymd": "YMD",
	"year": "Year", "month": "Month", "day": "Day", "uncertain": "Uncertain", "approximate": "Approximate", "unspecified": "Unspecified", "precision": "Precision", "open": "Open", "unknown": "Unknown", "inclusivity": "Inclusivity"}

func spaces(tier string) []explore.Space {
	size := 0
	if tier == "thorough" {
		size = 1
	}
	step := 2
	if tier == "thorough" {
		step = 1
	}
	var seeds []string
	for i, s := range gen.Seeds {
		if i%step == 0 {
			seeds = append(seeds, s)
		}
	}
	styles := []style{{}, {" ", false, false}, {"\n\t", true, false}, {"", true, true}}
	sp := []explore.Space{
		gen.CorpusSpace(size, form),
		gen.EditSpace(form),
		{Name: "years", Desc: "every year -9999..9999 as year, month, interval end and set member", Body: func(t *explore.T) {
			y := model.YearText(t.Choose(19999) - 9999)
			form(t, t.Pick([]string{y, y + "-02?", y + "/..", "/" + y, "{.." + y + "}", y + "-12-31T23:59:59Z"}))
		}},
		{Name: "members", Desc: "documents of strings of every feature, in four spellings, with each member and each two members as they are, left out or null: what is read is what is written, and the zero value for what is not", Body: func(t *explore.T) {
			s := t.Pick(seeds)
			d := parsed(t, s)
			if d == nil {
				return
			}
			doc := document(d)
			d = clone(d)
			var all [][]int
			sites(doc, nil, &all)
			edits := t.Choose(3)
			st := styles[0]
			if edits < 2 {
				st = styles[t.Choose(len(styles))]
			}
			in := fmt.Sprintf("%q %+v", s, st)
			for k := 0; k < edits; k++ {
				at := all[t.Choose(len(all))]
				null := t.Bool()
				if !still(doc, at) {
					return
				}
				in += fmt.Sprint(at, null)
				zeroed(d, doc, at)
				doc = without(doc, at, null)
				if !null {
					break // places are no longer those of all
				}
			}
			var b bytes.Buffer
			write(&b, doc, st)
			t.Input(in)
			e, err := read(t, b.Bytes())
			t.Compared()
			t.State(explore.Hash(b.String()))
			if err != nil {
				t.Fail(in, "reading %s fails: %v", b.String(), err)
				return
			}
			if !reflect.DeepEqual(d, e) {
				g, _ := json.Marshal(e)
				t.Fail(in, "%s is read as %s", b.String(), g)
			}
		}},
		{Name: "reused", Desc: "the document of each string of every feature, read into a date that was read from each of some other documents before: each value it states replaces the earlier one", Body: func(t *explore.T) {
			before := []string{"1985-04-12", "1970", "-0400-02-29T10:00:00", "../2004-06?", "[1667,1760-12]", "1985/", "201X-XX"}
			a, s := t.Pick(before), t.Pick(gen.Seeds)
			e, d := parsed(t, a), parsed(t, s)
			if e == nil || d == nil {
				return
			}
			// every bound, and what it points to, is there before
			e = clone(e)
			for _, r := range []*edtf.DateRange{e.Start, e.End} {
				for _, b := range []*edtf.Date{r.Lower, r.Upper} {
					if b.Timestamp == nil {
						other := parsed(t, "1999-12-31")
						b.Timestamp, b.YMD = clone(other).Start.Lower.Timestamp, clone(other).Start.Lower.YMD
					}
				}
			}
			in := a + " then " + s
			t.Input(in)
			var b bytes.Buffer
			write(&b, document(d), style{})
			t.Begin()
			err := json.Unmarshal(b.Bytes(), e)
			t.End()
			t.Compared()
			t.State(explore.Hash(in))
			if err != nil {
				t.Fail(in, "the second document is refused: %v", err)
				return
			}
			if e.EDTF != d.EDTF || e.Level != d.Level || e.Feature != d.Feature || e.Start.EDTF != d.Start.EDTF || e.End.EDTF != d.End.EDTF {
				t.Fail(in, "the texts, level or feature are not those of the second document: %+v", e)
				return
			}
			got := []*edtf.Date{e.Start.Lower, e.Start.Upper, e.End.Lower, e.End.Upper}
			for i, w := range []*edtf.Date{d.Start.Lower, d.Start.Upper, d.End.Lower, d.End.Upper} {
				g := got[i]
				switch {
				case w.Timestamp != nil && (g.Timestamp == nil || g.Timestamp.Unix() != w.Timestamp.Unix() || g.DateTime != w.DateTime):
					t.Fail(in, "bound %d is %+v (%v), and the second document says %+v (%v)", i, *g, g.Timestamp, *w, w.Timestamp)
				case (w.YMD == nil) != (g.YMD == nil) || w.YMD != nil && *w.YMD != *g.YMD:
					t.Fail(in, "bound %d has %v, and the second document says %v", i, g.YMD, w.YMD)
				case w.Precision != 0 && g.Precision != w.Precision || w.Uncertain != 0 && g.Uncertain != w.Uncertain || w.Approximate != 0 && g.Approximate != w.Approximate || w.Inclusivity != 0 && g.Inclusivity != w.Inclusivity || w.Open && !g.Open || w.Unknown && !g.Unknown:
					t.Fail(in, "bound %d has the flags of %+v, and the second document says %+v", i, *g, *w)
				}
			}
		}},
		{Name: "flags", Desc: "a document with every value 0..511 of each set of flags and each mark", Body: func(t *explore.T) {
			name := t.Pick([]string{"uncertain", "approximate", "unspecified", "precision", "inclusivity", "open", "unknown"})
			n := t.Choose(512)
			var w edtf.Date
			var doc string
			f := reflect.ValueOf(&w).Elem().FieldByName(fields[name])
			if f.Kind() == reflect.Bool {
				f.SetBool(n%2 == 1)
				doc = fmt.Sprintf(`{"%s": %v, "ymd": null}`, name, n%2 == 1)
			} else {
				f.SetUint(uint64(n))
				doc = fmt.Sprintf(`{"%s": %d, "ymd": null}`, name, n)
			}
			t.Input(doc)
			var e edtf.Date
			t.Begin()
			err := json.Unmarshal([]byte(doc), &e)
			b, merr := json.Marshal(&w)
			t.End()
			t.Compared()
			t.State(explore.Hash(doc))
			if err != nil || !reflect.DeepEqual(e, w) {
				t.Fail(doc, "is read as %+v %v", e, err)
				return
			}
			got, gerr := generic(b)
			if merr != nil || gerr != nil || !reflect.DeepEqual(got, plain(ofDate(&w))) {
				t.Fail(doc, "is written as %s", b)
			}
		}},
		{Name: "timestamps", Desc: "every text of a timestamp of at most four letters of numbers and other JSON, alone, around powers of two, and in quotation marks", Body: func(t *explore.T) {
			var s string
			switch t.Choose(2) {
			case 0:
				s = gen.Chars(t, 4, []string{"0", "1", "7", "-", "+", ".", "e", "E", "_", "x", " ", "\"", "n", "ull", "true", "[", "]", "{}", ","})
			case 1:
				base := []int64{0, 1 << 7, 1 << 15, 1 << 31, 1 << 32, 1 << 53, 1 << 62, 253402300799, 62135596800, 377705116800}[t.Choose(10)]
				s = strconv.FormatInt(base+int64(t.Choose(9))-4, 10)
				if t.Bool() {
					s = "-" + s
				}
				switch t.Choose(7) {
				case 1:
					s += "0"
				case 2:
					s += ".0"
				case 3:
					s += "e0"
				case 4:
					s = "9" + s
				case 5:
					s += "99999999999999999999"
				case 6:
					s = []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616"}[t.Choose(5)]
				}
			}
			if t.Bool() {
				s = `"` + s + `"`
			}
			stamp(t, s)
		}},
	}
	return sp
}

func still(v []member, at []int) bool {
	for k, i := range at {
		if i >= len(v) {
			return false
		}
		sub, ok := v[i].value.([]member)
		if k == len(at)-1 {
			return true
		}
		if !ok {
			return false
		}
		v = sub
	}
	return true
}

// stamp reads a timestamp with the given text.
func stamp(t *explore.T, s string) {
	doc := `{"timestamp":` + s + `,"ymd":null}`
	t.Input(doc)
	var d edtf.Date
	t.Begin()
	err := json.Unmarshal([]byte(doc), &d)
	t.End()
	t.Compared()
	t.State(explore.Hash(doc))
	if !json.Valid([]byte(doc)) {
		if err == nil {
			t.Fail(doc, "is no JSON, but is read")
		}
		return
	}
	var m map[string]json.RawMessage
	if json.Unmarshal([]byte(doc), &m) != nil || len(m) != 2 {
		return // more members than these
	}
	text := strings.TrimSpace(string(m["timestamp"]))
	if text == "null" {
		if err != nil || d.Timestamp != nil {
			t.Fail(doc, "a timestamp of null is read as %v %v", d.Timestamp, err)
		}
		return
	}
	quoted := strings.HasPrefix(text, `"`)
	n, nerr := strconv.ParseInt(strings.Trim(text, `"`), 10, 64)
	switch {
	case nerr != nil && err == nil:
		t.Fail(doc, "no signed 64-bit integer, but read as %d", d.Timestamp.Unix())
	case nerr == nil && err != nil && !quoted:
		t.Fail(doc, "refused: %v", err)
	case nerr == nil && err == nil && (d.Timestamp == nil || d.Timestamp.Unix() != n):
		t.Fail(doc, "read as %v", d.Timestamp)
	}
	if nerr == nil && err == nil && d.Timestamp != nil {
		t.Begin()
		b, merr := json.Marshal(d.Timestamp)
		t.End()
		if merr != nil || string(b) != strconv.FormatInt(n, 10) {
			t.Fail(doc, "written back as %s", b)
		}
	}
}
