// C13: a parsed date survives a JSON round trip unchanged.
package main

import (
	"bytes"
	"encoding/json"
	"reflect"
	"strconv"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"

	"github.com/sfomuseum/go-edtf"
)

func main() {
	explore.Main(explore.Check{Property: "C13", Spaces: spaces, Assumptions: []string{
		"deeply equal is reflect.DeepEqual",
	}})
}

func one(t *explore.T, s string) {
	d, err := view.Parse(t, s)
	if err != nil || d == nil {
		return
	}
	t.Compared()
	t.State(view.StateOf(d, err))
	before := view.Full(d, nil)
	t.Begin()
	b, err := json.Marshal(d)
	t.End()
	if err != nil {
		t.Fail(s, "marshalling fails: %v", err)
		return
	}
	if after := view.Full(d, nil); after != before {
		t.Fail(s, "marshalling changes the date: %s, then %s", before, after)
		return
	}
	var e edtf.EDTFDate
	t.Begin()
	err = json.Unmarshal(b, &e)
	t.End()
	if err != nil {
		t.Fail(s, "unmarshalling %s fails: %v", b, err)
		return
	}
	if w := view.Whole(&e, nil); w != "" {
		t.Fail(s, "after a round trip: %s", w)
		return
	}
	if after := view.Full(&e, nil); after != before {
		t.Fail(s, "after a round trip: %s, before: %s", after, before)
		return
	}
	if !reflect.DeepEqual(d, &e) {
		t.Fail(s, "not deeply equal after a round trip through %s", b)
		return
	}
	for i, x := range bounds(&e) {
		o := bounds(d)[i]
		if (x.Timestamp == nil) != (o.Timestamp == nil) {
			t.Fail(s, "bound %d loses or gains its timestamp", i)
			return
		}
		if x.Timestamp != nil && !x.Timestamp.Time().Equal(*o.Timestamp.Time()) {
			t.Fail(s, "bound %d has time %v, then %v", i, o.Timestamp.Time(), x.Timestamp.Time())
			return
		}
	}
	t.Begin()
	b2, err := json.Marshal(&e)
	t.End()
	if err != nil || !bytes.Equal(b, b2) {
		t.Fail(s, "marshals to %s, then to %s (%v)", b, b2, err)
		return
	}
	t.Begin()
	b3, err := json.Marshal(*d)
	t.End()
	if err != nil || !bytes.Equal(b, b3) {
		t.Fail(s, "marshals to %s as a value and to %s as a pointer (%v)", b3, b, err)
		return
	}
	// unmarshalling into a date that has other contents already
	if used, uerr := view.Parse(t, "2001-02-03?/2004-05-06"); uerr == nil {
		t.Input(s)
		t.Begin()
		err = json.Unmarshal(b, used)
		t.End()
		if err != nil {
			t.Fail(s, "unmarshalling over another date fails: %v", err)
			return
		}
	}
	stamps(t, s, d, b)
}

func bounds(d *edtf.EDTFDate) []*edtf.Date {
	return []*edtf.Date{d.Start.Lower, d.Start.Upper, d.End.Lower, d.End.Upper}
}

// stamps checks the timestamps in the JSON: integers, present exactly where there is an instant.
func stamps(t *explore.T, s string, d *edtf.EDTFDate, b []byte) {
	var m struct {
		Start, End struct{ Lower, Upper map[string]json.RawMessage }
	}
	if err := json.Unmarshal(b, &m); err != nil {
		t.Fail(s, "%s: %v", b, err)
		return
	}
	js := []map[string]json.RawMessage{m.Start.Lower, m.Start.Upper, m.End.Lower, m.End.Upper}
	for i, x := range bounds(d) {
		raw, ok := js[i]["timestamp"]
		if x.Timestamp == nil {
			if ok && string(raw) != "null" {
				t.Fail(s, "bound %d has no instant but the JSON timestamp %s", i, raw)
				return
			}
			continue
		}
		if !ok || string(raw) != strconv.FormatInt(x.Timestamp.Unix(), 10) {
			t.Fail(s, "bound %d is %d but its JSON timestamp is %q", i, x.Timestamp.Unix(), raw)
			return
		}
	}
}

func spaces(tier string) []explore.Space {
	size := 0
	if tier == "thorough" {
		size = 1
	}
	return []explore.Space{
		gen.CorpusSpace(size, one),
		{Name: "years", Desc: "every year -9999..9999 alone, its February and its last day",
			Body: func(t *explore.T) {
				y := t.Choose(200)*100 + t.Choose(100) - 10000
				if y < -9999 {
					return
				}
				one(t, model.YearText(y)+t.Pick([]string{"", "-02", "-12-31", "-21", "-28", "?", "/..", "-12-31T23:59:59-05"}))
			}},
		{Name: "epoch", Desc: "every minute around the epoch, in several forms, so that timestamps of 0 and around it occur in every bound",
			Body: func(t *explore.T) {
				d := t.Pick([]string{"1969-12-31", "1970-01-01"})
				tm := model.Two(t.Choose(24)) + ":" + t.Pick([]string{"00", "01", "30", "59"}) + ":" + t.Pick([]string{"00", "01", "59"})
				one(t, d+"T"+tm+t.Pick([]string{"", "Z", "+01", "-01:30", "-23:59", "+23:59"}))
			}},
		{Name: "zero", Desc: "every form in which a bound is 1970-01-01T00:00:00Z or 1969-12-31T23:59:59Z",
			Body: func(t *explore.T) { one(t, t.Pick(epochs)) }},
		{Name: "values", Desc: "timestamps as JSON on their own: integers of every size and sign, and what is not an integer",
			Body: func(t *explore.T) { value(t) }},
	}
}

var epochs = []string{"1970", "1970-01", "1970-01-01", "1970?", "1970-01~", "1970-01-01%", "?1970", "1970-~01-01", "1969", "1969-12", "1969-12-31", "197X", "19XX", "1970-XX", "1970-01-XX", "1969-XX-XX", "1970/..", "../1970", "1970/1971", "1969/1970-01-01", "/1970-01-01", "1969-12-31/", "Y1970", "Y197E1", "Y197E1S1", "1970S1", "[1970]", "{1970,1971}", "[1960..1969]", "[..1970]", "{1969..}", "1970-33", "1970-37", "1970-40", "1969-41", "1969-36", "1969-39",
	"1970-01-01T00:00:00", "1970-01-01T00:00:00Z", "1970-01-01T05:00:00+05", "1969-12-31T19:00:00-05:00", "..", ""}

func value(t *explore.T) {
	nums := []string{"0", "1", "-1", "59", "-86400", "253402300799", "-377705116800", "2147483647", "2147483648", "-2147483649", "4294967296", "253370764800"}
	s := t.Pick(nums)
	t.Input(s)
	var ts edtf.Timestamp
	t.Begin()
	err := json.Unmarshal([]byte(s), &ts)
	t.End()
	t.Compared()
	if err != nil {
		t.Fail(s, "unmarshalling this timestamp fails: %v", err)
		return
	}
	t.Begin()
	b, err := json.Marshal(ts)
	bp, errp := json.Marshal(&ts)
	u := ts.Unix()
	t.End()
	if err != nil || errp != nil || string(b) != s || string(bp) != s || strconv.FormatInt(u, 10) != s {
		t.Fail(s, "marshals to %s and %s, and is %d (%v %v)", b, bp, u, err, errp)
	}
}
