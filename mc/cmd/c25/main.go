// C25: open, unknown and deprecated keywords are recognised exactly.
package main

import (
	"fmt"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/view"

	"github.com/sfomuseum/go-edtf"
	"github.com/sfomuseum/go-edtf/parser"
)

func main() {
	explore.Main(explore.Check{Property: "C25", Spaces: spaces})
}

func one(t *explore.T, s string) {
	t.Input(s)
	t.Begin()
	open, unknown, unspec, dep := edtf.IsOpen(s), edtf.IsUnknown(s), edtf.IsUnspecified(s), edtf.IsDeprecated(s)
	cur, err := edtf.ReplaceDeprecated(s)
	t.End()
	t.Compared()
	t.State(explore.Hash(open, unknown, unspec, dep, len(s)))
	wopen := s == ".." || s == "open"
	wunk := s == "" || s == "uuuu"
	wdep := s == "open" || s == "uuuu"
	if open != wopen || unknown != wunk || unspec != wunk || dep != wdep {
		t.Fail(s, "open %v, unknown %v, unspecified %v, deprecated %v", open, unknown, unspec, dep)
		return
	}
	if !wdep {
		if err == nil {
			t.Fail(s, "is not deprecated, but is replaced by %q", cur)
		}
	} else {
		want := map[string]string{"open": "..", "uuuu": ""}[s]
		if err != nil || cur != want {
			t.Fail(s, "is replaced by %q %v, not by %q", cur, err, want)
			return
		}
		t.Begin()
		ok := !edtf.IsDeprecated(cur) && edtf.IsOpen(cur) == open && edtf.IsUnknown(cur) == unknown && edtf.IsUnspecified(cur) == unspec
		_, perr := parser.ParseString(cur)
		t.End()
		if !ok || perr != nil {
			t.Fail(s, "its current form %q has another classification, is deprecated or does not parse (%v)", cur, perr)
			return
		}
	}
	if s != ".." && s != "" {
		return
	}
	d, perr := view.Parse(t, s)
	if w := view.Whole(d, perr); w != "" || perr != nil {
		t.Fail(s, "does not parse: %s %v", w, perr)
		return
	}
	for i, b := range []*edtf.Date{d.Start.Lower, d.Start.Upper, d.End.Lower, d.End.Upper} {
		if b.Open != open || b.Unknown != unknown || b.Timestamp != nil || b.DateTime != "" || b.YMD != nil {
			t.Fail(s, "bound %d of the parsed date is %+v", i, *b)
			return
		}
	}
	if d.Start == d.End || d.Start.Lower == d.Start.Upper {
		t.Fail(s, "bounds are shared")
	}
}

func spaces(tier string) []explore.Space {
	n := 6
	if tier == "thorough" {
		n = 7
	}
	letters := []string{".", "o", "p", "e", "n", "u", " ", "O", "U", "x", "\x00"}
	return []explore.Space{
		{Name: "words", Desc: fmt.Sprintf("every string of at most %d of the letters of the keywords and some others", n), Body: func(t *explore.T) { one(t, gen.Chars(t, n, letters)) }},
		{Name: "keyword edits", Desc: "every two edits of the four keywords", Body: func(t *explore.T) {
			s := gen.Edit(t, t.Pick([]string{"..", "open", "", "uuuu"}), gen.EditLetters)
			if t.Bool() {
				s = gen.Edit(t, s, gen.EditLetters)
			}
			one(t, s)
		}},
		{Name: "cases", Desc: "every letter case of the keywords and of similar words", Body: func(t *explore.T) {
			w := t.Pick([]string{"open", "uuuu", "unknown", "unspecified", "opened", "uuu", "...", ".", "null", "nil", "none", "2012", "1985", "xxxx", "now", "present", "today"})
			b := []byte(w)
			for i := range b {
				if b[i] >= 'a' && t.Bool() {
					b[i] -= 32
				}
			}
			one(t, string(b))
		}},
		{Name: "runes", Desc: "every Unicode code point alone, doubled, before, after and in place of the parts of the keywords", Body: func(t *explore.T) {
			r := string(rune(t.Choose(0x110)*0x1000 + t.Choose(0x1000)))
			one(t, t.Pick([]string{r, r + r, "." + r, r + ".", ".." + r, r + "..", "." + r + ".", "open" + r, r + "open", "uuuu" + r, r + "uuuu", r + "pen", "o" + r + "en", "op" + r + "n", "ope" + r, "uuu" + r, r + "uuu"}))
		}},
		{Name: "bytes", Desc: "every string of at most three bytes", Body: func(t *explore.T) {
			n := t.Choose(4)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(t.Choose(256))
			}
			one(t, string(b))
		}},
		gen.CorpusSpace(0, one),
	}
}
