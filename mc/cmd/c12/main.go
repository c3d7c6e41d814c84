// C12: only strings with EDTF syntax are valid, and whatever parses is valid.
package main

import (
	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/view"

	"github.com/sfomuseum/go-edtf/parser"
)

func main() {
	explore.Main(explore.Check{Property: "C12", Spaces: spaces, Assumptions: []string{
		"the written shape of each feature is taken generously (any marks and X at any component), so that only what is certainly not EDTF must be invalid",
	}})
}

func one(t *explore.T, s string) {
	d, err := view.Parse(t, s)
	t.Begin()
	valid := parser.IsValid(s)
	t.End()
	t.Compared()
	t.State(view.StateOf(d, err))
	switch {
	case valid && !model.Shape(s):
		t.Fail(s, "is valid, but as a whole it has no EDTF syntax")
	case err == nil && !model.Shape(s):
		t.Fail(s, "parses, but as a whole it has no EDTF syntax")
	case !valid && err == nil:
		t.Fail(s, "parses but is not valid")
	case !valid && view.ErrClass(err) != model.ErrUnrecognized:
		t.Fail(s, "is not valid but fails as %s: %v", view.ErrClass(err), err)
	case !valid:
		if v := model.Parse(s); v.K == model.Accept {
			t.Fail(s, "is EDTF but not valid")
		}
	}
}

func spaces(tier string) []explore.Space {
	size := 0
	if tier == "thorough" {
		size = 1
	}
	sp := append(gen.Short(tier, one), gen.CorpusSpace(size, one))
	return append(sp,
		explore.Space{Name: "both", Desc: "every two strings of every feature, side by side, and with a character between them",
			Body: func(t *explore.T) {
				one(t, t.Pick(gen.Seeds)+t.Pick([]string{"", " ", "-", "/", ",", "..", "\n", "x"})+t.Pick(gen.Seeds))
			}},
		explore.Space{Name: "wrapped", Desc: "every string of every feature between any two characters",
			Body: func(t *explore.T) { one(t, t.Pick(gen.EditLetters)+t.Pick(gen.Seeds)+t.Pick(gen.EditLetters)) }},
		explore.Space{Name: "bytes", Desc: "every byte, and every rune below U+3000 and some beyond that fold or look like ASCII, in place of or after each character of strings of every feature",
			Body: func(t *explore.T) {
				s := gen.Seeds[t.Choose(len(gen.Seeds))]
				if s == "" {
					s = "2001"
				}
				i := t.Choose(len(s))
				r := t.Choose(256 + len(runes))
				c := ""
				if r < 256 {
					c = string([]byte{byte(r)})
				} else {
					c = string(runes[r-256])
				}
				if t.Bool() {
					one(t, s[:i]+c+s[i+1:])
				} else {
					one(t, s[:i+1]+c+s[i+1:])
				}
			}},
	)
}

var runes = func() []rune {
	out := []rune{0x130, 0x131, 0x17f, 0x212a, 0x2010, 0x2011, 0x2012, 0x2013, 0x2014, 0x2015, 0x2044, 0x2212, 0x2215, 0x3000, 0xfe63, 0xff0d, 0xff0e, 0xff0f, 0xff33, 0xff38, 0xff39, 0xff3b, 0xff3d, 0xfffd, 0x10ffff, 0x1d7ce, 0x2028, 0x2029, 0x85, 0xa0, 0x200b, 0xfeff}
	for _, base := range []rune{0x660, 0x6f0, 0x966, 0xff10} {
		for k := rune(0); k < 10; k++ {
			out = append(out, base+k)
		}
	}
	return out
}()
