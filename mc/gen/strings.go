package gen

import (
	"fmt"

	"verif.local/mc/explore"
)

// Do is what is done with each string.
type Do func(t *explore.T, s string)

// CharSpace and the others below are spaces of strings.
func CharSpace(n int, f Do) explore.Space {
	return explore.Space{Name: "chars", Desc: num("every string of at most %d characters out of ", n) + num("%d letters of EDTF", len(Letters)),
		Body: func(t *explore.T) { f(t, Chars(t, n, Letters)) }}
}

func TokenSpace(n int, f Do) explore.Space {
	return explore.Space{Name: "tokens", Desc: num("every string of at most %d tokens out of ", n) + num("%d", len(Tokens)),
		Body: func(t *explore.T) { f(t, Chars(t, n, Tokens)) }}
}

func EditSpace(f Do) explore.Space {
	return explore.Space{Name: "edits", Desc: num("every single edit (insertion or replacement by any ASCII character and some longer or other texts, removal, swap, duplication, truncation) of %d strings of every feature", len(Seeds)),
		Body: func(t *explore.T) { f(t, Edit(t, t.Pick(Seeds), EditLetters)) }}
}

// TwoEditSpace has two edits, the second at any place.
func TwoEditSpace(f Do) explore.Space {
	return explore.Space{Name: "edits2", Desc: num("every two edits with %d letters of EDTF", len(FewEditLetters)) + num(" of %d strings of every feature", len(Seeds)),
		Body: func(t *explore.T) {
			s := Edit(t, t.Pick(Seeds), FewEditLetters)
			f(t, Edit(t, s, FewEditLetters))
		}}
}

// SmallTwoEditSpace is a smaller version, with fewer letters.
var tinyLetters = []string{"1", "-", "X", "/", ".", ",", "]", "?", " ", "S", "\n"}

func SmallTwoEditSpace(step int, f Do) explore.Space {
	return explore.Space{Name: "edits2", Desc: num("every two edits with %d letters of EDTF", len(tinyLetters)) + num(" of %d strings, of every feature", (len(Seeds)+step-1)/step),
		Body: func(t *explore.T) {
			s := Edit(t, Seeds[t.Choose((len(Seeds)+step-1)/step)*step], tinyLetters)
			f(t, Edit(t, s, tinyLetters))
		}}
}

func NumberSpace(f Do) explore.Space {
	return explore.Space{Name: "numbers", Desc: "Y, exponential and significant-digit years with digits, exponents and counts of every size, up to 1000 digits",
		Body: func(t *explore.T) { f(t, Number(t)) }}
}

func CorpusSpace(size int, f Do) explore.Space {
	c := NewCorpus(size)
	return explore.Space{Name: "features", Desc: "strings of every feature: dates, date-times with zones, intervals of all pairs of ends, Y-years, seasons and groupings, qualified, unspecified digits, exponents, significant digits, sets",
		Body: func(t *explore.T) { f(t, c.Any(t)) }}
}

// Short has every kind of short and malformed string.
func Short(tier string, f Do) []explore.Space {
	if tier == "thorough" {
		return []explore.Space{EditSpace(f), NumberSpace(f), CharSpace(6, f), TokenSpace(5, f), TwoEditSpace(f)}
	}
	return []explore.Space{EditSpace(f), NumberSpace(f), CharSpace(4, f), TokenSpace(4, f), SmallTwoEditSpace(2, f)}
}

func num(f string, n int) string { return fmt.Sprintf(f, n) }
