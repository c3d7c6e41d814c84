package view

import (
	"verif.local/mc/explore"
	"verif.local/mc/model"
)

// Compare parses s with the implementation and the model, and compares the given aspects.
func Compare(t *explore.T, s string, a Aspect) {
	v := model.Parse(s)
	CompareWith(t, s, &v, a)
}

func CompareWith(t *explore.T, s string, v *model.Verdict, a Aspect) {
	d, err := Parse(t, s)
	t.Compared()
	t.State(StateOf(d, err))
	if m := Check(v, s, d, err, a); m != "" {
		t.Fail(s, "%s", m)
	}
}
