package model

import "strings"

// Shape reports whether a string as a whole has the written shape of some supported feature,
// whatever the values of its digits. It is deliberately generous: it decides only what is
// certainly not EDTF.
func Shape(s string) bool { return s == "" || s == ".." || Shape0(s) || Shape1(s) || Shape2(s) }

func digits(s string, n int) bool {
	if len(s) != n {
		return false
	}
	for i := 0; i < n; i++ {
		if !isDigit(s[i]) {
			return false
		}
	}
	return true
}

func plainDate(s string) bool {
	e, ok := ParseExpr(s)
	return ok && !e.qual() && !e.hasX()
}

func exprShape(s string) bool { _, ok := ParseExpr(s); return ok }

// Shape0 is the shape of Level 0: date, date and time, interval of dates.
func Shape0(s string) bool {
	if plainDate(s) {
		return true
	}
	if i := strings.IndexByte(s, 'T'); i > 0 && plainDate(s[:i]) {
		t := s[i+1:]
		if len(t) < 8 || !digits(t[0:2], 2) || t[2] != ':' || !digits(t[3:5], 2) || t[5] != ':' || !digits(t[6:8], 2) {
			return false
		}
		z := t[8:]
		switch {
		case z == "" || z == "Z":
			return true
		case z[0] != '+' && z[0] != '-':
			return false
		case len(z) == 3:
			return digits(z[1:], 2)
		case len(z) == 6:
			return digits(z[1:3], 2) && z[3] == ':' && digits(z[4:], 2)
		}
		return false
	}
	if i := strings.IndexByte(s, '/'); i > 0 {
		return plainDate(s[:i]) && plainDate(s[i+1:])
	}
	return false
}

// Shape1 is the shape of Level 1: Y-years, seasons, qualified dates, unspecified digits, open and unknown intervals.
func Shape1(s string) bool {
	if e, ok := ParseExpr(s); ok {
		_ = e
		return true
	}
	if i := strings.IndexByte(s, '/'); i >= 0 {
		a, b := s[:i], s[i+1:]
		end := func(h string) bool { return h == "" || h == ".." || exprShape(h) }
		return end(a) && end(b)
	}
	if _, _, exp, _, _, _, ok := letteredYear(s); ok && !exp {
		return true
	}
	if i := strings.IndexByte(s, ','); i > 0 && s[0] != '[' && s[0] != '{' {
		w := strings.TrimRight(s[:i], " \t\r\n\f")
		y := strings.TrimLeft(s[i+1:], " \t\r\n\f")
		w = strings.ReplaceAll(w, "\u017f", "s") // the other lower case of S
		_, ok := words[asciiLower(w)]
		return ok && digits(y, 4)
	}
	return false
}

// Shape2 is the shape of Level 2: exponential years, significant digits, groupings, sets, qualified components,
// unspecified digits, intervals of those.
func Shape2(s string) bool {
	if exprShape(s) {
		return true
	}
	if i := strings.IndexByte(s, '/'); i >= 0 {
		return exprShape(s[:i]) && exprShape(s[i+1:])
	}
	if _, _, exp, _, _, _, ok := letteredYear(s); ok && exp {
		return true
	}
	if i := strings.IndexByte(s, 'S'); i > 0 {
		if _, ok := decimal(s[i+1:]); !ok {
			return false
		}
		if e, ok := ParseExpr(s[:i]); ok {
			return !e.HasM && !e.qual() && !e.hasX()
		}
		_, _, _, _, _, _, ok := letteredYear(s[:i])
		return ok
	}
	return setShape(s)
}

// setShape: ( [ | { ) [..] (date [, | ..])+ [..] ( ] | } )
func setShape(s string) bool {
	if len(s) < 3 || s[0] != '[' && s[0] != '{' {
		return false
	}
	c := s[len(s)-1]
	if c != ']' && c != '}' {
		return false
	}
	b := s[1 : len(s)-1]
	n := len(b)
	// reach[i]: b[:i] is [..](date[,|..])*, with at least one date if any
	reach := make([]bool, n+1)
	some := make([]bool, n+1)
	reach[0] = true
	if strings.HasPrefix(b, "..") {
		reach[2] = true
	}
	for i := 0; i <= n; i++ {
		if !reach[i] {
			continue
		}
		for l := 4; l <= 11 && i+l <= n; l++ {
			if !plainDate(b[i : i+l]) {
				continue
			}
			for _, sep := range []string{"", ",", ".."} {
				if strings.HasPrefix(b[i+l:], sep) {
					reach[i+l+len(sep)] = true
					some[i+l+len(sep)] = true
				}
			}
		}
	}
	if some[n] {
		return true
	}
	return n >= 2 && some[n-2] && b[n-2:] == ".."
}
