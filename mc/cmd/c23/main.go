// C23: the WebAssembly builds give the same answers as the native library.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"unicode/utf8"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/nodejs"

	"github.com/sfomuseum/go-edtf/parser"
)

func main() {
	explore.Main(explore.Check{Property: "C23", Spaces: spaces, Assumptions: []string{
		"strings are valid UTF-8, as all that a browser or a WASI host can hand over, and those of WASI have no NUL",
		"both modules are built by the Go toolchain from the same tree and run by Node (node:wasi; wasm_exec.js of the toolchain); TinyGo's wasip2 build is not available here",
		"arguments of the WASI program follow --, so that none is taken for a flag",
	}})
}

// native is what the library linked into this check answers.
func native(t *explore.T, s string) (jsn interface{}, text string, ok bool) {
	t.Begin()
	d, err := parser.ParseString(s)
	t.End()
	if err != nil {
		return nil, err.Error(), false
	}
	b, err := json.Marshal(d)
	if err != nil {
		return nil, err.Error(), false
	}
	return decode(b), string(b), true
}

func decode(b []byte) interface{} {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var v interface{}
	if err := dec.Decode(&v); err != nil {
		return err
	}
	return v
}

var bin = os.Getenv("MC_BIN")

// wasi compares the output of the WASI program for the strings, in lists of n.
func wasi(t *explore.T, strs []string, n int) {
	{
		var lists [][]string
		for i := 0; i < len(strs); i += n {
			j := i + n
			if j > len(strs) {
				j = len(strs)
			}
			lists = append(lists, strs[i:j])
		}
		dir, err := os.MkdirTemp("", "wasi")
		if err != nil {
			panic(err)
		}
		_, err = nodejs.Run([]string{filepath.Join(bin, "wasi.mjs"), bin, dir}, lists)
		var bad string
		for i, l := range lists {
			out, ferr := os.ReadFile(filepath.Join(dir, fmt.Sprint(i)))
			code, cerr := os.ReadFile(filepath.Join(dir, fmt.Sprint(i)+".code"))
			if ferr != nil {
				out = nil
			}
			for _, s := range l {
				var why string
				out, why = answer(t, s, out)
				t.Compared()
				if why != "" {
					if cerr != nil {
						code = []byte(fmt.Sprint(err))
					}
					t.Fail(s, "the WASI program %s (exit %s)", why, code)
					bad = s
					break
				}
			}
			if bad == "" && len(bytes.TrimSpace(out)) > 0 {
				t.Fail(fmt.Sprint(l), "the WASI program prints more than its answers: %q", out)
				bad = "more"
			}
			if bad != "" {
				break
			}
		}
		os.RemoveAll(dir)
	}
}

// answer takes the answer for s off the output.
func answer(t *explore.T, s string, out []byte) ([]byte, string) {
	v, text, ok := native(t, s)
	t.State(explore.Hash(text))
	if !ok {
		if !bytes.HasPrefix(out, []byte(text+"\n")) {
			return out, fmt.Sprintf("prints %q and not the error text %q", head(out), text)
		}
		return out[len(text)+1:], ""
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	dec.UseNumber()
	var g interface{}
	if err := dec.Decode(&g); err != nil {
		return out, fmt.Sprintf("prints %q and not %s", head(out), text)
	}
	if !reflect.DeepEqual(g, v) {
		return out, fmt.Sprintf("prints %s and not %s", head(out), text)
	}
	out = out[dec.InputOffset():]
	if len(out) > 0 && out[0] == '\n' {
		out = out[1:]
	}
	return out, ""
}

func head(b []byte) string {
	if i := bytes.IndexByte(b, '\n'); i > 0 {
		b = b[:i]
	}
	if len(b) > 1200 {
		b = b[:1200]
	}
	return string(b)
}

// js compares the promises of parse_edtf.
func js(t *explore.T, strs []string, how string) {
	out, err := nodejs.Run([]string{filepath.Join(bin, "js.mjs"), bin, how}, strs)
	sc := bufio.NewReader(bytes.NewReader(out))
	for _, s := range strs {
		line, rerr := sc.ReadBytes('\n')
		var r [2]string
		if rerr != nil || json.Unmarshal(line, &r) != nil {
			t.Fail(s, "parse_edtf gives no answer: the program ends: %v", err)
			return
		}
		t.Compared()
		v, text, ok := native(t, s)
		t.State(explore.Hash(text, "js"))
		switch {
		case ok && r[0] != "resolved":
			t.Fail(s, "the promise is %s: %s", r[0], r[1])
		case ok && !reflect.DeepEqual(decode([]byte(r[1])), v):
			t.Fail(s, "the promise resolves with %s and not %s", r[1], text)
		case !ok && r[0] != "rejected":
			t.Fail(s, "the promise is %s (%s), and not rejected", r[0], r[1])
		case !ok && !strings.Contains(r[1], text):
			t.Fail(s, "the promise is rejected with %q, which does not have the error text %q", r[1], text)
		case !ok && !strings.Contains(r[1], s):
			t.Fail(s, "the promise is rejected with %q, which does not have the string", r[1])
		}
		if t.Failed() {
			return
		}
	}
}

func usable(s string) bool { return utf8.ValidString(s) && !strings.ContainsRune(s, 0) }

func list(mk func(f gen.Do) explore.Space, step int) []string {
	var out []string
	sp := mk(func(t *explore.T, s string) {
		if usable(s) {
			out = append(out, s)
		}
	})
	explore.Enumerate(sp.Body)
	out = gen.Uniq(out)
	if step > 1 {
		var few []string
		for i := 0; i < len(out); i += step {
			few = append(few, out[i])
		}
		out = few
	}
	return out
}

func spaces(tier string) []explore.Space {
	size, chars, tokens, editStep, numStep := -1, 2, 2, 5, 5
	if tier == "thorough" {
		size, chars, tokens, editStep, numStep = 0, 3, 3, 1, 1
	}
	seeds := []string{"é", "日本", "\u2028", "\U0001F600", "2004\u00a0", "２００４", "\ufffd", "\ufeff2004", "%s", "%d", "'", "\"", "<&>", "2004%", "null", "undefined", "[]", "{}", "\\", "\\n", "\t", strings.Repeat("9", 3000), strings.Repeat("[2004,", 400), "-", "--", "-h", "-help", "--x=1"}
	for _, s := range gen.Seeds {
		if usable(s) {
			seeds = append(seeds, s)
		}
	}
	var longs []string
	for _, n := range []int{100, 255, 256, 1000, 1023, 1024, 4095, 4096, 4097, 8192, 20000, 65535, 65536, 200000} {
		for _, x := range []string{"9", "x", "é", "<", "\U0001F600"} {
			longs = append(longs, strings.Repeat(x, n))
		}
		if n <= 8192 {
			longs = append(longs, "[1999"+strings.Repeat(",2004-06-11", n/11)+"]", "Y"+strings.Repeat("0", n)+"E1", "Spring"+strings.Repeat(" ", n)+",2001")
		}
	}
	var nuls []string
	for _, s := range gen.Seeds {
		if utf8.ValidString(s) {
			nuls = append(nuls, s+"\x00", "\x00"+s, s+"\x00"+s, s[:len(s)/2]+"\x00"+s[len(s)/2:])
		}
	}
	sets := []struct {
		name, desc string
		strs       []string
	}{
		{"seeds", "strings of every feature and failure, and text that is no ASCII, or special to JSON, JavaScript or formatting", seeds},
		{"long", "strings of up to 200000 characters", longs},
		{"nuls", "strings with a NUL character (for the promises only)", gen.Uniq(nuls)},
		{"features", "strings of every feature", list(func(f gen.Do) explore.Space { return gen.CorpusSpace(size, f) }, 1)},
		{"edits", "single edits of strings of every feature", list(gen.EditSpace, editStep)},
		{"numbers", "years, exponents and counts of every size", list(gen.NumberSpace, numStep)},
		{"chars", fmt.Sprintf("every string of at most %d letters", chars), list(func(f gen.Do) explore.Space { return gen.CharSpace(chars, f) }, 1)},
		{"tokens", fmt.Sprintf("every string of at most %d tokens", tokens), list(func(f gen.Do) explore.Space { return gen.TokenSpace(tokens, f) }, 1)},
	}
	const chunk = 3000
	var sp []explore.Space
	for _, x := range sets {
		x := x
		n := (len(x.strs) + chunk - 1) / chunk
		desc := fmt.Sprintf("%s (%d strings), given to the WASI program in lists of 1000, and to parse_edtf one after the other and all at once", x.desc, len(x.strs))
		sp = append(sp, explore.Space{Name: x.name, Desc: desc, Body: func(t *explore.T) {
			i := t.Choose(n) * chunk
			j := i + chunk
			if j > len(x.strs) {
				j = len(x.strs)
			}
			how := t.Choose(3)
			if how == 0 && x.name == "nuls" {
				return
			}
			t.Input(fmt.Sprintf("%s %d to %d, %s", x.name, i, j, []string{"WASI", "promises in turn", "promises at once"}[how]))
			defer t.Waiting()()
			switch how {
			case 0:
				wasi(t, x.strs[i:j], 1000)
			case 1:
				js(t, x.strs[i:j], "each")
			case 2:
				js(t, x.strs[i:j], "all")
			}
		}})
	}
	sp = append(sp, explore.Space{Name: "alone", Desc: "each seed as the only argument of a WASI program", Body: func(t *explore.T) {
		const n = 20
		i := t.Choose((len(seeds)+n-1)/n) * n
		j := i + n
		if j > len(seeds) {
			j = len(seeds)
		}
		t.Input(fmt.Sprintf("seeds %d to %d", i, j))
		defer t.Waiting()()
		wasi(t, seeds[i:j], 1)
	}})
	return sp
}
