// C33: the demonstration server serves its page, and the page shows the library's answers.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/mc/explore"
	"verif.local/mc/gen"
	"verif.local/mc/model"
	"verif.local/mc/nodejs"

	"github.com/sfomuseum/go-edtf/parser"
)

func main() {
	explore.Main(explore.Check{Property: "C33", Spaces: spaces, Assumptions: []string{
		"the page runs in Node, in a document model written for this check, with the scripts and the WebAssembly program fetched from the server",
		"a press is handled to its end before the next one, as in a browser",
		"directory listings are neither required nor forbidden",
	}})
}

var bin = os.Getenv("MC_BIN")

func freePort() int {
	l, err := net.Listen("tcp", "localhost:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// folder is the one the servers are started in: it holds files that no request may see.
var folder = sync.OnceValue(func() string {
	d := filepath.Join(bin, "around")
	for _, f := range []string{"secret.txt", "secret.html", "css/secret.txt", "wasm/secret.txt", "files/secret.txt", "static/secret.txt", "index.html", "go.mod", "main.go", "Makefile", "config"} {
		os.MkdirAll(filepath.Dir(filepath.Join(d, f)), 0755)
		if err := os.WriteFile(filepath.Join(d, f), []byte("not to be served\n"), 0644); err != nil {
			panic(err)
		}
	}
	return d
})

type server struct {
	cmd  *exec.Cmd
	addr string
	errs *bytes.Buffer
	done chan error
}

// start starts the server on a free port; it is tried again if another process took the port in between.
func start() (*server, error) {
	var last error
	for try := 0; try < 8; try++ {
		s := &server{addr: fmt.Sprintf("localhost:%d", freePort()), errs: &bytes.Buffer{}, done: make(chan error, 1)}
		_, port, _ := net.SplitHostPort(s.addr)
		s.cmd = exec.Command(filepath.Join(bin, "server-wasm"), "-host", "localhost", "-port", port)
		s.cmd.Env = []string{"PATH=/usr/bin:/bin", "TZ=UTC"}
		s.cmd.Dir = folder()
		s.cmd.Stderr = s.errs
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		if err := s.cmd.Start(); err != nil {
			panic(err)
		}
		go func() { s.done <- s.cmd.Wait() }()
		for i := 0; i < 1000; i++ {
			select {
			case err := <-s.done:
				last = fmt.Errorf("the server ends: %v: %s", err, s.errs)
				i = 1000
				continue
			default:
			}
			if c, err := net.DialTimeout("tcp", s.addr, time.Second); err == nil {
				c.Close()
				if s.listens(port) {
					return s, nil
				}
				last = fmt.Errorf("another process has %s", s.addr)
			}
			time.Sleep(10 * time.Millisecond)
			last = fmt.Errorf("nothing listens on %s", s.addr)
		}
		s.stop()
	}
	return nil, last
}

func (s *server) stop() {
	syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
	select {
	case <-s.done:
	case <-time.After(5 * time.Second):
	}
}

// raw sends a request for exactly this path.
func (s *server) raw(method, path, extra string) (*http.Response, []byte, error) {
	c, err := net.DialTimeout("tcp", s.addr, 10*time.Second)
	if err != nil {
		return nil, nil, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	fmt.Fprintf(c, "%s %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n%s\r\n", method, path, s.addr, extra)
	r, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: method})
	if err != nil {
		return nil, nil, err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	return r, b, err
}

// talk sends requests on one connection, each after the answer to the one before.
func (s *server) talk(n int, ask func(int) (method, path, extra string), check func(int, *http.Response, []byte) string) string {
	c, err := net.DialTimeout("tcp", s.addr, 10*time.Second)
	if err != nil {
		return err.Error()
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(30 * time.Second))
	b := bufio.NewReader(c)
	for i := 0; i < n; i++ {
		method, path, extra := ask(i)
		fmt.Fprintf(c, "%s %s HTTP/1.1\r\nHost: %s\r\n%s\r\n", method, path, s.addr, extra)
		r, err := http.ReadResponse(b, &http.Request{Method: method})
		if err != nil {
			return fmt.Sprintf("no answer to request %d: %v", i+1, err)
		}
		body, err := io.ReadAll(r.Body)
		r.Body.Close()
		if err != nil {
			return fmt.Sprintf("the answer to request %d ends: %v", i+1, err)
		}
		if m := check(i, r, body); m != "" {
			return fmt.Sprintf("request %d: %s", i+1, m)
		}
		if r.Close {
			return ""
		}
	}
	return ""
}

// listens tells whether it is this server that has the port: the socket that listens is one of its files.
func (s *server) listens(port string) bool {
	n, _ := strconv.Atoi(port)
	var socks []string
	for _, f := range []string{"/proc/self/net/tcp", "/proc/self/net/tcp6"} {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) > 9 && w[3] == "0A" && strings.HasSuffix(w[1], fmt.Sprintf(":%04X", n)) {
				socks = append(socks, "socket:["+w[9]+"]")
			}
		}
	}
	if len(socks) == 0 {
		return true // this system does not tell
	}
	dir := fmt.Sprintf("/proc/%d/fd", s.cmd.Process.Pid)
	fds, err := os.ReadDir(dir)
	if err != nil {
		return true
	}
	for _, fd := range fds {
		l, _ := os.Readlink(filepath.Join(dir, fd.Name()))
		for _, k := range socks {
			if k == l {
				return true
			}
		}
	}
	return false
}

// files are what the server must serve, by path: the embedded page and programs of the tree.
func files() map[string][]byte {
	m := map[string][]byte{}
	www := filepath.Join(bin, "tree/app/server/www")
	for _, g := range []string{"*.html", "css/*", "javascript/*"} {
		l, _ := filepath.Glob(filepath.Join(www, g))
		for _, f := range l {
			b, err := os.ReadFile(f)
			if err != nil || strings.HasPrefix(filepath.Base(f), ".") || strings.HasPrefix(filepath.Base(f), "_") {
				continue
			}
			rel, _ := filepath.Rel(www, f)
			m["/"+rel] = b
		}
	}
	b, err := os.ReadFile(filepath.Join(bin, "tree/wasm/parse-js.wasm"))
	if err != nil {
		panic(err)
	}
	m["/wasm/parse-js.wasm"] = b
	m["/"] = m["/index.html"]
	return m
}

var types = map[string]string{".html": "text/html", ".css": "text/css", ".js": "javascript", ".wasm": "application/wasm"}

// clean is the path that a request means, or "".
func clean(p string) string {
	u, err := url.ParseRequestURI(p)
	if err != nil {
		return ""
	}
	return u.Path
}

// place is that path without empty segments, dots, index.html and a slash at
// its end.
func place(p string) string {
	p = path.Clean("/" + p)
	for strings.HasSuffix(p, "/index.html") {
		p = path.Clean(strings.TrimSuffix(p, "index.html"))
	}
	return p
}

func request(t *explore.T, s *server, fs map[string][]byte, method, path string) {
	requestWith(t, s, fs, method, path, "")
}

func requestWith(t *explore.T, s *server, fs map[string][]byte, method, given, extra string) {
	in := strings.TrimSpace(method + " " + given + " " + extra)
	t.Input(in)
	r, body, err := s.raw(method, given, extra)
	t.Compared()
	if err != nil {
		t.Fail(in, "no answer: %v", err)
		return
	}
	t.State(explore.Hash(in, r.StatusCode))
	path := clean(given)
	want, ok := fs[path]
	if ok && strings.Contains(strings.ToLower(given), "%2f") && r.StatusCode == 404 {
		return // a slash that's escaped needn't be one
	}
	if r.StatusCode/100 == 3 && (!ok || path == "/index.html") {
		// to the same place, written otherwise
		u, err := url.Parse(given)
		if err != nil {
			u = &url.URL{Path: path}
		}
		l, err := u.Parse(r.Header.Get("Location"))
		if err != nil || r.Header.Get("Location") == "" || place(l.Path) != place(path) || l.Host != "" && l.Host != u.Host && l.Host != s.addr {
			t.Fail(in, "redirects to %q", r.Header.Get("Location"))
		}
		return
	}
	if ok {
		if r.StatusCode != 200 {
			t.Fail(in, "status %d", r.StatusCode)
			return
		}
		if method == "GET" && !bytes.Equal(body, want) {
			t.Fail(in, "%d bytes that are not the %d of the file", len(body), len(want))
			return
		}
		if method == "HEAD" && (len(body) != 0 || r.Header.Get("Content-Length") != strconv.Itoa(len(want))) {
			t.Fail(in, "length %s, not %d", r.Header.Get("Content-Length"), len(want))
			return
		}
		ext := filepath.Ext(path)
		if path == "/" {
			ext = ".html"
		}
		if ct := r.Header.Get("Content-Type"); !strings.Contains(ct, types[ext]) {
			t.Fail(in, "content type %q", ct)
		}
		return
	}
	if r.StatusCode == 200 && method == "GET" {
		// the file with its place written otherwise, or a listing of a folder
		if f, ok := fs[place(path)]; ok && bytes.Equal(body, f) {
			return
		}
		if p := path; strings.HasSuffix(p, "/") && strings.Contains(r.Header.Get("Content-Type"), "text/html") && bytes.Contains(body, []byte("<pre>")) {
			return
		}
		t.Fail(in, "is none of the server's files, but answered with %q", head(body))
	}
	if r.StatusCode >= 500 {
		t.Fail(in, "status %d", r.StatusCode)
	}
}

func head(b []byte) string {
	if len(b) > 200 {
		b = b[:200]
	}
	return string(b)
}

type line struct {
	Kind     string   `json:"kind"`
	Ready    bool     `json:"ready"`
	Parse    string   `json:"parse"`
	Label    string   `json:"label"`
	Raw      string   `json:"raw"`
	Thrown   string   `json:"thrown"`
	Stays    bool     `json:"stays"`
	Text     string   `json:"text"`
	Visible  bool     `json:"visible"`
	Tags     []string `json:"tags"`
	Markup   string   `json:"markup"`
	Enabled  bool     `json:"enabled"`
	Troubles []string `json:"troubles"`
}

// browse loads the page and presses its button for each text of each list.
func browse(s *server, fault string, lists [][]string) ([]line, error) {
	out, err := nodejs.Run([]string{filepath.Join(bin, "page.mjs"), "http://" + s.addr + "/", fault}, lists)
	var ls []line
	dec := json.NewDecoder(bytes.NewReader(out))
	for dec.More() {
		var l line
		if e := dec.Decode(&l); e != nil {
			return ls, fmt.Errorf("%v %v", e, err)
		}
		ls = append(ls, l)
	}
	return ls, err
}

func generic(b []byte) interface{} {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var v interface{}
	if err := dec.Decode(&v); err != nil {
		return err
	}
	if dec.More() {
		return "more than one"
	}
	return v
}

// shown tells what is wrong with what the page shows for a text.
func shown(t *explore.T, l line) string {
	t.Begin()
	d, err := parser.ParseString(l.Raw)
	var b []byte
	if err == nil {
		b, _ = json.Marshal(d)
	}
	t.End()
	switch {
	case l.Thrown != "":
		return "the page fails: " + l.Thrown
	case !l.Stays:
		return "the press submits the form and leaves the page"
	case !l.Visible:
		return "the result is not visible"
	case !l.Enabled:
		return "the button is disabled afterwards"
	case len(l.Troubles) > 0:
		return fmt.Sprint("an error nobody handles: ", l.Troubles)
	}
	for _, tag := range l.Tags {
		if tag == "script" || tag == "img" || tag == "b" || tag == "svg" {
			return fmt.Sprintf("the text is shown as markup: %s", l.Markup)
		}
	}
	if err == nil {
		got := generic([]byte(l.Text))
		if !reflect.DeepEqual(got, generic(b)) {
			return fmt.Sprintf("the page shows %s, not %s", l.Text, b)
		}
		return ""
	}
	if !strings.Contains(l.Text, err.Error()) {
		return fmt.Sprintf("the page shows %q, without the error %q", l.Text, err)
	}
	if strings.Count(l.Text, err.Error()) > 1 || len(l.Text) > 2*len(err.Error())+len(l.Raw)+200 {
		return fmt.Sprintf("the page shows more than the error: %q", l.Text)
	}
	return ""
}

func page(t *explore.T, s *server, lists [][]string) {
	defer t.Waiting()()
	ls, err := browse(s, "none", lists)
	i := 0
	var story []string
	for _, l := range ls {
		switch l.Kind {
		case "start", "scripts":
			if l.Ready && l.Parse != "function" {
				t.Fail("load", "the button is enabled before the program is there (%s)", l.Kind)
				return
			}
		case "loaded":
			if !l.Ready || l.Parse != "function" {
				t.Fail("load", "after loading, the button is enabled: %v, and parse_edtf is a %s %v", l.Ready, l.Parse, l.Troubles)
				return
			}
		case "press":
			story = append(story, strconv.Quote(l.Raw))
			if len(story) > 4 {
				story = story[1:]
			}
			t.Compared()
			t.State(explore.Hash(story))
			i++
			if m := shown(t, l); m != "" {
				t.Fail(strings.Join(story, " then "), "%s", m)
				return
			}
		}
	}
	n := 0
	for _, l := range lists {
		n += len(l)
	}
	if i != n {
		if err == nil || strings.Contains(err.Error(), "signal") {
			panic(fmt.Sprintf("%d of %d presses: %v", i, n, err))
		}
		t.Fail(strings.Join(story, " then "), "the page has no answer to press %d of %d: %v", i+1, n, err)
	}
}

var presses = []string{"2004-06-11", "..", "", "hello", "2001-02-30", "[1667,1668..]", "<b>2004</b>", "2004-06-~11/2005", "Y170000002"}

func spaces(tier string) []explore.Space {
	var once sync.Once
	var fs map[string][]byte
	with := func(t *explore.T, f func(s *server)) {
		once.Do(func() { fs = files() })
		s, err := start()
		if err != nil {
			t.Fail("start", "%v", err)
			return
		}
		defer s.stop()
		f(s)
	}
	segments := []string{"", ".", "..", "%2e%2e", "wasm", "css", "javascript", "index.html", "parse-js.wasm", "index.js", "index.css", "www.go", "main.go", "go.mod", "etc", "passwd", "sfomuseum.golang.wasm.bundle.js", "bootstrap.min.css", "%2f", "..%2f..%2f", "?raw=2004", "wasm.go", "parse-p1.wasm"}
	depth := 3
	texts := append([]string{}, presses...)
	var seeds []string
	step := 1
	for i, s := range gen.Seeds {
		if i%step == 0 && !strings.ContainsAny(s, "\x00\r\n") {
			seeds = append(seeds, s)
		}
	}
	var years []string
	for y := -9999; y <= 9999; y += 41 {
		years = append(years, model.YearText(y))
	}
	odd := []string{"<img src=x onerror=alert(1)>", "<script>alert(1)</script>", "&lt;b&gt;", "\"", "'", "\\", "%s", "%", "2004%", "é", "日本", "\u2028", "2004 ", " 2004", strings.Repeat("9", 5000), "{}", "null", "[]", "__proto__", "Spring, 2001", "open", "uuuu", "\t"}
	prefixes := []string{"", "/files", "/file", "/static", "/assets", "/public", "/www", "/app/server/www", "/src", "/data", "/debug", "/debug/pprof", "/debug/vars", "/metrics", "/admin", "/api", "/wasm", "/css", "/javascript", "/js", "/img", "/fonts", "/tmp", "/root", "/home", "/proc", "/proc/self", "/etc", "/.git", "/..", "/wasm/..", "/wasm/../..", "/css/../..", "//", "/.", "/www/wasm", "/wasm/wasm", "/javascript/wasm", "/healthz", "/parse", "/download", "/dist", "/build", "/lib", "/docs"}
	names := []string{"/", "/secret.txt", "/css/secret.txt", "/wasm/secret.txt", "/secret.html", "/cmdline", "/heap", "/environ", "/passwd", "/main.go", "/go.mod", "/config", "/HEAD", "/index", "/style.css", "/favicon.ico", "/parse.wasm", "/Makefile", "/www.go", "/.htaccess", "/index.html.bak", "/index.js.map", "/robots.txt", "/sitemap.xml", "/?raw=secret.txt", "/?file=secret.txt", "/?path=secret.txt"}
	return []explore.Space{
		{Name: "elsewhere", Desc: fmt.Sprintf("requests for %d names in %d folders that are none of the site's, to a server started among files of such names", len(names), len(prefixes)), Body: func(t *explore.T) {
			f := prefixes[t.Choose(len(prefixes))]
			with(t, func(s *server) {
				for _, n := range names {
					if !t.Failed() {
						request(t, s, fs, "GET", f+n)
					}
				}
			})
		}},
		{Name: "paths", Desc: fmt.Sprintf("requests for every path of at most %d segments out of %d, by GET, and for every file by HEAD and in parts", depth, len(segments)), Body: func(t *explore.T) {
			first := segments[t.Choose(len(segments))]
			with(t, func(s *server) {
				var rec func(p string, left int)
				rec = func(p string, left int) {
					if t.Failed() {
						return
					}
					request(t, s, fs, "GET", p)
					if left == 0 {
						return
					}
					for _, g := range segments {
						rec(p+"/"+g, left-1)
					}
				}
				rec("/"+first, depth-1)
				if first != "" {
					return
				}
				for f, b := range fs {
					if t.Failed() {
						return
					}
					request(t, s, fs, "GET", f)
					request(t, s, fs, "HEAD", f)
					if f == "/index.html" {
						continue
					}
					k := len(b) / 2
					r, body, err := s.raw("GET", f, fmt.Sprintf("Range: bytes=%d-%d\r\n", k, k+9))
					if err != nil || !(r.StatusCode == 206 && bytes.Equal(body, b[k:k+10]) || r.StatusCode == 200 && bytes.Equal(body, b)) {
						t.Fail("GET "+f, "bytes %d-%d are not those of the file: %v", k, k+9, err)
					}
				}
			})
		}},
		{Name: "near", Desc: "requests for every path that differs from one of the site by one letter that is left out, doubled, changed, written in the other case or put in, by what follows or precedes it, and by its ending", Body: func(t *explore.T) {
			var l []string
			once.Do(func() { fs = files() })
			for f := range fs {
				l = append(l, f)
			}
			sort.Strings(l)
			f := l[t.Choose(len(l))]
			ext := filepath.Ext(f)
			with(t, func(s *server) {
				get := func(p string) {
					if !t.Failed() && strings.HasPrefix(p, "/") {
						request(t, s, fs, "GET", p)
					}
				}
				for i := 1; i < len(f); i++ {
					get(f[:i] + f[i+1:])
					get(f[:i])
					get("/" + f[i:])
					for _, c := range []string{"a", "0", ".", "-", "_", "/", "%20", "%00", "%2e", "%2F", "x/", "../", ";", ":", "~", "*", string(f[i] ^ 0x20), string(f[i] ^ 1)} {
						if c = url.PathEscape(strings.ReplaceAll(c, "%", "")); c != "" {
							get(f[:i] + c + f[i+1:])
							get(f[:i] + c + f[i:])
						}
					}
					for _, c := range []string{"%20", "%00", "%2e", "%2F", "%5c", "/", "//", "/./", "/../", f[i : i+1]} {
						get(f[:i] + c + f[i:])
					}
				}
				for _, e := range []string{"", "/", "//", ".", "..", "/.", "/..", "/index.html", "~", ".bak", ".gz", ".br", ".map", ".txt", ".html", ".htm", ".js", ".css", ".wasm", ".json", ".php", "?", "?a=b", "?v=2", "#x", "%00", "%0a", " ", "%20", ";a=b", "&a=b", "/x", "%3f", "%23", ".go", ".old", ".swp", ",v", "@2x", ".min.js", ".min.css"} {
					if e == " " {
						continue
					}
					get(f + e)
					get(strings.TrimSuffix(f, ext) + e)
					get(strings.ToUpper(f) + e)
					get(filepath.Dir(f) + e)
					get(filepath.Dir(f) + "/" + e)
				}
				for _, d := range []string{"/www", "/wasm", "/css", "/javascript", "/app", "/static", "/.", "/..", "/", "/x/..", "/x", "/wasm/..", "/css/..", "/en", "/v1", "/edtf", "/index.html"} {
					get(d + f)
				}
			})
		}},
		{Name: "headers", Desc: "requests for every file, and for paths that are none, with each of the headers of browsers, caches and proxies", Body: func(t *explore.T) {
			h := t.Pick([]string{"If-None-Match: \"none\"", "If-Modified-Since: Thu, 01 Jan 1970 00:00:01 GMT", "If-Match: *", "If-Range: \"none\"", "Accept: application/json", "Accept: text/plain", "Accept: */*", "Accept-Encoding: identity", "Accept-Language: fr", "Cache-Control: no-cache", "Pragma: no-cache", "Cookie: a=b", "Origin: http://example.com", "Referer: http://example.com/", "User-Agent: curl/8", "X-Forwarded-For: 10.0.0.1", "X-Forwarded-Host: example.com", "X-Forwarded-Proto: https", "X-Original-URL: /wasm/x", "X-Rewrite-URL: /secret.txt", "X-HTTP-Method-Override: DELETE", "X-Requested-With: XMLHttpRequest", "Authorization: Basic YTpi", "Upgrade-Insecure-Requests: 1", "Sec-Fetch-Mode: navigate", "DNT: 1", "Te: trailers", "Content-Length: 0", "Expect:", "Range: bytes=", "Via: 1.1 x"})
			with(t, func(s *server) {
				for f := range fs {
					if t.Failed() || strings.HasPrefix(h, "If-Match") && f == "/" {
						return
					}
					requestWith(t, s, fs, "GET", f, h+"\r\n")
				}
				for _, p := range []string{"/nothing", "/wasm/nothing.wasm", "/css/nothing.css", "/secret.txt"} {
					if !t.Failed() {
						requestWith(t, s, fs, "GET", p, h+"\r\n")
					}
				}
			})
		}},
		{Name: "one connection", Desc: "every sequence of three requests out of nine for files, parts of them and paths that are none, on one connection", Body: func(t *explore.T) {
			type ask struct{ method, path, extra string }
			asks := []ask{{"GET", "/", ""}, {"GET", "/css/index.css", ""}, {"GET", "/javascript/index.js", ""}, {"GET", "/wasm/parse-js.wasm", ""}, {"HEAD", "/wasm/parse-js.wasm", ""}, {"GET", "/nothing", ""}, {"GET", "/wasm/nothing", ""}, {"GET", "/", "Range: bytes=0-3\r\n"}, {"GET", "/javascript/index.js", "If-None-Match: \"none\"\r\n"}}
			first := t.Choose(len(asks))
			with(t, func(s *server) {
				for _, second := range asks {
					for _, third := range asks {
						l := []ask{asks[first], second, third}
						in := fmt.Sprint(l)
						t.Input(in)
						t.Compared()
						if m := s.talk(len(l), func(i int) (string, string, string) { return l[i].method, l[i].path, l[i].extra }, func(i int, r *http.Response, b []byte) string {
							want, ok := fs[l[i].path]
							switch {
							case !ok && r.StatusCode/100 != 4:
								return fmt.Sprintf("status %d for a path that is none", r.StatusCode)
							case ok && r.StatusCode == 206 && l[i].extra != "" && bytes.Equal(b, want[:4]):
							case ok && r.StatusCode != 200:
								return fmt.Sprintf("status %d", r.StatusCode)
							case ok && l[i].method == "GET" && !bytes.Equal(b, want):
								return fmt.Sprintf("%d bytes that are not the %d of the file", len(b), len(want))
							}
							return ""
						}); m != "" {
							t.Fail(in, "%s", m)
							return
						}
						t.State(explore.Hash(in))
					}
				}
			})
		}},
		{Name: "taken", Desc: "a second server on a port that is taken ends with an error; one on another port serves as well", Body: func(t *explore.T) {
			t.Input("taken")
			with(t, func(s *server) {
				_, port, _ := net.SplitHostPort(s.addr)
				cmd := exec.Command(filepath.Join(bin, "server-wasm"), "-host", "localhost", "-port", port)
				var errs bytes.Buffer
				cmd.Stderr = &errs
				cmd.Start()
				done := make(chan error, 1)
				go func() { done <- cmd.Wait() }()
				select {
				case err := <-done:
					if err == nil || errs.Len() == 0 {
						t.Fail("taken", "a server that cannot listen ends with %v: %s", err, errs.String())
					}
				case <-time.After(20 * time.Second):
					cmd.Process.Kill()
					t.Fail("taken", "a server that cannot listen does not end")
				}
				t.Compared()
				with(t, func(s2 *server) {
					request(t, s2, fs, "GET", "/wasm/parse-js.wasm")
					request(t, s, fs, "GET", "/")
				})
			})
		}},
		{Name: "presses", Desc: fmt.Sprintf("every sequence of three presses out of %d texts that parse or do not", len(texts)), Body: func(t *explore.T) {
			a := t.Choose(len(texts))
			t.Input("presses " + texts[a])
			var lists [][]string
			for _, b := range texts {
				for _, c := range texts {
					lists = append(lists, []string{texts[a], b, c})
				}
			}
			with(t, func(s *server) { page(t, s, lists) })
		}},
		{Name: "texts", Desc: "strings of every feature, years, and strings that look like markup, JSON or formats, each twice", Body: func(t *explore.T) {
			l := [][]string{seeds, years, odd}[t.Choose(3)]
			t.Input("texts " + l[0])
			var lists [][]string
			for _, x := range l {
				lists = append(lists, []string{x})
			}
			for _, x := range l {
				lists = append(lists, []string{x, x})
			}
			with(t, func(s *server) { page(t, s, lists) })
		}},
		{Name: "faults", Desc: "the program does not arrive: no network, no file, nothing in it, half of it, the wrong type, no answer. The button is not enabled without the program", Body: func(t *explore.T) {
			f := t.Pick([]string{"network", "missing", "empty", "cut", "type", "never"})
			t.Input(f)
			with(t, func(s *server) {
				defer t.Waiting()()
				ls, err := browse(s, f, [][]string{{"2004"}})
				t.Compared()
				for i := 0; i < 3 && len(ls) < 3; i++ {
					ls, err = browse(s, f, [][]string{{"2004"}})
				}
				if len(ls) < 3 {
					panic(fmt.Sprintf("%v %v", ls, err))
				}
				for _, l := range ls {
					if l.Kind != "press" && l.Ready && l.Parse != "function" {
						t.Fail(f, "the button is enabled without the program (%s)", l.Kind)
						return
					}
				}
			})
		}},
	}
}
