// instr writes copies of the library's packages in which every statement is a scheduling point,
// and an overlay file that makes the go command build them.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type insertion struct {
	at, end int // source[at:end] is replaced
	text    string
	prio    int
}

var site uint32

// exported variables of the module's packages, by package name and variable name
var exported = map[string]bool{}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	keepSync := flag.Bool("keep-sync", false, "leave package sync alone")
	flag.Parse()
	overlay := map[string]string{}
	stats := map[string]int{}
	visit := func(do func(dir string) error) error {
		return filepath.Walk(*repo, func(p string, info os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if info.IsDir() {
				if n := info.Name(); p != *repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "cmd" || n == "app" || n == "wasm" || n == "vendor" || n == "testdata" || n == "tests") {
					return filepath.SkipDir
				}
				return do(p)
			}
			return nil
		})
	}
	err := visit(func(dir string) error { return pkg(dir, *repo, "", *keepSync, overlay, stats) })
	if err == nil {
		site, overlay, stats = 0, map[string]string{}, map[string]int{}
		err = visit(func(dir string) error { return pkg(dir, *repo, *out, *keepSync, overlay, stats) })
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	b, _ = json.Marshal(stats)
	os.WriteFile(filepath.Join(*out, "stats.json"), b, 0644)
}

type pkgVar struct {
	names  []string
	typ    string
	values []string
	exprs  []ast.Expr
	file   int
	skip   bool
}

func pkg(dir, repo, out string, keepSync bool, overlay map[string]string, stats map[string]int) error {
	bp, err := build.ImportDir(dir, 0)
	if err != nil {
		if _, ok := err.(*build.NoGoError); ok {
			return nil
		}
		return err
	}
	if bp.Name == "main" {
		return nil
	}
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	var names []string
	for _, f := range bp.GoFiles {
		p := filepath.Join(dir, f)
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, af)
		srcs = append(srcs, src)
		names = append(names, p)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(i int, a, b token.Pos) string { return string(srcs[i][off(a):off(b)]) }
	// variables of the package
	var vars []pkgVar
	global := map[string]bool{}
	hotTypes := map[string]bool{} // names in the declarations of variables: methods of such types are interesting
	for i, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				v := pkgVar{file: i}
				for _, n := range vs.Names {
					v.names = append(v.names, n.Name)
				}
				if vs.Type != nil {
					v.typ = text(i, vs.Type.Pos(), vs.Type.End())
				}
				for _, e := range vs.Values {
					v.values = append(v.values, text(i, e.Pos(), e.End()))
					v.exprs = append(v.exprs, e)
				}
				all := v.typ + " " + strings.Join(v.values, " ")
				v.skip = strings.Contains(v.typ, "regexp.Regexp") && !strings.Contains(v.typ, "map") || strings.Contains(v.typ, "embed.FS") || len(all) > 3000 ||
					v.typ == "" && len(v.values) > 0 && (strings.HasPrefix(v.values[0], "regexp.") || strings.HasPrefix(v.values[0], "errors.New"))
				for _, n := range v.names {
					if n != "_" && !v.skip {
						global[n] = true
						exported[bp.Name+"."+n] = true
						for _, w := range words(all) {
							hotTypes[w] = true
						}
					}
				}
				vars = append(vars, v)
			}
		}
	}
	stats["variables"] += len(global)
	inits := 0
	for i, f := range files {
		var ins []insertion
		generic := false
		add := func(at, end int, s string, prio int) { ins = append(ins, insertion{at, end, s, prio}) }
		add(off(f.Name.End()), off(f.Name.End()), "; import vsched \"verif.local/mc/vsched\"", 0)
		if !keepSync {
			for _, im := range f.Imports {
				if im.Path.Value == `"sync"` {
					t := `"verif.local/mc/vsched/vsync"`
					if im.Name == nil {
						t = "sync " + t
					}
					add(off(im.Path.Pos()), off(im.Path.End()), t, 0)
				}
			}
		}
		// other packages of the module, whose variables may be referred to as pkg.Name
		mod := map[string]bool{}
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if strings.Contains(p, "go-edtf") {
				n := p[strings.LastIndex(p, "/")+1:]
				if im.Name != nil {
					n = im.Name.Name
				}
				mod[n] = true
			}
		}
		interesting := func(n ast.Node) bool {
			found := false
			ast.Inspect(n, func(x ast.Node) bool {
				switch e := x.(type) {
				case *ast.BlockStmt, *ast.FuncLit:
					return false
				case *ast.Ident:
					if global[e.Name] {
						found = true
					}
				case *ast.SelectorExpr:
					if id, ok := e.X.(*ast.Ident); ok && (exported[id.Name+"."+e.Sel.Name] || id.Name == "sync" || id.Name == "atomic") {
						found = true
					}
					if n := e.Sel.Name; n == "Lock" || n == "Unlock" || n == "RLock" || n == "RUnlock" || n == "Load" || n == "Store" || n == "CompareAndSwap" {
						found = true
					}
				case *ast.SendStmt, *ast.GoStmt, *ast.SelectStmt:
					found = true
				case *ast.UnaryExpr:
					if e.Op == token.ARROW {
						found = true
					}
				}
				return true
			})
			return found
		}
		var hot bool
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				if l, ok := s.(*ast.LabeledStmt); ok {
					_ = l
				}
				site++
				id := site
				if hot || interesting(s) {
					id |= 1 << 30
					stats["interesting"]++
				}
				stats["points"]++
				add(off(s.Pos()), off(s.Pos()), fmt.Sprintf("vsched.P(%d); ", id), 1)
			}
		}
		empty := func(b *ast.BlockStmt) {
			if len(b.List) == 0 {
				site++
				stats["points"]++
				add(off(b.Rbrace), off(b.Rbrace), fmt.Sprintf("vsched.P(%d)", site), 1)
			}
		}
		body := func(n ast.Node) {
			comm := map[ast.Node]bool{} // the operations of select statements
			two := map[ast.Node]bool{}  // receive operations with two results
			ast.Inspect(n, func(x ast.Node) bool {
				switch b := x.(type) {
				case *ast.CommClause:
					if b.Comm != nil {
						ast.Inspect(b.Comm, func(y ast.Node) bool {
							if y != nil {
								comm[y] = true
							}
							return true
						})
					}
				case *ast.AssignStmt:
					if len(b.Lhs) == 2 && len(b.Rhs) == 1 {
						two[b.Rhs[0]] = true
					}
				case *ast.ValueSpec:
					if len(b.Names) == 2 && len(b.Values) == 1 {
						two[b.Values[0]] = true
					}
				case *ast.SendStmt:
					if !comm[b] {
						generic = true
						add(off(b.Chan.Pos()), off(b.Chan.Pos()), "vsched.Send(", 2)
						add(off(b.Arrow), off(b.Arrow)+2, ", ", 2)
						add(off(b.Value.End()), off(b.Value.End()), ")", 2)
					}
				case *ast.UnaryExpr:
					if b.Op == token.ARROW && !comm[b] {
						generic = true
						f := "vsched.Recv("
						if two[b] {
							f = "vsched.Recv2("
						}
						add(off(b.OpPos), off(b.OpPos)+2, f, 2)
						add(off(b.X.End()), off(b.X.End()), ")", 2)
					}
				case *ast.CallExpr:
					if id, ok := b.Fun.(*ast.Ident); ok && id.Name == "close" && len(b.Args) == 1 {
						generic = true
						add(off(id.Pos()), off(id.End()), "vsched.Close", 2)
					}
				case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
					// the body of a switch has clauses, not statements
					var blk *ast.BlockStmt
					switch s := b.(type) {
					case *ast.SwitchStmt:
						blk = s.Body
					case *ast.TypeSwitchStmt:
						blk = s.Body
					case *ast.SelectStmt:
						blk = s.Body
					}
					for _, c := range blk.List {
						switch c := c.(type) {
						case *ast.CaseClause:
							stmts(c.Body)
						case *ast.CommClause:
							stmts(c.Body)
						}
					}
				case *ast.BlockStmt:
					if len(b.List) > 0 {
						switch b.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					stmts(b.List)
				case *ast.ForStmt:
					empty(b.Body)
				case *ast.RangeStmt:
					empty(b.Body)
				case *ast.GoStmt:
					c := b.Call
					if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
						add(off(b.Pos()), off(fl.Pos()), "vsched.Go(", 2)
						add(off(fl.End()), off(c.End()), ")", 2)
					} else {
						add(off(b.Pos()), off(c.Fun.Pos()), "vsched.Go(vsched.Bind(", 2)
						comma := ", "
						if len(c.Args) == 0 {
							comma = ""
						}
						add(off(c.Lparen), off(c.Lparen)+1, comma, 2)
						add(off(c.Rparen), off(c.Rparen)+1, "))", 2)
					}
				}
				return true
			})
		}
		var tail strings.Builder
		tail.WriteString("\nvar _ = vsched.P\n")
		var reinit []string
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				hot = true
				body(g)
			}
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			if fd.Recv == nil && fd.Name.Name == "init" {
				inits++
				nm := fmt.Sprintf("vsched_init_%d", inits)
				add(off(fd.Name.Pos()), off(fd.Name.End()), nm, 0)
				fmt.Fprintf(&tail, "\nfunc init() { %s() }\n", nm)
				uses := false
				ast.Inspect(fd.Body, func(x ast.Node) bool {
					if id, ok := x.(*ast.Ident); ok && global[id.Name] {
						uses = true
					}
					return true
				})
				if uses {
					reinit = append(reinit, nm)
				}
				continue
			}
			hot = false
			if fd.Recv != nil {
				for _, w := range words(text(i, fd.Recv.Pos(), fd.Recv.End())) {
					if hotTypes[w] {
						hot = true
					}
				}
			}
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				if id, ok := x.(*ast.Ident); ok && global[id.Name] {
					hot = true
				}
				return true
			})
			body(fd.Body)
		}
		// reset of the variables declared in this file
		fmt.Fprintf(&tail, "\nfunc vsched_reset_%d() {\n", i)
		n := 0
		for _, v := range vars {
			if v.file != i || v.skip {
				continue
			}
			for k, e := range v.exprs {
				v.values[k] = part(srcs[i], ins, off(e.Pos()), off(e.End()))
			}
			switch {
			case len(v.values) == 0:
				for _, nm := range v.names {
					if nm != "_" {
						fmt.Fprintf(&tail, "\t{ var z %s; %s = z }\n", v.typ, nm)
						n++
					}
				}
			case len(v.names) == len(v.values):
				for k, nm := range v.names {
					if nm != "_" {
						fmt.Fprintf(&tail, "\t%s = %s\n", nm, v.values[k])
						n++
					}
				}
			default:
				fmt.Fprintf(&tail, "\t%s = %s\n", strings.Join(v.names, ", "), strings.Join(v.values, ", "))
				n++
			}
		}
		for _, r := range reinit {
			fmt.Fprintf(&tail, "\t%s()\n", r)
			n++
		}
		tail.WriteString("}\n")
		if n > 0 {
			fmt.Fprintf(&tail, "\nfunc init() { vsched.OnReset(vsched_reset_%d) }\n", i)
		}
		stats["files"]++
		if out == "" {
			continue
		}
		src := apply(srcs[i], ins) + tail.String()
		if generic && !strings.Contains(src, "//go:build") {
			// the module's language version may be older than type parameters
			src = "//go:build go1.21\n\n" + src
		}
		rel, _ := filepath.Rel(repo, names[i])
		q := filepath.Join(out, "src", rel)
		if err := os.MkdirAll(filepath.Dir(q), 0755); err != nil {
			return err
		}
		if err := os.WriteFile(q, []byte(src), 0644); err != nil {
			return err
		}
		overlay[names[i]] = q
	}
	return nil
}

func apply(src []byte, ins []insertion) string {
	sort.SliceStable(ins, func(a, b int) bool {
		if ins[a].at != ins[b].at {
			return ins[a].at < ins[b].at
		}
		return ins[a].prio < ins[b].prio
	})
	var b strings.Builder
	pos := 0
	for _, x := range ins {
		b.Write(src[pos:x.at])
		b.WriteString(x.text)
		pos = x.end
	}
	b.Write(src[pos:])
	return b.String()
}

// part is src[a:b] with the insertions in it.
func part(src []byte, ins []insertion, a, b int) string {
	var in []insertion
	for _, x := range ins {
		if x.at >= a && x.end <= b {
			x.at -= a
			x.end -= a
			in = append(in, x)
		}
	}
	return apply(src[a:b], in)
}

func words(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool {
		return !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z')
	})
}
