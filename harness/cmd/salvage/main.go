// Command salvage prepares a package that does not compile as a whole for use: it writes copies of its files in which
// what the compiler rejects is left out. A function whose body is rejected or missing panics when called, one that may
// end without a result panics there, and any other rejected declaration is dropped. Stand-ins declare what is missing;
// one that is not missing (any more) gives way to the real declaration. Everything else is copied verbatim.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type decl struct {
	name   string
	text   string
	body   int // offset of the body in text, -1: none
	lines  [2]int
	state  string
	spare  string // the text of a fallback that is not used
}

type file struct {
	orig, out string
	standin   bool // declares what is missing
	fallback  bool // declares what is to be used instead of functions that are left out
	pkg       string
	imports   []string
	decls     []*decl
}

func die(a ...interface{}) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(1)
}

func load(path string) *file {
	src, err := os.ReadFile(path)
	if err != nil {
		die(err)
	}
	f := &file{orig: path}
	fset := token.NewFileSet()
	a, perr := parser.ParseFile(fset, path, src, parser.AllErrors|parser.SkipObjectResolution)
	if a == nil {
		die(perr)
	}
	var bad []int
	if l, ok := perr.(scanner.ErrorList); ok {
		for _, e := range l {
			bad = append(bad, e.Pos.Offset)
		}
	}
	off := func(p token.Pos) int {
		n := fset.Position(p).Offset
		if n > len(src) {
			n = len(src)
		}
		return n
	}
	f.pkg = a.Name.Name
	add := func(name, prefix string, from, to token.Pos, body token.Pos) {
		d := &decl{name: name, text: prefix + string(src[off(from):off(to)]), body: -1}
		if body.IsValid() {
			d.body = len(prefix) + off(body) - off(from)
		}
		for _, b := range bad {
			if b >= off(from) && b <= off(to) {
				d.state, d.text = "does not parse", ""
			}
		}
		f.decls = append(f.decls, d)
	}
	for _, x := range a.Decls {
		switch x := x.(type) {
		case *ast.FuncDecl:
			name := x.Name.Name
			if x.Recv != nil && len(x.Recv.List) > 0 {
				name = string(src[off(x.Recv.List[0].Type.Pos()):off(x.Recv.List[0].Type.End())]) + "." + name
			}
			if name == "_" || name == "" {
				continue
			}
			b := token.NoPos
			if x.Body != nil {
				b = x.Body.Lbrace
			}
			add(name, "", x.Pos(), x.End(), b)
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				for _, s := range x.Specs {
					f.imports = append(f.imports, string(src[off(s.Pos()):off(s.End())]))
				}
			} else if x.Tok == token.CONST || !x.Lparen.IsValid() {
				add(fmt.Sprint(x.Tok, " at ", fset.Position(x.Pos()).Line), "", x.Pos(), x.End(), token.NoPos)
			} else {
				for _, s := range x.Specs {
					name := ""
					switch s := s.(type) {
					case *ast.TypeSpec:
						name = s.Name.Name
					case *ast.ValueSpec:
						name = s.Names[0].Name
					}
					add(name, x.Tok.String()+" ", s.Pos(), s.End(), token.NoPos)
				}
			}
		}
	}
	return f
}

func (f *file) write() {
	var b bytes.Buffer
	line := 1
	put := func(s string) (from, to int) {
		from = line
		b.WriteString(s + "\n\n")
		to = line + strings.Count(s, "\n")
		line = to + 2
		return
	}
	put("package " + f.pkg)
	for _, i := range f.imports {
		put("import " + i)
	}
	for _, d := range f.decls {
		d.lines = [2]int{0, -1}
		if d.text != "" {
			d.lines[0], d.lines[1] = put(d.text)
		}
	}
	if err := os.WriteFile(f.out, b.Bytes(), 0644); err != nil {
		die(err)
	}
}

var errLine = regexp.MustCompile(`(?m)^(\S+\.go):(\d+):(?:(\d+):)? (.*)$`)

func main() {
	dir := flag.String("dir", "", "directory of the package")
	pkg := flag.String("pkg", "", "import path of the package")
	out := flag.String("out", "", "directory for the copies")
	standins := flag.String("standins", "", "files, separated by commas, with stand-ins")
	fallbacks := flag.String("fallbacks", "", "files, separated by commas, with functions to use instead of those left out")
	fixed := flag.String("add", "", "files, separated by commas, to add to the package after the repair")
	flag.Parse()
	var files []*file
	fb := -1
	names, _ := filepath.Glob(filepath.Join(*dir, "*.go"))
	for _, n := range names {
		if !strings.HasSuffix(n, "_test.go") {
			f := load(n)
			f.out = filepath.Join(*out, filepath.Base(n))
			files = append(files, f)
		}
	}
	for k, n := range strings.Split(*standins+",;,"+*fallbacks, ",") {
		if n == ";" {
			fb = k
		} else if n != "" {
			f := load(n)
			f.standin, f.fallback = fb < 0, fb >= 0
			for _, d := range f.decls {
				if f.fallback {
					d.spare, d.text = d.text, ""
				}
			}
			f.orig = filepath.Join(*dir, "zz_"+strings.TrimSuffix(filepath.Base(n), ".txt"))
			f.out = filepath.Join(*out, filepath.Base(f.orig))
			files = append(files, f)
		}
	}
	replace := map[string]string{}
	for _, f := range files {
		replace[f.orig] = f.out
	}
	ov := filepath.Join(*out, "overlay.json")
	save := func() {
		b, _ := json.Marshal(map[string]interface{}{"Replace": replace})
		if err := os.WriteFile(ov, b, 0644); err != nil {
			die(err)
		}
	}
	save()
	ok := false
	for round := 0; round < 60 && !ok; round++ {
		by := map[string]*file{}
		for _, f := range files {
			f.write()
			by[filepath.Base(f.out)] = f
		}
		text, err := exec.Command("go", "build", "-gcflags=-e", "-overlay", ov, *pkg).CombinedOutput()
		if err == nil {
			ok = true
			break
		}
		changed := false
		redeclared := false
		seen := map[*decl]bool{}
		spare := func(d *decl) bool { // a fallback takes the place of a function that is left out
			for _, g := range files {
				for _, o := range g.decls {
					if g.fallback && o.name == d.name && o.spare != "" {
						o.text, o.spare, d.text = o.spare, "", ""
						d.state += " (stand-in used)"
						return true
					}
				}
			}
			return false
		}
		all := errLine.FindAllStringSubmatch(string(text), -1)
		for _, m := range all { // stand-ins give way first
			f := by[filepath.Base(m[1])]
			if f == nil || !strings.Contains(m[4], "redeclared") && !strings.Contains(m[4], "already declared") {
				continue
			}
			redeclared = true
			// the compiler may blame either of the two
			for _, w := range regexp.MustCompile(`\w+`).FindAllString(m[4], -1) {
				for _, g := range files {
					for _, d := range g.decls {
						if g.standin && d.text != "" && (d.name == w || strings.HasSuffix(d.name, "."+w)) {
							d.text, d.state, changed = "", "not needed", true
						}
					}
				}
			}
			n, _ := strconv.Atoi(m[2])
			for _, d := range f.decls {
				if f.standin && d.text != "" && n >= d.lines[0] && n <= d.lines[1] {
					d.text, d.state, changed = "", "not needed", true
				}
			}
		}
		if redeclared && changed {
			continue
		}
		for _, m := range all {
			f := by[filepath.Base(m[1])]
			if f == nil {
				continue
			}
			n, _ := strconv.Atoi(m[2])
			col, _ := strconv.Atoi(m[3])
			if x := regexp.MustCompile(`^("[^"]+") imported (?:as \w+ )?and not used`).FindStringSubmatch(m[4]); x != nil {
				for k, i := range f.imports {
					if strings.HasSuffix(i, x[1]) {
						f.imports = append(f.imports[:k], f.imports[k+1:]...)
						changed = true
						break
					}
				}
				continue
			}
			for _, d := range f.decls {
				if d.text == "" || n < d.lines[0] || n > d.lines[1] {
					continue
				}
				if changed = true; seen[d] {
					break
				}
				seen[d] = true
				// offset of the error in the text
				at := 0
				for l := d.lines[0]; l < n; l++ {
					at += strings.IndexByte(d.text[at:], '\n') + 1
				}
				at += col - 1
				switch {
				case strings.Contains(m[4], "missing function body"):
					d.state = "no body"
					if !spare(d) {
						d.body = len(d.text) + 1
						d.text += " { panic(\"left out: no body\") }"
					}
				case m[4] == "missing return" && d.state == "":
					k := strings.LastIndexByte(d.text, '}')
					d.text = d.text[:k] + "panic(\"left out: no result\") }"
					d.state = "may end without a result"
				case d.body >= 0 && at >= d.body && d.state != "left out":
					d.state = "left out"
					if !spare(d) {
						d.text = d.text[:d.body] + "{ panic(" + strconv.Quote("left out: "+m[4]) + ") }"
					}
				default:
					d.state, d.text = m[4], ""
				}
				break
			}
		}
		if !changed {
			die(string(text))
		}
	}
	if !ok {
		die("no end of errors")
	}
	for _, n := range strings.Split(*fixed, ",") {
		if n != "" {
			replace[filepath.Join(*dir, "zz_"+strings.TrimSuffix(filepath.Base(n), ".txt"))] = n
		}
	}
	save()
	var left []string
	for _, f := range files {
		for _, d := range f.decls {
			if d.state != "" && !f.standin && !f.fallback {
				left = append(left, d.name+": "+d.state)
			}
		}
	}
	sort.Strings(left)
	for _, l := range left {
		fmt.Println(l)
	}
}
