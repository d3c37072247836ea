// Command instr writes instrumented copies of Go source files and an overlay that makes the go command use them.
//
//	instr -out DIR -overlay FILE.json file.go ...
//
// A call of vsched.P is inserted before every statement (so that a seeded scheduler can interleave goroutines at
// statement granularity) and package sync is replaced by vsync. Nothing else changes. A file that does not parse is
// left alone.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

func call() ast.Stmt {
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched__"), Sel: ast.NewIdent("P")}}}
}

func list(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		switch s.(type) {
		case *ast.LabeledStmt, *ast.EmptyStmt:
			// a label must stay attached to its statement
		default:
			out = append(out, call())
		}
		out = append(out, s)
	}
	return out
}

func main() {
	outDir := flag.String("out", "", "directory for the instrumented files")
	overlay := flag.String("overlay", "", "overlay file to write")
	flag.Parse()
	repl := map[string]string{}
	for _, f := range flag.Args() {
		fset := token.NewFileSet()
		// comments are dropped on purpose (positions move); build constraints are kept below
		src, err := os.ReadFile(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue
		}
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue
		}
		var constraints, directives []string
		linkname := false
		for _, g := range file.Comments {
			for _, c := range g.List {
				if c.Pos() < file.Package && (len(c.Text) > 9 && c.Text[:9] == "//go:buil" || len(c.Text) > 8 && c.Text[:8] == "// +buil") {
					constraints = append(constraints, c.Text)
				}
				if len(c.Text) > 5 && c.Text[:5] == "//go:" && c.Pos() > file.Package {
					directives = append(directives, c.Text)
					linkname = true
				}
			}
		}
		if linkname {
			continue // files with compiler directives are left alone
		}
		file.Comments = nil
		for _, imp := range file.Imports {
			p, _ := strconv.Unquote(imp.Path.Value)
			if p == "sync" {
				imp.Path.Value = strconv.Quote("verifharness/vsync")
				if imp.Name == nil {
					imp.Name = ast.NewIdent("sync")
				}
			}
		}
		// the monotonic clock bypasses virtual time: mclock.Now() becomes mclock.AbsTime(vsched.Now())
		for _, imp := range file.Imports {
			if q, _ := strconv.Unquote(imp.Path.Value); q == "flychain/common/mclock" && imp.Name == nil {
				ast.Inspect(file, func(n ast.Node) bool {
					if c, ok := n.(*ast.CallExpr); ok && len(c.Args) == 0 {
						if sel, ok := c.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "Now" {
							if x, ok := sel.X.(*ast.Ident); ok && x.Name == "mclock" {
								sel.Sel = ast.NewIdent("AbsTime")
								c.Args = []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vsched__"), Sel: ast.NewIdent("Now")}}}
								return false
							}
						}
					}
					return true
				})
			}
		}
		hasBody := false
		ast.Inspect(file, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				n.List = list(n.List)
				hasBody = true
			case *ast.CaseClause:
				n.Body = list(n.Body)
			case *ast.CommClause:
				n.Body = list(n.Body)
			case *ast.SwitchStmt:
				// the body of a switch contains only clauses
			}
			return true
		})
		// blocks of switch and select statements hold clauses only: undo the insertion there
		ast.Inspect(file, func(n ast.Node) bool {
			var b *ast.BlockStmt
			switch n := n.(type) {
			case *ast.SwitchStmt:
				b = n.Body
			case *ast.TypeSwitchStmt:
				b = n.Body
			case *ast.SelectStmt:
				b = n.Body
			}
			if b != nil {
				var keep []ast.Stmt
				for _, s := range b.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						keep = append(keep, s)
					}
				}
				b.List = keep
			}
			return true
		})
		if hasBody {
			spec := &ast.ImportSpec{Name: ast.NewIdent("vsched__"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("verifharness/vsched")}}
			file.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, file.Decls...)
		}
		var buf bytes.Buffer
		for _, c := range constraints {
			buf.WriteString(c + "\n")
		}
		if len(constraints) > 0 {
			buf.WriteString("\n")
		}
		if err := format.Node(&buf, fset, file); err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue
		}
		_ = directives
		abs, _ := filepath.Abs(f)
		name := filepath.Join(*outDir, fmt.Sprintf("%03d_%s", len(repl), filepath.Base(f)))
		if err := os.WriteFile(name, buf.Bytes(), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		repl[abs] = name
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(*overlay, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
