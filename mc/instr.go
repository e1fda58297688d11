package main

// Instrumentation of the library: a scheduling point before every statement,
// by way of an overlay for go build.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const pointPkg = "vschedpoint"

// instrument writes instrumented copies of the Go files in dir and the
// packages below it to out, and out/overlay.json. The number of points is
// returned.
func instrument(dir, out string) (points int, err error) {
	repl := map[string]string{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sub, _ := filepath.Glob(filepath.Join(dir, "*", "*.go"))
	files = append(files, sub...)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return 0, err
		}
		fs := token.NewFileSet()
		// Without the comments: their places would not fit any more
		af, err := parser.ParseFile(fs, f, src, parser.SkipObjectResolution)
		if err != nil {
			return 0, err
		}
		for _, l := range strings.Split(string(src), "\n") {
			if strings.HasPrefix(l, "//go:build") || strings.HasPrefix(l, "//go:embed") || strings.HasPrefix(l, "//go:linkname") {
				return 0, fmt.Errorf("%s has directives", f)
			}
		}
		if af.Name.Name == "main" {
			continue
		}
		bad := false
		n := 0
		point := func() ast.Stmt {
			n++
			return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(pointPkg), Sel: ast.NewIdent("Point")}}}
		}
		spread := func(l []ast.Stmt) []ast.Stmt {
			var r []ast.Stmt
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); !ok {
					r = append(r, point())
				}
				r = append(r, s)
			}
			return r
		}
		ast.Inspect(af, func(x ast.Node) bool {
			switch b := x.(type) {
			case *ast.BlockStmt:
				// The body of a switch holds clauses, not statements
				clauses := false
				for _, s := range b.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						clauses = true
					}
				}
				if !clauses {
					b.List = spread(b.List)
				}
			case *ast.CaseClause:
				b.Body = spread(b.Body)
			case *ast.CommClause:
				b.Body = spread(b.Body)
			case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt:
				bad = true
			}
			return true
		})
		if bad {
			return 0, fmt.Errorf("%s starts goroutines or uses channels", f)
		}
		for _, im := range af.Imports {
			if im.Path.Value == `"sync"` {
				im.Path.Value = `"verif/mc/vsched/vsync"`
				if im.Name == nil {
					im.Name = ast.NewIdent("sync")
				}
			}
		}
		if n > 0 {
			spec := &ast.ImportSpec{Name: ast.NewIdent(pointPkg), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("verif/mc/vsched")}}
			af.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, af.Decls...)
		}
		points += n
		var b strings.Builder
		if err := format.Node(&b, fs, af); err != nil {
			return 0, err
		}
		dst := filepath.Join(out, fmt.Sprintf("%d_%s", len(repl), filepath.Base(f)))
		if err := os.WriteFile(dst, []byte(b.String()), 0644); err != nil {
			return 0, err
		}
		repl[f] = dst
	}
	j, _ := json.Marshal(map[string]any{"Replace": repl})
	return points, os.WriteFile(filepath.Join(out, "overlay.json"), j, 0644)
}
