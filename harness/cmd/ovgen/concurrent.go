package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"io/fs"
	"path/filepath"
	"strconv"
)

// packages lists the directories of the repository's packages other than
// the program itself and those that only read files.
func packages(repo string) []string {
	var o []string
	err := filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if !d.IsDir() {
			return nil
		}
		if b := filepath.Base(p); p != repo && (b[0] == '.' || b == "testdata" || b == "dataset" || b == "configuration") {
			return filepath.SkipDir
		}
		if m, _ := filepath.Glob(filepath.Join(p, "*.go")); p != repo && len(m) > 0 && len(sources(p)) > 0 {
			o = append(o, p)
		}
		return nil
	})
	if err != nil {
		die(err)
	}
	return o
}

// concurrent puts a scheduling point before every statement of the packages
// used by queries and networks.
func concurrent(repo, work string) {
	rep := map[string]string{}
	for k, p := range packages(repo) {
		for i, f := range sources(p) {
			fset := token.NewFileSet()
			file, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				die(err)
			}
			if file.Name.Name == "main" {
				continue
			}
			points := 0
			point := func() ast.Stmt {
				points++
				return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("verifsched"), Sel: ast.NewIdent("Point")}}}
			}
			list := func(l []ast.Stmt) []ast.Stmt {
				var o []ast.Stmt
				for _, s := range l {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
						o = append(o, s)
					default:
						o = append(o, point(), s)
					}
				}
				return o
			}
			for _, d := range file.Decls {
				fn, ok := d.(*ast.FuncDecl)
				if !ok || fn.Body == nil {
					continue
				}
				ast.Inspect(fn.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.BlockStmt:
						x.List = list(x.List)
					case *ast.CaseClause:
						x.Body = list(x.Body)
					case *ast.CommClause:
						x.Body = list(x.Body)
					}
					return true
				})
			}
			if points > 0 {
				spec := &ast.ImportSpec{Name: ast.NewIdent("verifsched"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("goslideverif/sched")}}
				file.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, file.Decls...)
			}
			var b bytes.Buffer
			if err := format.Node(&b, fset, file); err != nil {
				die(f, err)
			}
			dst := filepath.Join(work, "conc", fmt.Sprintf("p%d_%d.go", k, i))
			write(dst, b.String())
			rep[f] = dst
		}
	}
	writeJSON(filepath.Join(work, "gen.json"), rep)
}
