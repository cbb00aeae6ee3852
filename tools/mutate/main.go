// Command mutate lists or applies simple source mutations of one Go file.
//
//	mutate FILE        prints the number of mutants
//	mutate FILE N OUT  writes mutant N to OUT and prints what it changes
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	pos   token.Pos
	what  string
	apply func()
}

func main() {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mutant
	add := func(p token.Pos, what string, fn func()) { ms = append(ms, mutant{p, what, fn}) }
	bin := map[token.Token][]token.Token{
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL},
		token.REM: {token.QUO}, token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LEQ},
		token.GEQ: {token.GTR}, token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
		token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.XOR: {token.OR},
	}
	asg := map[token.Token][]token.Token{token.ADD_ASSIGN: {token.SUB_ASSIGN, token.ASSIGN}, token.SUB_ASSIGN: {token.ADD_ASSIGN},
		token.MUL_ASSIGN: {token.QUO_ASSIGN}, token.QUO_ASSIGN: {token.MUL_ASSIGN}, token.XOR_ASSIGN: {token.OR_ASSIGN}}
	stmts := func(list []ast.Stmt) {
		for i := range list {
			i := i
			switch s := list[i].(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
				add(s.Pos(), "delete statement", func() { list[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add(s.Pos(), "delete assignment", func() { list[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
				}
			case *ast.IfStmt:
				add(s.Pos(), "delete if", func() { list[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, t := range bin[x.Op] {
				o, t := x.Op, t
				add(x.OpPos, fmt.Sprintf("%v -> %v", o, t), func() { x.Op = t })
			}
		case *ast.AssignStmt:
			for _, t := range asg[x.Tok] {
				o, t := x.Tok, t
				add(x.TokPos, fmt.Sprintf("%v -> %v", o, t), func() { x.Tok = t })
			}
		case *ast.IncDecStmt:
			add(x.TokPos, "++ <-> --", func() {
				if x.Tok == token.INC {
					x.Tok = token.DEC
				} else {
					x.Tok = token.INC
				}
			})
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					add(x.Pos(), fmt.Sprintf("%d -> %d", v, v+1), func() { x.Value = strconv.FormatInt(v+1, 10) })
					if v > 0 {
						add(x.Pos(), fmt.Sprintf("%d -> %d", v, v-1), func() { x.Value = strconv.FormatInt(v-1, 10) })
					}
				}
			}
			if x.Kind == token.FLOAT {
				v := x.Value
				add(x.Pos(), v+" -> 2*", func() { x.Value = "(2*" + v + ")" })
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				o := x.Name
				add(x.Pos(), "flip "+o, func() {
					if o == "true" {
						x.Name = "false"
					} else {
						x.Name = "true"
					}
				})
			}
		case *ast.IfStmt:
			c := x.Cond
			add(x.Pos(), "negate if", func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: c}} })
			add(x.Pos(), "if true", func() {
				x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: c}, Op: token.LOR, Y: ast.NewIdent("true")}
			})
		case *ast.UnaryExpr:
			if x.Op == token.SUB || x.Op == token.NOT {
				add(x.Pos(), "drop "+x.Op.String(), func() {
					if x.Op == token.SUB {
						x.Op = token.ADD
					} else {
						x.X = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.X}}
					}
				})
			}
		case *ast.CallExpr:
			if s, ok := x.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "cloneIfNeeded" || s.Sel.Name == "CloneIfNeeded") {
				add(x.Pos(), "do not clone", func() { // pass the owner's id instead
					x.Args = []ast.Expr{&ast.SelectorExpr{X: s.X, Sel: ast.NewIdent("cowId")}}
				})
			}
			if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 && len(id.Name) > 4 && id.Name[:4] == "copy" {
				add(x.Pos(), "do not copy", func() { x.Fun = &ast.ParenExpr{X: ast.NewIdent("")}; *x = ast.CallExpr{Fun: ast.NewIdent(""), Args: x.Args} })
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		}
		return true
	})
	if len(os.Args) == 2 {
		fmt.Println(len(ms))
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	m := ms[i]
	m.apply()
	var b bytes.Buffer
	if err := printer.Fprint(&b, fs, f); err != nil {
		panic(err)
	}
	if err := os.WriteFile(os.Args[3], b.Bytes(), 0o644); err != nil {
		panic(err)
	}
	fmt.Printf("%v %s\n", fs.Position(m.pos), m.what)
}
