// mutate lists single-edit mutants of Go source files as JSON lines. A development aid: no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type M struct {
	File       string `json:"file"`
	Line       int    `json:"line"`
	Start, End int
	New        string `json:"new"`
	Op         string `json:"op"`
	Old        string `json:"old"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		src, _ := os.ReadFile(f)
		fs := token.NewFileSet()
		tree, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(n ast.Node, a, b token.Pos, repl, op string) {
			old := string(src[off(a):off(b)])
			if len(old) > 160 {
				old = old[:160]
			}
			enc.Encode(M{f, fs.Position(a).Line, off(a), off(b), repl, op, old})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		stmts := func(list []ast.Stmt) {
			for i, s := range list {
				switch v := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
					emit(v, v.Pos(), v.End(), "", "delete")
				case *ast.AssignStmt:
					if v.Tok != token.DEFINE {
						emit(v, v.Pos(), v.End(), "", "delete")
					}
				case *ast.IfStmt:
					if v.Else == nil && v.Init == nil {
						emit(v, v.Pos(), v.End(), "", "delete if")
					}
					emit(v, v.Cond.Pos(), v.Cond.End(), "!("+text(v.Cond)+")", "negate")
					emit(v, v.Cond.Pos(), v.Cond.End(), "("+text(v.Cond)+") && false", "never")
					emit(v, v.Cond.Pos(), v.Cond.End(), "("+text(v.Cond)+") || true", "always")
				case *ast.BranchStmt:
					if v.Tok == token.CONTINUE || v.Tok == token.BREAK {
						emit(v, v.Pos(), v.End(), "", "delete "+v.Tok.String())
					}
				case *ast.ReturnStmt:
					if len(v.Results) > 0 {
						l := v.Results[len(v.Results)-1]
						if id, ok := l.(*ast.Ident); ok && id.Name == "err" {
							emit(v, l.Pos(), l.End(), "nil", "return nil")
						}
					}
				}
				if i+1 < len(list) {
					// Swap neighbouring simple statements.
					a, b := s, list[i+1]
					if simple(a) && simple(b) {
						emit(a, a.Pos(), b.End(), text(b)+"\n"+text(a), "swap")
					}
				}
			}
		}
		ast.Inspect(tree, func(n ast.Node) bool {
			switch v := n.(type) {
			case *ast.GenDecl:
				if v.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				stmts(v.List)
			case *ast.CaseClause:
				stmts(v.Body)
				if len(v.Body) > 0 {
					emit(v, v.Body[0].Pos(), v.Body[len(v.Body)-1].End(), "", "empty case")
				}
			case *ast.CommClause:
				stmts(v.Body)
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="},
					token.GEQ: {">", "<"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
					token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.REM: {"/"}}
				for _, a := range alt[v.Op] {
					emit(v, v.OpPos, v.OpPos+token.Pos(len(v.Op.String())), a, "operator")
				}
				if v.Op == token.LAND || v.Op == token.LOR {
					emit(v, v.Pos(), v.End(), text(v.X), "left operand only")
					emit(v, v.Pos(), v.End(), text(v.Y), "right operand only")
				}
			case *ast.BasicLit:
				if v.Kind == token.INT {
					if x, err := strconv.ParseInt(v.Value, 0, 64); err == nil {
						emit(v, v.Pos(), v.End(), fmt.Sprint(x+1), "literal")
						if x > 0 {
							emit(v, v.Pos(), v.End(), fmt.Sprint(x-1), "literal")
						}
					}
				}
			case *ast.AssignStmt:
				if v.Tok == token.ADD_ASSIGN {
					emit(v, v.TokPos, v.TokPos+2, "-=", "operator")
					emit(v, v.TokPos, v.TokPos+2, "=", "operator")
				}
			case *ast.IncDecStmt:
				alt := "--"
				if v.Tok == token.DEC {
					alt = "++"
				}
				emit(v, v.TokPos, v.TokPos+2, alt, "operator")
			case *ast.Ident:
				if v.Name == "true" {
					emit(v, v.Pos(), v.End(), "false", "bool")
				} else if v.Name == "false" {
					emit(v, v.Pos(), v.End(), "true", "bool")
				}
			}
			return true
		})
	}
}

func simple(s ast.Stmt) bool {
	switch v := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
		return true
	case *ast.AssignStmt:
		return v.Tok != token.DEFINE
	}
	return false
}
