// mutate FILE lists the mutants of a Go file, one JSON object per line: offset, length and replacement of the text changed.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"+"}, token.REM: {"/"},
}

func main() {
	name := os.Args[1]
	src, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	emit := func(kind string, from, to token.Pos, text string) {
		b, _ := json.Marshal(map[string]any{"file": name, "kind": kind, "line": fset.Position(from).Line, "off": off(from), "len": off(to) - off(from), "old": string(src[off(from):off(to)]), "new": text})
		fmt.Println(string(b))
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BinaryExpr:
			for _, s := range swaps[n.Op] {
				emit("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
			}
			if n.Op == token.LAND || n.Op == token.LOR {
				emit("drop", n.Pos(), n.End(), string(src[off(n.X.Pos()):off(n.X.End())]))
				emit("drop", n.Pos(), n.End(), string(src[off(n.Y.Pos()):off(n.Y.End())]))
			}
		case *ast.IfStmt:
			c := string(src[off(n.Cond.Pos()):off(n.Cond.End())])
			emit("cond", n.Cond.Pos(), n.Cond.End(), "("+c+") && false")
			emit("cond", n.Cond.Pos(), n.Cond.End(), "("+c+") || true")
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.Atoi(n.Value); err == nil {
					emit("int", n.Pos(), n.End(), strconv.Itoa(v+1))
					if v > 0 {
						emit("int", n.Pos(), n.End(), strconv.Itoa(v-1))
					}
				}
			}
			if n.Kind == token.STRING && len(n.Value) > 2 && n.Value[0] == '"' {
				emit("str", n.Pos(), n.End(), `"`+n.Value[2:])
			}
		case *ast.Ident:
			if n.Name == "true" {
				emit("bool", n.Pos(), n.End(), "false")
			}
			if n.Name == "false" {
				emit("bool", n.Pos(), n.End(), "true")
			}
		case *ast.BlockStmt:
			for _, s := range n.List {
				del(s, emit)
			}
		case *ast.CaseClause:
			for _, s := range n.Body {
				del(s, emit)
			}
		case *ast.BranchStmt:
			if n.Tok == token.BREAK && n.Label == nil {
				emit("branch", n.Pos(), n.End(), "continue")
			}
			if n.Tok == token.CONTINUE && n.Label == nil {
				emit("branch", n.Pos(), n.End(), "break")
			}
		}
		return true
	})
}

func del(s ast.Stmt, emit func(kind string, from, to token.Pos, text string)) {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.ForStmt, *ast.RangeStmt:
		emit("del", s.Pos(), s.End(), "")
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			emit("del", s.Pos(), s.End(), "")
		}
	case *ast.IfStmt:
		if s.Else != nil {
			emit("else", s.Body.End(), s.Else.End(), "")
		}
	}
}
