//go:build ignore

// mutgen lists small changes of a Go file, one JSON object per line:
// {"off":…,"len":…,"new":…,"line":…,"op":…}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

var swaps = map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"+"}, token.REM: {"*"}}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	out := func(pos, end token.Pos, n, op string) {
		p := fs.Position(pos)
		b, _ := json.Marshal(map[string]interface{}{"off": p.Offset, "len": fs.Position(end).Offset - p.Offset, "new": n, "line": p.Line, "op": op})
		fmt.Println(string(b))
	}
	text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
	dull := func(n ast.Node) bool {
		t := text(n)
		return strings.Contains(t, "fmt.Print") || strings.Contains(t, "Errorf(") && len(t) < 150
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec, *ast.Field:
			return false
		case *ast.CallExpr:
			t := text(x.Fun)
			if strings.HasPrefix(t, "fmt.") || strings.HasPrefix(t, "errors.") {
				return false
			}
		case *ast.BinaryExpr:
			if strings.Contains(text(x), "\"") {
				break
			}
			for _, s := range swaps[x.Op] {
				out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, x.Op.String()+" -> "+s)
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseUint(x.Value, 0, 63)
				if err == nil {
					out(x.Pos(), x.End(), strconv.FormatUint(v+1, 10), x.Value+" -> +1")
					if v > 1 {
						out(x.Pos(), x.End(), strconv.FormatUint(v-1, 10), x.Value+" -> -1")
					}
				}
			}
		case *ast.BlockStmt:
			stmts(x.List, out, text, dull)
		case *ast.CaseClause:
			stmts(x.Body, out, text, dull)
		}
		return true
	})
}

func stmts(l []ast.Stmt, out func(a, b token.Pos, n, op string), text func(ast.Node) string, dull func(ast.Node) bool) {
	for _, s := range l {
		if dull(s) {
			continue
		}
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
			out(s.Pos(), s.End(), "", "drop "+text(s))
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				out(s.Pos(), s.End(), "", "drop "+text(s))
			}
		case *ast.BranchStmt:
			if x.Tok == token.CONTINUE || x.Tok == token.BREAK {
				out(s.Pos(), s.End(), "", "drop "+text(s))
			}
		case *ast.IfStmt:
			if x.Else == nil {
				t := text(s)
				if len(t) > 100 {
					t = t[:100]
				}
				if !strings.Contains(t, "err != nil") {
					out(s.Pos(), s.End(), "", "drop "+t)
				}
			}
		}
	}
}
