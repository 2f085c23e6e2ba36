// mutate ROOT FILE...: lists small edits of Go files as JSON lines {file, off, end, new, kind, line}.
// A development aid: tools/mutate/run.py runs the checks against each one.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Old  string `json:"old"`
	New  string `json:"new"`
	Kind string `json:"kind"`
}

var ops = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		seen := map[string]bool{}
		out := func(a, b token.Pos, n, kind string) {
			o, e := fs.Position(a).Offset, fs.Position(b).Offset
			k := fmt.Sprint(o, e, n)
			if seen[k] || string(src[o:e]) == n {
				return
			}
			seen[k] = true
			old := string(src[o:e])
			enc.Encode(mut{f, fs.Position(a).Line, o, e, old, n, kind})
		}
		text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
		ast.Inspect(af, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				if l, ok := n.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
					return true
				}
				for _, o := range ops[n.Op] {
					out(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), o, "op")
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					out(n.Pos(), n.End(), text(n.X), "drop")
					out(n.Pos(), n.End(), text(n.Y), "drop")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT || n.Op == token.SUB {
					out(n.OpPos, n.OpPos+1, "", "unary")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					v, err := strconv.ParseInt(strings.ReplaceAll(n.Value, "_", ""), 0, 64)
					if err == nil {
						out(n.Pos(), n.End(), fmt.Sprint(v+1), "int")
						if v > 0 {
							out(n.Pos(), n.End(), fmt.Sprint(v-1), "int")
						}
					}
				case token.CHAR:
					r, _, _, err := strconv.UnquoteChar(n.Value[1:len(n.Value)-1], '\'')
					if err == nil {
						out(n.Pos(), n.End(), fmt.Sprint(r+1), "char")
						out(n.Pos(), n.End(), fmt.Sprint(r-1), "char")
					}
				case token.STRING:
					if len(n.Value) > 3 {
						out(n.Pos(), n.End(), n.Value[:len(n.Value)-2]+n.Value[len(n.Value)-1:], "string")
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					out(n.Pos(), n.End(), "false", "bool")
				} else if n.Name == "false" {
					out(n.Pos(), n.End(), "true", "bool")
				}
			case *ast.IfStmt:
				out(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "iftrue")
				out(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "iffalse")
				if n.Else != nil {
					out(n.Body.End(), n.Else.End(), "", "noelse")
				}
			case *ast.ForStmt:
				if n.Cond != nil {
					out(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "forfalse")
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					del(out, s, text)
				}
			case *ast.CaseClause:
				for _, s := range n.Body {
					del(out, s, text)
				}
				if len(n.List) > 1 {
					for i := range n.List {
						var r []string
						for j, e := range n.List {
							if j != i {
								r = append(r, text(e))
							}
						}
						out(n.List[0].Pos(), n.List[len(n.List)-1].End(), strings.Join(r, ", "), "case")
					}
				} else if len(n.List) == 1 {
					out(n.Pos(), n.End(), "", "nocase")
				}
			case *ast.IncDecStmt:
				o := "--"
				if n.Tok == token.DEC {
					o = "++"
				}
				out(n.TokPos, n.TokPos+2, o, "incdec")
			case *ast.AssignStmt:
				switch n.Tok {
				case token.ADD_ASSIGN:
					out(n.TokPos, n.TokPos+2, "-=", "assign")
					out(n.TokPos, n.TokPos+2, "=", "assign")
				case token.SUB_ASSIGN:
					out(n.TokPos, n.TokPos+2, "+=", "assign")
				case token.ASSIGN:
					if len(n.Rhs) == 1 {
						if _, ok := n.Rhs[0].(*ast.BinaryExpr); ok {
							b := n.Rhs[0].(*ast.BinaryExpr)
							out(b.Pos(), b.End(), text(b.X), "half")
							out(b.Pos(), b.End(), text(b.Y), "half")
						}
					}
				}
			}
			if b, ok := n.(*ast.BinaryExpr); ok && (b.Op == token.ADD || b.Op == token.SUB) {
				out(b.Pos(), b.End(), text(b.X), "half")
			}
			return true
		})
	}
}

func del(out func(a, b token.Pos, n, kind string), s ast.Stmt, text func(ast.Node) string) {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.IfStmt, *ast.SwitchStmt, *ast.ForStmt, *ast.BranchStmt, *ast.RangeStmt:
		out(s.Pos(), s.End(), "", "del")
	case *ast.AssignStmt:
		if s.Tok == token.DEFINE {
			return
		}
		var l []string
		for _, e := range s.Lhs {
			l = append(l, text(e))
		}
		if s.Tok == token.ASSIGN {
			var b []string
			for range s.Lhs {
				b = append(b, "_")
			}
			out(s.Pos(), s.End(), strings.Join(b, ", ")+" = "+func() string {
				var r []string
				for _, e := range s.Rhs {
					r = append(r, text(e))
				}
				return strings.Join(r, ", ")
			}(), "del")
		} else {
			out(s.Pos(), s.End(), "", "del")
		}
	case *ast.ReturnStmt:
		out(s.Pos(), s.End(), "", "del")
	}
}
