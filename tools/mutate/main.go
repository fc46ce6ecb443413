// mutate FILE...: prints one JSON line per small change to each file: {file, line, from, to, old, new, kind}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
	token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		emit := func(kind string, a, b token.Pos, with string) {
			p, q := fs.Position(a), fs.Position(b)
			enc.Encode(map[string]interface{}{"file": f, "line": p.Line, "from": p.Offset, "to": q.Offset, "old": string(src[p.Offset:q.Offset]), "new": with, "kind": kind})
		}
		text := func(n ast.Node) string {
			return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset])
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, t := range swaps[x.Op] {
						emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 62); err == nil {
							emit("int", x.Pos(), x.End(), fmt.Sprint(v+1))
							if v > 0 {
								emit("int", x.Pos(), x.End(), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit("bool", x.Pos(), x.End(), "false")
					} else if x.Name == "false" {
						emit("bool", x.Pos(), x.End(), "true")
					}
				case *ast.IfStmt:
					emit("ifnever", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
					emit("ifalways", x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")")
				case *ast.ForStmt:
				case *ast.ExprStmt:
					emit("drop", x.Pos(), x.End(), "")
				case *ast.DeferStmt:
					emit("drop", x.Pos(), x.End(), "")
				case *ast.GoStmt:
					emit("nogo", x.Pos(), x.Call.Pos(), "")
				case *ast.IncDecStmt:
					emit("drop", x.Pos(), x.End(), "")
					op := "--"
					if x.Tok == token.DEC {
						op = "++"
					}
					emit("incdec", x.TokPos, x.TokPos+2, op)
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						l := ""
						for i, e := range x.Lhs {
							if i > 0 {
								l += ", "
							}
							_ = e
							l += "_"
						}
						if x.Tok == token.ASSIGN {
							r := ""
							for i, e := range x.Rhs {
								if i > 0 {
									r += ", "
								}
								r += text(e)
							}
							if text(x.Lhs[0]) != "_" {
								emit("noassign", x.Pos(), x.End(), l+" = "+r)
							}
						} else {
							emit("drop", x.Pos(), x.End(), "")
						}
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK {
						emit("branch", x.Pos(), x.End(), "continue")
					} else if x.Tok == token.CONTINUE {
						emit("branch", x.Pos(), x.End(), "break")
					}
				case *ast.ReturnStmt:
					for _, e := range x.Results {
						if t := text(e); t == "err" {
							emit("err", e.Pos(), e.End(), "nil")
						}
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit("not", x.Pos(), x.X.Pos(), "")
					}
				}
				return true
			})
		}
	}
}
