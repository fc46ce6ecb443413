// Command instr copies a Go file with a scheduling point before every statement, and with sync and
// sync/atomic replaced by the stand-ins the controlled scheduler knows.  It only inserts text, so the
// meaning of the file stays what it was.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strings"
)

const mod = "github.com/ahKevinXy/go-web-tools/zzverif/"

type edit struct {
	at, end int
	text    string
	seq     int
}

func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.IndexExpr:
		return pure(x.X) && pure(x.Index)
	case *ast.ParenExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	case *ast.BasicLit:
		return true
	}
	return false
}

func shared(e ast.Expr) bool { // could another goroutine see it: not a plain local name
	_, id := e.(*ast.Ident)
	return !id
}

func quiet(e ast.Expr) bool { // no calls, no receives
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func main() {
	src, dst := os.Args[1], os.Args[2]
	b, err := os.ReadFile(src)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, src, b, parser.ParseComments)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	var es []edit
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(at, end int, text string) { es = append(es, edit{at, end, text, len(es)}) }
	txt := func(n ast.Node) string { return string(b[off(n.Pos()):off(n.End())]) }
	points := 0
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			case *ast.BranchStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			points++
			add(off(s.Pos()), off(s.Pos()), "zzsched.Point(); ")
			// a read-modify-write of something shared is a read and a write
			switch x := s.(type) {
			case *ast.IncDecStmt:
				if pure(x.X) && shared(x.X) {
					e := txt(x.X)
					add(off(x.Pos()), off(x.End()), "{ zzv := "+e+"; zzsched.Point(); zzv"+x.Tok.String()+"; "+e+" = zzv }")
				}
			case *ast.AssignStmt:
				if len(x.Lhs) == 1 && x.Tok != token.ASSIGN && x.Tok != token.DEFINE && pure(x.Lhs[0]) && shared(x.Lhs[0]) && quiet(x.Rhs[0]) {
					e := txt(x.Lhs[0])
					add(off(x.Pos()), off(x.End()), "{ zzv := "+e+"; zzsched.Point(); zzv "+x.Tok.String()+" "+txt(x.Rhs[0])+"; "+e+" = zzv }")
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				points++
				add(off(x.Body.Rbrace), off(x.Body.Rbrace), "zzsched.Point() ")
			}
		case *ast.ImportSpec:
			name := ""
			switch x.Path.Value {
			case `"sync"`:
				name = "vsync"
			case `"sync/atomic"`:
				name = "vatomic"
			default:
				return true
			}
			alias := map[string]string{"vsync": "sync ", "vatomic": "atomic "}[name]
			if x.Name != nil {
				alias = ""
			}
			add(off(x.Path.Pos()), off(x.Path.End()), alias+`"`+mod+name+`"`)
		}
		return true
	})
	use := `; import zzsched "` + mod + `vsched"; var _ = zzsched.Point`
	if len(f.Imports) > 0 {
		use = `; import zzsched "` + mod + `vsched"`
	}
	add(off(f.Name.End()), off(f.Name.End()), use)
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].at != es[j].at {
			return es[i].at < es[j].at
		}
		return es[i].seq < es[j].seq
	})
	var out strings.Builder
	p := 0
	for _, e := range es {
		if e.at < p { // inside something already rewritten
			continue
		}
		out.Write(b[p:e.at])
		out.WriteString(e.text)
		p = e.end
	}
	out.Write(b[p:])
	if len(f.Imports) > 0 && points == 0 {
		out.WriteString("\nvar _ = zzsched.Point\n")
	}
	if err := os.WriteFile(dst, []byte(out.String()), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
