// mutate lists mutants of Go files: JSON lines {id, file, line, op, start, end, new}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	ID, File, Op, Old, New string
	Line, Start, End       int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(os.Args[1] + "/" + f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		n := 0
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(op string, a, b token.Pos, nw string) {
			n++
			enc.Encode(mut{fmt.Sprintf("%s#%d", f, n), f, op, string(src[off(a):off(b)]), nw, fs.Position(a).Line, off(a), off(b)})
		}
		text := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
		boring := func(s string) bool {
			for _, p := range []string{"finch.Debug(", "log.", "fmt.Print", "fmt.Fprint", "panic("} {
				if strings.HasPrefix(strings.TrimSpace(s), p) {
					return true
				}
			}
			return false
		}
		var walk func(ast.Node) bool
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt:
					if !boring(text(x)) {
						emit("del-call", x.Pos(), x.End(), "")
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						// keep variables used
						nw := ""
						for _, r := range x.Rhs {
							nw += "_ = " + text(r) + ";"
						}
						if x.Tok != token.ASSIGN {
							nw = ""
						}
						emit("del-assign", x.Pos(), x.End(), nw)
					}
				case *ast.IncDecStmt:
					emit("del-incdec", x.Pos(), x.End(), "")
				case *ast.DeferStmt:
					emit("del-defer", x.Pos(), x.End(), "")
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE || x.Tok == token.BREAK || x.Tok == token.GOTO {
						emit("del-branch", x.Pos(), x.End(), "")
					}
				case *ast.GoStmt:
					emit("del-go", x.Pos(), x.End(), "")
				case *ast.SendStmt:
					emit("del-send", x.Pos(), x.End(), "")
				case *ast.ReturnStmt:
					if len(x.Results) == 0 {
						emit("del-return", x.Pos(), x.End(), "")
					} else if len(x.Results) >= 1 {
						last := x.Results[len(x.Results)-1]
						if id, ok := last.(*ast.Ident); ok && id.Name == "err" {
							emit("ret-nil", last.Pos(), last.End(), "nil")
						} else if ok && (id.Name == "true" || id.Name == "false") {
							m := map[string]string{"true": "false", "false": "true"}
							emit("ret-bool", last.Pos(), last.End(), m[id.Name])
						} else if c, ok := last.(*ast.CallExpr); ok && strings.HasPrefix(text(c), "fmt.Errorf(") {
							emit("ret-nil", last.Pos(), last.End(), "func(...interface{}) error { return nil }("+strings.TrimPrefix(text(c), "fmt.Errorf("))
						}
					}
				case *ast.IfStmt:
					if boring(strings.TrimPrefix(strings.TrimSpace(text(x.Body)), "{")) && len(x.Body.List) == 1 {
						continue
					}
					emit("if-true", x.Cond.Pos(), x.Cond.End(), "(true || "+text(x.Cond)+")")
					emit("if-false", x.Cond.Pos(), x.Cond.End(), "(false && ("+text(x.Cond)+"))")
				}
			}
		}
		walk = func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.CallExpr:
				if boring(text(x)) {
					return false
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.ForStmt:
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{
					token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
				}[x.Op]
				for _, a := range alt {
					if x.Op == token.ADD && (strings.Contains(text(x), "\"") || strings.Contains(text(x), "`")) {
						continue
					}
					emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						emit("int", x.Pos(), x.End(), fmt.Sprint(v+1))
					}
				}
			case *ast.Ident:
				if (x.Name == "true" || x.Name == "false") && x.Obj == nil {
					m := map[string]string{"true": "false", "false": "true"}
					emit("bool", x.Pos(), x.End(), m[x.Name])
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit("not", x.Pos(), x.Pos()+1, "")
				}
			case *ast.ImportSpec:
				return false
			}
			return true
		}
		ast.Inspect(af, walk)
	}
}
