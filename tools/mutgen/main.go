// mutgen lists small edits of Go files as JSON lines (development tool, no check uses it):
// mutgen FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	File, Op, Old, New string
	Line, Pos, End     int
	Func               string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		fun := ""
		emit := func(op string, a, b token.Pos, repl string) {
			i, j := off(a), off(b)
			enc.Encode(edit{fn, op, string(src[i:j]), repl, fs.Position(a).Line, i, j, fun})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		list := func(l []ast.Stmt) {
			for i, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt:
					emit("delete", s.Pos(), s.End(), "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit("delete", s.Pos(), s.End(), "")
					}
				case *ast.IfStmt:
					if x.Init == nil && x.Else == nil {
						emit("delete", s.Pos(), s.End(), "")
					}
				case *ast.BranchStmt:
					emit("delete", s.Pos(), s.End(), "")
				}
				if i+1 < len(l) {
					n := l[i+1]
					_, r := n.(*ast.ReturnStmt)
					_, d := s.(*ast.DeclStmt)
					if !r && !d {
						emit("swap", s.Pos(), n.End(), text(n)+"\n"+text(s))
					}
				}
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			fun = ""
			if ok {
				fun = fd.Name.Name
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.BlockStmt:
					list(x.List)
				case *ast.CaseClause:
					list(x.Body)
					if x.List != nil && len(x.Body) > 0 {
						emit("empty case", x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "")
					}
				case *ast.BinaryExpr:
					m := map[token.Token][]string{
						token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"}, token.AND: {"|"}, token.SHL: {">>"},
					}[x.Op]
					for _, r := range m {
						emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit("left", x.Pos(), x.End(), text(x.X))
						emit("right", x.Pos(), x.End(), text(x.Y))
					}
				case *ast.IfStmt:
					emit("negate", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
					if x.Else != nil {
						emit("no else", x.Body.End(), x.Else.End(), "")
					}
				case *ast.ForStmt:
					if x.Cond != nil && x.Post == nil && x.Init == nil {
						emit("for to if", x.For, x.For+3, "if")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit("const", x.Pos(), x.End(), fmt.Sprint(v+1))
							if v > 0 {
								emit("const", x.Pos(), x.End(), fmt.Sprint(v-1))
							}
							if v > 8 {
								emit("const", x.Pos(), x.End(), fmt.Sprint(v*2))
								emit("const", x.Pos(), x.End(), fmt.Sprint(v/2))
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" || x.Name == "false" {
						emit("bool", x.Pos(), x.End(), map[string]string{"true": "false", "false": "true"}[x.Name])
					}
					if x.Name == "uint64" {
						// handled as a conversion below
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
						switch id.Name {
						case "uint64", "int":
							emit("narrow", x.Pos(), x.End(), id.Name+"(uint8("+text(x.Args[0])+"))")
							emit("narrow", x.Pos(), x.End(), id.Name+"(uint32("+text(x.Args[0])+"))")
						}
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if t := text(r); t == "err" {
							emit("nil", r.Pos(), r.End(), "nil")
						}
					}
				case *ast.AssignStmt:
					if x.Tok == token.ADD_ASSIGN {
						emit("op=", x.TokPos, x.TokPos+2, "-=")
					}
					if x.Tok == token.ASSIGN && len(x.Rhs) == 1 {
						if c, ok := x.Rhs[0].(*ast.CallExpr); ok && text(c.Fun) == "append" && len(c.Args) == 2 {
							emit("no append", x.Rhs[0].Pos(), x.Rhs[0].End(), text(c.Args[0])+"[:len("+text(c.Args[0])+")]")
						}
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit("low+1", x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1")
					}
					if x.High != nil {
						emit("high-1", x.High.Pos(), x.High.End(), "("+text(x.High)+")-1")
					}
				}
				return true
			})
		}
	}
}
