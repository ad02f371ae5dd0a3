// Lists mutants of Go files, one JSON object per line: file, offset, length,
// new text and a description.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File     string
	Off, Len int
	New      string
	Line     int
	Desc     string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, src, 0)
		if err != nil {
			panic(err)
		}
		at := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[at(n.Pos()):at(n.End())]) }
		out := func(from, to token.Pos, s, desc string) {
			enc.Encode(mutant{fn, at(from), at(to) - at(from), s, fset.Position(from).Line, desc + ": " + string(src[at(from):at(to)]) + " -> " + s})
		}
		repl := func(n ast.Node, s, desc string) { out(n.Pos(), n.End(), s, desc) }
		ops := map[token.Token][]string{
			token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
		}
		stmts := func(l []ast.Stmt) {
			for i, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
					repl(s, "", "drop")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						repl(s, "", "drop")
					}
				case *ast.BranchStmt:
					repl(s, "", "drop")
				case *ast.IfStmt:
					if x.Else == nil && x.Init == nil {
						repl(s, "", "drop if")
					}
				case *ast.ReturnStmt:
					if i < len(l)-1 || true {
						for _, r := range x.Results {
							if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
								repl(r, "nil", "no error")
							}
						}
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, o := range ops[x.Op] {
					out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "op in "+text(x))
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					repl(x, text(x.X), "left only")
					repl(x, text(x.Y), "right only")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseUint(x.Value, 0, 64)
					if err == nil {
						repl(x, fmt.Sprint(v+1), "int")
						if v > 0 {
							repl(x, fmt.Sprint(v-1), "int")
						}
					}
				} else if x.Kind == token.STRING && len(x.Value) > 2 {
					repl(x, x.Value[:1]+x.Value[2:], "string")
				}
			case *ast.IfStmt:
				repl(x.Cond, "!("+text(x.Cond)+")", "negate")
				repl(x.Cond, "true || "+text(x.Cond), "always")
				repl(x.Cond, "false && ("+text(x.Cond)+")", "never")
			case *ast.ForStmt:
				if x.Cond != nil {
					repl(x.Cond, "false && ("+text(x.Cond)+")", "never")
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
				for i, e := range x.List {
					if len(x.List) > 1 {
						if i > 0 {
							out(x.List[i-1].End(), e.End(), "", "drop case")
						} else {
							out(e.Pos(), x.List[1].Pos(), "", "drop case")
						}
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					repl(x, text(x.X), "drop !")
				}
			case *ast.BranchStmt:
				if x.Label == nil {
					switch x.Tok {
					case token.BREAK:
						repl(x, "continue", "branch")
					case token.CONTINUE:
						repl(x, "break", "branch")
					}
				}
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
					nar := map[string]string{"uint64": "uint32", "int64": "int32", "uint32": "uint16", "int": "int32"}
					if s, ok := nar[id.Name]; ok {
						repl(x, id.Name+"("+s+"("+text(x.Args[0])+"))", "narrow")
					}
				}
			}
			return true
		})
	}
}
