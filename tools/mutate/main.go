// Command mutate lists small changes to Go files, as JSON lines:
// {"file","line","kind","edits":[[from,to,"text"]]} (byte offsets).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit [3]interface{}

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
	Kind  string `json:"kind"`
	Was   string `json:"was"`
	Now   string `json:"now"`
	Edits []edit `json:"edits"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			emit := func(n ast.Node, kind, now string, edits ...edit) {
				w := text(n)
				if len(w) > 160 {
					w = w[:160]
				}
				enc.Encode(mutant{file, fset.Position(n.Pos()).Line, fd.Name.Name, kind, w, now, edits})
			}
			repl := func(n ast.Node, kind, now string) {
				emit(n, kind, now, edit{off(n.Pos()), off(n.End()), now})
			}
			stmts := func(list []ast.Stmt) {
				for i, s := range list {
					switch s := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
						repl(s, "delete", "")
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							repl(s, "delete", "")
						}
					case *ast.DeferStmt:
						repl(s, "delete", "")
						repl(s, "undefer", text(s.Call))
					case *ast.GoStmt:
						repl(s, "ungo", text(s.Call))
					case *ast.BranchStmt:
						repl(s, "delete", "")
						if s.Tok == token.BREAK && s.Label == nil {
							repl(s, "continue", "continue")
						}
						if s.Tok == token.CONTINUE && s.Label == nil {
							repl(s, "break", "break")
						}
					case *ast.ReturnStmt:
						for _, r := range s.Results {
							if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
								repl(r, "return-nil", "nil")
							}
							if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
								repl(r, "return-not", map[string]string{"true": "false", "false": "true"}[id.Name])
							}
						}
						if i == len(list)-1 && len(s.Results) == 0 {
							repl(s, "delete", "")
						}
					case *ast.IfStmt:
						repl(s.Cond, "negate", "!("+text(s.Cond)+")")
						repl(s.Cond, "never", "false && ("+text(s.Cond)+")")
						repl(s.Cond, "always", "true || ("+text(s.Cond)+")")
					case *ast.ForStmt:
						if s.Cond != nil {
							repl(s.Cond, "loop-once-less", "false && ("+text(s.Cond)+")")
						}
					}
					if i+1 < len(list) {
						a, b := s, list[i+1]
						if _, ok := b.(*ast.ReturnStmt); !ok {
							emit(s, "swap", text(b), edit{off(a.Pos()), off(a.End()), text(b)}, edit{off(b.Pos()), off(b.End()), text(a)})
						}
					}
				}
				// lock sections
				for i, s := range list {
					recv, op := lockOp(s, text)
					if op != "Lock" && op != "RLock" {
						continue
					}
					for j := i + 1; j < len(list); j++ {
						r2, op2 := lockOp(list[j], text)
						if r2 == recv && op2 == map[string]string{"Lock": "Unlock", "RLock": "RUnlock"}[op] {
							emit(s, "unlocked", "", edit{off(s.Pos()), off(s.End()), ""}, edit{off(list[j].Pos()), off(list[j].End()), ""})
							// the section one statement shorter at either end
							if j > i+2 {
								emit(s, "lock-later", text(list[i+1]), edit{off(s.Pos()), off(s.End()), text(list[i+1])}, edit{off(list[i+1].Pos()), off(list[i+1].End()), text(s)})
							}
							// two sections
							for k := i + 2; k < j; k++ {
								emit(list[k], "split-lock", "", edit{off(list[k].Pos()), off(list[k].Pos()), recv + "." + map[string]string{"Lock": "Unlock", "RLock": "RUnlock"}[op] + "(); " + recv + "." + op + "(); "})
							}
							break
						}
					}
				}
				for i, s := range list {
					ds, ok := s.(*ast.DeferStmt)
					if !ok || i == 0 {
						continue
					}
					r, op := lockOp(&ast.ExprStmt{X: ds.Call}, text)
					r0, op0 := lockOp(list[i-1], text)
					if r == r0 && (op == "Unlock" || op == "RUnlock") && (op0 == "Lock" || op0 == "RLock") {
						emit(s, "unlocked", "", edit{off(list[i-1].Pos()), off(list[i-1].End()), ""}, edit{off(s.Pos()), off(s.End()), ""})
						for k := i + 2; k < len(list); k++ {
							emit(list[k], "split-lock", "", edit{off(list[k].Pos()), off(list[k].Pos()), r + "." + op + "(); " + r + "." + op0 + "(); "})
						}
					}
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					stmts(n.List)
				case *ast.CaseClause:
					stmts(n.Body)
					if len(n.Body) > 0 && n.List != nil {
						emit(n, "empty-case", "", edit{off(n.Body[0].Pos()), off(n.Body[len(n.Body)-1].End()), ""})
					}
				case *ast.CommClause:
					stmts(n.Body)
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{
						token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
						token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.XOR: {"|"},
					}[n.Op]
					for _, a := range alt {
						emit(n, "op", a, edit{off(n.OpPos), off(n.OpPos) + len(n.Op.String()), a})
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
							repl(n, "const", fmt.Sprint(v+1))
							if v > 0 {
								repl(n, "const", fmt.Sprint(v-1))
							}
						}
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT {
						repl(n, "unnot", text(n.X))
					}
				case *ast.CallExpr:
					if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
						if id, ok := sel.X.(*ast.Ident); ok && id.Name == "atomic" {
							// plain accesses
							a := n.Args
							ptr := func() string { return "*(" + text(a[0]) + ")" }
							switch {
							case strings.HasPrefix(sel.Sel.Name, "Add"):
								repl(n, "plain-atomic", fmt.Sprintf("func() %s { v := %s + %s; %s = v; return v }()", strings.ToLower(sel.Sel.Name[3:]), ptr(), text(a[1]), ptr()))
								if u, ok := a[0].(*ast.UnaryExpr); ok {
									_ = u
									repl(n, "load-store", fmt.Sprintf("func() %s { v := atomic.Load%s(%s) + %s; atomic.Store%s(%s, v); return v }()", strings.ToLower(sel.Sel.Name[3:]), sel.Sel.Name[3:], text(a[0]), text(a[1]), sel.Sel.Name[3:], text(a[0])))
								}
							case strings.HasPrefix(sel.Sel.Name, "Load"):
								repl(n, "plain-atomic", ptr())
							case strings.HasPrefix(sel.Sel.Name, "CompareAndSwap"):
								t := sel.Sel.Name[len("CompareAndSwap"):]
								repl(n, "cas-split", fmt.Sprintf("func() bool { if atomic.Load%s(%s) != %s { return false }; atomic.Store%s(%s, %s); return true }()", t, text(a[0]), text(a[1]), t, text(a[0]), text(a[2])))
								repl(n, "cas-blind", fmt.Sprintf("func() bool { atomic.Store%s(%s, %s); return true }()", t, text(a[0]), text(a[2])))
							}
						}
					}
				}
				return true
			})
		}
	}
}

func lockOp(s ast.Stmt, text func(ast.Node) string) (recv, op string) {
	es, ok := s.(*ast.ExprStmt)
	if !ok {
		return "", ""
	}
	c, ok := es.X.(*ast.CallExpr)
	if !ok || len(c.Args) != 0 {
		return "", ""
	}
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return "", ""
	}
	return text(sel.X), sel.Sel.Name
}
