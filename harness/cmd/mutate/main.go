// Command mutate lists small changes to a Go file, one JSON object per line:
// {"file","at","end","text","what","line"}.  Used to test the checks.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File string `json:"file"`
	At   int    `json:"at"`
	End  int    `json:"end"`
	Text string `json:"text"`
	What string `json:"what"`
	Line int    `json:"line"`
}

func main() {
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		enc := json.NewEncoder(os.Stdout)
		out := func(a, b token.Pos, text, what string) {
			enc.Encode(mut{name, off(a), off(b), text, what, fset.Position(a).Line})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swap := map[token.Token][]string{
			token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.SHL: {">>"}, token.SHR: {"<<"},
			token.AND: {"|"}, token.OR: {"&"}, token.REM: {"*"}, token.XOR: {"|"}, token.AND_NOT: {"|"},
		}
		var walk func(n ast.Node) bool
		walk = func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if x.Name.Name == "String" && false {
					return false
				}
			case *ast.BinaryExpr:
				for _, o := range swap[x.Op] {
					out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "operator "+x.Op.String()+" -> "+o)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT && !strings.HasPrefix(x.Value, "0x") {
					out(x.Pos(), x.End(), "("+x.Value+"+1)", "constant + 1")
					if x.Value != "0" {
						out(x.Pos(), x.End(), "("+x.Value+"-1)", "constant - 1")
					}
				}
			case *ast.IfStmt:
				out(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") && false", "condition false")
				out(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") || true", "condition true")
			case *ast.IncDecStmt:
				t := "--"
				if x.Tok == token.DEC {
					t = "++"
				}
				out(x.TokPos, x.TokPos+2, t, "inc/dec")
			case *ast.BlockStmt:
				for i, st := range x.List {
					switch s := st.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
						out(st.Pos(), st.End(), "", "delete "+txt(st))
						if d, ok := st.(*ast.ExprStmt); ok && strings.HasSuffix(txt(d), "Lock()") && i+1 < len(x.List) {
							if e, ok := x.List[i+1].(*ast.DeferStmt); ok {
								out(st.Pos(), e.End(), "", "delete lock and unlock")
								if strings.HasSuffix(txt(d), ".Lock()") {
									t := strings.ReplaceAll(strings.ReplaceAll(string(src[off(st.Pos()):off(e.End())]), ".Lock()", ".RLock()"), ".Unlock()", ".RUnlock()")
									out(st.Pos(), e.End(), t, "write lock -> read lock")
								}
							}
						}
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							out(st.Pos(), st.End(), "", "delete "+txt(st))
						}
					case *ast.IfStmt:
						if s.Init == nil && s.Else == nil {
							out(st.Pos(), st.End(), "", "delete if "+txt(s.Cond))
						}
					case *ast.ForStmt, *ast.RangeStmt:
						out(st.Pos(), st.End(), "", "delete loop")
					case *ast.BranchStmt:
						out(st.Pos(), st.End(), "", "delete "+txt(st))
					case *ast.ReturnStmt:
						if len(s.Results) == 0 {
							out(st.Pos(), st.End(), "", "delete return")
						}
					}
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					switch txt(r) {
					case "true":
						out(r.Pos(), r.End(), "false", "return false")
					case "false":
						out(r.Pos(), r.End(), "true", "return true")
					}
				}
			case *ast.SelectorExpr:
				pair := map[string]string{"left": "right", "right": "left", "Next": "Prev", "Prev": "Next", "prev": "next", "next": "prev",
					"RED": "BLACK", "BLACK": "RED", "Front": "Back", "Back": "Front", "PushBack": "PushFront", "PopBack": "PopFront", "PopFront": "PopBack",
					"PushFront": "PushBack", "FrontNode": "BackNode", "BackNode": "FrontNode", "head": "tail", "tail": "head",
					"FindLowerBoundNode": "FindUpperBoundNode", "FindUpperBoundNode": "FindLowerBoundNode"}
				if o, ok := pair[x.Sel.Name]; ok {
					out(x.Sel.Pos(), x.Sel.End(), o, x.Sel.Name+" -> "+o)
				}
			case *ast.CallExpr:
				if len(x.Args) == 2 && txt(x.Args[0]) != txt(x.Args[1]) {
					a, b := txt(x.Args[0]), txt(x.Args[1])
					out(x.Args[0].Pos(), x.Args[1].End(), b+", "+a, "swap arguments")
				}
			}
			return true
		}
		ast.Inspect(f, walk)
	}
	_ = fmt.Sprint
}
