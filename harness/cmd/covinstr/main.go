// Command covinstr prepares a build overlay in which the library notes which
// of its blocks run and how close the numbers it compares are.
// Usage: covinstr REPO VCOV_DIR OUTDIR [FILE...]; writes OUTDIR/overlay.json. In
// the files listed (by their names in OUTDIR) the comparisons are left alone:
// not every comparison is one of numbers, and its form does not always show it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const pkg = "github.com/liyue201/gostl/utils/vcov"

type edit struct {
	at, end int
	text    string
}

var names = map[token.Token]string{token.LSS: "Lt", token.LEQ: "Le", token.GTR: "Gt", token.GEQ: "Ge", token.EQL: "Eq", token.NEQ: "Ne"}

// number tells whether an expression is one, as far as its form shows.
func number(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.BasicLit:
		return x.Kind == token.INT || x.Kind == token.CHAR
	case *ast.ParenExpr:
		return number(x.X)
	case *ast.BinaryExpr:
		switch x.Op {
		case token.SUB, token.MUL, token.QUO, token.REM, token.AND, token.OR, token.XOR, token.SHL, token.SHR:
			return true
		case token.ADD:
			return number(x.X) || number(x.Y)
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok {
			return id.Name == "len" || id.Name == "cap"
		}
	}
	return false
}

func instrument(src []byte, name, rel string, compares bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	n := 0
	id := func() uint32 {
		n++
		h := fnv.New32a()
		fmt.Fprint(h, rel, n)
		return h.Sum32() & 0xffff
	}
	var es []edit
	add := func(at, end int, text string) { es = append(es, edit{at, end, text}) }
	clauses := map[*ast.BlockStmt]bool{}
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.CONST || x.Tok == token.TYPE {
				return false
			}
		case *ast.SwitchStmt:
			clauses[x.Body] = true
		case *ast.TypeSwitchStmt:
			clauses[x.Body] = true
		case *ast.SelectStmt:
			clauses[x.Body] = true
		case *ast.BlockStmt:
			if !clauses[x] {
				add(off(x.Lbrace)+1, off(x.Lbrace)+1, fmt.Sprintf("vcov.Hit(%d); ", id()))
			}
		case *ast.CaseClause:
			add(off(x.Colon)+1, off(x.Colon)+1, fmt.Sprintf("vcov.Hit(%d); ", id()))
		case *ast.CommClause:
			add(off(x.Colon)+1, off(x.Colon)+1, fmt.Sprintf("vcov.Hit(%d); ", id()))
		case *ast.BinaryExpr:
			fn := names[x.Op]
			if compares && fn != "" && (fn[0] == 'L' || fn[0] == 'G' || number(x.X) || number(x.Y)) &&
				!(number(x.X) && number(x.Y) && isLit(x.X) && isLit(x.Y)) && !isStr(x.X) && !isStr(x.Y) {
				add(off(x.Pos()), off(x.Pos()), fmt.Sprintf("vcov.%s(%d, ", fn, id()))
				add(off(x.OpPos), off(x.OpPos)+len(x.Op.String()), ", ")
				add(off(x.End()), off(x.End()), ")")
			}
		}
		return true
	}
	ast.Inspect(f, visit)
	p := off(f.Name.End())
	add(p, p, `; import vcov "`+pkg+`"`)
	sort.SliceStable(es, func(i, j int) bool { return es[i].at < es[j].at })
	var out []byte
	at := 0
	for _, e := range es {
		out = append(out, src[at:e.at]...)
		out = append(out, e.text...)
		at = e.end
	}
	out = append(out, src[at:]...)
	out = append(out, "\nvar _ = vcov.Hit\n"...)
	return out, nil
}

func isLit(e ast.Expr) bool { _, ok := e.(*ast.BasicLit); return ok }
func isStr(e ast.Expr) bool {
	b, ok := e.(*ast.BasicLit)
	return ok && b.Kind == token.STRING
}

func main() {
	repo, vc, dir := os.Args[1], os.Args[2], os.Args[3]
	plain := map[string]bool{}
	for _, f := range os.Args[4:] {
		plain[f] = true
	}
	rep := map[string]string{}
	n := 0
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && rel != "." || rel == "examples" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		n++
		base := fmt.Sprintf("c%03d.go", n)
		out, err := instrument(src, p, rel, !plain[base])
		if err != nil {
			return err
		}
		o := filepath.Join(dir, base)
		rep[p] = o
		return os.WriteFile(o, out, 0o644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	rep[filepath.Join(repo, "utils/vcov/vcov.go")] = filepath.Join(vc, "vcov.go")
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	if err := os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
