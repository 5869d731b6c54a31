// Command instr prepares a build overlay in which every statement of the
// library is preceded by a scheduling point and package sync is replaced by
// vsched.  Usage: instr REPO VSCHED_DIR OUTDIR; writes OUTDIR/overlay.json.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const pkg = "github.com/liyue201/gostl/utils/vsched"

type edit struct {
	at, end int
	text    string
}

func instrument(src []byte, name string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var es []edit
	stmts := func(l []ast.Stmt) {
		for _, st := range l {
			if _, ok := st.(*ast.EmptyStmt); ok {
				continue
			}
			es = append(es, edit{off(st.Pos()), off(st.Pos()), "vsched.Yield(); "})
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.SwitchStmt:
			ast.Inspect(x.Body, func(ast.Node) bool { return false })
		}
		return true
	})
	// the body of a switch is a block of clauses, before which nothing may stand
	skip := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch x := n.(type) {
		case *ast.SwitchStmt:
			b = x.Body
		case *ast.TypeSwitchStmt:
			b = x.Body
		case *ast.SelectStmt:
			b = x.Body
		}
		if b != nil {
			for _, c := range b.List {
				skip[off(c.Pos())] = true
			}
		}
		return true
	})
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			t := `"` + pkg + `"`
			if im.Name == nil {
				t = "sync " + t
			}
			es = append(es, edit{off(im.Path.Pos()), off(im.Path.End()), t})
		}
	}
	p := off(f.Name.End())
	es = append(es, edit{p, p, `; import vsched "` + pkg + `"; var _ = vsched.Yield`})
	// imports must come first: move the var to the end
	es[len(es)-1].text = `; import vsched "` + pkg + `"`
	sort.SliceStable(es, func(i, j int) bool { return es[i].at < es[j].at })
	var out []byte
	at := 0
	for _, e := range es {
		if e.at == e.end && skip[e.at] {
			continue
		}
		out = append(out, src[at:e.at]...)
		out = append(out, e.text...)
		at = e.end
	}
	out = append(out, src[at:]...)
	out = append(out, "\nvar _ = vsched.Yield\n"...)
	return out, nil
}

func main() {
	repo, vs, dir := os.Args[1], os.Args[2], os.Args[3]
	rep := map[string]string{}
	n := 0
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && rel != "." || rel == "examples" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out, err := instrument(src, p)
		if err != nil {
			return err
		}
		n++
		o := filepath.Join(dir, fmt.Sprintf("f%03d.go", n))
		rep[p] = o
		return os.WriteFile(o, out, 0o644)
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	rep[filepath.Join(repo, "utils/vsched/vsched.go")] = filepath.Join(vs, "vsched.go")
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	if err := os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
