// Command instr SRC DST makes a copy of the package in SRC whose operations on
// shared state go through package vsched (see there).
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	at, n int
	s     string
}

var always = map[string]bool{"Pool": true, "Mutex": true, "RWMutex": true, "WaitGroup": true, "Once": true, "Cond": true, "NewCond": true, "Locker": true}

func instrument(src []byte, name string) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	syncName, atomicName := "", ""
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		switch p {
		case "sync":
			syncName = n
		case "sync/atomic":
			atomicName = n
		}
	}
	isSel := func(e ast.Expr, pkg string) (*ast.SelectorExpr, bool) {
		s, ok := e.(*ast.SelectorExpr)
		if !ok || pkg == "" {
			return nil, false
		}
		x, ok := s.X.(*ast.Ident)
		return s, ok && x.Name == pkg
	}
	redirect := func(s *ast.SelectorExpr) {
		x := s.X.(*ast.Ident)
		edits = append(edits, edit{off(x.Pos()), len(x.Name), "vsched"})
	}
	// the package's own maps: variables and members of these types
	own := map[*ast.SelectorExpr]bool{}
	declared := func(t ast.Expr) {
		if s, ok := isSel(t, syncName); ok && s.Sel.Name == "Map" {
			own[s] = true
		}
	}
	params := map[*ast.Field]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncType:
			for _, l := range []*ast.FieldList{n.Params, n.Results} {
				if l != nil {
					for _, p := range l.List {
						params[p] = true
					}
				}
			}
		case *ast.ValueSpec:
			if n.Type != nil {
				declared(n.Type)
			}
		case *ast.Field:
			if !params[n] {
				declared(n.Type)
			}
		case *ast.CompositeLit:
			if n.Type != nil {
				declared(n.Type)
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "new" && len(n.Args) == 1 {
				declared(n.Args[0])
			}
		}
		return true
	})
	ast.Inspect(f, func(n ast.Node) bool {
		e, ok := n.(ast.Expr)
		if !ok {
			return true
		}
		if s, ok := isSel(e, syncName); ok && (always[s.Sel.Name] || own[s]) {
			redirect(s)
		}
		if s, ok := isSel(e, atomicName); ok {
			redirect(s)
		}
		return true
	})
	// a point before every statement
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			edits = append(edits, edit{off(s.Pos()), 0, "vsched.Point(); "})
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		exempt := false
		if fd.Doc != nil {
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//go:nosplit") || strings.HasPrefix(c.Text, "//go:nocheckptr") {
					exempt = true
				}
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "uintptr" {
					exempt = true
				}
			}
			return true
		})
		if exempt {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				// their bodies hold clauses, not statements
				var b *ast.BlockStmt
				switch s := n.(type) {
				case *ast.SwitchStmt:
					b = s.Body
					if s.Init != nil {
						ast.Inspect(s.Init, inner(list))
					}
					if s.Tag != nil {
						ast.Inspect(s.Tag, inner(list))
					}
				case *ast.TypeSwitchStmt:
					b = s.Body
				case *ast.SelectStmt:
					b = s.Body
				}
				for _, c := range b.List {
					ast.Inspect(c, inner(list))
				}
				return false
			}
			return true
		})
	}
	edits = append(edits, edit{off(f.Name.End()), 0, "\n\nimport vsched \"vsched\"\n"})
	tail := "\nvar _ = vsched.Point\n"
	if syncName != "" {
		tail += "var _ " + syncName + ".Mutex\n"
	}
	if atomicName != "" {
		tail += "var _ = " + atomicName + ".LoadInt32\n"
	}
	sort.SliceStable(edits, func(i, j int) bool {
		return edits[i].at < edits[j].at || edits[i].at == edits[j].at && edits[i].n < edits[j].n
	})
	var out []byte
	at := 0
	for k, e := range edits {
		if k > 0 && e == edits[k-1] {
			continue
		}
		out = append(out, src[at:e.at]...)
		out = append(out, e.s...)
		at = e.at + e.n
	}
	out = append(out, src[at:]...)
	return append(out, tail...), nil
}

// inner walks the statements within a clause.
func inner(list func([]ast.Stmt)) func(ast.Node) bool {
	var f func(n ast.Node) bool
	f = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.SwitchStmt:
			for _, c := range n.Body.List {
				ast.Inspect(c, f)
			}
			return false
		case *ast.TypeSwitchStmt:
			for _, c := range n.Body.List {
				ast.Inspect(c, f)
			}
			return false
		case *ast.SelectStmt:
			for _, c := range n.Body.List {
				ast.Inspect(c, f)
			}
			return false
		}
		return true
	}
	return f
}

func main() {
	src, dst := os.Args[1], os.Args[2]
	files, err := os.ReadDir(src)
	check(err)
	check(os.MkdirAll(dst, 0o777))
	for _, e := range files {
		n := e.Name()
		if e.IsDir() || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if !strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, ".s") && n != "go.mod" && n != "go.sum" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, n))
		check(err)
		if strings.HasSuffix(n, ".go") {
			b, err = instrument(b, n)
			check(err)
		}
		check(os.WriteFile(filepath.Join(dst, n), b, 0o666))
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}
