package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
)

// normalise rewrites one idiom of the sources before they are loaded: a loop
// over a list of the keys of a map, gathered for that loop alone (and maybe
// sorted), becomes the loop over the map itself. Which order the entries are
// taken in is no part of any property, except where keys are taken apart into
// nested maps (parents first), and there nothing is rewritten. Lines stay where
// they are; the file on disk is not touched.
func normalise(repo string, cfg *packages.Config) {
	filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); n == ".git" || n == "examples" || n == "testdata" || n == "node_modules" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, ok := cfg.Overlay[p]
		if !ok {
			if src, err = os.ReadFile(p); err != nil {
				return nil
			}
		}
		if out := normaliseFile(p, src); out != nil {
			if cfg.Overlay == nil {
				cfg.Overlay = map[string][]byte{}
			}
			cfg.Overlay[p] = out
		}
		return nil
	})
}

type normer struct {
	fset *token.FileSet
	src  []byte
	out  []byte
	done bool
	ed   []edit
}

type edit struct {
	a, b int
	text string
}

func (n *normer) off(p token.Pos) int { return n.fset.Position(p).Offset }

func (n *normer) text(x ast.Node) string { return string(n.src[n.off(x.Pos()):n.off(x.End())]) }

func (n *normer) blank(x ast.Node) { n.ed = append(n.ed, edit{n.off(x.Pos()), n.off(x.End()), ""}) }

func (n *normer) put(a, b token.Pos, text string) {
	n.ed = append(n.ed, edit{n.off(a), n.off(b), text})
}

// keysOf: the map whose keys the expression lists.
func (n *normer) keysOf(x ast.Expr) (m ast.Expr, seq bool) {
	c, ok := x.(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return nil, false
	}
	switch n.text(c.Fun) {
	case "maps.Keys":
		if plainExpr(c.Args[0]) {
			return c.Args[0], true
		}
	case "slices.Sorted", "slices.Collect":
		if m, seq := n.keysOf(c.Args[0]); seq {
			return m, false
		}
	}
	return nil, false
}

func plainExpr(x ast.Expr) bool {
	switch x := x.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return plainExpr(x.X)
	}
	return false
}

func isId(x ast.Expr, name string) bool {
	id, ok := x.(*ast.Ident)
	return ok && id.Name == name
}

// gathers: `for k := range M { ks = append(ks, k) }`.
func (n *normer) gathers(s ast.Stmt) (ks string, m ast.Expr) {
	r, ok := s.(*ast.RangeStmt)
	if !ok || r.Key == nil || r.Value != nil && !isId(r.Value, "_") || len(r.Body.List) != 1 {
		return
	}
	k, ok := r.Key.(*ast.Ident)
	as, ok2 := r.Body.List[0].(*ast.AssignStmt)
	if !ok || !ok2 || k.Name == "_" || as.Tok != token.ASSIGN || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
		return
	}
	l, ok := as.Lhs[0].(*ast.Ident)
	c, ok2 := as.Rhs[0].(*ast.CallExpr)
	if !ok || !ok2 || !isId(c.Fun, "append") || len(c.Args) != 2 || !isId(c.Args[0], l.Name) || !isId(c.Args[1], k.Name) || !plainExpr(r.X) {
		return
	}
	return l.Name, r.X
}

func (n *normer) declares(s ast.Stmt, ks string) bool {
	switch s := s.(type) {
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE || len(s.Lhs) != 1 || len(s.Rhs) != 1 || !isId(s.Lhs[0], ks) {
			return false
		}
		c, ok := s.Rhs[0].(*ast.CallExpr)
		if ok {
			return isId(c.Fun, "make") && len(c.Args) >= 2 && n.text(c.Args[1]) == "0"
		}
		cl, ok := s.Rhs[0].(*ast.CompositeLit)
		return ok && len(cl.Elts) == 0
	case *ast.DeclStmt:
		g, ok := s.Decl.(*ast.GenDecl)
		if !ok || len(g.Specs) != 1 {
			return false
		}
		v, ok := g.Specs[0].(*ast.ValueSpec)
		return ok && len(v.Names) == 1 && v.Names[0].Name == ks && len(v.Values) == 0
	}
	return false
}

func (n *normer) sorts(s ast.Stmt, ks string) bool {
	x, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := x.X.(*ast.CallExpr)
	if !ok || len(c.Args) == 0 || !isId(c.Args[0], ks) {
		return false
	}
	switch n.text(c.Fun) {
	case "sort.Strings", "slices.Sort", "sort.Slice", "sort.Ints", "slices.SortFunc", "sort.SliceStable":
		return true
	}
	return false
}

func uses(x ast.Node, name string) (k int) {
	ast.Inspect(x, func(y ast.Node) bool {
		if id, ok := y.(*ast.Ident); ok && id.Name == name {
			k++
		}
		return true
	})
	return
}

// header: `for _, k := range KS` becomes `for k := range M`.
func (n *normer) header(r *ast.RangeStmt, m ast.Expr) {
	k := n.text(r.Value)
	n.put(r.Key.Pos(), r.X.End(), k+" "+r.Tok.String()+" range "+n.text(m))
	n.done = true
}

func overKeys(r *ast.RangeStmt) bool {
	return r.Key != nil && isId(r.Key, "_") && r.Value != nil && !isId(r.Value, "_") && r.Tok == token.DEFINE
}

func (n *normer) list(body *ast.BlockStmt, l []ast.Stmt) {
	for j, s := range l {
		if r, ok := s.(*ast.RangeStmt); ok {
			if m, seq := n.keysOf(r.X); m != nil {
				if seq && r.Key != nil && r.Value == nil {
					n.put(r.X.Pos(), r.X.End(), n.text(m))
					n.done = true
				} else if !seq && overKeys(r) {
					n.header(r, m)
				}
				continue
			}
		}
		ks, m := n.gathers(s)
		gone := []ast.Stmt{s}
		if m == nil {
			if as, ok := s.(*ast.AssignStmt); ok && as.Tok == token.DEFINE && len(as.Lhs) == 1 && len(as.Rhs) == 1 {
				if mm, seq := n.keysOf(as.Rhs[0]); mm != nil && !seq {
					ks, m = n.text(as.Lhs[0]), mm
				}
			}
			if m == nil {
				continue
			}
		} else {
			found := false
			for i := j - 1; i >= 0; i-- {
				if n.declares(l[i], ks) {
					gone = append(gone, l[i])
					found = true
					break
				}
			}
			if !found {
				continue
			}
		}
		for i := j + 1; i < len(l); i++ {
			if n.sorts(l[i], ks) {
				gone = append(gone, l[i])
				continue
			}
			if r, ok := l[i].(*ast.RangeStmt); ok && overKeys(r) && isId(r.X, ks) {
				cnt := 1
				for _, g := range gone {
					cnt += uses(g, ks)
				}
				if uses(body, ks) == cnt {
					for _, g := range gone {
						n.blank(g)
					}
					n.header(r, m)
				}
				break
			}
			if uses(l[i], ks) > 0 || uses(l[i], n.text(m)) > 0 {
				break
			}
		}
	}
}

func normaliseFile(name string, src []byte) []byte {
	t := string(src)
	if !strings.Contains(t, "append(") && !strings.Contains(t, "maps.Keys") {
		return nil
	}
	n := &normer{fset: token.NewFileSet(), src: src}
	f, err := parser.ParseFile(n.fset, name, src, 0)
	if err != nil {
		return nil
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if f.Name.Name == "cvt" && (strings.Contains(n.text(fd.Body), "strings.Split") || strings.Contains(n.text(fd.Body), "strings.Cut") || strings.Contains(n.text(fd.Body), "strings.Index")) {
			continue // the order counts
		}
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.BlockStmt:
				n.list(fd.Body, x.List)
			case *ast.CaseClause:
				n.list(fd.Body, x.Body)
			case *ast.CommClause:
				n.list(fd.Body, x.Body)
			}
			return true
		})
	}
	if !n.done {
		return nil
	}
	out := n.apply(src)
	// imports only the gathering needed
	fs2 := token.NewFileSet()
	f2, err := parser.ParseFile(fs2, name, out, 0)
	if err != nil {
		return nil
	}
	n2 := &normer{fset: fs2, src: out}
	for _, im := range f2.Imports {
		p := strings.Trim(im.Path.Value, "\"")
		if im.Name != nil || p != "sort" && p != "slices" && p != "maps" {
			continue
		}
		used := false
		ast.Inspect(f2, func(x ast.Node) bool {
			if s, ok := x.(*ast.SelectorExpr); ok && isId(s.X, p) {
				used = true
			}
			return true
		})
		if !used {
			n2.put(im.Pos(), im.End(), "_ "+im.Path.Value)
		}
	}
	return n2.apply(out)
}

func (n *normer) apply(src []byte) []byte {
	out := src
	for { // from the last edit to the first
		k := -1
		for i, x := range n.ed {
			if x.a >= 0 && (k < 0 || x.a > n.ed[k].a) {
				k = i
			}
		}
		if k < 0 {
			return out
		}
		x := n.ed[k]
		nl := strings.Repeat("\n", strings.Count(string(src[x.a:x.b]), "\n"))
		out = append(append(append([]byte{}, out[:x.a]...), x.text+nl...), out[x.b:]...)
		n.ed[k].a = -1
	}
}
