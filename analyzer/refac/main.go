// refac applies one class of behaviour-preserving rewriting everywhere in a
// Go source tree and writes the changed files plus an overlay, to see that the
// checks stay quiet: refac CLASS REPO OUTDIR [file-regexp]
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

var fset = token.NewFileSet()
var count int

func main() {
	class, repo, out := os.Args[1], os.Args[2], os.Args[3]
	var re *regexp.Regexp
	if len(os.Args) > 4 {
		re = regexp.MustCompile(os.Args[4])
	}
	os.MkdirAll(out, 0o755)
	ov := map[string]string{}
	if strings.HasPrefix(class, "extract") || strings.HasPrefix(class, "rename") {
		if strings.HasPrefix(class, "rename") {
			rename(class, repo, out, ov, re)
		} else {
			extract(class, repo, out, ov, re)
		}
		j, _ := json.Marshal(ov)
		os.WriteFile(filepath.Join(out, "ov.json"), j, 0o644)
		fmt.Println(class, "sites", count, "files", len(ov))
		return
	}
	filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		rel, _ := filepath.Rel(repo, p)
		if d.IsDir() && (d.Name() == ".git" || d.Name() == "examples" || d.Name() == "tests" || d.Name() == "ci") {
			return filepath.SkipDir
		}
		if d.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || re != nil && !re.MatchString(rel) {
			return nil
		}
		f, err := parser.ParseFile(fset, p, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		before := count
		for _, dd := range f.Decls {
			if fd, ok := dd.(*ast.FuncDecl); ok && fd.Body != nil {
				apply(class, fd)
				if class == "impl" {
					if g := impl(fd); g != nil {
						f.Decls = append(f.Decls, g)
					}
				}
			}
		}
		if count == before {
			return nil
		}
		// comments would land anywhere: drop those inside functions
		var keep []*ast.CommentGroup
		for _, c := range f.Comments {
			in := false
			for _, dd := range f.Decls {
				if c.Pos() > dd.Pos() && c.End() < dd.End() {
					in = true
				}
			}
			if !in {
				keep = append(keep, c)
			}
		}
		f.Comments = keep
		var b bytes.Buffer
		if err := format.Node(&b, fset, f); err != nil {
			fmt.Fprintln(os.Stderr, rel, err)
			return nil
		}
		q := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
		os.WriteFile(q, b.Bytes(), 0o644)
		ov[rel] = q
		return nil
	})
	j, _ := json.Marshal(ov)
	os.WriteFile(filepath.Join(out, "ov.json"), j, 0o644)
	fmt.Println(class, "sites", count, "files", len(ov))
}

func not(x ast.Expr) ast.Expr {
	switch e := x.(type) {
	case *ast.UnaryExpr:
		if e.Op == token.NOT {
			return e.X
		}
	case *ast.BinaryExpr:
		inv := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL}
		if o, ok := inv[e.Op]; ok {
			return &ast.BinaryExpr{X: e.X, Op: o, Y: e.Y}
		}
	case *ast.Ident, *ast.CallExpr, *ast.SelectorExpr, *ast.ParenExpr:
		return &ast.UnaryExpr{Op: token.NOT, X: x}
	}
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x}}
}

func lists(n ast.Node, fn func(l []ast.Stmt) []ast.Stmt) {
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.BlockStmt:
			x.List = fn(x.List)
		case *ast.CaseClause:
			x.Body = fn(x.Body)
		case *ast.CommClause:
			x.Body = fn(x.Body)
		}
		return true
	})
}

func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok == token.CONTINUE || s.Tok == token.GOTO
	}
	return false
}

func hasBreak(n ast.Node) (b bool) {
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt, *ast.FuncLit:
			return x == n
		case *ast.BranchStmt:
			b = b || x.Tok == token.BREAK || x.Tok == token.FALLTHROUGH || x.Label != nil
		}
		return true
	})
	return
}

func apply(class string, fd *ast.FuncDecl) {
	tmp := 0
	switch class {
	case "invert": // if c {A} else {B}  ->  if !c {B} else {A}
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if s, ok := x.(*ast.IfStmt); ok {
				if e, ok := s.Else.(*ast.BlockStmt); ok {
					s.Cond, s.Body, s.Else = not(s.Cond), e, s.Body
					count++
				}
			}
			return true
		})
	case "empty": // if c {A}  ->  if !c {} else {A}
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if s, ok := x.(*ast.IfStmt); ok && s.Else == nil && !terminates(s.Body.List) {
				s.Cond, s.Body, s.Else = not(s.Cond), &ast.BlockStmt{}, s.Body
				count++
			}
			return true
		})
	case "else": // if c {…return}; rest  ->  if c {…return} else {rest}
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				f, ok := s.(*ast.IfStmt)
				if !ok || f.Else != nil || !terminates(f.Body.List) || i == len(l)-1 {
					continue
				}
				if _, isRet := f.Body.List[len(f.Body.List)-1].(*ast.ReturnStmt); !isRet {
					continue
				}
				// keep names declared later visible only there: fine, they are used there only
				rest := append([]ast.Stmt{}, l[i+1:]...)
				if !terminates(rest) && fd.Type.Results != nil {
					return l
				}
				f.Else = &ast.BlockStmt{List: rest}
				count++
				return l[:i+1]
			}
			return l
		})
		if fd.Type.Results != nil && len(fd.Body.List) > 0 {
			if f, ok := fd.Body.List[len(fd.Body.List)-1].(*ast.IfStmt); ok && f.Else != nil {
				_ = f // both arms terminate
			}
		}
	case "flat": // if c {…return} else {B}  ->  if c {…return}; B
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				f, ok := s.(*ast.IfStmt)
				if !ok || f.Init != nil || i != len(l)-1 {
					continue
				}
				e, ok := f.Else.(*ast.BlockStmt)
				if !ok || !terminates(f.Body.List) {
					continue
				}
				f.Else = nil
				count++
				return append(l[:i+1], e.List...)
			}
			return l
		})
	case "guard": // void/named: f(){ …; if c {A}; return }  ->  if !c {return}; A; return
		if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 && len(fd.Type.Results.List[0].Names) == 0 {
			return
		}
		l := fd.Body.List
		n := len(l)
		if n == 0 {
			return
		}
		tail := []ast.Stmt{}
		if r, ok := l[n-1].(*ast.ReturnStmt); ok && len(r.Results) == 0 {
			tail = []ast.Stmt{r}
			n--
		} else if fd.Type.Results != nil {
			return
		}
		if n == 0 {
			return
		}
		f, ok := l[n-1].(*ast.IfStmt)
		if !ok || f.Else != nil || f.Init != nil {
			return
		}
		g := &ast.IfStmt{Cond: not(f.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{}}}}
		nl := append(append([]ast.Stmt{}, l[:n-1]...), g)
		nl = append(nl, f.Body.List...)
		if !terminates(nl) {
			nl = append(nl, tail...)
		}
		fd.Body.List = nl
		count++
	case "and": // if a && b {X}  ->  if a { if b {X} }
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if s, ok := x.(*ast.IfStmt); ok && s.Else == nil {
				if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
					inner := &ast.IfStmt{Cond: b.Y, Body: s.Body}
					s.Cond, s.Body = b.X, &ast.BlockStmt{List: []ast.Stmt{inner}}
					count++
				}
			}
			return true
		})
	case "or": // if a || b {…return}  ->  if a {…return}; if b {…return}  (bodies small)
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			for i := 0; i < len(l); i++ {
				f, ok := l[i].(*ast.IfStmt)
				if !ok || f.Else != nil || f.Init != nil || len(f.Body.List) != 1 || !terminates(f.Body.List) {
					continue
				}
				b, ok := f.Cond.(*ast.BinaryExpr)
				if !ok || b.Op != token.LOR {
					continue
				}
				a := &ast.IfStmt{Cond: b.X, Body: f.Body}
				c := &ast.IfStmt{Cond: b.Y, Body: f.Body}
				l = append(append(append([]ast.Stmt{}, l[:i]...), a, c), l[i+1:]...)
				count++
			}
			return l
		})
	case "init": // if v := f(); c {…}  ->  { v := f(); if c {…} }
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				if f, ok := s.(*ast.IfStmt); ok && f.Init != nil {
					in := f.Init
					f.Init = nil
					if a, ok := in.(*ast.AssignStmt); ok && a.Tok == token.ASSIGN && i == i {
						l[i] = &ast.BlockStmt{List: []ast.Stmt{in, f}}
					} else {
						l[i] = &ast.BlockStmt{List: []ast.Stmt{in, f}}
					}
					count++
				}
			}
			return l
		})
	case "return": // bare return -> explicit results
		if fd.Type.Results == nil {
			return
		}
		var names []ast.Expr
		for _, r := range fd.Type.Results.List {
			for _, n := range r.Names {
				if n.Name == "_" {
					return
				}
				names = append(names, ast.NewIdent(n.Name))
			}
		}
		if names == nil {
			return
		}
		// shadowed results make explicit returns wrong: skip such functions
		sh := false
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if a, ok := x.(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
				for _, l := range a.Lhs {
					for _, n := range names {
						if id, ok := l.(*ast.Ident); ok && id.Name == n.(*ast.Ident).Name {
							sh = true
						}
					}
				}
			}
			return true
		})
		if sh {
			return
		}
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if _, ok := x.(*ast.FuncLit); ok {
				return false
			}
			if r, ok := x.(*ast.ReturnStmt); ok && len(r.Results) == 0 {
				r.Results = names
				count++
			}
			return true
		})
	case "named": // return f(x) -> v := f(x); return v (single result)
		if fd.Type.Results == nil || fd.Type.Results.NumFields() != 1 {
			return
		}
		var walk func(l []ast.Stmt) []ast.Stmt
		walk = func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			for _, s := range l {
				if r, ok := s.(*ast.ReturnStmt); ok && len(r.Results) == 1 {
					if _, ok := r.Results[0].(*ast.CallExpr); ok {
						tmp++
						v := fmt.Sprintf("res%d", tmp)
						// declared with the result type, so that conversions stay where they were
						o = append(o, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(v)}, Type: fd.Type.Results.List[0].Type, Values: []ast.Expr{r.Results[0]}}}}})
						r.Results[0] = ast.NewIdent(v)
						count++
					}
				}
				o = append(o, s)
			}
			return o
		}
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BlockStmt:
				x.List = walk(x.List)
			case *ast.CaseClause:
				x.Body = walk(x.Body)
			}
			return true
		})
	case "switch": // tagless switch -> if chain
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			for i, s := range l {
				w, ok := s.(*ast.SwitchStmt)
				if !ok || w.Tag != nil || w.Init != nil || hasBreak(w) {
					continue
				}
				var def *ast.BlockStmt
				var arms []*ast.IfStmt
				for _, c := range w.Body.List {
					cc := c.(*ast.CaseClause)
					b := &ast.BlockStmt{List: cc.Body}
					if cc.List == nil {
						def = b
						continue
					}
					cond := cc.List[0]
					for _, y := range cc.List[1:] {
						cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: cond}, Op: token.LOR, Y: &ast.ParenExpr{X: y}}
					}
					arms = append(arms, &ast.IfStmt{Cond: cond, Body: b})
				}
				if len(arms) == 0 {
					continue
				}
				for k := 0; k+1 < len(arms); k++ {
					arms[k].Else = arms[k+1]
				}
				if def != nil {
					arms[len(arms)-1].Else = def
				}
				l[i] = arms[0]
				count++
			}
			return l
		})
	case "args": // f(g(x), …) as a statement or single define -> t := g(x); f(t, …) for the first argument
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			for _, s := range l {
				var c *ast.CallExpr
				switch s := s.(type) {
				case *ast.ExprStmt:
					c, _ = s.X.(*ast.CallExpr)
				case *ast.AssignStmt:
					if len(s.Rhs) == 1 {
						c, _ = s.Rhs[0].(*ast.CallExpr)
					}
				case *ast.ReturnStmt:
					if len(s.Results) == 1 {
						c, _ = s.Results[0].(*ast.CallExpr)
					}
				}
				if c != nil {
					if _, isSel := c.Fun.(*ast.SelectorExpr); isSel && len(c.Args) > 0 {
						if _, isCall := c.Args[0].(*ast.CallExpr); isCall {
							if len(c.Args) > 1 || c.Ellipsis == token.NoPos {
								tmp++
								v := fmt.Sprintf("arg%d", tmp)
								if inner, ok := c.Args[0].(*ast.CallExpr); ok {
									if id, ok := inner.Fun.(*ast.Ident); ok && (id.Name == "any" || id.Name == "new") {
										o = append(o, s)
										continue
									}
								}
								if len(c.Args) == 1 { // f(g()) may spread several results: leave it
									o = append(o, s)
									continue
								}
								o = append(o, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{c.Args[0]}})
								c.Args[0] = ast.NewIdent(v)
								count++
							}
						}
					}
				}
				o = append(o, s)
			}
			return o
		})
	case "recv": // s.… -> a local alias of the receiver
		if fd.Recv == nil || len(fd.Recv.List) != 1 || len(fd.Recv.List[0].Names) != 1 {
			return
		}
		if _, ptr := fd.Recv.List[0].Type.(*ast.StarExpr); !ptr {
			return
		}
		name := fd.Recv.List[0].Names[0].Name
		n := 0
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if id, ok := x.(*ast.Ident); ok && id.Name == name {
				n++
			}
			return true
		})
		if n == 0 || name == "_" {
			return
		}
		fd.Recv.List[0].Names[0] = ast.NewIdent("self")
		fd.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{ast.NewIdent("self")}}}, fd.Body.List...)
		count++
	case "outline": // the whole body moves into a function literal called at once (no defer/recover inside)
		bad := false
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.DeferStmt:
				bad = true
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "recover" {
					bad = true
				}
			}
			return true
		})
		if bad || len(fd.Body.List) < 2 {
			return
		}
		if fd.Type.Results == nil {
			lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: fd.Body.List}}
			fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: lit}}}}
		} else {
			lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: fd.Type.Results}, Body: &ast.BlockStmt{List: fd.Body.List}}
			fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{&ast.CallExpr{Fun: lit}}}}}
		}
		count++
	case "blockfn": // blocks without jumps become local functions called at once
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			f, ok := x.(*ast.IfStmt)
			if !ok {
				return true
			}
			jump := false
			ast.Inspect(f.Body, func(y ast.Node) bool {
				switch y.(type) {
				case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt:
					jump = true
				}
				return true
			})
			if jump || len(f.Body.List) == 0 {
				return true
			}
			lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: f.Body.List}}
			f.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: lit}}}}
			count++
			return true
		})
	case "vardecl": // x := e -> var x = e
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			for i, st := range l {
				if a, ok := st.(*ast.AssignStmt); ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 && len(a.Rhs) == 1 {
					if id, ok := a.Lhs[0].(*ast.Ident); ok && id.Name != "_" {
						l[i] = &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent(id.Name)}, Values: []ast.Expr{a.Rhs[0]}}}}}
						count++
					}
				}
			}
			return l
		})
	case "toswitch": // if a {} else if b {} else {} -> switch { … }
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			for i, st := range l {
				f, ok := st.(*ast.IfStmt)
				if !ok || f.Else == nil || hasBreak(f) {
					continue
				}
				sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}, Init: f.Init}
				for {
					sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{f.Cond}, Body: f.Body.List})
					if g, ok := f.Else.(*ast.IfStmt); ok && g.Init == nil {
						f = g
						continue
					}
					if b, ok := f.Else.(*ast.BlockStmt); ok {
						sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: b.List})
					} else if f.Else != nil {
						sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{f.Else}})
					}
					break
				}
				l[i] = sw
				count++
			}
			return l
		})
	case "forcond": // for c {…} -> for { if !c {break}; … }
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if f, ok := x.(*ast.ForStmt); ok && f.Cond != nil {
				g := &ast.IfStmt{Cond: not(f.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
				f.Body.List = append([]ast.Stmt{g}, f.Body.List...)
				f.Cond = nil
				count++
			}
			return true
		})
	case "strlen": // x == "" -> len(x) == 0
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if b, ok := x.(*ast.BinaryExpr); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
				if y, ok := b.Y.(*ast.BasicLit); ok && y.Value == `""` {
					b.X = &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{b.X}}
					b.Y = &ast.BasicLit{Kind: token.INT, Value: "0"}
					count++
				}
			}
			return true
		})
	case "yoda": // x == y -> y == x, a < b -> b > a
		ast.Inspect(fd.Body, func(x ast.Node) bool {
			if b, ok := x.(*ast.BinaryExpr); ok {
				inv := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
				if o, ok := inv[b.Op]; ok && !hasCall(b.X) && !hasCall(b.Y) {
					b.X, b.Op, b.Y = b.Y, o, b.X
					count++
				}
			}
			return true
		})
	case "compound": // x += y -> x = x + y, i++ -> i = i + 1
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.AND_NOT_ASSIGN: token.AND_NOT, token.SHL_ASSIGN: token.SHL}
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			for i, st := range l {
				switch a := st.(type) {
				case *ast.AssignStmt:
					if o, ok := op[a.Tok]; ok && !hasCall(a.Lhs[0]) {
						a.Tok = token.ASSIGN
						a.Rhs[0] = &ast.BinaryExpr{X: a.Lhs[0], Op: o, Y: &ast.ParenExpr{X: a.Rhs[0]}}
						count++
					}
				case *ast.IncDecStmt:
					o := token.ADD
					if a.Tok == token.DEC {
						o = token.SUB
					}
					l[i] = &ast.AssignStmt{Lhs: []ast.Expr{a.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: a.X, Op: o, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}}
					count++
				}
			}
			return l
		})
	case "swap": // two neighbouring assignments that have nothing to do with each other
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			for i := 0; i+1 < len(l); i++ {
				a, ok1 := l[i].(*ast.AssignStmt)
				b, ok2 := l[i+1].(*ast.AssignStmt)
				if !ok1 || !ok2 || hasCall(a) || hasCall(b) || hasDeref(a) || hasDeref(b) {
					continue
				}
				if meets(a, b) || meets(b, a) {
					continue
				}
				l[i], l[i+1] = b, a
				count++
				i++
			}
			return l
		})
	case "split": // a, b = x, y -> a = x; b = y when they do not meet
		lists(fd.Body, func(l []ast.Stmt) []ast.Stmt {
			var o []ast.Stmt
			for _, st := range l {
				a, ok := st.(*ast.AssignStmt)
				if !ok || len(a.Lhs) != 2 || len(a.Rhs) != 2 || a.Tok != token.ASSIGN && a.Tok != token.DEFINE || hasCall(a) {
					o = append(o, st)
					continue
				}
				p := &ast.AssignStmt{Lhs: a.Lhs[:1], Tok: a.Tok, Rhs: a.Rhs[:1]}
				q := &ast.AssignStmt{Lhs: a.Lhs[1:], Tok: a.Tok, Rhs: a.Rhs[1:]}
				if meets(p, q) || meets(q, p) || a.Tok == token.DEFINE && (isBlank(a.Lhs[0]) || isBlank(a.Lhs[1])) {
					o = append(o, st)
					continue
				}
				count++
				o = append(o, p, q)
			}
			return o
		})
	case "noop":
		fd.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}}}, fd.Body.List...)
		count++
	}
}

// impl: the body moves to a function of its own, which the original calls.
func impl(fd *ast.FuncDecl) *ast.FuncDecl {
	n := fd.Name.Name
	if n == "init" || n == "main" || len(fd.Body.List) == 0 || strings.HasPrefix(n, "Gob") {
		return nil
	}
	var args []ast.Expr
	variadic := false
	k := 0
	for _, p := range fd.Type.Params.List {
		if len(p.Names) == 0 {
			return nil
		}
		for i, id := range p.Names {
			if id.Name == "_" {
				k++
				p.Names[i] = ast.NewIdent(fmt.Sprintf("unused%d", k))
				id = p.Names[i]
			}
			args = append(args, ast.NewIdent(id.Name))
		}
		if _, ok := p.Type.(*ast.Ellipsis); ok {
			variadic = true
		}
	}
	var fun ast.Expr
	name := "impl" + strings.ToUpper(n[:1]) + n[1:] + fmt.Sprint(count)
	if fd.Recv != nil {
		if len(fd.Recv.List[0].Names) == 0 || fd.Recv.List[0].Names[0].Name == "_" {
			return nil
		}
		fun = &ast.SelectorExpr{X: ast.NewIdent(fd.Recv.List[0].Names[0].Name), Sel: ast.NewIdent(name)}
	} else {
		fun = ast.NewIdent(name)
		if fd.Type.TypeParams != nil {
			var ix []ast.Expr
			for _, p := range fd.Type.TypeParams.List {
				for _, id := range p.Names {
					ix = append(ix, ast.NewIdent(id.Name))
				}
			}
			fun = &ast.IndexListExpr{X: fun, Indices: ix}
		}
	}
	c := &ast.CallExpr{Fun: fun, Args: args}
	if variadic {
		c.Ellipsis = 1
	}
	g := &ast.FuncDecl{Recv: fd.Recv, Name: ast.NewIdent(name), Type: &ast.FuncType{TypeParams: fd.Type.TypeParams, Params: fd.Type.Params, Results: fd.Type.Results}, Body: fd.Body}
	if fd.Type.Results == nil {
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}
	} else {
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{c}}}}
	}
	count++
	return g
}

func isBlank(x ast.Expr) bool {
	id, ok := x.(*ast.Ident)
	return ok && id.Name == "_"
}

func hasCall(n ast.Node) (b bool) {
	ast.Inspect(n, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.CallExpr:
			if id, ok := y.Fun.(*ast.Ident); !ok || id.Name != "len" {
				b = true
			}
		case *ast.UnaryExpr:
			b = b || y.Op == token.ARROW
		case *ast.FuncLit, *ast.TypeAssertExpr:
			b = true
		}
		return true
	})
	return
}

func hasDeref(n ast.Node) (b bool) {
	ast.Inspect(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.StarExpr, *ast.IndexExpr, *ast.SliceExpr:
			b = true
		}
		return true
	})
	return
}

// meets: something a writes is mentioned by b.
func meets(a, b *ast.AssignStmt) (hit bool) {
	for _, l := range a.Lhs {
		root := l
		name := ""
		for {
			if s, ok := root.(*ast.SelectorExpr); ok {
				if name == "" {
					name = s.Sel.Name
				}
				root = s.X
				continue
			}
			if s, ok := root.(*ast.IndexExpr); ok {
				root = s.X
				name = "*"
				continue
			}
			break
		}
		id, ok := root.(*ast.Ident)
		if !ok {
			return true
		}
		if name == "" {
			name = id.Name
		}
		ast.Inspect(b, func(x ast.Node) bool {
			if y, ok := x.(*ast.Ident); ok && y.Name == name {
				hit = true
			}
			return true
		})
		hit = hit || name == "*"
	}
	return
}
