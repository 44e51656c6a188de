package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// extract moves blocks ("extractif", "extractloop") or conditions
// ("extractcond") into functions of their own, the variables they use becoming
// parameters.
func extract(class, repo, out string, ov map[string]string, re *regexp.Regexp) {
	cmd := exec.Command("go", "list", "-m")
	cmd.Dir = repo
	o, err := cmd.Output()
	if err != nil {
		panic(err)
	}
	var pats []string
	for _, l := range strings.Fields(string(o)) {
		pats = append(pats, l+"/...")
	}
	ps, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax, Dir: repo, Fset: fset}, pats...)
	if err != nil {
		panic(err)
	}
	for _, p := range ps {
		if strings.Contains(p.PkgPath, "/examples") || strings.Contains(p.PkgPath, "/tests") || strings.HasSuffix(p.PkgPath, "/ci") {
			continue
		}
		for _, f := range p.Syntax {
			file := fset.Position(f.Pos()).Filename
			rel, _ := filepath.Rel(repo, file)
			if re != nil && !re.MatchString(rel) || strings.HasPrefix(rel, "..") {
				continue
			}
			src, _ := os.ReadFile(file)
			x := &xt{p: p, f: f, src: src, class: class}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
					x.fn(fd)
				}
			}
			if len(x.ed) == 0 {
				continue
			}
			sort.Slice(x.ed, func(i, j int) bool { return x.ed[i].a > x.ed[j].a })
			t := string(src)
			for _, e := range x.ed {
				t = t[:e.a] + e.s + t[e.b:]
			}
			q := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
			os.WriteFile(q, []byte(t+x.tail), 0o644)
			ov[rel] = q
		}
	}
}

type xed struct {
	a, b int
	s    string
}

type xt struct {
	p     *packages.Package
	f     *ast.File
	src   []byte
	class string
	ed    []xed
	tail  string
}

func (x *xt) off(p token.Pos) int { return fset.Position(p).Offset }

func (x *xt) fn(fd *ast.FuncDecl) {
	if fd.Recv == nil && fd.Type.TypeParams != nil {
		return
	}
	if strings.HasPrefix(x.class, "extracttail") {
		x.tailFn(fd)
		return
	}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.AssignStmt:
			if x.class == "extractrhs" && len(s.Rhs) == 1 {
				x.rhs(fd, s.Rhs[0])
			}
		case *ast.ReturnStmt:
			if x.class == "extractrhs" && len(s.Results) == 1 {
				x.rhs(fd, s.Results[0])
			}
		case *ast.IfStmt:
			if x.class == "extractif" && x.block(fd, s.Body) {
				return false
			}
			if x.class == "extractcond" {
				x.cond(fd, s)
			}
		case *ast.RangeStmt:
			if x.class == "extractloop" && x.stmt(fd, s) {
				return false
			}
		case *ast.ForStmt:
			if x.class == "extractloop" && x.stmt(fd, s) {
				return false
			}
		}
		return true
	})
}

// free: the local variables of the function used inside [a,b) but declared
// outside; ok is false when one of them is assigned or its address taken.
func (x *xt) free(fd *ast.FuncDecl, n ast.Node) (vars []*types.Var, ok bool) {
	ok = true
	seen := map[*types.Var]bool{}
	recv := ""
	if fd.Recv != nil && len(fd.Recv.List[0].Names) == 1 {
		recv = fd.Recv.List[0].Names[0].Name
	}
	outer := func(id *ast.Ident) *types.Var {
		v, isv := x.p.TypesInfo.Uses[id].(*types.Var)
		if !isv || v.IsField() || v.Parent() == x.p.Types.Scope() || v.Parent() == types.Universe || v.Pkg() != x.p.Types {
			return nil
		}
		if v.Pos() >= n.Pos() && v.Pos() < n.End() {
			return nil
		}
		return v
	}
	ast.Inspect(n, func(y ast.Node) bool {
		switch z := y.(type) {
		case *ast.Ident:
			if v := outer(z); v != nil && !seen[v] && v.Name() != recv {
				seen[v] = true
				vars = append(vars, v)
			}
		case *ast.AssignStmt:
			for _, l := range z.Lhs {
				for {
					if pa, isp := l.(*ast.ParenExpr); isp {
						l = pa.X
						continue
					}
					break
				}
				if id, isid := l.(*ast.Ident); isid && outer(id) != nil {
					ok = false
				}
				if se, iss := l.(*ast.SelectorExpr); iss {
					if id, isid := se.X.(*ast.Ident); isid {
						if v := outer(id); v != nil {
							if _, st := v.Type().Underlying().(*types.Struct); st {
								ok = false
							}
						}
					}
				}
			}
		case *ast.IncDecStmt:
			if id, isid := z.X.(*ast.Ident); isid && outer(id) != nil {
				ok = false
			}
		case *ast.UnaryExpr:
			if z.Op == token.AND {
				ok = false
			}
		case *ast.RangeStmt:
			if z.Tok == token.ASSIGN {
				ok = false
			}
		case *ast.FuncLit, *ast.ReturnStmt, *ast.DeferStmt, *ast.LabeledStmt, *ast.GoStmt:
			ok = false
		case *ast.BranchStmt:
			ok = ok && z.Label == nil && z.Tok != token.GOTO
		}
		return ok
	})
	for _, v := range vars {
		t := v.Type().String()
		if strings.Contains(t, "internal/") && !strings.Contains(t, x.p.PkgPath) {
			ok = ok && true
		}
		// structs with methods on their address would be copied
		if _, st := v.Type().Underlying().(*types.Struct); st {
			ok = false
		}
	}
	if !ok {
		return nil, false
	}
	return
}

func (x *xt) emit(fd *ast.FuncDecl, vars []*types.Var, body, res string) (call string, ok bool) {
	bad := false
	q := func(p *types.Package) string {
		if p == x.p.Types {
			return ""
		}
		for _, im := range x.f.Imports {
			if strings.Trim(im.Path.Value, "\"") == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		bad = true
		return p.Name()
	}
	var ps, as []string
	for _, v := range vars {
		if hidden.MatchString(types.TypeString(v.Type(), q)) {
			bad = true
		}
		ps = append(ps, v.Name()+" "+types.TypeString(v.Type(), q))
		as = append(as, v.Name())
	}
	if bad {
		return "", false
	}
	count++
	name := fmt.Sprintf("part%d", count)
	recv := ""
	fun := name
	if fd.Recv != nil {
		if len(fd.Recv.List[0].Names) == 0 {
			return "", false
		}
		r := fd.Recv.List[0]
		recv = string(x.src[x.off(fd.Recv.Pos()):x.off(fd.Recv.End())]) + " "
		fun = r.Names[0].Name + "." + name
	}
	x.tail += fmt.Sprintf("\nfunc %s%s(%s) %s{\n%s\n}\n", recv, name, strings.Join(ps, ", "), res, body)
	return fun + "(" + strings.Join(as, ", ") + ")", true
}

func jumps(n ast.Node, loop bool) (b bool) {
	ast.Inspect(n, func(y ast.Node) bool {
		switch z := y.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt:
			if loop && y == n {
				return true
			}
			ast.Inspect(y, func(w ast.Node) bool {
				if c, ok := w.(*ast.BranchStmt); ok && c.Tok == token.CONTINUE {
					switch y.(type) {
					case *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt:
						b = b || !loop
					}
				}
				return true
			})
			return false
		case *ast.BranchStmt:
			b = b || !loop
			_ = z
		}
		return true
	})
	return
}

func (x *xt) block(fd *ast.FuncDecl, bl *ast.BlockStmt) bool {
	if len(bl.List) == 0 || jumps(bl, false) {
		return false
	}
	vars, ok := x.free(fd, bl)
	if !ok {
		return false
	}
	a, b := x.off(bl.Lbrace)+1, x.off(bl.Rbrace)
	call, ok := x.emit(fd, vars, string(x.src[a:b]), "")
	if !ok {
		return false
	}
	x.ed = append(x.ed, xed{a, b, "\n" + call + "\n"})
	return true
}

func (x *xt) stmt(fd *ast.FuncDecl, s ast.Stmt) bool {
	if jumps(s, true) {
		return false
	}
	vars, ok := x.free(fd, s)
	if !ok {
		return false
	}
	a, b := x.off(s.Pos()), x.off(s.End())
	call, ok := x.emit(fd, vars, string(x.src[a:b]), "")
	if !ok {
		return false
	}
	x.ed = append(x.ed, xed{a, b, call})
	return true
}

func (x *xt) cond(fd *ast.FuncDecl, s *ast.IfStmt) {
	if _, simple := s.Cond.(*ast.Ident); simple {
		return
	}
	vars, ok := x.free(fd, s.Cond)
	if !ok {
		return
	}
	a, b := x.off(s.Cond.Pos()), x.off(s.Cond.End())
	call, ok := x.emit(fd, vars, "return "+string(x.src[a:b]), "bool ")
	if !ok {
		return
	}
	x.ed = append(x.ed, xed{a, b, call})
}

var hidden = regexp.MustCompile(`\b[a-zA-Z]\w*\.[a-z]`)

func (x *xt) rhs(fd *ast.FuncDecl, ex ast.Expr) {
	switch ex.(type) {
	case *ast.CallExpr, *ast.BinaryExpr:
	default:
		return
	}
	tv, ok := x.p.TypesInfo.Types[ex]
	if !ok || tv.Type == nil || tv.Value != nil || tv.IsVoid() {
		return
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return
	}
	vars, ok := x.free(fd, ex)
	if !ok {
		return
	}
	res := ""
	bad := false
	q := func(p *types.Package) string {
		if p == x.p.Types {
			return ""
		}
		for _, im := range x.f.Imports {
			if strings.Trim(im.Path.Value, "\"") == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		bad = true
		return p.Name()
	}
	if tp, ok := tv.Type.(*types.Tuple); ok {
		var l []string
		for i := 0; i < tp.Len(); i++ {
			l = append(l, types.TypeString(tp.At(i).Type(), q))
		}
		res = "(" + strings.Join(l, ", ") + ") "
	} else {
		res = types.TypeString(tv.Type, q) + " "
	}
	if bad || hidden.MatchString(res) {
		return
	}
	a, b := x.off(ex.Pos()), x.off(ex.End())
	call, ok := x.emit(fd, vars, "return "+string(x.src[a:b]), res)
	if ok {
		x.ed = append(x.ed, xed{a, b, call})
	}
}

func (x *xt) tailFn(fd *ast.FuncDecl) {
	l := fd.Body.List
	if len(l) < 2 {
		return
	}
	k := len(l) / 2
	if x.class == "extracttail1" {
		k = 1
	}
	if x.class == "extracttailz" {
		k = len(l) - 2
	}
	if k < 1 {
		return
	}
	bad := false
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.DeferStmt, *ast.LabeledStmt:
			bad = true
		case *ast.GenDecl:
			bad = bad || n.Tok == token.CONST || n.Tok == token.TYPE
		case *ast.FuncLit:
			bad = bad || n.Pos() < l[k].Pos()
		case *ast.UnaryExpr:
			if _, id := n.X.(*ast.Ident); id && n.Op == token.AND {
				bad = true
			}
		}
		return true
	})
	if bad {
		return
	}
	// the variables
	from, to := l[k].Pos(), l[len(l)-1].End()
	recv := ""
	if fd.Recv != nil && len(fd.Recv.List[0].Names) == 1 {
		recv = fd.Recv.List[0].Names[0].Name
	}
	var vars []*types.Var
	seen := map[*types.Var]bool{}
	var names []string
	var resT []string
	if fd.Type.Results != nil {
		for _, r := range fd.Type.Results.List {
			t := string(x.src[x.off(r.Type.Pos()):x.off(r.Type.End())])
			if len(r.Names) == 0 {
				resT = append(resT, t)
			}
			for _, id := range r.Names {
				resT = append(resT, t)
				if id.Name == "_" {
					return
				}
				names = append(names, id.Name)
				if v, ok := x.p.TypesInfo.Defs[id].(*types.Var); ok {
					seen[v] = true
					vars = append(vars, v)
				}
			}
		}
	}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Pos() >= from && id.Pos() < to {
			v, isv := x.p.TypesInfo.Uses[id].(*types.Var)
			if isv && !v.IsField() && v.Pkg() == x.p.Types && v.Parent() != x.p.Types.Scope() && !(v.Pos() >= from && v.Pos() < to) && !seen[v] && v.Name() != recv {
				seen[v] = true
				vars = append(vars, v)
			}
		}
		return true
	})
	byName := map[string]bool{}
	for _, v := range vars {
		if byName[v.Name()] {
			return // shadowed
		}
		byName[v.Name()] = true
		if _, st := v.Type().Underlying().(*types.Struct); st {
			return
		}
	}
	a, b := x.off(from), x.off(to)
	text := string(x.src[a:b])
	type rp struct{ at int }
	var rps []rp
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(y ast.Node) bool {
			if _, ok := y.(*ast.FuncLit); ok {
				return false
			}
			if r, ok := y.(*ast.ReturnStmt); ok && len(r.Results) == 0 && len(names) > 0 {
				rps = append(rps, rp{x.off(r.Pos()) - a})
			}
			return true
		})
	}
	for _, s := range l[k:] {
		walk(s)
	}
	for i := len(rps) - 1; i >= 0; i-- {
		at := rps[i].at + len("return")
		text = text[:at] + " " + strings.Join(names, ", ") + text[at:]
	}
	res := ""
	if len(resT) > 0 {
		res = "(" + strings.Join(resT, ", ") + ") "
	}
	call, ok := x.emit(fd, vars, text, res)
	if !ok {
		return
	}
	if res != "" {
		call = "return " + call
	}
	x.ed = append(x.ed, xed{a, b, call})
}
