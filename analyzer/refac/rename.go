package main

import (
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// rename gives new names to unexported functions ("renamefunc"), struct fields
// ("renamefield"), types ("renametype") or local variables ("renamevar").
func rename(class, repo, out string, ov map[string]string, re *regexp.Regexp) {
	cmd := exec.Command("go", "list", "-m")
	cmd.Dir = repo
	o, err := cmd.Output()
	if err != nil {
		panic(err)
	}
	var pats []string
	for _, l := range strings.Fields(string(o)) {
		pats = append(pats, l+"/...")
	}
	ps, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax, Dir: repo, Fset: fset}, pats...)
	if err != nil {
		panic(err)
	}
	fresh := func(n string) string {
		if len(n) > 4 { // another word, not a longer one
			return "q" + strings.ToUpper(n[:1]) + n[2:4] + n[1:2] + n[len(n)-1:] + "q"
		}
		return "q" + n + "q"
	}
	for _, p := range ps {
		if strings.Contains(p.PkgPath, "/examples") || strings.Contains(p.PkgPath, "/tests") || strings.HasSuffix(p.PkgPath, "/ci") {
			continue
		}
		names := map[string]string{}
		used := map[string]bool{}
		give := func(n string) string {
			if s, ok := names[n]; ok {
				return s
			}
			s := fresh(n)
			for used[s] {
				s += "z"
			}
			used[s] = true
			names[n] = s
			return s
		}
		want := func(ob types.Object) bool {
			if ob == nil || ob.Pkg() != p.Types || ob.Exported() || ob.Name() == "_" || ob.Name() == "init" || ob.Name() == "main" {
				return false
			}
			switch v := ob.(type) {
			case *types.Func:
				return class == "renamefunc"
			case *types.TypeName:
				if _, tp := v.Type().(*types.TypeParam); tp {
					return false
				}
				return class == "renametype"
			case *types.Var:
				if v.IsField() {
					if v.Embedded() {
						return class == "renametype"
					}
					return class == "renamefield"
				}
				return class == "renamevar"
			}
			return false
		}
		for _, f := range p.Syntax {
			file := fset.Position(f.Pos()).Filename
			rel, _ := filepath.Rel(repo, file)
			if re != nil && !re.MatchString(rel) || strings.HasPrefix(rel, "..") {
				continue
			}
			src, _ := os.ReadFile(file)
			var ed []xed
			sw := map[string]bool{} // names of type-switch variables have no object of their own
			ast.Inspect(f, func(n ast.Node) bool {
				if ts, ok := n.(*ast.TypeSwitchStmt); ok {
					if a, ok := ts.Assign.(*ast.AssignStmt); ok {
						sw[a.Lhs[0].(*ast.Ident).Name] = true
					}
				}
				return true
			})
			ast.Inspect(f, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok {
					return true
				}
				ob := p.TypesInfo.Defs[id]
				if ob == nil {
					ob = p.TypesInfo.Uses[id]
				}
				if class == "renamevar" && sw[id.Name] {
					if v, isv := ob.(*types.Var); ob == nil || isv && !v.IsField() {
						if ob == nil && p.TypesInfo.Defs[id] == nil && p.TypesInfo.Uses[id] == nil {
							// the switch's own name
							ed = append(ed, xed{fset.Position(id.Pos()).Offset, fset.Position(id.End()).Offset, give(id.Name)})
							return true
						}
					}
				}
				if want(ob) {
					ed = append(ed, xed{fset.Position(id.Pos()).Offset, fset.Position(id.End()).Offset, give(id.Name)})
					count++
				}
				return true
			})
			if len(ed) == 0 {
				continue
			}
			sort.Slice(ed, func(i, j int) bool { return ed[i].a > ed[j].a })
			t := string(src)
			last := -1
			for _, e := range ed {
				if e.a == last {
					continue
				}
				last = e.a
				t = t[:e.a] + e.s + t[e.b:]
			}
			q := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
			os.WriteFile(q, []byte(t), 0o644)
			ov[rel] = q
		}
	}
}
