package main

import (
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Private names the rules refer to. What a private field or type is called is
// no part of any property, so each is found by what it does - the field a
// public option sets, the mark the loading calls take, the type a public
// constructor returns - and, where it is called something else, it is given
// this name in memory before the analysis. Nothing on disk is touched.
var optRoles = []struct{ pkg, ctor, name string }{
	{"store", "WithFlattenSlice", "flattenSlice"},
	{"store", "WithCodec", "codec"},
	{"store", "WithProvider", "provider"},
	{"store", "WithSaveAsCodec", "codec"},
	{"store", "WithSaveAsProvider", "provider"},
	{"store/radix", "WithKeepPrefix", "keepPrefix"},
	{"store/radix", "WithFilter", "filterFn"},
	{"store/radix", "WithoutFlattenKeys", "noFlatten"},
}

// roleNames: overlay edits that give the role objects their names; false when
// they all have them.
func roleNames(ps []*packages.Package, cfg *packages.Config) bool {
	want := map[types.Object]string{}
	find := func(suffix string) *packages.Package {
		for _, p := range ps {
			if strings.HasSuffix(p.PkgPath, "hedzr/"+suffix) {
				return p
			}
		}
		return nil
	}
	decl := func(p *packages.Package, fn string) *ast.FuncDecl {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == fn && fd.Body != nil {
					return fd
				}
			}
		}
		return nil
	}
	field := func(v types.Object, name string) {
		fv, ok := v.(*types.Var)
		if !ok || !fv.IsField() || fv.Embedded() || fv.Exported() || fv.Name() == name {
			return
		}
		want[fv.Origin()] = name
	}
	for _, r := range optRoles {
		p := find(r.pkg)
		if p == nil {
			continue
		}
		fd := decl(p, r.ctor)
		if fd == nil {
			continue
		}
		var fields []types.Object
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			if as, ok := n.(*ast.AssignStmt); ok {
				for _, l := range as.Lhs {
					if se, ok := ast.Unparen(l).(*ast.SelectorExpr); ok {
						fields = append(fields, p.TypesInfo.Uses[se.Sel])
					}
				}
			}
			return true
		})
		if len(fields) == 1 {
			field(fields[0], r.name)
		}
	}
	if p := find("store"); p != nil {
		if fd := decl(p, "NewDummyStore"); fd != nil {
			if sig, ok := p.TypesInfo.Defs[fd.Name].Type().(*types.Signature); ok && sig.Results().Len() > 0 {
				if n := namedOf(sig.Results().At(0).Type()); n != nil && !n.Obj().Exported() && n.Obj().Pkg() == p.Types && p.Types.Scope().Lookup("dummyS") == nil {
					want[n.Obj()] = "dummyS"
				}
			}
		}
		if o, ok := p.Types.Scope().Lookup("Opt").(*types.TypeName); ok {
			if sig, ok := o.Type().Underlying().(*types.Signature); ok && sig.Params().Len() == 1 {
				if n := namedOf(sig.Params().At(0).Type()); n != nil {
					if st, ok := n.Underlying().(*types.Struct); ok {
						marks := map[types.Object]bool{}
						for _, f := range p.Syntax {
							for _, d := range f.Decls {
								fd, ok := d.(*ast.FuncDecl)
								if !ok || fd.Recv == nil || fd.Name.Name != "WithinLoading" && fd.Name.Name != "Load" || fd.Body == nil {
									continue
								}
								ast.Inspect(fd.Body, func(x ast.Node) bool {
									if se, ok := x.(*ast.SelectorExpr); ok {
										o := p.TypesInfo.Uses[se.Sel]
										for i := 0; i < st.NumFields(); i++ {
											if st.Field(i) == o && types.Identical(o.Type(), types.Typ[types.Int32]) {
												marks[o] = true
											}
										}
									}
									return true
								})
							}
						}
						if len(marks) == 1 {
							for o := range marks {
								field(o, "loading")
							}
						}
					}
				}
			}
		}
	}
	if p := find("store/radix"); p != nil {
		// the field of the tree that Prefix returns; the levels a putter skips
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv == nil || fd.Name.Name != "Prefix" || fd.Body == nil || len(fd.Body.List) != 1 {
					continue
				}
				if rs, ok := fd.Body.List[0].(*ast.ReturnStmt); ok && len(rs.Results) == 1 {
					if se, ok := ast.Unparen(rs.Results[0]).(*ast.SelectorExpr); ok {
						field(p.TypesInfo.Uses[se.Sel], "prefix")
					}
				}
			}
		}
		if o, ok := p.Types.Scope().Lookup("MOpt").(*types.TypeName); ok {
			if sig, ok := o.Type().Underlying().(*types.Signature); ok && sig.Params().Len() == 1 {
				if n := namedOf(sig.Params().At(0).Type()); n != nil {
					if st, ok := n.Origin().Underlying().(*types.Struct); ok {
						for i := 0; i < st.NumFields(); i++ {
							if types.Identical(st.Field(i).Type(), types.NewSlice(types.Typ[types.String])) {
								field(st.Field(i), "prefix")
							}
						}
					}
				}
			}
		}
	}
	if len(want) == 0 {
		return false
	}
	eds := map[string][]edit{}
	for _, p := range ps {
		add := func(id *ast.Ident, o types.Object) {
			if v, ok := o.(*types.Var); ok {
				o = v.Origin()
			}
			nm, ok := want[o]
			if !ok {
				return
			}
			pos := p.Fset.PositionFor(id.Pos(), false)
			eds[pos.Filename] = append(eds[pos.Filename], edit{pos.Offset, pos.Offset + len(id.Name), nm})
		}
		for id, o := range p.TypesInfo.Defs {
			add(id, o)
		}
		for id, o := range p.TypesInfo.Uses {
			add(id, o)
		}
	}
	for f, es := range eds {
		src, ok := cfg.Overlay[f]
		if !ok {
			b, err := os.ReadFile(f)
			if err != nil {
				return false
			}
			src = b
		}
		sort.Slice(es, func(i, j int) bool { return es[i].a > es[j].a })
		out := string(src)
		for i, e := range es {
			if i > 0 && e.a == es[i-1].a {
				continue
			}
			out = out[:e.a] + e.text + out[e.b:]
		}
		if cfg.Overlay == nil {
			cfg.Overlay = map[string][]byte{}
		}
		cfg.Overlay[f] = []byte(out)
	}
	return true
}

func typed(ps []*packages.Package) bool {
	for _, p := range ps {
		if len(p.Errors) > 0 || p.TypesInfo == nil {
			return false
		}
	}
	return true
}
