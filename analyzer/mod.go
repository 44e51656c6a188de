package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// modSum is the flow-insensitive effect summary of a function: which struct
// fields (by owner type and name), globals and containers it or anything it
// calls may write.
type modSum struct {
	fields  map[string]bool // "nodeS.data"
	maps    bool            // updates some map
	elems   bool            // writes some slice/array element
	unknown bool            // calls a function value or interface it cannot resolve: may re-enter
	params  map[int]bool    // calls the function value passed as this parameter
}

func fieldKey(t types.Type, idx int) string {
	n := namedOf(t)
	st, ok := derefT(t).Underlying().(*types.Struct)
	if !ok || idx >= st.NumFields() {
		return "?"
	}
	if n != nil {
		return n.Obj().Name() + "." + st.Field(idx).Name()
	}
	return "struct." + st.Field(idx).Name()
}

func (w *World) computeMods() {
	w.mods = map[*ssa.Function]*modSum{}
	for _, f := range w.fns {
		w.mods[f] = w.localMod(f)
	}
	for changed := true; changed; {
		changed = false
		for _, f := range w.fns {
			m := w.mods[f]
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						if mc, ok := in.(*ssa.MakeClosure); ok {
							changed = m.join(w.mods[mc.Fn.(*ssa.Function)]) || changed
						}
						continue
					}
					for _, g := range w.callees(c) {
						if x := w.mods[g]; x != nil {
							changed = m.join(x) || changed
							changed = w.joinCallbacks(m, x, f, c) || changed
						}
					}
				}
			}
		}
	}
}

// joinCallbacks accounts for the function values handed to a callee that
// calls them.
func (w *World) joinCallbacks(m, x *modSum, f *ssa.Function, c ssa.CallInstruction) (changed bool) {
	cc := c.Common()
	for i := range x.params {
		j := i
		if cc.IsInvoke() {
			j = i - 1
		}
		if j < 0 || j >= len(cc.Args) {
			continue
		}
		switch a := cc.Args[j].(type) {
		case *ssa.MakeClosure:
			// joined where the closure is made
		case *ssa.Function:
			changed = m.join(w.mods[a]) || changed
		case *ssa.Const:
		case *ssa.Parameter:
			for k, p := range f.Params {
				if p == a && !m.params[k] {
					m.params[k] = true
					changed = true
				}
			}
		default:
			if !m.unknown {
				m.unknown, changed = true, true
			}
		}
	}
	return
}

func (m *modSum) join(o *modSum) (changed bool) {
	if o == nil {
		return
	}
	for k := range o.fields {
		if !m.fields[k] {
			m.fields[k] = true
			changed = true
		}
	}
	if o.maps && !m.maps {
		m.maps, changed = true, true
	}
	if o.elems && !m.elems {
		m.elems, changed = true, true
	}
	if o.unknown && !m.unknown {
		m.unknown, changed = true, true
	}
	return
}

func (w *World) localMod(f *ssa.Function) *modSum {
	m := &modSum{fields: map[string]bool{}, params: map[int]bool{}}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				w.noteStore(m, x.Addr)
			case *ssa.MapUpdate:
				m.maps = true
			case ssa.CallInstruction:
				cc := x.Common()
				if cc.IsInvoke() {
					if len(w.callees(x)) == 0 {
						if n := namedOf(cc.Value.Type()); n != nil && n.Obj().Pkg() != nil && isWs(n.Obj().Pkg().Path()) {
							m.unknown = true
						}
					}
					continue
				}
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "delete", "clear":
						m.maps = true
					case "copy":
						m.elems = true
					}
					continue
				}
				g := cc.StaticCallee()
				if g == nil {
					// a closure created in this very function is joined through MakeClosure
					if p, ok := cc.Value.(*ssa.Parameter); ok {
						for k, q := range f.Params {
							if q == p {
								m.params[k] = true
							}
						}
						continue
					}
					m.unknown = true
					continue
				}
				if !w.inWorkspace(g) {
					// external code writes only through the addresses it is handed
					for _, a := range cc.Args {
						if fa, ok := a.(*ssa.FieldAddr); ok {
							m.fields[fieldKey(fa.X.Type(), fa.Field)] = true
						}
					}
				}
			}
		}
	}
	return m
}

func (w *World) noteStore(m *modSum, addr ssa.Value) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		m.fields[fieldKey(a.X.Type(), a.Field)] = true
	case *ssa.IndexAddr:
		m.elems = true
	case *ssa.Global:
		m.fields["global."+a.Name()] = true
	case *ssa.Alloc, *ssa.FreeVar:
		// local cell; if it is a struct, its fields are written
		if st, ok := derefT(addr.Type()).Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				m.fields[fieldKey(addr.Type(), i)] = true
			}
		}
	default:
		if st, ok := derefT(addr.Type()).Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				m.fields[fieldKey(addr.Type(), i)] = true
			}
		}
	}
}
