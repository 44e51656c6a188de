package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect analysis: for every function, which parameters (or captured
// variables, globals) it may write through, computed bottom-up to a fixpoint
// with freshness tracking: writes to objects created during the call are not
// effects.

type origin struct {
	kind string // fresh param free global shared pool
	idx  int
}

func (o origin) String() string { return fmt.Sprintf("%s%d", o.kind, o.idx) }

type oset map[origin]bool

type effect struct {
	what string // "nodeS.data", "map", "elem", "atomic nodeS.x"
	or   origin // param/free/global/shared
	typ  types.Type
	pos  token.Pos
	fn   *ssa.Function // where the write is
}

func (f effect) key() string {
	return f.what + "|" + f.or.String() + "|" + f.fn.String()
}

type effSum struct {
	eff map[string]effect
	ret []oset // origins of results (pointer-like), in terms of own params
}

type Effects struct {
	w    *World
	sum  map[*ssa.Function]*effSum
	memo map[ssa.Value]oset
}

var effCache = map[*World]*Effects{}

func (w *World) effects() *Effects {
	if e, ok := effCache[w]; ok {
		return e
	}
	e := &Effects{w: w, sum: map[*ssa.Function]*effSum{}}
	effCache[w] = e
	for _, f := range w.fns {
		e.sum[f] = &effSum{eff: map[string]effect{}, ret: make([]oset, f.Signature.Results().Len())}
		for i := range e.sum[f].ret {
			e.sum[f].ret[i] = oset{}
		}
	}
	for changed, it := true, 0; changed && it < 50; it++ {
		changed = false
		e.memo = map[ssa.Value]oset{}
		for _, f := range w.fns {
			if e.one(f) {
				changed = true
			}
		}
	}
	return e
}

func refLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refLike(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

func (e *Effects) origins(v ssa.Value) oset {
	return e.orig(v, map[ssa.Value]bool{})
}

func (e *Effects) orig(v ssa.Value, busy map[ssa.Value]bool) oset {
	out := oset{}
	add := func(o oset) {
		for k := range o {
			out[k] = true
		}
	}
	if busy[v] {
		return out
	}
	busy[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure, *ssa.Const, *ssa.Function, *ssa.Builtin:
		out[origin{"fresh", 0}] = true
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				out[origin{"param", i}] = true
			}
		}
	case *ssa.FreeVar:
		// resolved in the enclosing function
		fn := x.Parent()
		idx := -1
		for i, p := range fn.FreeVars {
			if p == x {
				idx = i
			}
		}
		out[origin{"free", idx}] = true
	case *ssa.Global:
		out[origin{"global", 0}] = true
	case *ssa.Phi:
		for _, ed := range x.Edges {
			add(e.orig(ed, busy))
		}
	case *ssa.FieldAddr:
		add(e.orig(x.X, busy))
	case *ssa.IndexAddr:
		add(e.orig(x.X, busy))
	case *ssa.Slice:
		add(e.orig(x.X, busy))
	case *ssa.ChangeType:
		add(e.orig(x.X, busy))
	case *ssa.ChangeInterface:
		add(e.orig(x.X, busy))
	case *ssa.MakeInterface:
		if !refLike(x.X.Type()) {
			out[origin{"fresh", 0}] = true
		} else {
			add(e.orig(x.X, busy))
		}
	case *ssa.TypeAssert:
		add(e.orig(x.X, busy))
	case *ssa.Convert:
		// string<->slice conversions copy
		if _, ok := x.Type().Underlying().(*types.Pointer); ok {
			add(e.orig(x.X, busy))
		} else {
			out[origin{"fresh", 0}] = true
		}
	case *ssa.Extract:
		add(e.extract(x, busy))
	case *ssa.UnOp:
		if x.Op == token.MUL {
			add(e.loaded(x.X, busy))
		} else {
			out[origin{"shared", 0}] = true
		}
	case *ssa.Field:
		add(e.orig(x.X, busy))
	case *ssa.Index:
		add(e.orig(x.X, busy))
	case *ssa.Lookup:
		add(e.contents(e.orig(x.X, busy), x.X))
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok {
			add(e.contents(e.orig(r.X, busy), r.X))
		}
	case *ssa.Call:
		add(e.callRet(x, 0, busy))
	default:
		out[origin{"shared", 0}] = true
	}
	delete(busy, v)
	return out
}

// contents of a container: what was put in it is not tracked, except that a
// parameter's contents belong to the parameter.
func (e *Effects) contents(o oset, v ssa.Value) oset {
	out := oset{}
	for k := range o {
		out[inside(k)] = true
	}
	return out
}

// inside: what an object of this origin refers to.
func inside(k origin) origin {
	switch k.kind {
	case "fresh":
		return origin{"shared", 0} // whatever was put in
	case "param":
		return origin{"pcont", k.idx}
	}
	return k
}

// loaded: origins of the value stored at an address.
func (e *Effects) loaded(a ssa.Value, busy map[ssa.Value]bool) oset {
	out := oset{}
	switch x := a.(type) {
	case *ssa.Alloc:
		// local cell: union of everything stored into it, here and in closures
		e.cellStores(x, out, busy)
		if len(out) == 0 {
			out[origin{"fresh", 0}] = true
		}
		return out
	case *ssa.FreeVar:
		if c := e.cellOf(x); c != nil {
			// stores in the whole closure family, seen from the parent: values
			// stored by the parent are expressed in the parent's terms; report
			// as the free variable unless only fresh values are stored
			tmp := oset{}
			e.cellStores(c, tmp, busy)
			onlyFresh := len(tmp) > 0
			for k := range tmp {
				if k.kind != "fresh" && k.kind != "pool" {
					onlyFresh = false
				}
			}
			if onlyFresh {
				out[origin{"fresh", 0}] = true
				return out
			}
		}
		for k := range e.orig(x, busy) {
			out[k] = true
		}
		return out
	case *ssa.FieldAddr:
		// a field of a fresh object holds what this function put there
		base := e.orig(x.X, busy)
		for k := range base {
			if k.kind != "fresh" {
				out[inside(k)] = true
			}
		}
		if base[origin{"fresh", 0}] {
			n := 0
			for _, s := range storesToField(x) {
				n++
				for k := range e.orig(s, busy) {
					out[k] = true
				}
			}
			if n == 0 {
				out[origin{"shared", 0}] = true
			}
		}
		return out
	}
	for k := range e.orig(a, busy) {
		out[inside(k)] = true
	}
	return out
}

// storesToField: values stored in this function to the same field of the same
// SSA base (or of any base with the same underlying alloc).
func storesToField(fa *ssa.FieldAddr) (out []ssa.Value) {
	for _, b := range fa.Parent().Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if fb, ok := s.Addr.(*ssa.FieldAddr); ok && fb.Field == fa.Field && fb.X == fa.X {
				out = append(out, s.Val)
			}
		}
	}
	return
}

func (e *Effects) cellOf(fv *ssa.FreeVar) *ssa.Alloc {
	fn := fv.Parent()
	idx := -1
	for i, p := range fn.FreeVars {
		if p == fv {
			idx = i
		}
	}
	p := fn.Parent()
	if p == nil {
		return nil
	}
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				switch y := mc.Bindings[idx].(type) {
				case *ssa.Alloc:
					return y
				case *ssa.FreeVar:
					return e.cellOf(y)
				}
			}
		}
	}
	return nil
}

func (e *Effects) cellStores(a *ssa.Alloc, out oset, busy map[ssa.Value]bool) {
	var visit func(addr ssa.Value, fn *ssa.Function)
	seen := map[ssa.Value]bool{}
	visit = func(addr ssa.Value, fn *ssa.Function) {
		if seen[addr] {
			return
		}
		seen[addr] = true
		refs := addr.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr == addr {
					for k := range e.orig(y.Val, busy) {
						if fn != a.Parent() && (k.kind == "param" || k.kind == "pcont" || k.kind == "free") {
							k = origin{"shared", 0}
						}
						out[k] = true
					}
				}
			case *ssa.MakeClosure:
				for i, b := range y.Bindings {
					if b == addr {
						visit(y.Fn.(*ssa.Function).FreeVars[i], y.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	visit(a, a.Parent())
}

func (e *Effects) extract(x *ssa.Extract, busy map[ssa.Value]bool) oset {
	switch t := x.Tuple.(type) {
	case *ssa.Call:
		return e.callRet(t, x.Index, busy)
	case *ssa.TypeAssert:
		return e.orig(t.X, busy)
	case *ssa.Lookup:
		return e.contents(e.orig(t.X, busy), t.X)
	case *ssa.Next:
		if r, ok := t.Iter.(*ssa.Range); ok {
			return e.contents(e.orig(r.X, busy), r.X)
		}
	}
	return oset{origin{"shared", 0}: true}
}

// external functions whose result never aliases an argument
func freshResult(f *ssa.Function) bool {
	p := pkgOf(f)
	if p == nil {
		return false
	}
	switch p.Path() {
	case "strings", "strconv", "fmt", "bytes", "path", "path/filepath", "regexp", "os", "encoding/json", "time", "errors":
		return true
	case "maps":
		return f.Name() == "Clone" || strings.HasPrefix(f.Name(), "Clone[")
	case "slices":
		return strings.HasPrefix(f.Name(), "Clone") || strings.HasPrefix(f.Name(), "Sorted") || strings.HasPrefix(f.Name(), "Collect") || strings.HasPrefix(f.Name(), "Concat")
	case "github.com/hedzr/evendeep":
		return strings.HasPrefix(f.Name(), "MakeClone") || strings.HasPrefix(f.Name(), "DeepCopy") || f.Name() == "New"
	case "sync":
		return false
	}
	return false
}

func (e *Effects) callRet(c *ssa.Call, idx int, busy map[ssa.Value]bool) oset {
	out := oset{}
	cc := c.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		if bi.Name() == "append" {
			for k := range e.orig(cc.Args[0], busy) {
				out[k] = true
			}
			if cst, ok := cc.Args[0].(*ssa.Const); ok && cst.Value == nil {
				out = oset{origin{"fresh", 0}: true}
			}
			return out
		}
		return oset{origin{"fresh", 0}: true}
	}
	fs := e.w.callees(c)
	for _, f := range fs {
		if s := e.sum[f]; s != nil {
			if idx < len(s.ret) {
				for k := range s.ret[idx] {
					if k.kind == "param" {
						for q := range e.argOrigins(cc, k.idx, busy) {
							out[q] = true
						}
					} else if k.kind == "pcont" {
						for q := range e.argContents(cc, k.idx, busy) {
							out[q] = true
						}
					} else if k.kind == "free" {
						out[origin{"shared", 0}] = true
					} else {
						out[k] = true
					}
				}
			}
			continue
		}
		if p := pkgOf(f); p != nil && p.Path() == "sync" && f.Name() == "Get" {
			out[origin{"pool", 0}] = true
			continue
		}
		if freshResult(f) {
			out[origin{"fresh", 0}] = true
			continue
		}
		// unknown external: may return what it was given
		for i := range cc.Args {
			if refLike(cc.Args[i].Type()) {
				for q := range e.orig(cc.Args[i], busy) {
					out[q] = true
				}
			}
		}
		if len(out) == 0 {
			out[origin{"fresh", 0}] = true
		}
	}
	if len(fs) == 0 {
		out[origin{"shared", 0}] = true
	}
	return out
}

func (e *Effects) argOrigins(cc *ssa.CallCommon, i int, busy map[ssa.Value]bool) oset {
	if cc.IsInvoke() {
		if i == 0 {
			return e.orig(cc.Value, busy)
		}
		i--
	}
	if i < len(cc.Args) {
		return e.orig(cc.Args[i], busy)
	}
	return oset{}
}

// argContents: what the i'th argument refers to: nothing for nil, the listed
// elements for a variadic list built at the call.
func (e *Effects) argContents(cc *ssa.CallCommon, i int, busy map[ssa.Value]bool) oset {
	out := oset{}
	j := i
	if cc.IsInvoke() {
		j--
	}
	if j >= 0 && j < len(cc.Args) {
		switch a := cc.Args[j].(type) {
		case *ssa.Const:
			return out
		case *ssa.Slice:
			if al, ok := a.X.(*ssa.Alloc); ok && al.Referrers() != nil {
				for _, r := range *al.Referrers() {
					ia, ok := r.(*ssa.IndexAddr)
					if !ok || ia.Referrers() == nil {
						continue
					}
					for _, q := range *ia.Referrers() {
						if s, ok := q.(*ssa.Store); ok && s.Addr == ia {
							for k := range e.orig(s.Val, busy) {
								out[k] = true
							}
						}
					}
				}
				return out
			}
		}
	}
	for k := range e.argOrigins(cc, i, busy) {
		out[inside(k)] = true
	}
	return out
}

var sortMut = map[string]bool{"Strings": true, "Ints": true, "Float64s": true, "Slice": true, "SliceStable": true, "Sort": true, "Stable": true, "SortFunc": true, "SortStableFunc": true, "Reverse": true, "Delete": true, "DeleteFunc": true, "Compact": true, "CompactFunc": true, "Insert": true, "Replace": true, "Copy": true}

func (e *Effects) one(f *ssa.Function) (changed bool) {
	s := e.sum[f]
	put := func(ef effect) {
		switch ef.or.kind {
		case "fresh", "pool":
			return
		}
		k := ef.key()
		if _, ok := s.eff[k]; !ok {
			s.eff[k] = ef
			changed = true
		}
	}
	each := func(v ssa.Value, what string, pos token.Pos) {
		for o := range e.origins(v) {
			put(effect{what: what, or: o, typ: v.Type(), pos: pos, fn: f})
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				switch a := x.Addr.(type) {
				case *ssa.FieldAddr:
					if cellRooted(a) {
						continue
					}
					each(a.X, fieldKey(a.X.Type(), a.Field), x.Pos())
				case *ssa.IndexAddr:
					if _, isArr := derefT(a.X.Type()).Underlying().(*types.Array); isArr {
						if _, loc := a.X.(*ssa.Alloc); loc {
							continue
						}
					}
					each(a.X, "elem:"+elemName(a.X.Type()), x.Pos())
				case *ssa.Alloc:
				case *ssa.FreeVar:
					// a captured local of the enclosing function
				case *ssa.Global:
					put(effect{what: "global." + a.Name(), or: origin{"global", 0}, typ: a.Type(), pos: x.Pos(), fn: f})
				default:
					what := "cell"
					if n := namedOf(a.Type()); n != nil {
						what = n.Obj().Name() + ".*"
					}
					each(a, what, x.Pos())
				}
			case *ssa.MapUpdate:
				each(x.Map, "map:"+elemName(x.Map.Type()), x.Pos())
			case ssa.CallInstruction:
				e.call(f, x, put)
			case *ssa.Return:
				for i, r := range x.Results {
					if !refLike(r.Type()) {
						continue
					}
					for o := range e.origins(r) {
						if !s.ret[i][o] {
							s.ret[i][o] = true
							changed = true
						}
					}
				}
			}
		}
	}
	return
}

func cellRooted(a *ssa.FieldAddr) bool {
	var v ssa.Value = a.X
	for {
		switch y := v.(type) {
		case *ssa.FieldAddr:
			v = y.X
			continue
		case *ssa.Alloc:
			return true
		}
		return false
	}
}

func elemName(t types.Type) string {
	switch u := derefT(t).Underlying().(type) {
	case *types.Slice:
		return typeName(u.Elem())
	case *types.Array:
		return typeName(u.Elem())
	case *types.Map:
		if n := namedOf(t); n != nil {
			return n.Obj().Name()
		}
		return types.TypeString(u, func(p *types.Package) string { return p.Name() })
	}
	return "?"
}

func (e *Effects) call(f *ssa.Function, c ssa.CallInstruction, put func(effect)) {
	cc := c.Common()
	each := func(v ssa.Value, what string) {
		for o := range e.origins(v) {
			put(effect{what: what, or: o, typ: v.Type(), pos: c.Pos(), fn: f})
		}
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "delete", "clear":
			each(cc.Args[0], "map:"+elemName(cc.Args[0].Type()))
		case "copy":
			each(cc.Args[0], "elem:"+elemName(cc.Args[0].Type()))
		case "append":
			// append to a shortened slice overwrites the shared tail in place
			if sl, ok := cc.Args[0].(*ssa.Slice); ok && sl.High != nil && sl.Max == nil && len(cc.Args) > 1 {
				each(sl.X, "elem:"+elemName(sl.X.Type()))
			}
		}
		return
	}
	// closures made here and passed on, or run here: their effects through
	// captured variables are effects of this function on the captured objects
	for _, a := range append([]ssa.Value{cc.Value}, cc.Args...) {
		for {
			ct, ok := a.(*ssa.ChangeType)
			if !ok {
				break
			}
			a = ct.X
		}
		switch mc := a.(type) {
		case *ssa.MakeClosure:
			e.closureEff(f, mc.Fn.(*ssa.Function), mc.Bindings, put)
		case *ssa.Function:
			// a function literal that captures nothing, handed on
			if a != cc.Value {
				e.closureEff(f, mc, nil, put)
			}
		}
	}
	for _, g := range e.w.callees(c) {
		s := e.sum[g]
		if s != nil {
			for _, ef := range s.eff {
				switch ef.or.kind {
				case "param":
					for o := range e.argOrigins(cc, ef.or.idx, map[ssa.Value]bool{}) {
						put(effect{what: ef.what, or: o, typ: ef.typ, pos: ef.pos, fn: ef.fn})
					}
				case "pcont":
					for o := range e.argContents(cc, ef.or.idx, map[ssa.Value]bool{}) {
						put(effect{what: ef.what, or: o, typ: ef.typ, pos: ef.pos, fn: ef.fn})
					}
				case "free":
					// handled where the closure is made
				default:
					put(ef)
				}
			}
			continue
		}
		p := pkgOf(g)
		if p == nil {
			continue
		}
		switch p.Path() {
		case "sort", "slices", "maps":
			nm := g.Name()
			if i := strings.IndexByte(nm, '['); i > 0 {
				nm = nm[:i]
			}
			if sortMut[nm] && len(cc.Args) > 0 {
				a := cc.Args[0]
				if mi, ok := a.(*ssa.MakeInterface); ok {
					a = mi.X
				}
				what := "elem:" + elemName(a.Type())
				if _, isMap := a.Type().Underlying().(*types.Map); isMap {
					what = "map:" + elemName(a.Type())
				}
				each(a, what)
			}
		case "sync/atomic":
			if strings.HasPrefix(g.Name(), "Load") {
				continue
			}
			if len(cc.Args) > 0 {
				if fa, ok := cc.Args[0].(*ssa.FieldAddr); ok {
					each(fa.X, fieldKey(fa.X.Type(), fa.Field))
				}
			}
		case "sync":
		default:
			for _, a := range cc.Args {
				if mi, ok := a.(*ssa.MakeInterface); ok {
					a = mi.X
				}
				if fa, ok := a.(*ssa.FieldAddr); ok && !cellRooted(fa) {
					if g.Signature.Recv() != nil && a == cc.Args[0] {
						if n := namedOf(derefT(fa.Type())); n != nil && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync") {
							continue
						}
					}
					each(fa.X, fieldKey(fa.X.Type(), fa.Field))
				}
			}
		}
	}
}

func (e *Effects) closureEff(f, g *ssa.Function, bindings []ssa.Value, put func(effect)) {
	s := e.sum[g]
	if s == nil {
		return
	}
	for _, ef := range s.eff {
		switch ef.or.kind {
		case "free":
			if ef.or.idx < 0 || ef.or.idx >= len(bindings) {
				put(effect{what: ef.what, or: origin{"shared", 0}, typ: ef.typ, pos: ef.pos, fn: ef.fn})
				continue
			}
			bnd := bindings[ef.or.idx]
			var os oset
			if al, ok := bnd.(*ssa.Alloc); ok {
				os = oset{}
				e.cellStores(al, os, map[ssa.Value]bool{})
			} else {
				os = e.origins(bnd)
			}
			for o := range os {
				put(effect{what: ef.what, or: o, typ: ef.typ, pos: ef.pos, fn: ef.fn})
			}
		case "param", "pcont":
			// the closure's parameter is supplied by whoever runs it: an
			// object of the tree unless shown otherwise
			put(effect{what: ef.what, or: origin{"shared", 1}, typ: ef.typ, pos: ef.pos, fn: ef.fn})
		default:
			put(ef)
		}
	}
}

// of returns the effects of f on existing objects, sorted.
func (e *Effects) of(f *ssa.Function) (out []effect) {
	if s := e.sum[f]; s != nil {
		for _, x := range s.eff {
			out = append(out, x)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key() < out[j].key() })
	return
}
