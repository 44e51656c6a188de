package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P02", p02) }

// finalField: the value of field f of object o when the outcome is reached.
func (e *Engine) finalField(o *Outcome, obj *Term, n *types.Named, f string) *Term {
	st := structOf(n)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			fa := e.ts.mk("fieldaddr", f, types.NewPointer(st.Field(i).Type()), obj)
			fa.fld = i
			return e.peek(o.st, fa, st.Field(i).Type())
		}
	}
	return nil
}

// origField: base.f as it was on entry, whatever memory version is named.
func (e *Engine) isLoadOf(t, base *Term, f string) bool {
	b, fl, ok := fieldLoad(t)
	return ok && fl == f && e.ts.noEpoch(b) == e.ts.noEpoch(base)
}

func (e *Engine) mentions(t, base *Term, f string) bool {
	return walkTerm(t, func(x *Term) bool { return e.isLoadOf(x, base, f) })
}

// isAlloc of the named struct
func isAllocOf(t *Term, n *types.Named) bool {
	if t.op != "alloc" || n == nil {
		return false
	}
	m := namedOf(derefT(t.typ))
	return m != nil && m.Obj() == n.Obj()
}

func (w *World) radixEngine() *Engine {
	e := newEngine(w)
	e.inline = func(f *ssa.Function) bool {
		p := pkgOf(f)
		return p != nil && p == w.radix
	}
	return e
}

func p02(c *Ctx) {
	w := c.w
	c.rule("node-copy", "every path through the node clone function returns a new node whose every field is the original's own (value deep-cloned), with each child visited and cloned into a new slice")
	c.rule("tree-copy", "a cloned tree has the clone of the root node and the original's prefix, delimiter and recursion mode")
	c.rule("store-copy", "a cloned store wraps a cloned tree and keeps every option")
	c.assume = append(c.assume, "evendeep.MakeClone returns a deep copy of its argument")
	tr := w.trieRoles()
	var cloneFns []*ssa.Function
	noteClone := func(f *ssa.Function) {
		for _, x := range cloneFns {
			if x == f {
				return
			}
		}
		cloneFns = append(cloneFns, f)
	}
	// tree level
	checkTree := func(rule, name string, e *Engine, o *Outcome, tree *Term, base *Term, f *ssa.Function) {
		if !isAllocOf(tree, w.trieT) {
			if e.isSame(tree, base) {
				c.bad(rule, name+" same tree", f.Pos(), "%s returns the original tree", name)
			} else {
				c.und(rule, name, "the returned tree %s is not recognised", tree.short())
			}
			return
		}
		for _, fl := range []string{tr.prefix, tr.delim, tr.mode} {
			v := e.finalField(o, tree, w.trieT, fl)
			if e.isLoadOf(v, base, fl) || e.knownZeroOf(o.st.facts, base, fl) {
				c.ok(rule)
			} else if e.mentions(v, base, fl) {
				c.und(rule, name+"."+fl, "computed as %s", v.short())
			} else {
				c.bad(rule, name+" "+fl, f.Pos(), "the clone's %s is %s, not the original's", fl, v.short())
			}
		}
		root := e.finalField(o, tree, w.trieT, tr.root)
		switch {
		case e.isLoadOf(root, base, tr.root):
			c.bad(rule, name+" shares root", f.Pos(), "%s shares the root node with the original", name)
		case root.op == "call" && root.fn != nil && len(root.args) > 0 && e.isLoadOf(root.args[0], base, tr.root):
			noteClone(root.fn)
			c.ok(rule)
		case root.isNil():
			c.bad(rule, name+" no root", f.Pos(), "%s leaves the clone without a root", name)
		default:
			c.und(rule, name, "root is %s", root.short())
		}
	}
	newE := func() *Engine {
		e := newEngine(w)
		e.opaque = func(f *ssa.Function) bool {
			// node-level functions returning a node are the unit of cloning
			return isRecvOf(f, w.nodeT) && f.Signature.Results().Len() == 1 && isNodePtr(w, f.Signature.Results().At(0).Type())
		}
		return e
	}
	if f := w.method(w.trieT, "Dup"); f != nil {
		c.saw(f)
		e := newE()
		for _, o := range e.Analyze(f) {
			if o.panic || len(o.rets) == 0 {
				continue
			}
			p := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
			checkTree("tree-copy", w.fname(f), e, o, strip(o.rets[0]), p, f)
		}
	}
	emb := w.storeTrie()
	for _, nm := range []string{"Dup", "Clone"} {
		f := w.method(w.storeT, nm)
		if f == nil {
			continue
		}
		c.saw(f)
		e := newE()
		for _, o := range e.Analyze(f) {
			if o.panic || len(o.rets) == 0 {
				continue
			}
			s := strip(o.rets[0])
			p := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
			if s == p {
				c.bad("store-copy", w.fname(f)+" same", f.Pos(), "%s returns the store itself", w.fname(f))
				continue
			}
			if !isAllocOf(s, w.storeT) {
				c.und("store-copy", w.fname(f), "returned store %s not recognised", s.short())
				continue
			}
			st := structOf(w.storeT)
			for i := 0; i < st.NumFields(); i++ {
				fl := st.Field(i)
				if b, ok := fl.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					v := e.finalField(o, s, w.storeT, fl.Name())
					if e.isLoadOf(v, p, fl.Name()) {
						c.ok("store-copy")
					} else if e.mentions(v, p, fl.Name()) {
						c.und("store-copy", w.fname(f)+"."+fl.Name(), "computed as %s", v.short())
					} else {
						c.bad("store-copy", w.fname(f)+" "+fl.Name(), f.Pos(), "the clone's option %s is %s, not the original's", fl.Name(), v.short())
					}
				}
			}
			tt := strip(e.finalField(o, s, w.storeT, emb))
			base := e.ts.noEpoch(e.finalField(&Outcome{st: e.newState()}, p, w.storeT, emb))
			if e.isLoadOf(tt, p, emb) {
				c.bad("store-copy", w.fname(f)+" shares tree", f.Pos(), "%s shares the tree with the original", w.fname(f))
				continue
			}
			checkTree("store-copy", w.fname(f), e, o, tt, base, f)
		}
	}
	for _, f := range cloneFns {
		cloneNode(c, f)
	}
	if len(cloneFns) == 0 {
		c.und("node-copy", "clone", "no node clone function identified")
	}
}

func isNodePtr(w *World, t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj() == w.nodeT.Obj()
}

func (e *Engine) isSame(a, b *Term) bool { return e.ts.noEpoch(a) == e.ts.noEpoch(b) }

// knownZeroOf: a fact says base.f is its zero value.
func (e *Engine) knownZeroOf(facts *Fact, base *Term, f string) bool {
	for x := facts; x != nil; x = x.up {
		if !x.pol || x.atom.op != "eq" {
			continue
		}
		a, b := x.atom.args[0], x.atom.args[1]
		if !isZeroTerm(b) {
			continue
		}
		if a.op == "len" {
			a = a.args[0]
		}
		if e.isLoadOf(a, base, f) {
			return true
		}
	}
	return false
}

// noDataFact: facts say the node holds no data, in the terms HasData/Empty use.
func (c *Ctx) noDataFact(e *Engine, facts *Fact, base *Term) bool {
	w := c.w
	r := w.roles()
	for _, m := range []struct {
		n   string
		has bool
	}{{"HasData", true}, {"Empty", false}} {
		f := w.method(w.nodeT, m.n)
		if f == nil {
			continue
		}
		// the flag mask the accessor tests
		ee := newEngine(w)
		for _, o := range ee.Analyze(f) {
			if o.panic || len(o.rets) == 0 {
				continue
			}
			var mask *Term
			walkTerm(o.rets[0], func(t *Term) bool {
				if t.op == "bin" && t.aux == "&" {
					for _, a := range t.args {
						if a.isConst() {
							mask = a
						}
					}
				}
				return false
			})
			if mask == nil {
				continue
			}
			mv, _ := mask.constInt()
			for x := facts; x != nil; x = x.up {
				if x.atom.op != "eq" || !x.pol || !isZeroTerm(x.atom.args[1]) {
					continue
				}
				t := x.atom.args[0]
				if t.op == "bin" && t.aux == "&" {
					okm, okf := false, false
					for _, a := range t.args {
						if v, ok := a.constInt(); ok && v == mv {
							okm = true
						}
						if e.isLoadOf(a, base, r.flags) {
							okf = true
						}
					}
					if okm && okf {
						return true
					}
				}
			}
		}
	}
	return e.knownZeroOf(facts, base, r.data)
}

func cloneNode(c *Ctx, f *ssa.Function) {
	const rule = "node-copy"
	w := c.w
	r := w.roles()
	name := w.fname(f)
	c.saw(f)
	e := w.radixEngine()
	outs := e.Analyze(f)
	for g := range e.inlined {
		c.saw(g)
	}
	if e.over || len(outs) == 0 {
		c.und(rule, name, "analysis gave up")
		return
	}
	src := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
	st := structOf(w.nodeT)
	for _, o := range outs {
		if o.panic || len(o.rets) == 0 {
			continue
		}
		nd := strip(o.rets[0])
		if nd.isNil() {
			if e.factNil(o.st.facts, src) {
				continue
			}
			c.bad(rule, name+" returns nil", f.Pos(), "%s returns no node", name)
			continue
		}
		if e.isSame(nd, src) {
			c.bad(rule, name+" returns the original", f.Pos(), "%s returns the original node", name)
			continue
		}
		if !isAllocOf(nd, w.nodeT) {
			c.und(rule, name, "returned node %s not recognised", nd.short())
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i).Name()
			v := e.finalField(o, nd, w.nodeT, fl)
			switch fl {
			case r.lock:
				if e.isLoadOf(v, src, fl) {
					c.bad(rule, name+" shares lock", f.Pos(), "the clone shares the node lock of the original")
				}
				continue
			case r.children:
				c.cloneChildren(e, o, f, src, nd, v)
				continue
			case r.data:
				cl, raw := false, false
				walkTerm(v, func(t *Term) bool {
					if t.op == "call" && t.fn != nil && freshResult(t.fn) && len(t.args) > 0 && e.mentions(t.args[0], src, fl) {
						cl = true
						return true
					}
					return false
				})
				raw = e.isLoadOf(strip(v), src, fl)
				switch {
				case cl:
					c.ok(rule)
				case raw:
					if e.scalarFact(o.st.facts, v) {
						c.ok(rule)
						continue
					}
					c.bad(rule, name+" shares "+fl, f.Pos(), "the clone shares the stored value with the original instead of cloning it")
				case isZeroTerm(v):
					if c.noDataFact(e, o.st.facts, src) || cloneTypeFact(o.st.facts) {
						c.ok(rule)
						continue
					}
					c.bad(rule, name+" drops "+fl, f.Pos(), "on a path of %s the clone loses the stored value (%s)", name, o.st.facts)
				default:
					c.und(rule, name+"."+fl, "value is %s", v.short())
				}
				continue
			}
			switch {
			case e.isLoadOf(v, src, fl), e.knownZeroOf(o.st.facts, src, fl) && isZeroTerm(v):
				c.ok(rule)
			case isZeroTerm(v), v.isConst():
				c.bad(rule, name+" "+fl, f.Pos(), "on a path of %s the clone's %s is %s instead of the original's", name, fl, v.short())
			case func() bool { _, g, ok := fieldLoad(v); return ok && g != fl }():
				c.bad(rule, name+" "+fl, f.Pos(), "on a path of %s the clone's %s is taken from %s", name, fl, v.short())
			case v.op == "bin":
				c.bad(rule, name+" "+fl, f.Pos(), "on a path of %s the clone's %s is changed to %s", name, fl, v.short())
			case e.mentions(v, src, fl):
				c.und(rule, name+"."+fl, "computed as %s", v.short())
			default:
				c.und(rule, name+"."+fl, "value is %s", v.short())
			}
		}
	}
}

// scalarFact: the facts show v to be of a type without shared state.
func (e *Engine) scalarFact(facts *Fact, v *Term) bool {
	for x := facts; x != nil; x = x.up {
		if x.pol && x.atom.op == "istype" && e.isSame(x.atom.args[0], v) && x.atom.typ != nil && !refLike(x.atom.typ) {
			return true
		}
		if x.pol && x.atom.op == "eq" && x.atom.args[1].isNil() && e.isSame(x.atom.args[0], v) {
			return true
		}
	}
	return false
}

func (e *Engine) factNil(facts *Fact, t *Term) bool {
	for x := facts; x != nil; x = x.up {
		if x.pol && x.atom.op == "eq" && x.atom.args[1].isNil() && e.isSame(x.atom.args[0], t) {
			return true
		}
	}
	return false
}

// cloneTypeFact: the path is taken only when the cloned value has none of the
// types the code stores (impossible, or nil).
func cloneTypeFact(facts *Fact) bool {
	for x := facts; x != nil; x = x.up {
		if !x.pol && x.atom.op == "istype" && x.atom.args[0].op == "call" {
			return true
		}
		if x.pol && x.atom.op == "eq" && x.atom.args[1].isNil() && x.atom.args[0].op == "call" {
			return true
		}
	}
	return false
}

func (c *Ctx) cloneChildren(e *Engine, o *Outcome, f *ssa.Function, src, nd, v *Term) {
	const rule = "node-copy"
	w := c.w
	r := w.roles()
	name := w.fname(f)
	if e.knownZeroOf(o.st.facts, src, r.children) {
		c.ok(rule)
		return
	}
	for _, x := range e.expand(v) {
		b := x
		for b.op == "append" || b.op == "slice" {
			b = b.args[0]
		}
		if b.op == "loopvar" {
			continue
		}
		if e.isLoadOf(b, src, r.children) {
			c.bad(rule, name+" shares children", f.Pos(), "the clone's children are (a part of) the original's own slice")
			return
		}
	}
	var found *LoopEv
	for _, ev := range o.st.events {
		if ev.kind != "loop" {
			continue
		}
		cv := e.loopCover(ev.loop)
		if cv.known && cv.slice != nil && e.isLoadOf(cv.slice, src, r.children) {
			// does this loop clone?
			clones := false
			for _, b := range ev.loop.bodies {
				for _, x := range b.events {
					if x.kind == "call" && x.fn != nil && isNodePtr(w, resType(x.fn)) {
						clones = true
					}
				}
			}
			if !clones {
				continue
			}
			found = ev.loop
			if !cv.full {
				c.bad(rule, name+" partial children", f.Pos(), "the loop over the original's children %s, so some children are not cloned", cv.why)
				return
			}
		}
	}
	if found == nil {
		if isZeroTerm(v) || v.op == "makeslice" {
			unrec := false
			for _, ev := range o.st.events {
				if ev.kind == "loop" || ev.kind == "call" && ev.fn != nil && w.inWorkspace(ev.fn) {
					unrec = true
				}
			}
			if !unrec {
				c.bad(rule, name+" drops children", f.Pos(), "on a path of %s the clone has no children although the original may have some (%s)", name, o.st.facts)
				return
			}
		}
		c.und(rule, name+"."+r.children, "value is %s", v.short())
		return
	}
	for _, b := range found.bodies {
		n := 0
		skip := false
		for _, x := range b.events {
			if x.kind == "call" && x.fn != nil && isNodePtr(w, resType(x.fn)) && len(x.args) > 0 && isNodePtr(w, x.args[0].typ) {
				n++
			}
		}
		for g := b.facts; g != nil && g != found.entry; g = g.up {
			if g.pol && g.atom.op == "eq" && g.atom.args[1].isNil() && isNodePtr(w, g.atom.args[0].typ) {
				skip = true // a nil child
			}
		}
		app := 0
		for _, x := range b.events {
			switch x.kind {
			case "append":
				for _, a := range x.args {
					if a.op == "call" && isNodePtr(w, a.typ) {
						app++
					}
					if a.op == "load" && isNodePtr(w, a.typ) {
						c.bad(rule, name+" shares a child", x.pos, "a child node itself, not its clone, is put into the clone")
					}
				}
			case "store":
				if x.addr.op == "idxaddr" && x.addr.args[0].op != "alloc" && x.val.op == "call" && isNodePtr(w, x.val.typ) {
					app++
				}
				if x.addr.op == "idxaddr" && x.addr.args[0].op != "alloc" && x.val.op == "load" && isNodePtr(w, x.val.typ) {
					c.bad(rule, name+" shares a child", x.pos, "a child node itself, not its clone, is put into the clone")
				}
			}
		}
		if skip {
			continue
		}
		if n == 0 || app == 0 {
			c.bad(rule, name+" skips children", f.Pos(), "an iteration of the loop over the children adds no clone of the child (%s)", b.facts)
			return
		}
	}
	c.ok(rule)
}

func resType(f *ssa.Function) types.Type {
	if f.Signature.Results().Len() != 1 {
		return types.Typ[types.Invalid]
	}
	return f.Signature.Results().At(0).Type()
}
