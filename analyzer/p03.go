package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P03", p03) }

// nodeW: the last value stored into each field of one node on a path.
type nodeW struct {
	base *Term
	f    map[string]*Term
	ev   map[string]*Event
}

// nodeStores collects, in order, the field writes of node objects on a path.
func (w *World) nodeStores(e *Engine, o *Outcome) (out []*nodeW, elem []*Event) {
	idx := map[*Term]*nodeW{}
	whole := false
	get := func(b *Term) *nodeW {
		k := e.ts.noEpoch(b)
		if x := idx[k]; x != nil {
			return x
		}
		x := &nodeW{base: b, f: map[string]*Term{}, ev: map[string]*Event{}}
		idx[k] = x
		out = append(out, x)
		return x
	}
	st := structOf(w.nodeT)
	allEvents(o.st.events, func(ev *Event, _ *LoopEv) {
		if ev.kind != "store" {
			return
		}
		a := ev.addr
		switch {
		case a.op == "fieldaddr" && isNodePtr(w, a.args[0].typ):
			x := get(a.args[0])
			x.f[a.aux], x.ev[a.aux] = ev.val, ev
		case isPtrTo(a.typ, w.nodeT):
			x := get(a)
			whole = true
			for i := 0; i < st.NumFields(); i++ {
				n := st.Field(i).Name()
				x.f[n], x.ev[n] = e.fieldOf(ev.val, w.nodeT, i, st.Field(i).Type()), ev
			}
		case a.op == "idxaddr":
			if isNodePtr(w, derefT(a.typ)) {
				elem = append(elem, ev)
			}
		}
	})
	if whole {
		// composite literals assigned as a whole are built in a temporary that
		// nothing points to
		used := func(b *Term) bool {
			for _, r := range o.rets {
				if contains(r, b) {
					return true
				}
			}
			u := false
			allEvents(o.st.events, func(ev *Event, _ *LoopEv) {
				if ev.val != nil && contains(ev.val, b) && ev.kind == "store" {
					u = true
				}
				for _, a := range ev.args {
					u = u || contains(a, b)
				}
			})
			return u
		}
		var keep []*nodeW
		for _, x := range out {
			if x.base.op != "alloc" || used(x.base) {
				keep = append(keep, x)
			}
		}
		out = keep
	}
	return
}

// isPtrTo: t is exactly *n.
func isPtrTo(t types.Type, n *types.Named) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	m, ok := types.Unalias(p.Elem()).(*types.Named)
	return ok && m.Obj() == n.Obj()
}

// flagBits finds the constants behind the leaf and data flags from the
// exported predicates IsLeaf and HasData.
func (w *World) flagBit(method string) int64 {
	f := w.method(w.nodeT, method)
	if f == nil {
		return 0
	}
	e := newEngine(w)
	var bit int64
	for _, o := range e.Analyze(f) {
		for _, r := range o.rets {
			walkTerm(r, func(t *Term) bool {
				if t.op == "bin" && t.aux == "&" {
					for _, a := range t.args {
						if v, ok := a.constInt(); ok {
							bit = v
						}
					}
				}
				return false
			})
		}
	}
	return bit
}

// bitState: +1 the bit is set in t, -1 clear, 0 unknown.
func bitState(t *Term, bit int64) int {
	if t == nil {
		return 0
	}
	if v, ok := t.constInt(); ok {
		if v&bit != 0 {
			return 1
		}
		return -1
	}
	if t.op == "bin" {
		a, b := bitState(t.args[0], bit), bitState(t.args[1], bit)
		switch t.aux {
		case "|":
			if a > 0 || b > 0 {
				return 1
			}
			if a < 0 && b < 0 {
				return -1
			}
		case "&":
			if a < 0 || b < 0 {
				return -1
			}
			if a > 0 && b > 0 {
				return 1
			}
		case "&^":
			if b > 0 || a < 0 {
				return -1
			}
			if a > 0 && b < 0 {
				return 1
			}
		}
	}
	return 0
}

func p03(c *Ctx) {
	w := c.w
	c.rule("placed-once", "every path through insertion puts the value in exactly one place: a new leaf attached to the tree, the node hit, or the recursive insertion into one child with the same key and value")
	c.rule("nothing-lost", "insertion leaves every other node alone: children are only added, and a split moves key, value, description, comment, tag, flags and children of the node to the new child, cutting the fragment at one point and resetting the branch")
	c.rule("one-path", "a node is split exactly where its piece and the word differ, and a child that begins like the word is never passed over: no two children begin with the same rune")
	c.rule("old-value", "insertion returns the node that holds the value and the value it held before")
	c.rule("cb-once", "the insertion callback runs exactly once, for the key, old value and node of this insertion")
	c.rule("write-through", "each tree-level writing operation performs exactly one insertion at the root, of the given value, and hands back the old value")
	var ops []*ssa.Function
	for _, f := range w.fns {
		if w.isInsertOp(f) && f.Blocks != nil && w.calledFromTree(f) {
			ops = append(ops, f)
		}
	}
	leafBit, dataBit := w.flagBit("IsLeaf"), w.flagBit("HasData")
	for _, f := range ops {
		w.insertOp(c, f, leafBit, dataBit)
	}
	// tree level
	for _, nm := range []string{"Insert", "Set", "SetEx", "SetNode", "SetEmpty", "Update"} {
		for _, n := range []*types.Named{w.trieT, w.storeT} {
			f := w.method(n, nm)
			if f == nil || n == w.storeT && !declared(f) {
				continue
			}
			c.saw(f)
			w.writeThrough(c, f)
		}
	}
}

// calledFromTree: some function that is not a method of the node calls f.
func (w *World) calledFromTree(f *ssa.Function) bool {
	for _, g := range w.fns {
		if isRecvOf(g, w.nodeT) || !w.library(g) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
					return true
				}
			}
		}
	}
	return false
}

func (w *World) insertOp(c *Ctx, f *ssa.Function, leafBit, dataBit int64) {
	r := w.roles()
	name := w.fname(f)
	c.saw(f)
	e := w.radixEngine()
	outs := e.Analyze(f)
	if e.over {
		c.und("placed-once", name, "analysis gave up")
		return
	}
	par := func(i int) *Term { return e.ts.mk("param", pname(f.Params[i], i), f.Params[i].Type()) }
	recv := par(0)
	wi := w.wordParam(f)
	word := par(wi)
	var key, data, cb *Term
	for i := wi + 1; i < len(f.Params); i++ {
		t := f.Params[i].Type()
		switch {
		case isStrT(t) && key == nil:
			key = par(i)
		case key != nil && data == nil:
			data = par(i)
		default:
			if _, ok := t.Underlying().(*types.Signature); ok {
				cb = par(i)
			}
		}
	}
	if key == nil || data == nil {
		c.und("placed-once", name, "parameters not recognised")
		return
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		ws, elems := w.nodeStores(e, o)
		var R *nodeW
		var fresh []*nodeW
		skip := false
		for _, x := range ws {
			switch {
			case e.isSame(x.base, recv):
				R = x
			case x.base.op == "alloc":
				fresh = append(fresh, x)
			case walkTerm(x.base, func(t *Term) bool { return t.op == "loopvar" && isNodePtr(w, t.typ) }):
				c.und("nothing-lost", name, "iterative insertion through %s", x.base.short())
				skip = true
			default:
				for fl, v := range x.f {
					if fl == r.lock {
						continue
					}
					c.bad("nothing-lost", name+" writes "+fl+" of another node", x.ev[fl].pos, "inserting a key writes %s of %s, which is neither the node being inserted into nor a new one (value %s)", fl, x.base.short(), v.short())
				}
			}
		}
		for _, ev := range elems {
			b := ev.addr.args[0]
			if b.op == "alloc" || b.op == "make" || b.op == "vec" {
				continue
			}
			if e.isLoadOf(b, recv, r.children) {
				if e.isLoadOf(ev.val, recv, r.children) || ev.val.isNil() {
					c.bad("nothing-lost", name+" replaces a child", ev.pos, "insertion overwrites an element of the existing child list with %s", ev.val.short())
				} else {
					c.und("nothing-lost", name, "an element of the child list is replaced by %s", ev.val.short())
					skip = true
				}
			}
		}
		if skip {
			continue
		}
		if R == nil {
			R = &nodeW{base: recv, f: map[string]*Term{}, ev: map[string]*Event{}}
		}
		pos := f.Pos()
		isOrig := func(v *Term, fl string) bool { return v == nil || e.isLoadOf(v, recv, fl) }
		// --- recursive calls
		var recs []*Event
		direct := 0
		passed := false
		allEvents(o.st.events, func(ev *Event, _ *LoopEv) {
			if ev.kind != "call" {
				return
			}
			if ev.fn != nil && w.isInsertOp(ev.fn) {
				recs = append(recs, ev)
				for _, a := range ev.args {
					if cb != nil && a == cb {
						passed = true
					}
				}
			}
			if cb != nil && ev.val == cb {
				direct++
			}
		})
		// --- split?
		split := false
		var cut *Term
		var M *nodeW
		if v := R.f[r.piece]; v != nil && !isOrig(v, r.piece) {
			if v.op == "slice" && e.isLoadOf(v.args[0], recv, r.piece) && (v.args[1].op == "none" || isZeroTerm(v.args[1])) {
				split, cut = true, v.args[2]
			} else {
				c.und("nothing-lost", name, "the node's fragment becomes %s", v.short())
				continue
			}
			for _, x := range fresh {
				p := x.f[r.piece]
				if p != nil && e.mentions(p, recv, r.piece) {
					M = x
				}
			}
			if M == nil {
				c.bad("nothing-lost", name+" split without remainder", R.ev[r.piece].pos, "the node's fragment is shortened but no new node takes the rest")
				continue
			}
			w.splitCheck(c, e, name, recv, R, M, cut, leafBit, dataBit, data, o)
			c.commonPrefix(e, name, o, recv, word, cut, R.ev[r.piece].pos)
		} else {
			for _, fl := range []string{r.key, r.desc, r.comment, r.tag} {
				if v := R.f[fl]; v != nil && !isOrig(v, fl) {
					c.bad("nothing-lost", name+" changes "+fl, R.ev[fl].pos, "inserting a value changes %s of an existing node to %s", fl, v.short())
				} else {
					c.ok("nothing-lost")
				}
			}
			if v := R.f[r.children]; v != nil && !isOrig(v, r.children) {
				if !e.mentions(v, recv, r.children) && !e.knownZeroOf(o.st.facts, recv, r.children) {
					c.bad("nothing-lost", name+" drops children", R.ev[r.children].pos, "the child list becomes %s: existing children are dropped", v.short())
				} else if v.op == "slice" && (v.args[1].op != "none" && !isZeroTerm(v.args[1]) || v.args[2].op != "none") {
					c.bad("nothing-lost", name+" drops children", R.ev[r.children].pos, "the child list is cut down to %s", v.short())
				} else if v.op == "append" && e.isLoadOf(v.args[0], recv, r.children) {
					c.ok("nothing-lost")
				} else {
					c.und("nothing-lost", name, "the child list becomes %s", v.short())
				}
			}
		}
		c.passedOver(e, name, o, word, pos)
		// --- placement
		kinds := 0
		var node, old *Term
		hit := R.f[r.data] != nil && e.isSame(R.f[r.data], data)
		if R.f[r.data] != nil && !hit && !isZeroTerm(R.f[r.data]) && !isOrig(R.f[r.data], r.data) {
			c.und("placed-once", name, "the node's value becomes %s", R.f[r.data].short())
			continue
		}
		if R.f[r.data] != nil && isZeroTerm(R.f[r.data]) && !split {
			c.bad("nothing-lost", name+" clears value", R.ev[r.data].pos, "insertion clears the value of an existing node it does not split")
		}
		if hit {
			kinds++
			node = recv
			fl := R.f[r.flags]
			if s := bitState(fl, dataBit); fl == nil && !e.knownBit(o.st.facts, recv, r.flags, dataBit) || s < 0 {
				c.bad("placed-once", name+" hit without data flag", R.ev[r.data].pos, "the value is stored into the node without marking it as holding data")
			} else if s == 0 && fl != nil {
				c.und("placed-once", name, "flags become %s", fl.short())
			} else {
				c.ok("placed-once")
			}
			if s := bitState(fl, leafBit); fl == nil && split || s < 0 {
				c.bad("placed-once", name+" hit without leaf flag", R.ev[r.data].pos, "the value is stored into the node without making it a leaf: it cannot be found afterwards")
			}
		}
		for _, x := range fresh {
			if x == M {
				continue
			}
			d := x.f[r.data]
			if d == nil || !e.isSame(d, data) {
				if x.f[r.piece] != nil && contains(x.f[r.piece], word) {
					c.bad("placed-once", name+" leaf without value", pos, "a node is created for the key but does not get the value")
				}
				continue
			}
			kinds++
			node = x.base
			at := R.f[r.children]
			if at == nil || !contains(at, x.base) {
				c.bad("placed-once", name+" leaf not attached", pos, "the new leaf is not attached to the tree")
			} else {
				c.ok("placed-once")
			}
			if k := x.f[r.key]; k == nil || !e.isSame(k, key) {
				if k == nil || isZeroTerm(k) || k.isConst() {
					c.bad("placed-once", name+" leaf key", pos, "the new leaf does not record its full key")
				} else {
					c.und("placed-once", name, "the leaf's key is %s", k.short())
				}
			} else {
				c.ok("placed-once")
			}
			for _, b := range []int64{leafBit, dataBit} {
				if s := bitState(x.f[r.flags], b); s < 0 || x.f[r.flags] == nil {
					c.bad("placed-once", name+" leaf flags", pos, "the new leaf is not marked as a leaf holding data")
				} else {
					c.ok("placed-once")
				}
			}
			c.cutAgrees(e, name, "the new leaf's fragment", x.f[r.piece], word, cut, split, o, pos)
			// a sibling sharing the first rune must have been looked for
			if !split && !e.knownZeroOf(o.st.facts, recv, r.children) {
				looked := false
				for fa := o.st.facts; fa != nil; fa = fa.up {
					if e.mentions(fa.atom, recv, r.children) {
						looked = true
					}
				}
				allEvents(o.st.events, func(ev *Event, _ *LoopEv) {
					for _, a := range ev.args {
						if ev.kind == "call" && e.mentions(a, recv, r.children) {
							looked = true
						}
					}
				})
				if !looked {
					c.bad("placed-once", name+" leaf without looking", pos, "a leaf is appended without looking for a child that shares its beginning")
				} else {
					c.ok("placed-once")
				}
			}
		}
		for _, ev := range recs {
			kinds++
			node, old = e.ts.mk("res", "0", nil, ev.res), nil
			child := ev.args[0]
			if e.isSame(child, recv) {
				if ev.args[w.wordParam(ev.fn)] == word {
					c.und("placed-once", name, "delegates to %s", ev.name)
				} else {
					c.und("placed-once", name, "continues on the same node with %s", ev.args[w.wordParam(ev.fn)].short())
				}
			} else if !e.mentions(child, recv, r.children) && !(M != nil && contains(child, M.base)) {
				c.und("placed-once", name, "recursion into %s", child.short())
			} else {
				c.ok("placed-once")
			}
			var ka, da bool
			for _, a := range ev.args {
				ka = ka || e.isSame(a, key)
				da = da || e.isSame(a, data)
			}
			if !ka || !da {
				c.bad("placed-once", name+" recursion arguments", ev.pos, "the recursive insertion is not given the same key and value")
			} else {
				c.ok("placed-once")
			}
			if !e.isSame(child, recv) {
				c.cutAgrees(e, name, "the word handed down", ev.args[w.wordParam(ev.fn)], word, cut, split, o, ev.pos)
			}
		}
		switch {
		case kinds == 0:
			c.bad("placed-once", name+" not stored", pos, "there is a path on which the value is stored nowhere (%s)", o.st.facts)
		case kinds > 1:
			c.bad("placed-once", name+" stored twice", pos, "there is a path on which the value is stored %d times", kinds)
		default:
			c.ok("placed-once")
			w.insertResult(c, e, name, f, o, R, recv, data, hit, split, node, recs, old)
		}
		// --- callback
		if cb != nil && kinds == 1 {
			n := direct
			if passed {
				n++
			}
			isNil := e.factNil(o.st.facts, cb)
			notNil := false
			if pol, ok := o.st.facts.get(e.ts.eq(cb, e.ts.mk("nil", "", cb.typ))); ok && !pol {
				notNil = true
			}
			switch {
			case isNil:
				c.ok("cb-once")
			case n > 1:
				c.bad("cb-once", name+" repeated", pos, "one insertion runs the callback more than once (%d here)", n)
			case n == 0 && !notNil && cb != nil:
				c.bad("cb-once", name+" never", pos, "there is a path on which the callback is never run")
			case n == 0:
				c.bad("cb-once", name+" never", pos, "there is a path on which a given callback is not run")
			default:
				c.ok("cb-once")
			}
			if direct == 1 {
				allEvents(o.st.events, func(ev *Event, _ *LoopEv) {
					if ev.kind != "call" || ev.val != cb {
						return
					}
					if len(ev.args) < 3 {
						return
					}
					if !e.isSame(ev.args[0], key) {
						c.bad("cb-once", name+" callback key", ev.pos, "the callback is given %s, not the key inserted", ev.args[0].short())
					}
					if hit && !split && (isZeroTerm(ev.args[1]) || e.isSame(strip(ev.args[1]), data)) {
						c.bad("cb-once", name+" callback old value", ev.pos, "the callback is given %s as old value of an overwritten node", ev.args[1].short())
					}
					if nd := strip(ev.args[2]); node != nil && len(recs) == 0 && !e.isSame(nd, node) {
						c.bad("cb-once", name+" callback node", ev.pos, "the callback is given %s, not the node that holds the value", nd.short())
					}
				})
			}
		}
	}
}

func (w *World) insertResult(c *Ctx, e *Engine, name string, f *ssa.Function, o *Outcome, R *nodeW, recv, data *Term, hit, split bool, node *Term, recs []*Event, _ *Term) {
	r := w.roles()
	if len(o.rets) < 2 {
		return
	}
	rn, ro := strip(o.rets[0]), strip(o.rets[1])
	switch {
	case len(recs) == 1:
		if rn.op == "res" && rn.args[0] == recs[0].res && rn.aux == "0" || contains(rn, recs[0].res) {
			c.ok("old-value")
		} else if rn.isNil() {
			// dead: the recursion always returns this node type
			return
		} else {
			c.bad("old-value", name+" node", f.Pos(), "the insertion returns %s, not the node the recursion stored into", rn.short())
		}
		if contains(ro, recs[0].res) {
			c.ok("old-value")
		} else {
			c.bad("old-value", name+" old lost", f.Pos(), "the old value found deeper in the tree is not returned (%s)", ro.short())
		}
	case hit:
		if e.isSame(rn, recv) {
			c.ok("old-value")
		} else {
			c.bad("old-value", name+" node", f.Pos(), "overwriting returns %s, not the node overwritten", rn.short())
		}
		if split {
			return
		}
		switch {
		case e.isLoadOf(ro, recv, r.data):
			c.ok("old-value")
		case ro.isNil() || isZeroTerm(ro) || e.isSame(ro, data):
			c.bad("old-value", name+" old lost", f.Pos(), "overwriting returns %s instead of the previous value", ro.short())
		default:
			c.und("old-value", name, "old value is %s", ro.short())
		}
	default:
		if node != nil && e.isSame(rn, node) {
			c.ok("old-value")
		} else {
			c.bad("old-value", name+" node", f.Pos(), "creating a leaf returns %s, not the leaf", rn.short())
		}
		if ro.isNil() || isZeroTerm(ro) {
			c.ok("old-value")
		} else {
			c.bad("old-value", name+" old invented", f.Pos(), "creating a leaf returns %s as old value", ro.short())
		}
	}
}

// cutAgrees: the rest of the word is cut where the fragment was.
func (c *Ctx) cutAgrees(e *Engine, name, what string, got, word, cut *Term, split bool, o *Outcome, pos token.Pos) {
	f := func(msg string, a ...any) { c.bad("nothing-lost", name+" cut", pos, msg, a...) }
	switch {
	case got == nil:
		f("%s is not set", what)
	case got == word:
		if !split || isZeroTerm(cut) {
			c.ok("nothing-lost")
			return
		}
		// split at cut, word uncut: right only when cut is known to be 0
		for x := o.st.facts; x != nil; x = x.up {
			if !x.pol && x.atom.op == "lt" && isZeroTerm(x.atom.args[0]) && x.atom.args[1] == cut {
				c.ok("nothing-lost")
				return
			}
			if x.pol && x.atom.op == "eq" && x.atom.args[0] == cut && isZeroTerm(x.atom.args[1]) {
				c.ok("nothing-lost")
				return
			}
		}
		f("%s is the whole word although the node was split at %s", what, cut.short())
	case got.op == "slice" && got.args[0] == word && got.args[2].op == "none":
		if split && got.args[1] != cut {
			f("%s starts at %s although the node was split at %s", what, got.args[1].short(), cut.short())
			return
		}
		c.ok("nothing-lost")
	case got.op == "slice" && got.args[0] == word:
		f("%s stops at %s, short of the end of the key", what, got.args[2].short())
	default:
		c.und("nothing-lost", name, "%s is %s", what, got.short())
	}
}

func (e *Engine) knownBit(facts *Fact, base *Term, flags string, bit int64) bool {
	for x := facts; x != nil; x = x.up {
		found := false
		walkTerm(x.atom, func(t *Term) bool {
			if t.op == "bin" && t.aux == "&" && (e.isLoadOf(t.args[0], base, flags) || e.isLoadOf(t.args[1], base, flags)) {
				for _, a := range t.args {
					if v, ok := a.constInt(); ok && v&bit != 0 {
						found = true
					}
				}
			}
			return found
		})
		if found && x.atom.op == "eq" && isZeroTerm(x.atom.args[1]) && !x.pol {
			return true
		}
	}
	return false
}

// guarded: some fact other than a comparison of two numbers depends on both.
func (e *Engine) guarded(facts *Fact, a, b *Term) bool {
	for f := facts; f != nil; f = f.up {
		if f.atom.op == "lt" || f.atom.op == "eq" && len(f.atom.args) == 2 && (f.atom.args[0].op == "lin" || isZeroTerm(f.atom.args[1])) {
			continue
		}
		if contains(f.atom, a) && contains(f.atom, b) {
			return true
		}
	}
	return false
}

func (w *World) splitCheck(c *Ctx, e *Engine, name string, recv *Term, R, M *nodeW, cut *Term, leafBit, dataBit int64, data *Term, o *Outcome) {
	r := w.roles()
	pos := R.ev[r.piece].pos
	p := M.f[r.piece]
	if p.op == "slice" && e.isLoadOf(p.args[0], recv, r.piece) {
		switch {
		case p.args[2].op != "none":
			c.bad("nothing-lost", name+" remainder truncated", pos, "the part split off ends at %s, not at the end of the fragment", p.args[2].short())
		case p.args[1] != cut:
			c.bad("nothing-lost", name+" cut points differ", pos, "the fragment is cut at %s but the part split off starts at %s", cut.short(), p.args[1].short())
		default:
			c.ok("nothing-lost")
		}
	} else if isZeroTerm(cut) && e.isLoadOf(p, recv, r.piece) {
		c.ok("nothing-lost")
	} else {
		c.und("nothing-lost", name, "the part split off is %s", p.short())
	}
	// something must be split off
	if p.op == "slice" && p.args[1] == cut && p.args[2].op == "none" {
		ln := e.ts.length(p.args[0])
		if v, ok := e.decide(o.st.facts, e.ts.lt(cut, ln)); ok && v {
			c.ok("one-path")
		} else if v, ok := e.decide(o.st.facts, e.ts.eq(cut, ln)); ok && !v {
			c.ok("one-path")
		} else if e.guarded(o.st.facts, cut, ln) {
			c.und("one-path", name, "whether anything is split off")
		} else {
			c.bad("one-path", name+" splits nothing off", pos, "a node is split although the word has all of its piece: nothing would be left for the new child")
		}
	}
	for _, fl := range []string{r.key, r.children, r.data, r.desc, r.comment, r.tag, r.flags} {
		v := M.f[fl]
		switch {
		case v != nil && e.isLoadOf(v, recv, fl):
			c.ok("nothing-lost")
		case fl == r.flags && v != nil && v.op == "bin" && len(v.args) == 2 && (e.isLoadOf(v.args[0], recv, fl) && v.args[1].isConst() || e.isLoadOf(v.args[1], recv, fl) && v.args[0].isConst()):
			c.bad("nothing-lost", name+" split changes "+fl, pos, "splitting a node hands its marks down as %s", v.short())
		case v != nil && e.mentions(v, recv, fl):
			c.und("nothing-lost", name, "split moves %s as %s", fl, v.short())
		case e.knownZeroOf(o.st.facts, recv, fl):
			c.ok("nothing-lost")
		default:
			c.bad("nothing-lost", name+" split loses "+fl, pos, "splitting a node does not hand its %s to the new child", fl)
		}
	}
	ch := R.f[r.children]
	if ch == nil || !contains(ch, M.base) {
		c.bad("nothing-lost", name+" remainder detached", pos, "the part split off is not attached to the node (children: %s)", shortOf(ch))
	} else if e.mentions(ch, recv, r.children) {
		c.bad("nothing-lost", name+" children twice", pos, "after the split the children belong both to the branch and to the new child: %s", ch.short())
	} else {
		c.ok("nothing-lost")
	}
	for _, fl := range []string{r.desc, r.comment, r.tag} {
		v := R.f[fl]
		if v == nil || e.isLoadOf(v, recv, fl) {
			if e.knownZeroOf(o.st.facts, recv, fl) {
				continue
			}
			c.bad("nothing-lost", name+" split keeps "+fl, pos, "after a split the branch still carries the %s of the key that moved down", fl)
		} else if isZeroTerm(v) {
			c.ok("nothing-lost")
		} else {
			c.und("nothing-lost", name, "split sets %s to %s", fl, v.short())
		}
	}
	if v := R.f[r.data]; v == nil || e.isLoadOf(v, recv, r.data) {
		c.bad("nothing-lost", name+" split keeps value", pos, "after a split the branch still carries the value of the key that moved down")
	} else {
		c.ok("nothing-lost")
	}
	// flags right after the split: no leaf and no data unless hit
	if v := R.f[r.flags]; v == nil || e.isLoadOf(v, recv, r.flags) {
		c.bad("nothing-lost", name+" split keeps flags", pos, "after a split the branch is still marked as the leaf it was")
	} else if d := R.f[r.data]; d != nil && isZeroTerm(d) && (bitState(v, leafBit) > 0 || bitState(v, dataBit) > 0) && !e.isSame(d, data) {
		c.bad("nothing-lost", name+" branch flagged leaf", pos, "after a split the branch is marked as holding a value")
	} else {
		c.ok("nothing-lost")
	}
	// full key of the branch
	k := R.f[r.key]
	rest := p
	switch {
	case k == nil || e.isLoadOf(k, recv, r.key):
		c.bad("nothing-lost", name+" split keeps key", pos, "after a split the branch still records the full key of the key that moved down")
	case k.op == "slice" && e.isLoadOf(k.args[0], recv, r.key) && (k.args[1].op == "none" || isZeroTerm(k.args[1])):
		end := k.args[2]
		ln := e.ts.length(k.args[0])
		d := e.ts.linAdd(ln, end, -1, end.typ)
		switch {
		case d.op == "len" && d.args[0].op == "conv" && e.isSame(d.args[0].args[0], rest):
			c.ok("nothing-lost")
		case d.op == "len" && e.isSame(d.args[0], rest), end == cut, e.isRuneCount(d, recv, r.piece):
			c.bad("nothing-lost", name+" key cut in runes", pos, "the full key (bytes) is cut by a count of runes: %s", k.short())
		default:
			c.und("nothing-lost", name, "the branch's key becomes %s", k.short())
		}
	case k.op == "call" && k.fn != nil && k.fn.Name() == "TrimSuffix":
		c.ok("nothing-lost")
	default:
		c.und("nothing-lost", name, "the branch's key becomes %s", k.short())
	}
}

// isRuneCount: t is a linear combination of the fragment's rune length.
func (e *Engine) isRuneCount(t, recv *Term, piece string) bool {
	lf := e.ts.toLin(t)
	has := false
	for id, k := range lf.co {
		if k == 0 {
			continue
		}
		x := e.ts.all[id]
		if x.op == "len" && e.isLoadOf(x.args[0], recv, piece) {
			has = true
		} else if walkTerm(x, func(y *Term) bool { return y.op == "conv" }) {
			return false
		}
	}
	return has
}

func shortOf(t *Term) string {
	if t == nil {
		return "unchanged"
	}
	return t.short()
}

// writeThrough: a tree-level writer performs one insertion of its value.
func (w *World) writeThrough(c *Ctx, f *ssa.Function) {
	name := w.fname(f)
	e := w.viewEngine()
	tr := w.trieRoles()
	outs := e.Analyze(f)
	if e.over {
		c.und("write-through", name, "analysis gave up")
		return
	}
	recv := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
	var data, cb *Term
	for i := 2; i < len(f.Params); i++ {
		t := f.Params[i].Type()
		p := e.ts.mk("param", pname(f.Params[i], i), t)
		if _, ok := t.Underlying().(*types.Signature); ok {
			cb = p
		} else if data == nil {
			data = p
		}
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		var ins []*Event
		allEvents(o.st.events, func(ev *Event, l *LoopEv) {
			if ev.kind == "call" && ev.fn != nil && w.isInsertOp(ev.fn) {
				ins = append(ins, ev)
				if l != nil {
					ins = append(ins, ev)
				}
			}
		})
		if len(ins) != 1 {
			c.bad("write-through", name+" insertions", f.Pos(), "%s performs %d insertions on some path (%s)", name, len(ins), o.st.facts)
			continue
		}
		ev := ins[0]
		isRoot := e.isLoadOf(ev.args[0], recv, tr.root)
		if b, fl, ok := fieldLoad(ev.args[0]); !isRoot && ok && fl == tr.root {
			isRoot = isTrieIface(w, b)
		}
		if !isRoot {
			c.bad("write-through", name+" root", ev.pos, "%s does not insert at the tree's root but at %s", name, ev.args[0].short())
		} else {
			c.ok("write-through")
		}
		if data != nil {
			ok := false
			for _, a := range ev.args {
				ok = ok || e.isSame(a, data)
			}
			if ok {
				c.ok("write-through")
			} else {
				c.bad("write-through", name+" value", ev.pos, "%s does not insert the value it was given", name)
			}
		}
		if cb != nil && isOnSet(ev.fn, cb) {
			ok := false
			for _, a := range ev.args {
				ok = ok || e.isSame(a, cb)
			}
			direct := 0
			allEvents(o.st.events, func(x *Event, _ *LoopEv) {
				if x.kind == "call" && x.val == cb {
					direct++
				}
			})
			switch {
			case ok && direct > 0:
				c.bad("write-through", name+" callback twice", ev.pos, "%s both hands its callback to the insertion and runs it", name)
			case !ok && direct == 0 && !e.factNil(o.st.facts, cb):
				c.bad("write-through", name+" callback dropped", ev.pos, "%s never runs its callback", name)
			default:
				c.ok("write-through")
			}
		}
		node := func(t *Term) bool {
			t = strip(t)
			return t.op == "res" && t.args[0] == ev.res && t.aux == "0"
		}
		old := func(t *Term) bool {
			t = strip(t)
			return t.op == "res" && t.args[0] == ev.res && t.aux == "1"
		}
		plain := func(t *Term) bool {
			t = strip(t)
			return t.isNil() || isZeroTerm(t) || t.op == "param" || t.op == "load" || t.op == "res" && t.args[0] == ev.res
		}
		if cb != nil && !isOnSet(ev.fn, cb) {
			// the callback is run here, once, with the node and its old value
			n := 0
			allEvents(o.st.events, func(x *Event, l *LoopEv) {
				if x.kind != "call" || x.val != cb {
					return
				}
				n++
				if l != nil {
					n++
				}
				for _, a := range x.args {
					if !node(a) && !old(a) && plain(a) {
						c.bad("write-through", name+" callback", x.pos, "the callback of %s is given %s, neither the node nor its previous value", name, brief(a))
					} else {
						c.ok("write-through")
					}
				}
			})
			if n != 1 && !e.factNil(o.st.facts, cb) {
				c.bad("write-through", name+" callback", ev.pos, "%s runs its callback %d times", name, n)
			} else {
				c.ok("write-through")
			}
		}
		nres := f.Signature.Results().Len()
		if nres == 2 && len(o.rets) == nres {
			t := strip(o.rets[0])
			switch {
			case node(t):
				c.ok("write-through")
			case t.isNil() && e.isNilFact(o.st.facts, e.ts.mk("res", "0", ev.fn.Signature.Results().At(0).Type(), ev.res)):
				c.ok("write-through")
			case plain(t):
				c.bad("write-through", name+" node", f.Pos(), "%s returns %s instead of the node that holds the value", name, brief(t))
			default:
				c.und("write-through", name, "node is %s", brief(t))
			}
		}
		if nres > 0 && len(o.rets) == nres {
			last := strip(o.rets[nres-1])
			want := e.ts.mk("res", "1", nil, ev.res)
			if last.op == "res" && last.args[0] == ev.res && last.aux == "1" || last == want {
				c.ok("write-through")
			} else if last.isNil() || isZeroTerm(last) || data != nil && e.isSame(last, data) {
				c.bad("write-through", name+" old value", f.Pos(), "%s returns %s instead of the previous value", name, last.short())
			} else {
				c.und("write-through", name, "old value is %s", last.short())
			}
		}
	}
}

func isOnSet(f *ssa.Function, cb *Term) bool {
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if types.Identical(f.Signature.Params().At(i).Type(), cb.typ) {
			return true
		}
	}
	return false
}

func isErrT(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// runePair: the atom compares, as plain runes, an element of the word with an
// element of a node's piece; it returns base nodes and indices.
func (e *Engine) runePair(w *World, a, word *Term) (node, wi, pi *Term, ok bool) {
	if a.op != "eq" {
		return
	}
	r := w.roles()
	x, y := a.args[0], a.args[1]
	if isZeroTerm(y) && x.op == "lin" {
		l := e.ts.toLin(x)
		if l.c != 0 {
			return
		}
		var p, n *Term
		for id, k := range l.co {
			switch k {
			case 1:
				p = e.ts.all[id]
			case -1:
				n = e.ts.all[id]
			case 0:
			default:
				return
			}
		}
		if p == nil || n == nil {
			return
		}
		x, y = p, n
	}
	at := func(t *Term) (b, i *Term) {
		if t.op == "load" && t.args[0].op == "idxaddr" {
			return t.args[0].args[0], t.args[0].args[1]
		}
		return nil, nil
	}
	for k := 0; k < 2; k++ {
		b1, i1 := at(x)
		b2, i2 := at(y)
		if b1 != nil && b2 != nil && contains(b1, word) && !contains(b2, word) {
			if nb, fl, isF := fieldLoad(b2); isF && fl == r.piece {
				return nb, i1, i2, true
			}
		}
		x, y = y, x
	}
	return
}

// passedOver: the search for the child to go on with never skips one whose
// piece begins with the word's first rune.
func (c *Ctx) passedOver(e *Engine, name string, o *Outcome, word *Term, pos token.Pos) {
	allLoops(o.st.events, func(l *LoopEv) {
		for _, b := range l.bodies {
			seen := 0
			for f := b.facts; f != nil && f != l.entry; f = f.up {
				if _, wi, pi, ok := e.runePair(c.w, f.atom, word); ok && isZeroTerm(wi) && isZeroTerm(pi) {
					if f.pol {
						seen = 1
					} else if seen == 0 {
						seen = -1
					}
				}
			}
			switch seen {
			case 1:
				c.bad("one-path", name+" passes a child over", pos, "a child whose piece begins like the word may be passed over, so that a second one with the same beginning is added")
				return
			case -1:
				c.ok("one-path")
			}
		}
	})
}

// commonPrefix: the place where a node is split is the length of the common
// beginning of its piece and the word.
func (c *Ctx) commonPrefix(e *Engine, name string, o *Outcome, recv, word, cut *Term, pos token.Pos) {
	if cut == nil || cut.op != "loopvar" {
		return
	}
	r := c.w.roles()
	allLoops(o.st.events, func(l *LoopEv) {
		has := false
		for _, v := range l.vars {
			has = has || v == cut
		}
		if !has {
			return
		}
		same := func(f *Fact) bool {
			nb, wi, pi, ok := e.runePair(c.w, f.atom, word)
			return ok && e.isSame(nb, recv) && wi == cut && pi == cut
		}
		both := func(f *Fact) bool {
			return contains(f.atom, word) && e.mentions(f.atom, recv, r.piece) && f.atom.op != "lt"
		}
		for _, b := range l.bodies {
			eq, other := false, false
			for f := b.facts; f != nil && f != l.entry; f = f.up {
				if same(f) {
					eq = eq || f.pol
				} else if both(f) {
					other = true
				}
			}
			switch {
			case eq:
				c.ok("one-path")
			case other:
				c.bad("one-path", name+" common beginning", pos, "runes that are not equal are counted as the common beginning of the node's piece and the word")
				return
			default:
				c.und("one-path", name, "common beginning not recognised")
				return
			}
		}
		// why it stopped: a bound was reached or the runes differ
		stop := false
		for f := o.st.facts; f != nil; f = f.up {
			if !f.pol && (same(f) || f.atom.op == "lt" && contains(f.atom, cut)) || f.pol && f.atom.op == "eq" && contains(f.atom, cut) && !same(f) {
				stop = true
			}
		}
		if stop {
			c.ok("one-path")
		} else {
			c.bad("one-path", name+" common beginning", pos, "the count stops although the node's piece and the word go on alike")
		}
	})
}
