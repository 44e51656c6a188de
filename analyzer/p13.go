package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P13: walking the tree and exporting it as maps.

func init() { register("P13", p13) }

// walkers: recursive node methods that take a callback of three parameters.
func (w *World) isWalker(f *ssa.Function) bool {
	if f == nil || !isRecvOf(f, w.nodeT) || !w.scc[f] {
		return false
	}
	return w.cbParam(f) >= 0
}

func (w *World) cbParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if sg, ok := p.Type().Underlying().(*types.Signature); ok && sg.Params().Len() == 3 && sg.Results().Len() == 0 {
			return i
		}
	}
	return -1
}

// isNest: a recursive function (map[string]any, []string, any).
func (w *World) isNest(f *ssa.Function) (m, k, v int, ok bool) {
	m, k, v = -1, -1, -1
	if f == nil || !w.inWorkspace(f) || !w.scc[f] {
		return
	}
	for i, p := range f.Params {
		if i == 0 && f.Signature.Recv() != nil {
			continue
		}
		switch t := p.Type().Underlying().(type) {
		case *types.Map:
			if isStrT(t.Key()) {
				m = i
			}
		case *types.Slice:
			if isStrT(t.Elem()) {
				k = i
			}
		case *types.Interface:
			if t.NumMethods() == 0 {
				v = i
			}
		}
	}
	ok = m >= 0 && k >= 0 && v >= 0
	return
}

func p13(c *Ctx) {
	w := c.w
	c.rule("walk-all", "a walk calls back exactly once for every node of the subtree, parents before children, with the node's own key, piece and itself")
	c.rule("export-all", "a map export contains every key of the subtree that holds a value and passes the filter, once, and nothing else")
	c.rule("export-key", "the exported key is the node's full key, or that key less the view's prefix (less the exported path), cut at delimiters")
	c.rule("export-value", "the exported value is the node's own value")
	c.rule("nest", "a dotted key becomes nested maps level by level; existing levels are extended, not replaced, and no map held by the tree is written to")
	c.rule("export-from", "an export starts at the located node (the root for the whole tree) and returns exactly the map that was filled, in the asked form")
	c.rule("section", "loading a section hands the export of that very path to the copier and returns its error")
	nw := 0
	for _, f := range w.fns {
		if w.isWalker(f) && declared(f) {
			nw++
			c.walker(f)
		}
		if _, _, _, ok := w.isNest(f); ok && declared(f) && pkgOf(f) == w.radix {
			c.nest(f)
		}
	}
	if nw == 0 {
		c.und("walk-all", "node", "no recursive walk recognised")
		return
	}
	if f := w.method(w.nodeT, "Walk"); f != nil && declared(f) && !w.isWalker(f) {
		c.walkEntry(f)
	}
	if f := w.method(w.trieT, "Walk"); f != nil && declared(f) {
		c.treeWalk(f)
	}
	for _, nm := range []string{"GetM", "GetR"} {
		if f := w.method(w.trieT, nm); f != nil && declared(f) {
			c.export(f)
		}
	}
	for _, nm := range []string{"To", "GetSectionFrom"} {
		if f := w.method(w.trieT, nm); f != nil && declared(f) {
			c.section(f)
		}
	}
}

func (w *World) exportEngine() *Engine {
	e := w.viewEngine()
	old := e.opaque
	e.opaque = func(f *ssa.Function) bool { return old(f) || w.isWalker(f) }
	return e
}

func (c *Ctx) walker(f *ssa.Function) {
	w := c.w
	c.saw(f)
	name := w.fname(f)
	r := w.roles()
	e := newEngine(w)
	outs := e.Analyze(f)
	ci := w.cbParam(f)
	s := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
	cb := e.ts.mk("param", pname(f.Params[ci], ci), f.Params[ci].Type())
	for _, o := range outs {
		if o.panic {
			continue
		}
		ncb, nloop := 0, 0
		cbAt, loopAt := -1, -1
		never := e.nilState(o.st.facts, s) != 1
		for _, ev := range flatten(o.st.events) {
			if ev.kind == "call" && ev.Event.val == cb {
				never = false
			}
			for _, a := range ev.args {
				never = never && (ev.fn != nil && w.isWalker(ev.fn) || !mentionsT(a, cb))
			}
		}
		if never {
			c.bad("walk-all", name, f.Pos(), "on some path the callback is not run for a node")
			return
		}
		bad := false
		for _, ev := range flatten(o.st.events) {
			switch {
			case ev.kind == "call" && ev.Event.val == cb:
				if ev.loop != nil {
					c.bad("walk-all", name, ev.pos, "the callback runs inside the loop over the children")
					bad = true
					break
				}
				ncb++
				cbAt = ev.n
				if len(ev.args) == 3 {
					if !e.isLoadOf(ev.args[0], s, r.key) {
						if ev.args[0].op == "load" || ev.args[0].isConst() {
							c.bad("walk-all", name, ev.pos, "the callback gets %s for the node's key", brief(ev.args[0]))
						} else {
							c.und("walk-all", name, "key %s", brief(ev.args[0]))
						}
						bad = true
						break
					}
					p := unwrapPayload(ev.args[1])
					if !e.isLoadOf(p, s, r.piece) {
						if p.op == "load" || p.isConst() {
							c.bad("walk-all", name, ev.pos, "the callback gets %s for the node's piece", brief(ev.args[1]))
						} else {
							c.und("walk-all", name, "piece %s", brief(ev.args[1]))
						}
						bad = true
						break
					}
					if unwrapPayload(ev.args[2]) != s {
						c.bad("walk-all", name, ev.pos, "the callback gets %s for the node", brief(ev.args[2]))
						bad = true
						break
					}
				}
			case ev.kind == "loop" && ev.Event.loop != nil && ev.loop == nil:
				l := ev.Event.loop
				nloop++
				loopAt = ev.n
				cv := e.loopCover(l)
				if !cv.known {
					c.und("walk-all", name, "loop not recognised")
					bad = true
					break
				}
				if a := cv.slice; a.op == "loopvar" && len(a.args) == 1 && a.args[0].op == "fieldaddr" && a.args[0].aux == r.children && a.args[0].args[0] == s {
					c.und("walk-all", name, "the children are read again after each callback")
					bad = true
					break
				}
				if !e.isLoadOf(cv.slice, s, r.children) {
					c.bad("walk-all", name, f.Pos(), "the loop does not go over the node's children")
					bad = true
					break
				}
				if !cv.full {
					c.bad("walk-all", name, f.Pos(), "not every child is visited: %s", cv.why)
					bad = true
					break
				}
				for _, b := range l.bodies {
					n := 0
					for _, x := range b.events {
						if x.kind == "call" && x.fn != nil && w.isWalker(x.fn) {
							hit := false
							for _, el := range cv.at {
								hit = hit || (x.args[0].op == "load" && e.isSame(x.args[0].args[0], el))
							}
							if !hit {
								c.bad("walk-all", name, x.pos, "the walk goes on with %s instead of the child", brief(x.args[0]))
								bad = true
							} else if ci < len(x.args) && x.args[ci] != cb {
								c.bad("walk-all", name, x.pos, "another callback is used for the children")
								bad = true
							}
							n++
						}
					}
					if n == 0 && !bad {
						if e.nilChild(b.facts, cv.at) {
							continue
						}
						c.bad("walk-all", name, f.Pos(), "a child may be skipped")
						bad = true
					}
					if n > 1 && !bad {
						c.bad("walk-all", name, f.Pos(), "a child is visited %d times", n)
						bad = true
					}
				}
			}
			if bad {
				break
			}
		}
		if bad {
			return
		}
		if ncb != 1 {
			c.bad("walk-all", name, f.Pos(), "on some path the callback runs %d times for a node", ncb)
			return
		}
		if nloop == 0 {
			ok := false
			for x := o.st.facts; x != nil; x = x.up {
				if x.pol && x.atom.op == "eq" && isZeroTerm(x.atom.args[1]) && x.atom.args[0].op == "len" && e.isLoadOf(x.atom.args[0].args[0], s, r.children) {
					ok = true
				}
				if x.pol && x.atom.op == "eq" && x.atom.args[1].isNil() && e.isLoadOf(x.atom.args[0], s, r.children) {
					ok = true
				}
			}
			if !ok {
				c.bad("walk-all", name, f.Pos(), "on some path the children are not visited")
				return
			}
		}
		if nloop > 1 {
			c.und("walk-all", name, "several loops")
			return
		}
		if nloop == 1 && loopAt < cbAt {
			c.bad("walk-all", name, f.Pos(), "children come before their parent")
			return
		}
		c.ok("walk-all")
	}
}

func (e *Engine) nilChild(f *Fact, elems []*Term) bool {
	for ; f != nil; f = f.up {
		if !f.pol || f.atom.op != "eq" || !isZeroTerm(f.atom.args[1]) || f.atom.args[0].op != "load" {
			continue
		}
		for _, x := range elems {
			if e.isSame(f.atom.args[0].args[0], x) {
				return true
			}
		}
	}
	return false
}

// walkEntry: Walk hands itself and the callback to the walker.
func (c *Ctx) walkEntry(f *ssa.Function) {
	w := c.w
	c.saw(f)
	name := w.fname(f)
	e := w.exportEngine()
	s := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
	ci := w.cbParam(f)
	if ci < 0 {
		return
	}
	cb := e.ts.mk("param", pname(f.Params[ci], ci), f.Params[ci].Type())
	for _, o := range e.Analyze(f) {
		if o.panic {
			continue
		}
		n := 0
		for _, ev := range flatten(o.st.events) {
			if ev.kind == "call" && ev.fn != nil && w.isWalker(ev.fn) {
				n++
				k := w.cbParam(ev.fn)
				if ev.args[0] != s || ev.args[k] != cb {
					c.bad("walk-all", name, ev.pos, "the walk starts elsewhere or with another callback")
					return
				}
			}
		}
		if n != 1 {
			if e.nilState(o.st.facts, s) == 1 || e.nilState(o.st.facts, cb) == 1 {
				continue
			}
			c.bad("walk-all", name, f.Pos(), "the subtree is walked %d times", n)
			return
		}
		c.ok("walk-all")
	}
}

// treeWalk: walking the tree from "" starts at the root; any walk that takes
// place hands the callback on, once.
func (c *Ctx) treeWalk(f *ssa.Function) {
	w := c.w
	c.saw(f)
	name := w.fname(f)
	r := w.trieRoles()
	e := w.exportEngine()
	s := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
	ci := w.cbParam(f)
	if ci < 0 || len(f.Params) < 3 {
		return
	}
	path := e.ts.mk("param", pname(f.Params[1], 1), f.Params[1].Type())
	cb := e.ts.mk("param", pname(f.Params[ci], ci), f.Params[ci].Type())
	for _, o := range e.Analyze(f) {
		if o.panic {
			continue
		}
		n := 0
		var at *flatEv
		for _, ev := range flatten(o.st.events) {
			if ev.kind == "call" && ev.fn != nil && w.isWalker(ev.fn) {
				n++
				x := ev
				at = &x
				if ev.args[w.cbParam(ev.fn)] != cb {
					c.und("walk-all", name, "another callback")
					return
				}
			}
		}
		if n > 1 {
			c.bad("walk-all", name, f.Pos(), "the subtree is walked %d times", n)
			return
		}
		whole, known := e.decide(o.st.facts, e.ts.eq(path, e.ts.strc("")))
		if !known || !whole {
			if n == 1 {
				c.ok("walk-all")
			}
			c.subWalk(f, e, o, s, at, known)
			continue
		}
		if n == 0 {
			ok := e.nilState(o.st.facts, s) == 1 || e.nilState(o.st.facts, cb) == 1
			for x := o.st.facts; x != nil; x = x.up {
				if x.pol && x.atom.op == "eq" && isNilT(x.atom.args[1]) && e.isLoadOf(x.atom.args[0], s, r.root) {
					ok = true
				}
			}
			if !ok {
				c.bad("walk-all", name, f.Pos(), "the whole tree is asked for and not walked")
				return
			}
			c.ok("walk-all")
			continue
		}
		if !e.isLoadOf(at.args[0], s, r.root) {
			c.bad("walk-all", name, at.pos, "the whole tree is asked for and the walk starts at %s", brief(at.args[0]))
			return
		}
		c.ok("walk-all")
	}
}

// subWalk: walking from a key starts at the node located when the key ends
// with the delimiter, else at its parent, and nowhere when there is none.
func (c *Ctx) subWalk(f *ssa.Function, e *Engine, o *Outcome, s *Term, at *flatEv, given bool) {
	w := c.w
	r := w.trieRoles()
	name := w.fname(f)
	all := w.lookups(e, o)
	if len(all) == 0 {
		if given {
			c.bad("walk-all", name, f.Pos(), "a subtree is asked for and its key is not looked up")
		} else {
			c.und("walk-all", name, "no lookup")
		}
		return
	}
	l, _ := w.located(e, o)
	if l == nil {
		if at != nil {
			c.bad("walk-all", name, at.pos, "a walk starts at %s although the key was not located", brief(at.args[0]))
		} else {
			c.ok("walk-all")
		}
		return
	}
	if e.exact(o, l) != 1 {
		return
	}
	ends, seen := false, false
	for g := o.st.facts; g != nil; g = g.up {
		a := e.ts.noEpoch(g.atom)
		dl, idx := false, (*Term)(nil)
		walkTerm(a, func(y *Term) bool {
			if _, fl, k := fieldLoad(y); k && fl == r.delim {
				dl = true
			}
			if y.op == "idxaddr" && y.args[0].op == "conv" && idx == nil {
				idx = y
			}
			return false
		})
		switch {
		case dl && a.op == "call" && strings.HasPrefix(a.aux, "strings.HasSuffix"):
			ends, seen = g.pol, true
		case dl && a.op == "eq" && idx != nil:
			n := e.ts.length(idx.args[0])
			if e.ts.noEpoch(idx.args[1]) != e.ts.noEpoch(e.ts.linAdd(n, e.ts.intc(1), -1, n.typ)) {
				c.bad("walk-all", name, f.Pos(), "whether the key ends with the delimiter is judged by another rune than its last")
				return
			}
			ends, seen = g.pol, true
		}
	}
	if !seen {
		c.und("walk-all", name, "whether the key ends with the delimiter")
		return
	}
	want := l.parent
	what := "the parent of the node located"
	if ends {
		want, what = l.child, "the node located"
	}
	switch {
	case at == nil:
		if e.isNilFact(o.st.facts, want) {
			c.ok("walk-all")
		} else {
			c.bad("walk-all", name, f.Pos(), "%s is not walked", what)
		}
	case at.args[0] == want:
		c.ok("walk-all")
	case at.args[0] == l.parent || at.args[0] == l.child || e.isLoadOf(at.args[0], s, r.root):
		c.bad("walk-all", name, at.pos, "the walk starts at %s, not at %s", brief(at.args[0]), what)
	default:
		c.und("walk-all", name, "start of the walk")
	}
}

// nest: one step of putting a value under a list of keys.
func (c *Ctx) nest(f *ssa.Function) {
	w := c.w
	c.saw(f)
	name := w.fname(f)
	e := newEngine(w)
	mi, ki, vi, _ := w.isNest(f)
	par := func(i int) *Term { return e.ts.mk("param", pname(f.Params[i], i), f.Params[i].Type()) }
	m, ks, v := par(mi), par(ki), par(vi)
	isKey0 := func(t *Term) bool {
		return t != nil && t.op == "load" && t.args[0].op == "idxaddr" && t.args[0].args[0] == ks && isZeroTerm(t.args[0].args[1])
	}
	isRest := func(t *Term) bool {
		if t.op != "slice" || len(t.args) < 3 || t.args[0] != ks || t.args[2].op != "none" {
			return false
		}
		k, ok := t.args[1].constInt()
		return ok && k == 1
	}
	for _, o := range e.Analyze(f) {
		if o.panic {
			continue
		}
		if o.st.facts != nil && anyLoop(o.st.events) {
			c.und("nest", name, "loop")
			return
		}
		ln := int64(-1) // known length of keys
		notLn := map[int64]bool{}
		has, isMap := 0, 0
		for x := o.st.facts; x != nil; x = x.up {
			a := x.atom
			switch {
			case a.op == "eq" && a.args[0].op == "len" && a.args[0].args[0] == ks:
				if k, ok := a.args[1].constInt(); ok {
					if x.pol {
						ln = k
					} else {
						notLn[k] = true
					}
				}
			case a.op == "haskey" && a.args[0] == m:
				has = -1
				if x.pol {
					has = 1
				}
			case a.op == "istype" && a.args[0].op == "lookup":
				isMap = -1
				if x.pol {
					isMap = 1
				}
			}
		}
		var upd, rec []flatEv
		for _, ev := range flatten(o.st.events) {
			if ev.kind == "mapupdate" {
				upd = append(upd, ev)
			}
			if ev.kind == "call" && ev.fn != nil {
				if _, _, _, ok := w.isNest(ev.fn); ok {
					rec = append(rec, ev)
				}
			}
		}
		if v2, ok := e.decide(o.st.facts, e.ts.lt(e.ts.length(ks), e.ts.intc(2))); ok && v2 && ln < 0 && notLn[0] {
			ln = 1
		}
		switch {
		case ln == 0:
			if len(upd)+len(rec) > 0 {
				c.bad("nest", name, f.Pos(), "something is stored for no key")
				return
			}
			c.ok("nest")
		case ln == 1:
			if len(upd) != 1 || len(rec) != 0 || upd[0].addr != m || !isKey0(upd[0].key) || unwrapPayload(upd[0].Event.val) != v {
				c.bad("nest", name, f.Pos(), "the value is not stored (alone) under its last key")
				return
			}
			c.ok("nest")
		case ln > 1:
			c.und("nest", name, "special case for %d keys", ln)
		case !notLn[1]:
			c.und("nest", name, "length of the key list not recognised")
		case has == 1 && isMap == -1:
			if len(upd)+len(rec) == 0 {
				c.ok("nest") // a plain value stands where a level is needed
				continue
			}
			c.und("nest", name, "a value in the way is replaced")
		case has == 1 && isMap == 0:
			c.und("nest", name, "what stands at the key is not looked at")
		default:
			if len(rec) != 1 {
				c.bad("nest", name, f.Pos(), "the remaining keys are followed %d times", len(rec))
				return
			}
			rv := rec[0]
			rm, rk, rvv, _ := w.isNest(rv.fn)
			if !isRest(rv.args[rk]) {
				if rv.args[rk].op == "slice" || rv.args[rk] == ks {
					c.bad("nest", name, rv.pos, "the next level goes on with %s instead of the remaining keys", brief(rv.args[rk]))
				} else {
					c.und("nest", name, "keys %s", brief(rv.args[rk]))
				}
				return
			}
			if unwrapPayload(rv.args[rvv]) != v {
				c.bad("nest", name, rv.pos, "the next level gets %s instead of the value", brief(rv.args[rvv]))
				return
			}
			sub := rv.args[rm]
			stored := false
			for _, u := range upd {
				if u.addr == m && isKey0(u.key) && unwrapPayload(u.Event.val) == sub {
					stored = true
				} else {
					c.bad("nest", name, u.pos, "%s is stored under %s while another level is filled", brief(u.Event.val), brief(u.key))
					return
				}
			}
			if has == 1 {
				switch {
				case sub.op == "assert" && sub.args[0].op == "lookup":
					c.bad("nest", name, rv.pos, "an existing map is written to: it may be one held by the tree")
					return
				case sub.op == "call" && strings.Contains(sub.aux, "Clone") && len(sub.args) > 0 && sub.args[0].op == "assert":
					if !stored {
						c.bad("nest", name, rv.pos, "the extended copy of a level is not put back")
						return
					}
				case sub.op == "makemap":
					c.bad("nest", name, rv.pos, "an existing level is replaced by an empty one")
					return
				default:
					c.und("nest", name, "level %s", brief(sub))
					return
				}
				c.ok("nest")
				continue
			}
			if sub.op != "makemap" {
				c.und("nest", name, "level %s", brief(sub))
				return
			}
			if !stored {
				c.bad("nest", name, rv.pos, "a new level is filled but not put in its place")
				return
			}
			c.ok("nest")
		}
	}
}

// closureState: the state a closure sees when it is run by the call event at.
func (e *Engine) closureState(o *Outcome, at *Event) *State {
	st := e.newState()
	for k, v := range o.st.heap {
		st.heap[k] = v
	}
	for k, v := range o.st.havoced {
		st.havoced[k] = v
	}
	for k, v := range o.st.escaped {
		st.escaped[k] = v
	}
	for k, v := range o.st.allocs {
		st.allocs[k] = v
	}
	// undo the stores made after the call
	after := false
	last := map[int]*Term{}
	for _, ev := range o.st.events {
		if ev == at {
			after = true
			continue
		}
		if ev.kind != "store" {
			continue
		}
		if !after {
			last[ev.addr.id] = ev.val
		} else if v, ok := last[ev.addr.id]; ok {
			st.heap[ev.addr.id] = v
		}
	}
	return st
}

func (c *Ctx) export(f *ssa.Function) {
	w := c.w
	c.saw(f)
	name := w.fname(f)
	e := w.exportEngine()
	tr := w.trieRoles()
	outs := e.Analyze(f)
	if e.over {
		c.und("export-all", name, "analysis gave up")
		return
	}
	s := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
	path := e.ts.mk("param", pname(f.Params[1], 1), f.Params[1].Type())
	for _, o := range outs {
		if o.panic {
			continue
		}
		var wk []flatEv
		var look *Event
		for _, ev := range flatten(o.st.events) {
			if ev.kind == "call" && ev.fn != nil && w.isWalker(ev.fn) {
				wk = append(wk, ev)
			}
			if ev.kind == "call" && ev.fn != nil && w.isLookupOp(ev.fn) {
				look = ev.Event
			}
		}
		if len(wk) == 0 {
			// nothing located?
			if look == nil {
				c.bad("export-from", name, f.Pos(), "a path exports nothing without looking for the key")
				return
			}
			if e.notLocated(o.st.facts, look) {
				c.ok("export-from")
				continue
			}
			c.und("export-from", name, "a path exports nothing")
			continue
		}
		if len(wk) > 1 {
			c.bad("export-from", name, f.Pos(), "the tree is walked %d times for one export", len(wk))
			return
		}
		at := wk[0]
		start := at.args[0]
		whole := e.rootPath(o.st.facts, path)
		switch {
		case e.isLoadOf(start, s, tr.root):
			if whole != 1 {
				c.bad("export-from", name, at.pos, "the whole tree is exported although a path is given")
				return
			}
			c.ok("export-from")
		case look != nil && mentionsT(start, look.res) || look != nil && len(e.loopVarsOf([]*Term{start})) > 0:
			c.ok("export-from")
		default:
			c.und("export-from", name, "starts at %s", brief(start))
		}
		k := w.cbParam(at.fn)
		cl := unwrapPayload(at.args[k])
		if cl.op != "closure" || cl.fn == nil || len(cl.fn.Params) != 3 {
			c.und("export-all", name, "callback %s", brief(cl))
			continue
		}
		m := c.exportBody(e, f, name, o, at.Event, cl, s, path, whole == 1)
		if m == nil {
			continue
		}
		// what is returned
		ret := o.rets[0]
		for _, ev := range flatten(o.st.events) {
			if ev.loop == nil && (ev.kind == "delete" || ev.kind == "mapupdate") && ev.addr.op == "makemap" && (ev.addr == m || ev.addr == ret) {
				c.bad("export-all", name, ev.pos, "the export is changed by hand after it was filled (key %s)", brief(ev.key))
				return
			}
		}
		nest := 0
		for x := o.st.facts; x != nil; x = x.up {
			if strings.Contains(strings.ToLower(brief(x.atom)), "noflatten") {
				nest = -1
				if x.pol {
					nest = 1
				}
			}
		}
		hasOpt := f.Signature.Params().Len() > 1 && f.Signature.Variadic() && strings.Contains(types.TypeString(f.Signature.Params().At(1).Type(), nil), "MOpt")
		l, full := mapLoop(o.st.events, m)
		switch {
		case ret == m:
			if nest == 1 || hasOpt && nest == 0 {
				c.bad("export-from", name, f.Pos(), "the keys stay flat although nesting was asked for")
				return
			}
			c.ok("export-from")
		case l != nil && ret.op == "makemap":
			if nest == -1 || !hasOpt {
				c.bad("export-from", name, f.Pos(), "the keys are nested although it was not asked for")
				return
			}
			c.renest(e, f, name, o, l, full, m, ret, s)
		case isNilT(ret):
			c.bad("export-from", name, f.Pos(), "the filled map is not returned")
			return
		default:
			c.und("export-from", name, "returns %s", brief(ret))
		}
	}
}

// rootPath: does the path know that the whole tree is asked for? 1 yes, -1 no.
func (e *Engine) rootPath(facts *Fact, path *Term) int {
	for f := facts; f != nil; f = f.up {
		if f.atom.op == "eq" && f.pol {
			a := f.atom.args[0]
			if a.op == "len" {
				a = a.args[0]
			}
			if a == path && f.atom.args[1].isConst() {
				return 1
			}
		}
	}
	return -1
}

// notLocated: the path knows the lookup found no usable node.
func (e *Engine) notLocated(facts *Fact, look *Event) bool {
	n := e.resOf(look, 0)
	for f := facts; f != nil; f = f.up {
		if mentionsT(f.atom, look.res) || f.atom == n {
			return true
		}
		if walkTerm(f.atom, func(x *Term) bool { return x.op == "loopvar" }) {
			return true
		}
	}
	return false
}

// renest: every entry of the flat map goes to the nested one.
func (c *Ctx) renest(e *Engine, f *ssa.Function, name string, o *Outcome, l *LoopEv, full bool, m, out, s *Term) {
	w := c.w
	tr := w.trieRoles()
	if !full {
		c.bad("nest", name, f.Pos(), "the loop that nests the keys may end before the last entry")
		return
	}
	isDelim := func(t *Term) bool {
		t = unwrapPayload(t)
		_, fl, ok := fieldLoad(t)
		return ok && fl == tr.delim
	}
	for i := range l.bodies {
		b := &l.bodies[i]
		n := 0
		contains := 0
		for x := b.facts; x != nil; x = x.up {
			if x.atom.op == "call" && strings.Contains(x.atom.aux, "Contains") && len(x.atom.args) == 2 && x.atom.args[0].op == "rangekey" {
				if !isDelim(x.atom.args[1]) {
					c.bad("nest", name, f.Pos(), "keys are nested at %s instead of the tree's delimiter", brief(x.atom.args[1]))
					return
				}
				contains = -1
				if x.pol {
					contains = 1
				}
			}
		}
		for _, ev := range b.events {
			switch {
			case ev.kind == "mapupdate" && ev.addr == out:
				n++
				if ev.key.op != "rangekey" || unwrapPayload(ev.val).op != "rangeval" {
					c.bad("nest", name, ev.pos, "an entry of the flat map is kept as %s = %s", brief(ev.key), brief(ev.val))
					return
				}
				if contains == 0 {
					contains = e.keptFlat(b.facts, l.entry)
				}
				switch contains {
				case 1:
					c.bad("nest", name, ev.pos, "a dotted key is kept flat")
					return
				case 2:
					c.und("nest", name, "when a key is kept flat is not recognised")
					return
				}
			case ev.kind == "call" && ev.fn != nil:
				mi, ki, vi, ok := w.isNest(ev.fn)
				if !ok {
					continue
				}
				n++
				if ev.args[mi] != out || unwrapPayload(ev.args[vi]).op != "rangeval" {
					c.bad("nest", name, ev.pos, "an entry of the flat map is nested with %s", brief(ev.args[vi]))
					return
				}
				ks := ev.args[ki]
				if src, sep, all, ok := splitOf(ks); ok && src.op == "rangekey" {
					if !all {
						c.bad("nest", name, ev.pos, "a key is not split at all of its delimiters")
						return
					}
					if !isDelim(sep) {
						c.bad("nest", name, ev.pos, "keys are split at %s instead of the tree's delimiter", brief(sep))
						return
					}
				} else if ks.op == "call" && strings.HasPrefix(ks.aux, "strings.Fields") && len(ks.args) > 0 && ks.args[0].op == "rangekey" {
					c.bad("nest", name, ev.pos, "empty pieces of a key are lost when it is split")
					return
				} else {
					c.und("nest", name, "keys %s", brief(ks))
					return
				}
			}
		}
		if n != 1 {
			c.bad("nest", name, f.Pos(), "an entry of the flat map is taken over %d times", n)
			return
		}
	}
	c.ok("nest")
}

// keptFlat: what the path knows about delimiters in the key: -1 there are
// none, 1 there may be some, 2 not understood.
func (e *Engine) keptFlat(facts, upto *Fact) int {
	res := 1
	for x := facts; x != nil && x != upto; x = x.up {
		walkTerm(x.atom, func(t *Term) bool {
			if t.op == "call" && len(t.args) > 0 && t.args[0].op == "rangekey" {
				switch {
				case strings.Contains(t.aux, "strings.Index"), strings.Contains(t.aux, "strings.LastIndex"):
					if v, ok := e.decide(facts, e.ts.lt(t, e.ts.intc(0))); ok && v {
						res = -1
					} else if v, ok := e.decide(facts, e.ts.eq(t, e.ts.intc(-1))); ok && v {
						res = -1
					}
				case strings.Contains(t.aux, "strings.Split"):
					if v, ok := e.decide(facts, e.ts.lt(e.ts.intc(1), e.ts.length(t))); ok && !v {
						res = -1
					} else if v, ok := e.decide(facts, e.ts.eq(e.ts.length(t), e.ts.intc(1))); ok && v {
						res = -1
					} else if v, ok := e.decide(facts, e.ts.lt(e.ts.length(t), e.ts.intc(2))); ok && v {
						res = -1
					}
				case strings.Contains(t.aux, "strings.Count"):
					if v, ok := e.decide(facts, e.ts.eq(t, e.ts.intc(0))); ok && v {
						res = -1
					} else if v, ok := e.decide(facts, e.ts.lt(e.ts.intc(0), t)); ok && !v {
						res = -1
					}
				default:
					if res == 1 {
						res = 2
					}
				}
			}
			return false
		})
	}
	return res
}

// exportBody checks the callback of an export; it returns the map that is
// filled, or nil when that was not recognised.
func (c *Ctx) exportBody(e *Engine, f *ssa.Function, name string, o *Outcome, at *Event, cl, s, expPath *Term, whole bool) *Term {
	w := c.w
	r := w.roles()
	tr := w.trieRoles()
	g := cl.fn
	par := func(i int, n string, t types.Type) *Term { return e.ts.mk("param", n, t) }
	kp := par(0, "nodekey", g.Params[0].Type())
	fr := par(1, "piece", g.Params[1].Type())
	nd := par(2, "visited", types.NewPointer(w.nodeT))
	// the branch test, as this engine writes it
	branch := map[*Term]bool{}
	if ib := w.method(w.nodeT, "IsBranch"); ib != nil {
		for _, x := range e.AnalyzeWith(ib, []*Term{nd}, nil) {
			if !x.panic {
				a, pol := atomOf(e.ts.noEpoch(x.rets[0]))
				branch[a] = pol
			}
		}
	}
	var filled *Term
	nd2 := e.ts.mk("iface", "", nd.typ, nd)
	_ = nd2
	sub := e.AnalyzeFrom(g, []*Term{kp, fr, nd}, cl.args, e.closureState(o, at))
	for _, x := range sub {
		if x.panic {
			continue
		}
		isBr, ends, filt, cut, keep, short := 0, 0, 0, 0, 0, 0
		filtNil := false
		for fc := x.st.facts; fc != nil && fc != o.st.facts; fc = fc.up {
			a := e.ts.noEpoch(fc.atom)
			set := func(v *int, pol bool) {
				*v = -1
				if pol {
					*v = 1
				}
			}
			if bp, ok := branch[a]; ok {
				set(&isBr, fc.pol == bp)
				continue
			}
			low := strings.ToLower(brief(fc.atom))
			switch {
			case a.op == "call" && a.fn == nil && len(a.args) > 0 && unwrapPayload(a.args[len(a.args)-1]) == nd:
				set(&filt, fc.pol)
			case a.op == "res" && a.aux == "1" && strings.Contains(a.args[0].aux, "strings.CutPrefix"):
				set(&cut, fc.pol)
			case a.op == "call" && strings.HasSuffix(a.aux, "strings.HasPrefix"):
				set(&cut, fc.pol)
			case a.op == "call" && strings.HasSuffix(a.aux, "strings.HasSuffix"):
				set(&ends, fc.pol)
			case a.op == "eq" && mentionsT(a, kp) && strings.Contains(brief(a), tr.delim):
				set(&ends, fc.pol)
			case a.op == "eq" && a.args[1].isNil() && strings.Contains(low, "filter"):
				filtNil = fc.pol
			case strings.Contains(low, "keepprefix") && a.op != "eq":
				set(&keep, fc.pol)
			case a.op == "lt" && strings.Contains(low, "split") && strings.Contains(low, "prefix"):
				// lengths of the key and the exported path
				if lenOfSplit(a.args[0]) && !lenOfSplit(a.args[1]) {
					set(&short, fc.pol)
				}
			}
		}
		var puts []flatEv
		for _, ev := range flatten(x.st.events) {
			if ev.kind == "mapupdate" {
				puts = append(puts, ev)
			}
			if ev.kind == "call" && ev.fn != nil {
				if _, _, _, ok := w.isNest(ev.fn); ok {
					puts = append(puts, ev)
				}
			}
		}
		if len(puts) == 0 {
			if isBr == 1 || ends == 1 || filt == -1 || cut == -1 {
				c.ok("export-all")
				continue
			}
			c.bad("export-all", name, g.Pos(), "a key that holds a value and passes the filter may be left out of the export")
			return nil
		}
		if len(puts) > 1 {
			c.bad("export-all", name, g.Pos(), "a key is put into the export %d times", len(puts))
			return nil
		}
		switch {
		case isBr == 1, isBr == 0:
			c.bad("export-all", name, puts[0].pos, "a branch is exported like a key with a value")
			return nil
		case filt == -1:
			c.bad("export-all", name, puts[0].pos, "a key the filter rejects is exported")
			return nil
		case filt == 0 && !filtNil && hasFilter(f):
			c.bad("export-all", name, puts[0].pos, "the filter is not asked")
			return nil
		}
		c.ok("export-all")
		put := puts[0]
		var m, v *Term
		if put.kind == "mapupdate" {
			m, v = put.addr, put.Event.val
			k := put.key
			switch {
			case k == kp:
				if hasFilter(f) && keep != 1 && !e.knownZeroOf(x.st.facts, s, tr.prefix) && !e.knownZeroOf(o.st.facts, s, tr.prefix) {
					c.bad("export-key", name, put.pos, "the key keeps the view's prefix although that was not asked for")
					return nil
				}
				c.ok("export-key")
			case k.op == "res" && k.aux == "0" && strings.Contains(k.args[0].aux, "strings.CutPrefix") && k.args[0].args[0] == kp:
				if keep == 1 {
					c.bad("export-key", name, put.pos, "the view's prefix is cut off although it was to be kept")
					return nil
				}
				if cut != 1 {
					c.bad("export-key", name, put.pos, "a key outside the view is exported")
					return nil
				}
				c.lead(e, f, name, o, at, k.args[0].args[1], s, put)
			case k == fr, mentionsT(k, fr):
				c.bad("export-key", name, put.pos, "the key is only the node's piece")
				return nil
			case k.op == "slice" && k.args[0] == kp && k.args[2].op == "none" && !k.args[1].isConst():
				// the rest after the length of what the key was found to begin with
				if keep == 1 {
					c.bad("export-key", name, put.pos, "the view's prefix is cut off although it was to be kept")
					return nil
				}
				if cut != 1 {
					c.bad("export-key", name, put.pos, "a key outside the view is exported")
					return nil
				}
				if k.args[1].op == "len" {
					c.lead(e, f, name, o, at, k.args[1].args[0], s, put)
				} else {
					c.und("export-key", name, "key %s", brief(k))
				}
			case k.op == "slice" || k.isConst():
				c.bad("export-key", name, put.pos, "the key becomes %s", brief(k))
				return nil
			case changesText(k):
				c.bad("export-key", name, put.pos, "the key becomes %s", brief(k))
				return nil
			default:
				c.und("export-key", name, "key %s", brief(k))
			}
		} else {
			mi, ki, vi, _ := w.isNest(put.fn)
			m, v = put.args[mi], put.args[vi]
			c.nestKey(e, f, name, o, at, put, put.args[ki], kp, fr, s, expPath, keep, short, x.st.facts)
		}
		v = unwrapPayload(v)
		if !e.isLoadOf(v, nd, r.data) {
			if v.op == "load" || v.isConst() || v.isNil() || v.op == "param" {
				c.bad("export-value", name, put.pos, "the exported value is %s", brief(v))
			} else {
				c.und("export-value", name, "value %s", brief(v))
			}
			return nil
		}
		c.ok("export-value")
		if filled != nil && filled != m {
			c.und("export-from", name, "several maps")
			return nil
		}
		filled = m
	}
	return filled
}

func lenOfSplit(t *Term) bool {
	return t.op == "len" && t.args[0].op == "call" && strings.Contains(t.args[0].aux, "strings.Split")
}

func hasFilter(f *ssa.Function) bool {
	n := f.Signature.Params().Len()
	return n > 1 && strings.Contains(types.TypeString(f.Signature.Params().At(n-1).Type(), nil), "MOpt")
}

// lead: what is cut off the keys of a whole export is the prefix and a
// delimiter, or nothing without a prefix.
func (c *Ctx) lead(e *Engine, f *ssa.Function, name string, o *Outcome, at *Event, lead, s *Term, put flatEv) {
	tr := c.w.trieRoles()
	for _, j := range e.jpaths(lead) {
		switch {
		case len(j.parts) == 0:
			if !e.knownZeroOf(o.st.facts, s, tr.prefix) {
				c.bad("export-key", name, put.pos, "the view's prefix is not cut off")
				return
			}
			c.ok("export-key")
		case len(j.parts) == 2 && j.parts[0].t != nil && e.isLoadOf(j.parts[0].t, s, tr.prefix) && j.parts[1].delim:
			if e.knownZeroOf(o.st.facts, s, tr.prefix) {
				c.bad("export-key", name, put.pos, "without a prefix a leading delimiter is asked for")
				return
			}
			c.ok("export-key")
		case !j.known:
			c.und("export-key", name, "what is cut off: %s", brief(lead))
			return
		default:
			c.bad("export-key", name, put.pos, "what is cut off the key is %s, not the prefix and a delimiter", e.showParts(j))
			return
		}
	}
}

// splitOf: t is strings.Split(src, sep), or strings.SplitN with some limit (all
// tells whether it takes everything apart).
func splitOf(t *Term) (src, sep *Term, all, ok bool) {
	if t.op != "call" || len(t.args) < 2 {
		return
	}
	switch {
	case strings.HasSuffix(t.aux, "strings.Split"):
		return t.args[0], t.args[1], true, true
	case strings.HasSuffix(t.aux, "strings.SplitN") && len(t.args) == 3:
		if n, isC := t.args[2].constInt(); isC {
			return t.args[0], t.args[1], n < 0, true
		}
	}
	return
}

// changesText: t is a string put through something that may alter its letters.
func changesText(t *Term) bool {
	if t.op != "call" {
		return false
	}
	for _, n := range []string{"strings.ToLower", "strings.ToUpper", "strings.ToTitle", "strings.Title", "strings.TrimSpace", "strings.ReplaceAll", "strings.Replace", "strings.Map", "strconv.Quote", "path.Clean", "path.Base", "filepath.Base"} {
		if strings.HasSuffix(t.aux, n) {
			return true
		}
	}
	return false
}

// nestKey: the list of keys is the node's key split at the delimiter, less the
// exported path.
func (c *Ctx) nestKey(e *Engine, f *ssa.Function, name string, o *Outcome, at *Event, put flatEv, ks, kp, fr, s, expPath *Term, keep, short int, facts *Fact) {
	tr := c.w.trieRoles()
	base := ks
	var lo *Term
	if ks.op == "slice" && len(ks.args) >= 3 {
		base, lo = ks.args[0], ks.args[1]
		if ks.args[2].op != "none" {
			c.bad("export-key", name, put.pos, "the last levels of the key are dropped")
			return
		}
	}
	src, dl, all, ok := splitOf(base)
	if !ok {
		c.und("export-key", name, "keys %s", brief(ks))
		return
	}
	if !all {
		c.bad("export-key", name, put.pos, "the key is not split at all of its delimiters")
		return
	}
	for _, j := range e.jpaths(dl) {
		if !j.known {
			c.und("export-key", name, "split at %s", brief(dl))
			return
		}
		if len(j.parts) != 1 || !j.parts[0].delim {
			c.bad("export-key", name, put.pos, "the key is split at %s, not at the tree's delimiter", brief(dl))
			return
		}
	}
	if src != kp {
		switch {
		case mentionsT(src, fr):
			c.bad("export-key", name, put.pos, "the key is only the node's piece")
		case src.op == "slice":
			c.bad("export-key", name, put.pos, "the key is cut by character counts (%s) before it is split", brief(src))
		default:
			c.und("export-key", name, "key %s", brief(src))
		}
		return
	}
	if lo == nil {
		// the whole key: only when the prefix is to be kept (or the key is shorter than the path)
		if keep == 1 || short == 1 {
			c.ok("export-key")
			return
		}
		c.bad("export-key", name, put.pos, "the exported path is not cut off the key")
		return
	}
	if keep == 1 {
		c.bad("export-key", name, put.pos, "the path is cut off although it was to be kept")
		return
	}
	// lo: the number of levels of the exported path, one less at the path itself
	l := e.ts.toLin(lo)
	var lenT *Term
	if len(l.co) == 1 {
		for id, k := range l.co {
			if k == 1 {
				lenT = e.ts.all[id]
			}
		}
	}
	if lenT == nil || lenT.op != "len" {
		if lo.isConst() {
			c.bad("export-key", name, put.pos, "a fixed number of levels is cut off the key")
		} else {
			c.und("export-key", name, "levels %s", brief(lo))
		}
		return
	}
	rest := e.ts.linAdd(e.ts.length(base), lenT, -1, types.Typ[types.Int])
	pos, kn := e.decide(facts, e.ts.lt(e.ts.intc(0), rest))
	if !kn {
		if v, ok := e.decide(facts, e.ts.eq(rest, e.ts.intc(0))); ok {
			kn, pos = true, !v
		}
	}
	if !kn {
		for _, t := range []*Term{e.ts.lt(lenT, e.ts.length(base)), e.ts.not(e.ts.lt(e.ts.length(base), e.ts.linAdd(lenT, e.ts.intc(1), 1, types.Typ[types.Int])))} {
			if v, ok := e.decide(facts, t); ok {
				kn, pos = true, v
				break
			}
		}
	}
	switch l.c {
	case 0:
		if !kn || !pos {
			c.bad("export-key", name, put.pos, "at the path itself no level of the key is left")
			return
		}
	case -1:
		if !kn || pos {
			c.bad("export-key", name, put.pos, "the last level of the path stays in the key")
			return
		}
	default:
		c.bad("export-key", name, put.pos, "%d levels too many or too few are cut off the key", l.c)
		return
	}
	// the list whose length is taken is the exported path itself
	for _, p := range e.expand(lenT.args[0]) {
		if p.op == "call" && strings.HasSuffix(p.aux, "strings.Split") {
			x := p.args[0]
			if x.op == "call" && strings.Contains(x.aux, "strings.Trim") {
				x = x.args[0]
			}
			for _, j := range e.jpaths(x) {
				n := 0
				for _, q := range j.parts {
					if q.t == expPath || q.t != nil && e.isLoadOf(q.t, s, tr.prefix) {
						n++
					}
				}
				if n != 2 && j.known && !(n == 1 && e.knownZeroOf(o.st.facts, s, tr.prefix)) {
					c.bad("export-key", name, put.pos, "the levels cut off are those of %s, not of prefix and path", e.showParts(j))
					return
				}
			}
		} else if p.isNil() {
			continue
		}
	}
	c.ok("export-key")
}

// section: To.
func (c *Ctx) section(f *ssa.Function) {
	w := c.w
	c.saw(f)
	name := w.fname(f)
	e := w.exportEngine()
	old := e.opaque
	e.opaque = func(g *ssa.Function) bool {
		return old(g) || isRecvOf(g, w.trieT) && (g.Name() == "GetM" || g.Name() == "GetR")
	}
	if len(f.Params) < 3 {
		return
	}
	par := func(i int) *Term { return e.ts.mk("param", pname(f.Params[i], i), f.Params[i].Type()) }
	s, path, holder := par(0), par(1), par(2)
	for _, o := range e.Analyze(f) {
		if o.panic {
			continue
		}
		var exps []*Event
		var cp *Event
		for _, ev := range flatten(o.st.events) {
			if ev.kind == "call" && ev.fn != nil && isRecvOf(ev.fn, w.trieT) && (ev.fn.Name() == "GetM" || ev.fn.Name() == "GetR") {
				exps = append(exps, ev.Event)
			}
			if ev.kind == "call" && (strings.HasSuffix(ev.name, "CopyTo") || strings.HasSuffix(ev.name, ".Copy")) {
				cp = ev.Event
			}
		}
		if len(exps) == 0 {
			if e.nilState(o.st.facts, holder) == 1 {
				c.ok("section")
				continue
			}
			c.bad("section", name, f.Pos(), "nothing is read for a given holder")
			return
		}
		bad := false
		for _, x := range exps {
			if x.args[0] != s || x.args[1] != path {
				c.bad("section", name, x.pos, "the export is taken from %s, not from the given path", brief(x.args[1]))
				bad = true
			}
			if len(x.args) > 2 && x.fn.Name() == "GetM" && len(f.Params) > 3 && !bad {
				opts := par(3)
				if isNilT(x.args[2]) || isZeroTerm(x.args[2]) {
					c.bad("section", name, x.pos, "the options of the export are dropped")
					bad = true
				} else if x.args[2] != opts && !mentionsT(x.args[2], opts) {
					c.und("section", name, "options %s", brief(x.args[2]))
				}
			}
		}
		if bad {
			return
		}
		last := exps[len(exps)-1]
		ret := o.rets[len(o.rets)-1]
		m, xe := e.resOf(last, 0), e.resOf(last, 1)
		if cp == nil {
			if e.nilState(o.st.facts, xe) == -1 && ret != xe && !mentionsT(ret, xe) && isNilT(ret) {
				c.bad("section", name, f.Pos(), "the error of the export is dropped")
				return
			}
			if e.nilState(o.st.facts, xe) == 1 && e.nilState(o.st.facts, m) == -1 {
				c.bad("section", name, f.Pos(), "an export is not copied into the holder")
				return
			}
			c.ok("section")
			continue
		}
		// the holder and the map
		h, src := false, false
		for _, a := range cp.args {
			if unwrapPayload(a) == holder {
				h = true
			}
			x := unwrapPayload(a)
			if x == m {
				src = true
				if last.fn.Name() == "GetM" && len(last.args) > 2 && len(f.Params) > 3 && last.args[2] == par(3) {
					c.bad("section", name, cp.pos, "the copier gets the export with its keys flat")
					return
				}
			}
			if x.op == "makemap" {
				if l, full := mapLoop(o.st.events, m); l != nil {
					src = true
					if !full {
						c.bad("section", name, f.Pos(), "not every entry of the export is taken over")
						return
					}
					c.renest(e, f, name, o, l, full, m, x, s)
				}
			}
		}
		if !h || !src {
			c.bad("section", name, cp.pos, "the copier does not get the export and the holder")
			return
		}
		if ret != cp.res && !mentionsT(ret, cp.res) {
			c.bad("section", name, f.Pos(), "the error of the copier is dropped")
			return
		}
		c.ok("section")
	}
}
