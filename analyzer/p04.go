package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P04", p04) }

// joinLike: a workspace function that concatenates string arguments with the
// delimiter: its last parameter is ...string and it returns one string.
func (w *World) joinLike(f *ssa.Function) bool {
	if f == nil || !w.inWorkspace(f) {
		return false
	}
	sg := f.Signature
	if !sg.Variadic() || sg.Results().Len() != 1 || !isStrT(sg.Results().At(0).Type()) {
		return false
	}
	if sg.Recv() == nil || !(isRecvOf(f, w.trieT) || isRecvOf(f, w.storeT)) {
		return false
	}
	n := sg.Params().Len()
	for i := 0; i < n-1; i++ {
		if !isStrT(sg.Params().At(i).Type()) {
			return false
		}
	}
	sl, ok := sg.Params().At(n - 1).Type().Underlying().(*types.Slice)
	return ok && isStrT(sl.Elem()) && !w.reachesLookup(f)
}

// reachesLookup: the function may look a key up (static calls and calls of
// the tree's interface).
func (w *World) reachesLookup(f *ssa.Function) bool {
	if w.lookupReach == nil {
		w.lookupReach = map[*ssa.Function]bool{}
	}
	if v, ok := w.lookupReach[f]; ok {
		return v
	}
	seen := map[*ssa.Function]bool{}
	var rec func(g *ssa.Function) bool
	rec = func(g *ssa.Function) bool {
		if g == nil || seen[g] || !w.inWorkspace(g) {
			return false
		}
		seen[g] = true
		if w.isLookupOp(g) {
			return true
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, h := range w.callees(ci) {
						if rec(h) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	v := rec(f)
	w.lookupReach[f] = v
	return v
}

// skel is the list of source strings a path expression is made of, in order.
// known is false when some part is not understood.
type skel struct {
	parts []*Term
	known bool
}

// skeleton decomposes a string (or rune/byte slice) term. Each returned skel
// is one possibility (loop values may have several).
func (e *Engine) skeletons(t *Term) []skel {
	var rec func(t *Term, d int, busy map[int]bool) []skel
	cat := func(a, b []skel) (out []skel) {
		for _, x := range a {
			for _, y := range b {
				p := append(append([]*Term{}, x.parts...), y.parts...)
				out = append(out, skel{p, x.known && y.known})
				if len(out) > 64 {
					return
				}
			}
		}
		return
	}
	unit := func() []skel { return []skel{{nil, true}} }
	rec = func(t *Term, d int, busy map[int]bool) []skel {
		if d > 60 {
			return []skel{{[]*Term{t}, false}}
		}
		if s, ok := t.constStr(); ok && s == "" {
			return unit()
		}
		switch t.op {
		case "nil":
			return unit()
		case "conv", "chtype", "iface", "index":
			return rec(t.args[0], d+1, busy)
		case "slice":
			return rec(t.args[0], d+1, busy)
		case "concat", "vec":
			out := unit()
			for _, a := range t.args {
				out = cat(out, rec(a, d+1, busy))
			}
			return out
		case "append":
			out := rec(t.args[0], d+1, busy)
			for _, a := range t.args[1:] {
				if a.op == "spread" {
					a = a.args[0]
				}
				out = cat(out, rec(a, d+1, busy))
			}
			return out
		case "loopvar":
			if busy[t.id] {
				return nil
			}
			busy[t.id] = true
			var out []skel
			ins := e.loopIn[t.id]
			for _, x := range ins {
				out = append(out, rec(x, d+1, busy)...)
			}
			delete(busy, t.id)
			if len(ins) == 0 {
				return []skel{{[]*Term{t}, true}}
			}
			return out
		case "call":
			if t.fn != nil {
				if e.w.joinLike(t.fn) {
					out := unit()
					i := 0
					if t.fn.Signature.Recv() != nil {
						i = 1
					}
					for _, a := range t.args[i:] {
						out = cat(out, rec(a, d+1, busy))
					}
					return out
				}
				if p := pkgOf(t.fn); p != nil && p.Path() == "strings" && len(t.args) > 0 {
					switch t.fn.Name() {
					case "Join":
						// parts cut out of one string and put together again
						src := t.args[0]
						var base *Term
						walkTerm(src, func(x *Term) bool {
							if x.op == "call" && x.fn != nil && strings.HasPrefix(x.fn.Name(), "Split") && len(x.args) > 0 {
								base = x.args[0]
								return true
							}
							return false
						})
						if base != nil {
							return rec(base, d+1, busy)
						}
						return rec(src, d+1, busy)
					case "ReplaceAll", "Replace", "TrimSuffix", "TrimPrefix", "Trim", "TrimRight", "TrimLeft", "ToLower", "ToUpper", "TrimSpace", "Clone":
						return rec(t.args[0], d+1, busy)
					}
				}
			}
			return []skel{{[]*Term{t}, true}}
		}
		return []skel{{[]*Term{t}, true}}
	}
	return rec(t, 0, map[int]bool{})
}

// altered: the part of a word where a key loses or changes letters on the way
// (blanks that become dashes when a key is set are as documented; what upward
// search cuts out is judged elsewhere).
func (e *Engine) altered(t *Term) *Term {
	switch t.op {
	case "conv", "chtype", "iface":
		return e.altered(t.args[0])
	case "slice":
		if sl, ok := derefT(t.args[0].typ).Underlying().(*types.Slice); ok && isStrT(sl.Elem()) {
			return nil
		}
		lo, hi := t.args[1], t.args[2]
		if lo.op != "none" && !isZeroTerm(lo) || hi.op != "none" {
			return t
		}
		return e.altered(t.args[0])
	case "concat", "vec":
		for _, a := range t.args {
			if x := e.altered(a); x != nil {
				return x
			}
		}
	case "call":
		if t.fn == nil {
			return nil
		}
		if e.w.joinLike(t.fn) {
			for _, a := range t.args {
				if x := e.altered(a); x != nil {
					return x
				}
			}
			return nil
		}
		if p := pkgOf(t.fn); p != nil && p.Path() == "strings" && len(t.args) > 0 {
			switch t.fn.Name() {
			case "ReplaceAll":
				a, _ := t.args[1].constStr()
				b, _ := t.args[2].constStr()
				if a == " " && b == "-" {
					return e.altered(t.args[0])
				}
				return t
			case "Replace", "TrimSuffix", "TrimPrefix", "Trim", "TrimRight", "TrimLeft", "TrimFunc", "ToLower", "ToUpper", "TrimSpace", "Title", "Map":
				return t
			case "Clone":
				return e.altered(t.args[0])
			}
		}
	}
	return nil
}

// viewEngine: join functions and node-level word operations are primitive.
func (w *World) viewEngine() *Engine {
	e := newEngine(w)
	e.opaque = func(f *ssa.Function) bool { return w.isLookupOp(f) || w.isInsertOp(f) || w.joinLike(f) }
	return e
}

// pathOps: exported methods whose first parameter is a key path.
func (w *World) pathOps(n *types.Named) (out []*ssa.Function) {
	for _, f := range w.exportedMethods(n) {
		sg := f.Signature
		if sg.Params().Len() == 0 || !isStrT(sg.Params().At(0).Type()) {
			continue
		}
		if sg.Variadic() && sg.Params().Len() == 1 {
			continue
		}
		out = append(out, f)
	}
	return
}

func p04(c *Ctx) {
	w := c.w
	c.rule("prefix-once", "every word handed to a node-level lookup or insertion by an operation that takes a key path is made of the view's prefix exactly once, before the key path (or the prefix is known to be empty on that path)")
	c.rule("key-agrees", "the full path recorded as a node's key is the very word inserted")
	c.rule("view-prefix", "WithPrefix appends its argument to the current prefix, WithPrefixReplaced and SetPrefix use the argument alone")
	c.rule("full-key", "where the code looks up a node's own full key again, the view used has no prefix")
	c.rule("merge-at", "a merge hands the recursive loader the prefix and merge point, once each")
	tr := w.trieRoles()
	emb := w.storeTrie()
	type subj struct {
		f     *ssa.Function
		store bool
	}
	var subs []subj
	for _, f := range w.pathOps(w.trieT) {
		subs = append(subs, subj{f, false})
	}
	for _, f := range w.pathOps(w.storeT) {
		subs = append(subs, subj{f, true})
	}
	for _, s := range subs {
		f := s.f
		e := w.viewEngine()
		outs := e.Analyze(f)
		if e.over {
			c.und("prefix-once", w.fname(f), "analysis gave up")
			continue
		}
		p0 := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
		base := p0
		if s.store {
			base = e.ts.noEpoch(e.finalField(&Outcome{st: e.newState()}, p0, w.storeT, emb))
		}
		path := e.ts.mk("param", pname(f.Params[1], 1), f.Params[1].Type())
		n := 0
		for _, o := range outs {
			allEvents(o.st.events, func(ev *Event, _ *LoopEv) {
				if ev.kind != "call" || ev.fn == nil {
					return
				}
				switch {
				case w.isNodeOp(ev.fn) && (w.isLookupOp(ev.fn) || w.isInsertOp(ev.fn)):
					wi := w.wordParam(ev.fn)
					if wi >= len(ev.args) {
						return
					}
					n++
					c.prefixWord("prefix-once", e, f, ev, ev.args[wi], base, tr.prefix, path)
					c.keyAgrees(e, f, ev, wi)
				case w.mergeLike(ev.fn):
					n++
					c.mergeAt(e, f, o, ev, base, tr, path)
				}
			})
		}
		if n > 0 {
			c.saw(f)
		}
	}
	// views
	for _, v := range []struct {
		n    *types.Named
		name string
		want int
	}{{w.trieT, "WithPrefix", 1}, {w.trieT, "WithPrefixReplaced", 0}, {w.trieT, "SetPrefix", 0}, {w.storeT, "WithPrefix", 1}, {w.storeT, "WithPrefixReplaced", 0}, {w.storeT, "SetPrefix", 0}} {
		f := w.method(v.n, v.name)
		if f == nil || len(f.Params) < 2 {
			continue
		}
		c.saw(f)
		e := w.viewEngine()
		for _, o := range e.Analyze(f) {
			if o.panic {
				continue
			}
			p0 := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
			arg := e.ts.mk("param", pname(f.Params[1], 1), f.Params[1].Type())
			base := p0
			if v.n == w.storeT {
				base = e.ts.noEpoch(e.finalField(&Outcome{st: e.newState()}, p0, w.storeT, emb))
			}
			var px *Term
			if len(o.rets) == 0 {
				px = e.finalField(o, base, w.trieT, tr.prefix)
			} else {
				r := strip(o.rets[0])
				if isAllocOf(r, w.storeT) {
					r = strip(e.finalField(o, r, w.storeT, emb))
				}
				if !isAllocOf(r, w.trieT) {
					c.und("view-prefix", w.fname(f), "returned view %s not recognised", r.short())
					continue
				}
				px = e.finalField(o, r, w.trieT, tr.prefix)
			}
			for _, sk := range e.skeletons(px) {
				np, na, order := 0, 0, true
				for _, t := range sk.parts {
					switch {
					case e.isLoadOf(t, base, tr.prefix):
						np++
						if na > 0 {
							order = false
						}
					case contains(t, arg):
						na++
					}
				}
				zero := e.knownZeroOf(o.st.facts, base, tr.prefix)
				noarg := e.knownEmptyArg(o.st.facts, arg)
				switch {
				case !sk.known:
					c.und("view-prefix", w.fname(f), "prefix is %s", px.short())
				case v.want == 0 && np == 1 && na == 0 && len(o.rets) == 0 && e.sameAsArg(o.st.facts, base, tr.prefix, arg):
					c.ok("view-prefix") // it is that already
				case (np == v.want || zero && np == 0) && (na == 1 || noarg && na == 0) && order:
					c.ok("view-prefix")
				default:
					c.bad("view-prefix", w.fname(f), f.Pos(), "the view's prefix is built from the old prefix %d time(s) and the argument %d time(s): %s", np, na, px.short())
				}
			}
		}
	}
	// full keys used as paths
	r := w.roles()
	for _, f := range w.fns {
		if !w.library(f) || pkgOf(f) != w.radix && pkgOf(f) != w.store {
			continue
		}
		if !w.usesKeyAsPath(f, r.key) {
			continue
		}
		e := w.viewEngine()
		for _, o := range e.Analyze(f) {
			allEvents(o.st.events, func(ev *Event, _ *LoopEv) {
				if ev.kind != "call" || ev.fn == nil || !(w.isLookupOp(ev.fn) || w.isInsertOp(ev.fn)) {
					return
				}
				wi := w.wordParam(ev.fn)
				if wi >= len(ev.args) {
					return
				}
				for _, sk := range e.skeletons(ev.args[wi]) {
					ki := -1
					for i, t := range sk.parts {
						if _, fl, ok := fieldLoad(t); ok && fl == r.key && isNodePtr(w, t.args[0].args[0].typ) {
							ki = i
						}
					}
					if ki < 0 {
						continue
					}
					if len(sk.parts) == 1 {
						c.ok("full-key")
						continue
					}
					lead := sk.parts[0]
					if b, fl, ok := fieldLoad(lead); ok && fl == tr.prefix && !e.knownZeroOf(ev.facts, b, fl) {
						c.saw(f)
						c.bad("full-key", w.fname(f)+" -> "+w.fname(ev.in), ev.pos, "a node's full key is looked up through a view that adds its prefix again (%s)", ev.args[wi].short())
					}
				}
			})
		}
	}
}

func (e *Engine) knownEmptyArg(facts *Fact, a *Term) bool {
	for x := facts; x != nil; x = x.up {
		if x.pol && x.atom.op == "eq" && isZeroTerm(x.atom.args[1]) {
			t := x.atom.args[0]
			if t.op == "len" {
				t = t.args[0]
			}
			if t == a {
				return true
			}
		}
	}
	return false
}

// usesKeyAsPath: f itself calls a path-taking method with a node's key.
func (w *World) usesKeyAsPath(f *ssa.Function, key string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, a := range c.Common().Args {
				if !isStrT(a.Type()) {
					continue
				}
				switch x := a.(type) {
				case *ssa.UnOp:
					if fa, ok := x.X.(*ssa.FieldAddr); ok {
						if st, ok := derefT(fa.X.Type()).Underlying().(*types.Struct); ok && isNodePtr(w, fa.X.Type()) && st.Field(fa.Field).Name() == key {
							return true
						}
					}
				case *ssa.Call:
					for _, g := range w.callees(x) {
						if isRecvOf(g, w.nodeT) && g.Object() != nil && g.Object().Name() == "Key" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (c *Ctx) prefixWord(rule string, e *Engine, f *ssa.Function, ev *Event, word, base *Term, prefix string, path *Term) {
	w := c.w
	name := w.fname(f)
	if x := e.altered(word); x != nil && contains(x, path) {
		c.bad(rule, name+" key altered", ev.pos, "%s reaches the tree with the key changed to %s", name, brief(x))
		return
	}
	for _, sk := range e.skeletons(word) {
		np, na := 0, 0
		order := true
		key := false
		unk := !sk.known
		for _, t := range sk.parts {
			switch {
			case e.isLoadOf(t, base, prefix):
				np++
				if na > 0 {
					order = false
				}
			case t == path:
				na++
			case t.isConst():
			case contains(t, path) || e.mentions(t, base, prefix):
				unk = true
			default:
				if _, fl, ok := fieldLoad(t); ok && fl == w.roles().key {
					key = true
				} else {
					unk = true
				}
			}
		}
		zero := e.knownZeroOf(ev.facts, base, prefix)
		switch {
		case key || len(sk.parts) == 0:
		case unk:
			c.und(rule, name, "the word %s is not understood", word.short())
		case na == 0:
			c.und(rule, name, "the word %s does not mention the path", word.short())
		case na > 1:
			c.bad(rule, name+" path repeated", ev.pos, "%s looks up the key path %d times over: %s", name, na, word.short())
		case np == 1 && order, np == 0 && zero:
			c.ok(rule)
		case np == 0:
			c.bad(rule, name+" prefix missing", ev.pos, "%s reaches the tree without the view's prefix: %s", name, word.short())
		default:
			c.bad(rule, name+" prefix misapplied", ev.pos, "%s applies the view's prefix %d times (or after the key): %s", name, np, word.short())
		}
	}
}

func (c *Ctx) keyAgrees(e *Engine, f *ssa.Function, ev *Event, wi int) {
	w := c.w
	if !w.isInsertOp(ev.fn) || wi+1 >= len(ev.args) || !isStrT(ev.args[wi+1].typ) {
		return
	}
	word, full := ev.args[wi], ev.args[wi+1]
	x := word
	if x.op == "conv" {
		x = x.args[0]
	}
	if e.isSame(x, full) {
		c.ok("key-agrees")
		return
	}
	a, b := e.skeletons(x), e.skeletons(full)
	if len(a) == 1 && len(b) == 1 && a[0].known && b[0].known {
		same := len(a[0].parts) == len(b[0].parts)
		for i := 0; same && i < len(a[0].parts); i++ {
			same = e.isSame(a[0].parts[i], b[0].parts[i])
		}
		if same {
			// same sources, transformed differently: only a replaced word is
			// known to differ
			diff := false
			for _, n := range []string{"ReplaceAll", "Replace", "TrimSuffix", "TrimPrefix", "Trim", "TrimRight", "TrimLeft", "ToLower", "ToUpper", "TrimSpace"} {
				diff = diff || hasCall(x, "strings", n) != hasCall(full, "strings", n)
			}
			if diff {
				c.bad("key-agrees", w.fname(f), ev.pos, "the node's key is recorded as %s while the word inserted is %s", full.short(), x.short())
				return
			}
			c.und("key-agrees", w.fname(f), "word %s and key %s are computed differently", x.short(), full.short())
			return
		}
		c.bad("key-agrees", w.fname(f), ev.pos, "the node's key is recorded as %s while the word inserted is %s", full.short(), x.short())
		return
	}
	c.und("key-agrees", w.fname(f), "word %s, key %s", x.short(), full.short())
}

// mergeLike: a recursive (opaque) loader of a map into the tree or store.
func (w *World) mergeLike(f *ssa.Function) bool {
	if f == nil || !w.scc[f] || !(isRecvOf(f, w.trieT) || isRecvOf(f, w.storeT)) {
		return false
	}
	if m := w.mods[f]; m == nil || !m.fields[w.nodeT.Obj().Name()+"."+w.roles().children] {
		return false
	}
	ps := f.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if _, ok := ps.At(i).Type().Underlying().(*types.Map); ok {
			return true
		}
	}
	return false
}

func (c *Ctx) mergeAt(e *Engine, f *ssa.Function, o *Outcome, ev *Event, base *Term, tr *trieRoles, path *Term) {
	w := c.w
	name := w.fname(f)
	// where the map will land: the position argument, or the prefix of the
	// view the loader runs on
	var at []*Term
	ps := ev.fn.Signature.Params()
	for i := 0; i < ps.Len() && i+1 < len(ev.args); i++ {
		if isStrT(ps.At(i).Type()) {
			at = append(at, ev.args[i+1])
		}
	}
	if len(at) == 0 && isAllocOf(ev.args[0], w.trieT) {
		fa := e.ts.mk("fieldaddr", tr.prefix, nil, ev.args[0])
		if v, ok := o.st.heap[fa.id]; ok {
			at = append(at, v)
		} else {
			// value stored when the view was made
			allEvents(o.st.events, func(x *Event, _ *LoopEv) {
				if x.kind == "store" && x.addr == fa {
					at = []*Term{x.val}
				}
			})
		}
	}
	if len(at) == 0 {
		if e.isSame(ev.args[0], base) {
			c.bad("merge-at", name, ev.pos, "%s merges without regard to the merge point", name)
			return
		}
		c.und("merge-at", name, "merge point of %s not recognised", ev.name)
		return
	}
	for _, sk := range e.skeletons(at[0]) {
		np, na := 0, 0
		unk := !sk.known
		order := true
		for _, t := range sk.parts {
			switch {
			case e.isLoadOf(t, base, tr.prefix):
				np++
				order = order && na == 0
			case t == path:
				na++
			case t.isConst():
			default:
				unk = true
			}
		}
		zero := e.knownZeroOf(ev.facts, base, tr.prefix)
		emptyPath := e.knownEmptyArg(ev.facts, path)
		switch {
		case unk:
			c.und("merge-at", name, "merge point %s", at[0].short())
		case (np == 1 || np == 0 && zero) && (na == 1 || na == 0 && emptyPath) && order:
			c.ok("merge-at")
		default:
			c.bad("merge-at", name, ev.pos, "%s merges at %s: prefix used %d time(s), merge point %d time(s)", name, at[0].short(), np, na)
		}
	}
}

func hasCall(t *Term, pkg, name string) (ok bool) {
	walkTerm(t, func(x *Term) bool {
		if x.op == "call" && x.fn != nil && x.fn.Name() == name && pkgOf(x.fn) != nil && pkgOf(x.fn).Path() == pkg {
			ok = true
		}
		return ok
	})
	return
}

// sameAsArg: the path knows that the field already equals what is made of the
// argument.
func (e *Engine) sameAsArg(facts *Fact, base *Term, field string, arg *Term) bool {
	for f := facts; f != nil; f = f.up {
		if !f.pol || f.atom.op != "eq" {
			continue
		}
		for i, x := range f.atom.args {
			if e.isLoadOf(x, base, field) {
				for _, sk := range e.skeletons(f.atom.args[1-i]) {
					if sk.known && len(sk.parts) == 1 && contains(sk.parts[0], arg) {
						return true
					}
				}
			}
		}
	}
	return false
}
