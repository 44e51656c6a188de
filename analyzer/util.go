package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nodeRoles names the fields of the node type by the exported accessor that
// reads them, so renaming a field does not change what the rules talk about.
type nodeRoles struct {
	data, desc, comment, tag, key, piece, children, flags string
	lock                                                  string
	all                                                   []string
}

var rolesCache = map[*World]*nodeRoles{}

func (w *World) roles() *nodeRoles {
	if r, ok := rolesCache[w]; ok {
		return r
	}
	r := &nodeRoles{}
	rolesCache[w] = r
	st := structOf(w.nodeT)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		r.all = append(r.all, f.Name())
		if sl, ok := f.Type().Underlying().(*types.Slice); ok {
			if n := namedOf(sl.Elem()); n != nil && n.Obj() == w.nodeT.Obj() {
				r.children = f.Name()
			}
		}
		if n := namedOf(f.Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
			r.lock = f.Name()
		}
	}
	get := func(m string) string {
		f := w.method(w.nodeT, m)
		if f == nil {
			return ""
		}
		e := newEngine(w)
		for _, o := range e.Analyze(f) {
			if o.panic || len(o.rets) == 0 {
				continue
			}
			var name string
			walkTerm(o.rets[0], func(t *Term) bool {
				if t.op == "load" && t.args[0].op == "fieldaddr" && t.args[0].args[0].op == "param" {
					name = t.args[0].aux
					return true
				}
				return false
			})
			if name != "" {
				return name
			}
		}
		return ""
	}
	r.data, r.desc, r.comment, r.tag = get("Data"), get("Description"), get("Comment"), get("Tag")
	r.key, r.piece, r.flags = get("Key"), get("KeyPiece"), get("IsLeaf")
	return r
}

// trieField names: root (node pointer), prefix (Prefix()), delimiter
// (Delimiter()), mode (RecursiveMode()), ttl.
type trieRoles struct{ root, prefix, delim, mode, ttl string }

func (w *World) trieRoles() *trieRoles {
	r := &trieRoles{}
	st := structOf(w.trieT)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if n := namedOf(f.Type()); n != nil {
			if n.Obj() == w.nodeT.Obj() {
				r.root = f.Name()
			}
			if w.ttlT != nil && n.Obj() == w.ttlT.Obj() {
				r.ttl = f.Name()
			}
		}
	}
	get := func(m string) string {
		f := w.method(w.trieT, m)
		if f == nil {
			return ""
		}
		e := newEngine(w)
		for _, o := range e.Analyze(f) {
			if len(o.rets) == 1 && o.rets[0].op == "load" && o.rets[0].args[0].op == "fieldaddr" {
				return o.rets[0].args[0].aux
			}
		}
		return ""
	}
	r.prefix, r.delim, r.mode = get("Prefix"), get("Delimiter"), get("RecursiveMode")
	return r
}

// embedded trie field of the store
func (w *World) storeTrie() string {
	st := structOf(w.storeT)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			if _, ok := f.Type().Underlying().(*types.Interface); ok {
				if n := namedOf(f.Type()); n != nil && n.Obj().Pkg() == w.radix {
					return f.Name()
				}
			}
		}
	}
	return ""
}

// isNodeOp: a node-level operation driven by a rune word (lookup or insertion).
func (w *World) isNodeOp(f *ssa.Function) bool {
	if f == nil || f.Signature.Recv() == nil {
		return false
	}
	if n := namedOf(f.Signature.Recv().Type()); n == nil || n.Obj() != w.nodeT.Obj() {
		return false
	}
	return w.wordParam(f) >= 0
}

// wordParam is the index (receiver included) of the []rune parameter.
func (w *World) wordParam(f *ssa.Function) int {
	ps := f.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if sl, ok := ps.At(i).Type().Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				return i + 1
			}
		}
	}
	return -1
}

// isLookupOp: node op that returns (bool, bool, *node, *node).
func (w *World) isLookupOp(f *ssa.Function) bool {
	if !w.isNodeOp(f) {
		return false
	}
	rs := f.Signature.Results()
	if rs.Len() != 4 {
		return false
	}
	isB := func(i int) bool {
		b, ok := rs.At(i).Type().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Bool
	}
	isN := func(i int) bool {
		n := namedOf(rs.At(i).Type())
		return n != nil && n.Obj() == w.nodeT.Obj()
	}
	return isB(0) && isB(1) && isN(2) && isN(3)
}

// isInsertOp: node op that takes a value and returns a node.
func (w *World) isInsertOp(f *ssa.Function) bool {
	if !w.isNodeOp(f) || w.isLookupOp(f) {
		return false
	}
	m := w.mods[f]
	return m != nil && m.fields[w.nodeT.Obj().Name()+"."+w.roles().children] && f.Signature.Params().Len() >= 3 && f.Signature.Results().Len() == 2
}

// trieEngine treats node-level word operations as primitive.
func (w *World) trieEngine() *Engine {
	e := newEngine(w)
	e.opaque = func(f *ssa.Function) bool { return w.isLookupOp(f) || w.isInsertOp(f) }
	return e
}

func isRecvOf(f *ssa.Function, n *types.Named) bool {
	if f == nil || f.Signature.Recv() == nil || n == nil {
		return false
	}
	m := namedOf(f.Signature.Recv().Type())
	return m != nil && m.Obj() == n.Obj()
}

// allEvents flattens events including loop bodies; f gets the event and
// whether it sits inside a loop.
func allEvents(evs []*Event, f func(ev *Event, inLoop *LoopEv)) {
	seen := map[*Event]bool{}
	var rec func(evs []*Event, l *LoopEv)
	rec = func(evs []*Event, l *LoopEv) {
		for _, ev := range evs {
			if seen[ev] {
				continue
			}
			seen[ev] = true
			if ev.kind == "loop" {
				for _, b := range ev.loop.bodies {
					rec(b.events, ev.loop)
				}
				continue
			}
			f(ev, l)
		}
	}
	rec(evs, nil)
}

// ifaceMethods lists the methods (embedded ones included) of a workspace
// interface.
func ifaceMethods(p *types.Package, name string) (out []*types.Func) {
	o, ok := p.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return
	}
	it, ok := o.Type().Underlying().(*types.Interface)
	if !ok {
		return
	}
	for i := 0; i < it.NumMethods(); i++ {
		out = append(out, it.Method(i))
	}
	return
}

// exportedMethods of *n that are in source (own or promoted), exported.
func (w *World) exportedMethods(n *types.Named) (out []*ssa.Function) {
	for _, f := range w.ownMethods(n) {
		if f.Object() != nil && f.Object().Exported() {
			out = append(out, f)
		}
	}
	return
}

func fieldLoad(t *Term) (base *Term, field string, ok bool) {
	if t.op == "load" && t.args[0].op == "fieldaddr" {
		return t.args[0].args[0], t.args[0].aux, true
	}
	return nil, "", false
}

// isFieldLoad: t is a load (any memory version) of base.field
func isFieldLoad(t *Term, base *Term, field string) bool {
	b, f, ok := fieldLoad(t)
	return ok && f == field && b == base
}

// knownZero: facts say t is its zero value.
func (e *Engine) knownZero(f *Fact, t *Term) bool {
	for x := f; x != nil; x = x.up {
		if x.pol && x.atom.op == "eq" {
			a, b := x.atom.args[0], x.atom.args[1]
			if a == t && (b.isNil()) {
				return true
			}
			if v, ok := b.constInt(); ok && v == 0 && (a == t || a.op == "len" && a.args[0] == t) {
				return true
			}
		}
	}
	return false
}

func isZeroTerm(t *Term) bool {
	switch t.op {
	case "nil", "zero":
		return true
	case "const":
		if v, ok := t.constInt(); ok {
			return v == 0
		}
		if v, ok := t.constStr(); ok {
			return v == ""
		}
		if v, ok := t.constBool(); ok {
			return !v
		}
	case "struct":
		for _, a := range t.args {
			if !isZeroTerm(a) {
				return false
			}
		}
		return true
	case "iface":
		return false
	}
	return false
}

func hasSuffixName(name, suf string) bool { return strings.HasSuffix(name, suf) }

// coverage of a slice by a loop
type cover struct {
	slice *Term   // the slice whose elements are visited
	at    []*Term // addresses of the elements visited
	full  bool    // every element, no early exit
	why   string
	known bool // the loop shape was recognised
	down  bool // from the last element to the first
}

// loopCover decides which slice a loop iterates over and whether an iteration
// reaches every element: index starts at one end, moves by one, and control
// leaves the loop only from the bounds test.
func (e *Engine) loopCover(l *LoopEv) cover {
	var c cover
	// candidate index terms: idxaddr(S, idx) mentioned in the body
	type cand struct{ s, idx, t *Term }
	var cands []cand
	note := func(t *Term) {
		if t == nil {
			return
		}
		walkTerm(t, func(x *Term) bool {
			if x.op == "idxaddr" {
				cands = append(cands, cand{x.args[0], x.args[1], x})
			}
			return false
		})
	}
	for _, b := range l.bodies {
		for _, ev := range b.events {
			note(ev.addr)
			note(ev.val)
			note(ev.key)
			note(ev.res)
			for _, a := range ev.args {
				note(a)
			}
			if ev.kind == "loop" {
				for _, bb := range ev.loop.bodies {
					for _, e2 := range bb.events {
						for _, a := range e2.args {
							note(a)
						}
						note(e2.addr)
						note(e2.val)
					}
				}
			}
		}
		for f := b.facts; f != nil && f != l.entry; f = f.up {
			note(f.atom)
		}
		for a := range b.heap {
			t := e.ts.all[a]
			if t.op == "idxaddr" {
				cands = append(cands, cand{t.args[0], t.args[1], t})
			}
		}
	}
	isVar := func(t *Term) bool {
		for _, v := range l.vars {
			if v == t {
				return true
			}
		}
		return false
	}
	for _, cd := range cands {
		lf := e.ts.toLin(cd.idx)
		var lv *Term
		cnt := 0
		for id, k := range lf.co {
			if k != 0 {
				cnt++
				if k == 1 && isVar(e.ts.all[id]) {
					lv = e.ts.all[id]
				}
			}
		}
		if cnt == 2 && lv == nil && lf.co[e.ts.length(cd.s).id] == 1 {
			// s[len(s)-1-i] for i from 0 on: every element, last first
			for id, k := range lf.co {
				x := e.ts.all[id]
				if k != -1 || !isVar(x) {
					continue
				}
				n := e.ts.length(cd.s)
				up := e.loopCoverUp(l, e.ts.linAdd(e.ts.linAdd(n, e.ts.intc(1), -1, x.typ), cd.idx, -1, x.typ), cd.s)
				if up.full {
					up.at, up.down = []*Term{cd.t}, true
					return up
				}
			}
		}
		if lv == nil || cnt != 1 {
			continue
		}
		ins := e.loopIn[lv.id]
		var entry, back *Term
		for _, x := range ins {
			if contains(x, lv) {
				if back != nil && back != x {
					back = nil
					break
				}
				back = x
			} else {
				entry = x
			}
		}
		if entry == nil || back == nil {
			continue
		}
		step := e.ts.linAdd(back, lv, -1, lv.typ)
		sv, ok := step.constInt()
		if !ok {
			continue
		}
		c.known = true
		c.slice = cd.s
		c.at = append(c.at, cd.t)
		first := e.ts.linAdd(entry, e.ts.intc(lf.c), 1, lv.typ)
		n := e.ts.length(cd.s)
		switch {
		case sv == 1:
			if v, ok := first.constInt(); !ok || v != 0 {
				c.why = "starts at element " + first.short()
				return c
			}
		case sv == -1:
			c.down = true
			same := false // the length of the same field, read at another time
			if last := e.ts.linAdd(first, e.ts.intc(1), 1, lv.typ); last.op == "len" {
				b1, f1, ok1 := fieldOfSlice(cd.s)
				b2, f2, ok2 := fieldOfSlice(last.args[0])
				same = ok1 && ok2 && f1 == f2 && e.ts.noEpoch(b1) == e.ts.noEpoch(b2)
			}
			if !same && first != e.ts.linAdd(n, e.ts.intc(1), -1, lv.typ) {
				c.why = "starts at element " + first.short()
				return c
			}
		default:
			c.why = "moves by " + step.short()
			return c
		}
		// exits
		for _, b := range l.exits {
			in, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				c.why = "leaves early"
				return c
			}
			if b != l.header && !isBoundTest(in) {
				c.why = "leaves the loop before its end"
				return c
			}
		}
		if ok, why := e.headerBound(l, lv, cd.s, lf.c, sv); !ok {
			c.why = why
			return c
		}
		c.full = true
		return c
	}
	return c
}

// loopCoverUp: the loop counts x from 0 to the end of s.
func (e *Engine) loopCoverUp(l *LoopEv, x, s *Term) (c cover) {
	l2 := *l
	l2.bodies = append([]LoopBody{}, l.bodies...)
	for i := range l2.bodies {
		l2.bodies[i].events, l2.bodies[i].heap = nil, nil
	}
	if len(l2.bodies) > 0 {
		l2.bodies[0].events = []*Event{{kind: "note", val: e.ts.mk("idxaddr", "", s.typ, s, x)}}
	}
	return e.loopCover(&l2)
}

func isBoundTest(in *ssa.If) bool { return false }

// headerBound: the header tests idx < len(S) (idx >= 0 when moving down).
func (e *Engine) headerBound(l *LoopEv, lv, s *Term, off, step int64) (bool, string) {
	// the facts every body path adds first must include the bound test
	n := e.ts.length(s)
	idx := e.ts.linAdd(lv, e.ts.intc(off), 1, lv.typ)
	var want *Term
	if step == 1 {
		want = e.ts.lt(idx, n)
	} else {
		want = e.ts.not(e.ts.lt(idx, e.ts.intc(0)))
	}
	for _, b := range l.bodies {
		found := false
		for f := b.facts; f != nil && f != l.entry; f = f.up {
			a, p := atomOf(want)
			if f.atom == a && f.pol == p {
				found = true
			}
			// the length of the same field, read at another time
			if step == 1 && f.pol && f.atom.op == "lt" && f.atom.args[0] == idx && f.atom.args[1].op == "len" {
				b1, f1, ok1 := fieldOfSlice(s)
				b2, f2, ok2 := fieldOfSlice(f.atom.args[1].args[0])
				if ok1 && ok2 && f1 == f2 && e.ts.noEpoch(b1) == e.ts.noEpoch(b2) {
					found = true
				}
			}
		}
		if !found {
			return false, "is not bounded by the slice's length"
		}
	}
	return true, ""
}

func constInt64(c *types.Const) (int64, bool) { return constant.Int64Val(c.Val()) }

// loopCoverX is loopCover; when brk is set, leaving the loop early is allowed
// (a search loop).
func (e *Engine) loopCoverX(l *LoopEv, brk bool) cover {
	if !brk {
		return e.loopCover(l)
	}
	old := l.exits
	l.exits = []*ssa.BasicBlock{l.header}
	defer func() { l.exits = old }()
	return e.loopCover(l)
}
