package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P20", p20) }

// lockRun: the node's lock and what it guards.
type lockRun struct {
	c     *Ctx
	w     *World
	value string // the guarded field
	lock  string // the lock's field
	ptr   bool   // a pointer, nil when nothing else can touch the node
	may   map[*ssa.Function]bool
	rel   map[*ssa.Function]bool
	need  map[string]bool
	dry   bool
}

// P20: a node's value and its lock.
func p20(c *Ctx) {
	w := c.w
	c.rule("lock-guard", "a node's value is read and written only with that node's lock held (for writing: exclusively), where the node has one; a node made here is not shared yet")
	c.rule("lock-pair", "whatever lock is taken on a path is given back on it, in the way it was taken, and nothing is given back that is not held")
	c.rule("lock-alone", "while a lock is held no lock is taken, no function of the caller runs, and nothing is waited for")
	r := &lockRun{c: c, w: w, may: map[*ssa.Function]bool{}, rel: map[*ssa.Function]bool{}}
	st := structOf(w.nodeT)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if n := namedOf(f.Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && strings.HasSuffix(n.Obj().Name(), "Mutex") {
			r.lock = f.Name()
			_, r.ptr = f.Type().Underlying().(*types.Pointer)
		}
	}
	if f := w.method(w.nodeT, "Data"); f != nil {
		e := newEngine(w)
		for _, o := range e.Analyze(f) {
			if len(o.rets) == 1 {
				if _, n, ok := fieldLoad(strip(o.rets[0])); ok {
					r.value = n
				}
			}
		}
	}
	if r.lock == "" || r.value == "" {
		c.und("lock-guard", "node", "the lock (%q) or the value (%q) of a node is not recognised", r.lock, r.value)
		return
	}
	r.collect()
	var roots []*ssa.Function
	done := map[string]bool{}
	for _, f := range w.fns {
		if pkgOf(f) != w.radix || f.Parent() != nil || f.Synthetic != "" && f.Origin() == nil {
			continue
		}
		n := w.fname(f)
		if done[n] {
			continue
		}
		g := f
		for _, nt := range []*types.Named{w.nodeT, w.trieT, w.ttlT} {
			if nt != nil && isRecvOf(f, nt) {
				if m := w.method(nt, f.Name()); m != nil {
					g = m
				}
			}
		}
		done[n] = true
		roots = append(roots, g)
	}
	// an inner function that needs a lock its caller has to hold is analysed
	// with its callers
	for i := 0; i < 8; i++ {
		r.need = map[string]bool{}
		for _, f := range roots {
			r.dry = true
			r.root(f)
		}
		ch := false
		for _, f := range w.fns {
			if pkgOf(f) == w.radix && r.need[w.fname(f)] && !r.rel[f] {
				r.rel[f], ch = true, true
			}
		}
		if !ch {
			break
		}
	}
	r.dry = false
	for _, f := range roots {
		r.root(f)
	}
	r.made()
	r.moves()
}

// moves: where an insertion makes a node that takes over the value of another,
// it takes over its lock too.
func (r *lockRun) moves() {
	c, w := r.c, r.w
	c.rule("lock-moves", "a node that takes over the value of another one takes over its lock as well")
	if !r.ptr {
		return
	}
	for _, f := range w.fns {
		if pkgOf(f) != w.radix || f.Parent() != nil || !isRecvOf(f, w.nodeT) || !w.isInsertOp(f) {
			continue
		}
		if m := w.method(w.nodeT, f.Name()); m != f {
			continue
		}
		name := w.fname(f)
		e := newEngine(w)
		for _, o := range e.Analyze(f) {
			if o.panic {
				continue
			}
			nodes, _ := w.nodeStores(e, o)
			for _, nw := range nodes {
				a := nw.base
				if !isAllocOf(a, w.nodeT) || nw.f[r.value] == nil {
					continue
				}
				b, fl, ok := fieldLoad(e.ts.noEpoch(nw.f[r.value]))
				if !ok || fl != r.value || b == a {
					continue
				}
				ev := nw.ev[r.value]
				lk := nw.f[r.lock]
				if lk == nil {
					lk = e.ts.mk("nil", "", a.typ)
				}
				lk = e.ts.noEpoch(lk)
				none := false
				for g := o.st.facts; g != nil; g = g.up {
					if x := e.ts.noEpoch(g.atom); g.pol && x.op == "eq" && isNilT(x.args[1]) && isFieldLoad(x.args[0], b, r.lock) {
						none = true
					}
				}
				switch {
				case isFieldLoad(lk, b, r.lock), none:
					c.ok("lock-moves")
				case lk.op == "call" || lk.op == "loopvar":
					c.und("lock-moves", name, "lock %s", brief(lk))
				default:
					c.bad("lock-moves", name, ev.pos, "the value of a node moves to a new one that gets %s for its lock", brief(lk))
				}
			}
		}
	}
}

// made: a node handed to the background worker has a lock, and keeps the one
// it had.
func (r *lockRun) made() {
	c, w := r.c, r.w
	c.rule("lock-made", "a node that is given a time-to-live has a lock before the background worker learns of it, and one it already had is not replaced")
	tl := w.ttlRoles()
	if tl == nil || !r.ptr {
		return
	}
	for _, nm := range []string{"SetTTL", "SetTTLFast"} {
		f := w.method(w.trieT, nm)
		if f == nil || !declared(f) {
			continue
		}
		name := w.fname(f)
		e := w.viewEngine()
		for _, o := range e.Analyze(f) {
			if o.panic {
				continue
			}
			var put *flatEv
			for _, ev := range flatten(o.st.events) {
				ev := ev
				if ev.kind == "store" && ev.addr.op == "fieldaddr" && ev.addr.aux == r.lock && ev.addr.args[0].op != "alloc" {
					put = &ev
					none := false
					for g := ev.facts; g != nil; g = g.up {
						if a := e.ts.noEpoch(g.atom); g.pol && a.op == "eq" && (isNilT(a.args[1]) && isFieldLoad(a.args[0], e.ts.noEpoch(ev.addr.args[0]), r.lock) || isNilT(a.args[0]) && isFieldLoad(a.args[1], e.ts.noEpoch(ev.addr.args[0]), r.lock)) {
							none = true
						}
					}
					if !none && ev.Event.val.op == "alloc" {
						c.bad("lock-made", name, ev.pos, "the lock of a node may be replaced while it is held")
					}
				}
				if !c.isJobSend(ev.Event, tl) {
					continue
				}
				nd := strip(e.structField(ev.args[1], tl.job, tl.iNode))
				ok := put != nil && strip(put.addr.args[0]) == nd && !isNilT(put.Event.val)
				for g := ev.facts; g != nil && !ok; g = g.up {
					if a := e.ts.noEpoch(g.atom); !g.pol && a.op == "eq" && isNilT(a.args[1]) {
						if b, fl, k := fieldLoad(a.args[0]); k && fl == r.lock && strip(b) == e.ts.noEpoch(nd) {
							ok = true
						}
					}
				}
				switch {
				case ok:
					c.ok("lock-made")
				case nd.op == "loopvar" || nd.op == "call":
					c.und("lock-made", name, "node %s", brief(nd))
				default:
					c.bad("lock-made", name, ev.pos, "a node is handed to the background worker without a lock")
				}
			}
		}
	}
}

func (r *lockRun) isNode(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj() == r.w.nodeT.Obj()
}

// lockOp: a call of a mutex method: +2 exclusive, +1 shared, negative to give back.
func lockOp(name string) int {
	if !strings.Contains(name, "sync.RWMutex") && !strings.Contains(name, "sync.Mutex") {
		return 0
	}
	switch name[strings.LastIndexByte(name, '.')+1:] {
	case "Lock":
		return 2
	case "RLock":
		return 1
	case "Unlock":
		return -2
	case "RUnlock":
		return -1
	case "TryLock", "TryRLock", "RLocker":
		return 9
	}
	return 0
}

// collect: which functions take part (touch the value or a lock themselves, or
// hand a function of theirs on to one that does), and which may take a lock.
func (r *lockRun) collect() {
	w := r.w
	touches := func(f *ssa.Function) (direct, locks bool) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if r.isNode(x.X.Type()) {
						n := derefT(x.X.Type()).Underlying().(*types.Struct).Field(x.Field).Name()
						direct = direct || n == r.value || n == r.lock
					}
				case ssa.CallInstruction:
					if g := x.Common().StaticCallee(); g != nil && lockOp(g.String()) > 0 {
						locks = true
					}
				}
			}
		}
		return
	}
	for _, f := range w.fns {
		if pkgOf(f) != w.radix {
			continue
		}
		d, l := touches(f)
		r.rel[f] = d || l || f.Parent() != nil
		r.may[f] = l
	}
	for ch := true; ch; {
		ch = false
		for _, f := range w.fns {
			if r.may[f] && (r.rel[f] || pkgOf(f) != w.radix) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					cl, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					for _, g := range w.callees(cl) {
						if r.may[g] && !r.may[f] {
							r.may[f] = true
							ch = true
						}
						// a function handed on to a function that takes part
						if !r.rel[f] && pkgOf(f) == w.radix && r.rel[g] && r.may[g] {
							for _, a := range cl.Common().Args {
								if p, ok := a.(*ssa.Parameter); ok {
									if _, sig := p.Type().Underlying().(*types.Signature); sig {
										r.rel[f] = true
										ch = true
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

// inner: an unexported function every use of which is a call in this package:
// it is judged where it is called.
func (r *lockRun) inner(f *ssa.Function) bool {
	if f.Object() != nil && f.Object().Exported() {
		return false
	}
	name := r.w.fname(f)
	n := 0
	for _, g := range r.w.fns {
		if r.w.fname(g) == name {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(ssa.CallInstruction); ok {
					if h := cl.Common().StaticCallee(); h != nil && r.w.fname(h) == name {
						n++
					}
				}
			}
		}
	}
	return n > 0
}

func (r *lockRun) root(f *ssa.Function) {
	c, w := r.c, r.w
	relevant := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(ssa.CallInstruction); ok {
				for _, g := range w.callees(cl) {
					relevant = relevant || r.rel[g]
				}
			}
			if _, ok := in.(*ssa.MakeClosure); ok {
				relevant = true
			}
		}
	}
	if !relevant && !r.rel[f] {
		return
	}
	e := newEngine(w)
	e.inline = func(g *ssa.Function) bool { return r.rel[g] || g.Parent() != nil }
	e.opaque = func(g *ssa.Function) bool { return !r.rel[g] && g.Parent() == nil }
	e.noteLoad = func(a *Term) bool {
		return a.op == "fieldaddr" && a.aux == r.value && r.isNode(a.args[0].typ) || r.isNode(a.typ)
	}
	outs := e.Analyze(f)
	name := w.fname(f)
	if r.dry {
		c = &Ctx{w: w, counts: map[string]int{}, fns: map[string]bool{}, rules: map[string]string{}, seenF: map[string]bool{}}
		real := r.c
		r.c = c
		defer func() { r.c = real }()
	}
	if e.over {
		c.und("lock-guard", name, "analysis gave up")
		return
	}
	c.saw(f)
	inner := r.inner(f)
	for _, o := range outs {
		if o.panic {
			continue
		}
		if r.ptr && r.contradicts(o.st.facts) {
			continue // the lock of a node does not come and go
		}
		held := map[int]int{}
		r.path(e, f, name, inner, o.st.events, held, true)
	}
}

// base: the node whose lock t is.
func (r *lockRun) base(t *Term) *Term {
	if b, n, ok := fieldLoad(t); ok && n == r.lock && r.isNode(b.typ) {
		return b
	}
	if t.op == "fieldaddr" && t.aux == r.lock && r.isNode(t.args[0].typ) {
		return t.args[0]
	}
	return nil
}

func (r *lockRun) path(e *Engine, f *ssa.Function, name string, inner bool, evs []*Event, held map[int]int, whole bool) {
	c := r.c
	start := map[int]int{}
	for k, v := range held {
		start[k] = v
	}
	alone := func(ev *Event, what string) {
		if len(held) > 0 {
			c.bad("lock-alone", r.where(ev, name), ev.pos, "%s while a node's lock is held", what)
		} else {
			c.ok("lock-alone")
		}
	}
	touch := func(ev *Event, nd *Term, write bool) {
		if rt := rootOf(nd); rt.op == "alloc" || nd.op == "alloc" {
			c.ok("lock-guard")
			return
		}
		h := held[nd.id]
		what := "read"
		if write {
			what = "written"
		}
		switch {
		case h == 2 || h == 1 && !write:
			c.ok("lock-guard")
		case r.ptr && r.noLock(ev.facts, nd):
			c.ok("lock-guard")
		case inner && nd.op == "param":
			r.need[name] = true // judged where it is called
		case h == 1:
			c.bad("lock-guard", r.where(ev, name), ev.pos, "a node's value is written under a lock that readers share")
		default:
			c.bad("lock-guard", r.where(ev, name), ev.pos, "a node's value is %s without the node's lock", what)
		}
	}
	for _, ev := range evs {
		switch ev.kind {
		case "loop":
			for _, b := range ev.loop.bodies {
				h2 := map[int]int{}
				for k, v := range held {
					h2[k] = v
				}
				r.path(e, f, name, inner, b.events, h2, true)
			}
		case "load":
			if ev.addr.op == "fieldaddr" && ev.addr.aux == r.value {
				touch(ev, ev.addr.args[0], false)
			} else {
				touch(ev, ev.addr, false)
			}
		case "store":
			if ev.addr.op == "fieldaddr" && ev.addr.aux == r.value && r.isNode(ev.addr.args[0].typ) {
				touch(ev, ev.addr.args[0], true)
			} else if r.isNode(ev.addr.typ) && derefT(ev.addr.typ) != nil && !isPtr(derefT(ev.addr.typ)) {
				touch(ev, ev.addr, true)
			}
		case "send", "recv", "select":
			alone(ev, "a channel is waited for")
		case "call":
			k := lockOp(ev.name)
			if k == 9 {
				c.und("lock-pair", name, "a lock is tried")
				return
			}
			if k != 0 {
				nd := r.base(ev.args[0])
				if nd == nil {
					continue
				}
				if k > 0 {
					alone(ev, "a lock is taken")
					held[nd.id] = k
				} else if held[nd.id] != -k && inner && nd.op == "param" {
					r.need[name] = true // judged where it is called
				} else if held[nd.id] != -k {
					c.bad("lock-pair", r.where(ev, name), ev.pos, "a lock is given back that is not held in this way")
				} else {
					c.ok("lock-pair")
					delete(held, nd.id)
				}
				continue
			}
			if ev.fn != nil {
				if r.may[ev.fn] {
					alone(ev, "a function is called that takes a lock ("+r.w.fname(ev.fn)+")")
				}
				continue
			}
			if ev.invk {
				for _, g := range r.w.callees(ev.instr.(ssa.CallInstruction)) {
					if r.may[g] {
						alone(ev, "a function is called that takes a lock ("+r.w.fname(g)+")")
						break
					}
				}
				continue
			}
			if strings.HasPrefix(ev.name, "dynamic") && ev.val != nil {
				if rt := rootOf(ev.val); rt.op == "global" || walkTerm(ev.val, func(x *Term) bool { return x.op == "global" }) {
					continue
				}
				if ev.val.op == "param" && inner {
					r.need[name] = true
					continue
				}
				alone(ev, "a function of the caller runs")
			}
		}
	}
	if !whole {
		return
	}
	same := len(held) == len(start)
	for k, v := range held {
		same = same && start[k] == v
	}
	if !same && inner {
		r.need[name] = true // judged where it is called
	} else if !same {
		c.bad("lock-pair", name, f.Pos(), "a path ends with a lock held")
	} else if len(evs) > 0 {
		c.ok("lock-pair")
	}
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// noLock: the path knows that the node has no lock.
func (r *lockRun) noLock(facts *Fact, nd *Term) bool {
	for f := facts; f != nil; f = f.up {
		if !f.pol || f.atom.op != "eq" {
			continue
		}
		for k := 0; k < 2; k++ {
			if b, n, ok := fieldLoad(f.atom.args[k]); ok && n == r.lock && b == nd && f.atom.args[1-k].isNil() {
				return true
			}
		}
	}
	return false
}

// where: the function in whose text the event is.
func (r *lockRun) where(ev *Event, name string) string {
	if ev.in == nil {
		return name
	}
	f := ev.in
	for f.Parent() != nil {
		f = f.Parent()
	}
	return r.w.fname(f)
}

// contradicts: the path takes a node to have a lock at one point and none at another.
func (r *lockRun) contradicts(facts *Fact) bool {
	has, not := map[int]bool{}, map[int]bool{}
	for f := facts; f != nil; f = f.up {
		if f.atom.op != "eq" {
			continue
		}
		for k := 0; k < 2; k++ {
			if b, n, ok := fieldLoad(f.atom.args[k]); ok && n == r.lock && f.atom.args[1-k].isNil() {
				if f.pol {
					not[b.id] = true
				} else {
					has[b.id] = true
				}
			}
		}
	}
	for b := range has {
		if not[b] {
			return true
		}
	}
	return false
}
