package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P09: change notifications.

func init() { register("P09", p09) }

// handlerFields maps "new", "change", "delete" to the store's field of
// handlers of that (exported) type.
func (w *World) handlerFields() map[string]string {
	out := map[string]string{}
	st, ok := w.storeT.Underlying().(*types.Struct)
	if !ok {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if k := handlerKind(sl.Elem()); k != "" {
			out[k] = st.Field(i).Name()
		}
	}
	return out
}

func handlerKind(t types.Type) string {
	n, ok := t.(*types.Named)
	if !ok {
		return ""
	}
	switch n.Obj().Name() {
	case "OnNewHandler":
		return "new"
	case "OnChangeHandler":
		return "change"
	case "OnDeleteHandler":
		return "delete"
	}
	return ""
}

// fieldOfSlice: the field a slice term was loaded from.
func fieldOfSlice(t *Term) (base *Term, field string, ok bool) {
	if b, f, ok := fieldLoad(t); ok {
		return b, f, true
	}
	if t.op == "loopvar" && len(t.args) == 1 && t.args[0].op == "fieldaddr" {
		return t.args[0].args[0], t.args[0].aux, true
	}
	return nil, "", false
}

// a handler call site on a path
type notif struct {
	kind  string
	ev    *Event
	loop  *LoopEv // innermost
	index int     // position of the top-level event
}

func notifications(evs []*Event) (out []notif) {
	var rec func(evs []*Event, l *LoopEv, top int)
	rec = func(evs []*Event, l *LoopEv, top int) {
		for i, ev := range evs {
			ti := top
			if l == nil && top < 0 {
				ti = i
			}
			switch ev.kind {
			case "loop":
				for _, b := range ev.loop.bodies {
					rec(b.events, ev.loop, ti)
				}
			case "call", "go":
				if ev.val != nil && ev.fn == nil {
					if k := handlerKind(ev.val.typ); k != "" {
						out = append(out, notif{k, ev, l, ti})
					}
				}
			}
		}
	}
	rec(evs, nil, -1)
	return
}

// loadingTerm: is t the store's loading flag? +1 yes, -1 its negation, 0 ?.
func (e *Engine) loadingTerm(f *Fact, t *Term) int {
	isFlag := func(x *Term) bool {
		return x.op == "call" && strings.Contains(x.aux, "LoadInt32") && len(x.args) == 1 && x.args[0].op == "fieldaddr" && x.args[0].aux == "loading"
	}
	pol := 1
	for t.op == "not" {
		t = t.args[0]
		pol = -pol
	}
	if t.op == "eq" {
		x, y := t.args[0], t.args[1]
		k, ok := y.constInt()
		if ok && isFlag(x) {
			if k == 1 {
				return pol
			}
			if k == 0 {
				return -pol
			}
		}
	}
	if t.isConst() && t.cv != nil {
		v := t.cv.String() == "true"
		for ; f != nil; f = f.up {
			if f.atom.op == "eq" {
				if k, ok := f.atom.args[1].constInt(); ok && isFlag(f.atom.args[0]) && (k == 0 || k == 1) {
					loading := f.pol == (k == 1)
					if loading == v {
						return pol
					}
					return -pol
				}
			}
		}
	}
	return 0
}

func (c *Ctx) oneLoop(rule, name string, e *Engine, o *Outcome, kind, field string, ns []notif, f *ssa.Function) (ok bool) {
	ids := map[string]bool{}
	ok = true
	for _, n := range ns {
		if n.kind != kind {
			continue
		}
		pos := n.ev.pos
		if n.ev.kind == "go" {
			c.bad(rule, name, pos, "a handler is started in the background, so it may run out of order or after the call has returned")
			return false
		}
		if n.loop == nil {
			// direct call: handlers[0] and the like
			if b := n.ev.val; b.op == "load" && b.args[0].op == "idxaddr" {
				c.bad(rule, name, pos, "only one of the %s handlers is called", kind)
				return false
			}
			c.und(rule, name, "a %s handler is called outside a loop", kind)
			ok = false
			continue
		}
		ids[n.loop.id] = true
		cv := e.loopCover(n.loop)
		if !cv.known {
			c.und(rule, name, "loop over the %s handlers not recognised", kind)
			ok = false
			continue
		}
		if !cv.full {
			c.bad(rule, name, pos, "not every %s handler is called: the loop %s", kind, cv.why)
			return false
		}
		_, fl, k := fieldOfSlice(cv.slice)
		if !k {
			c.und(rule, name, "handlers come from %s", brief(cv.slice))
			ok = false
			continue
		}
		if fl != field {
			c.bad(rule, name, pos, "the handlers called are those in %s", fl)
			return false
		}
		// every body calls the element unless it is nil
		for _, b := range n.loop.bodies {
			calls := 0
			for _, ev := range b.events {
				if ev.kind == "call" && ev.fn == nil && ev.val != nil && handlerKind(ev.val.typ) == kind {
					calls++
				}
			}
			if calls > 1 {
				c.bad(rule, name, pos, "a %s handler is called %d times", kind, calls)
				return false
			}
			if calls == 0 {
				isNil := false
				for fc := b.facts; fc != nil && fc != n.loop.entry; fc = fc.up {
					if fc.pol && fc.atom.op == "eq" {
						for i, x := range fc.atom.args {
							if x.isNil() && handlerKind(fc.atom.args[1-i].typ) == kind {
								isNil = true
							}
						}
					}
				}
				if !isNil {
					c.bad(rule, name, pos, "a %s handler that is not nil may be skipped", kind)
					return false
				}
			}
		}
	}
	if len(ids) > 1 {
		c.bad(rule, name, f.Pos(), "the %s handlers are called by %d different loops on one path", kind, len(ids))
		return false
	}
	return ok
}

// notifyEngine: functions that call handlers are looked into even when they
// are recursive.
func (w *World) notifyEngine() *Engine {
	e := w.viewEngine()
	calls := map[*ssa.Function]bool{}
	for _, f := range w.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() && ci.Common().StaticCallee() == nil && handlerKind(ci.Common().Value.Type()) != "" {
					calls[f] = true
				}
			}
		}
	}
	e.inline = func(f *ssa.Function) bool { return calls[f] }
	return e
}

func p09(c *Ctx) {
	w := c.w
	r := w.roles()
	c.rule("notify-set", "after a key is set, on every path exactly one kind of handler runs: the new-key handlers when the key was not found and had no value, the change handlers when it was found; every handler of that kind (nil ones apart) is called once, in the foreground, after the tree was updated")
	c.rule("notify-delete", "the delete handlers run, each once, exactly when a node was removed, and after its removal")
	c.rule("notify-args", "handlers are given the path the caller gave, the value set (or the removed node's value), the value held before, and the loading flag")
	c.rule("register", "each option adds all the given handlers to the handlers of its own kind and drops none")
	hf := w.handlerFields()
	for _, k := range []string{"new", "change", "delete"} {
		if hf[k] == "" {
			c.und("notify-set", "store", "no field of %s handlers", k)
			return
		}
	}
	arg := func(name string, pos token.Pos, good int, what string, t *Term) {
		switch good {
		case 1:
			c.ok("notify-args")
		case -1:
			c.bad("notify-args", name, pos, "%s given to a handler is %s", what, brief(t))
		default:
			c.und("notify-args", name, "%s given to a handler is %s", what, brief(t))
		}
	}
	// Set
	if f := w.method(w.storeT, "Set"); f != nil && declared(f) {
		c.saw(f)
		name := w.fname(f)
		e := w.notifyEngine()
		outs := e.Analyze(f)
		if e.over {
			c.und("notify-set", name, "analysis gave up")
			outs = nil
		}
		path := e.ts.mk("param", pname(f.Params[1], 1), f.Params[1].Type())
		data := e.ts.mk("param", pname(f.Params[2], 2), f.Params[2].Type())
		for _, o := range outs {
			if o.panic {
				continue
			}
			var ins *Event
			insAt := -1
			for i, ev := range o.st.events {
				if ev.kind == "call" && ev.fn != nil && w.isInsertOp(ev.fn) {
					ins, insAt = ev, i
				}
			}
			if ins == nil {
				c.und("notify-set", name, "no insertion on a path")
				continue
			}
			old := e.ts.mk("res", "1", ins.fn.Signature.Results().At(1).Type(), ins.res)
			ns := notifications(o.st.events)
			kinds := map[string]bool{}
			early := false
			for _, n := range ns {
				kinds[n.kind] = true
				early = early || n.index < insAt
			}
			want := ""
			l, sure := w.located(e, o)
			rd := 0
			if sure {
				rd = e.readable(w, o, l)
			}
			oz, ozk := e.decide(o.st.facts, e.ts.eq(old, e.ts.mk("nil", "", old.typ)))
			switch {
			case rd == 1:
				want = "change"
			case rd == -1 && ozk && oz:
				want = "new"
			}
			switch {
			case kinds["delete"]:
				c.bad("notify-set", name, f.Pos(), "setting a key calls the delete handlers")
			case len(kinds) == 0:
				c.bad("notify-set", name, f.Pos(), "a path sets the key and calls no handler")
			case len(kinds) > 1:
				c.bad("notify-set", name, f.Pos(), "a path calls both the new-key and the change handlers")
			case early:
				c.bad("notify-set", name, f.Pos(), "handlers are called before the tree is updated")
			case want != "" && !kinds[want]:
				c.bad("notify-set", name, f.Pos(), "the wrong handlers are called: the %s handlers should be", want)
			default:
				k := "new"
				if kinds["change"] {
					k = "change"
				}
				if c.oneLoop("notify-set", name, e, o, k, hf[k], ns, f) {
					if want == "" && rd == 0 {
						c.und("notify-set", name, "match state not settled")
					} else {
						c.ok("notify-set")
					}
				}
			}
			for _, n := range ns {
				a := n.ev.args
				if len(a) < 3 {
					continue
				}
				same := func(t, p *Term) int {
					if t == p {
						return 1
					}
					if t.op == "param" || t.isConst() || isZeroTerm(t) || t == old {
						return -1
					}
					if t.op == "call" || t.op == "bin" || t.op == "concat" {
						return -1
					}
					return 0
				}
				arg(name, n.ev.pos, same(a[0], path), "the path", a[0])
				arg(name, n.ev.pos, same(a[1], data), "the value", a[1])
				if n.kind == "change" {
					good := 0
					t := a[2]
					for t.op == "iface" && len(t.args) == 1 {
						t = t.args[0]
					}
					switch {
					case t == old, l != nil && isFieldLoad(e.ts.noEpoch(t), e.ts.noEpoch(l.child), r.data):
						good = 1
					case t == data || t == path:
						good = -1
					case isZeroTerm(t):
						good = -1
						if ozk && oz || l == nil || rd == -1 {
							good = 1
						}
					}
					arg(name, n.ev.pos, good, "the old value", a[2])
				}
				arg(name, n.ev.pos, e.loadingTerm(n.ev.facts, a[len(a)-1]), "the loading flag", a[len(a)-1])
			}
		}
	}
	for _, nm := range []string{"Remove", "RemoveEx"} {
		f := w.method(w.storeT, nm)
		if f == nil || !declared(f) {
			continue
		}
		c.saw(f)
		name := w.fname(f)
		e := w.notifyEngine()
		outs := e.Analyze(f)
		if e.over {
			c.und("notify-delete", name, "analysis gave up")
			continue
		}
		path := e.ts.mk("param", pname(f.Params[1], 1), f.Params[1].Type())
		for _, o := range outs {
			if o.panic {
				continue
			}
			ns := notifications(o.st.events)
			l, sure := w.located(e, o)
			if !sure {
				c.und("notify-delete", name, "lookup result not tested")
				continue
			}
			ret := o.rets[len(o.rets)-1]
			rm, known := e.decide(o.st.facts, ret)
			if !known {
				c.und("notify-delete", name, "removed is %s", brief(ret))
				continue
			}
			cutAt := -1
			for i, ev := range o.st.events {
				if ev.kind == "store" && ev.addr.op == "fieldaddr" && ev.addr.aux == r.children {
					cutAt = i
				}
			}
			bad := false
			early := false
			n0 := 0
			for _, n := range ns {
				if n.kind != "delete" {
					bad = true
				} else {
					n0++
					early = early || n.index < cutAt
				}
			}
			switch {
			case bad:
				c.bad("notify-delete", name, f.Pos(), "removing a key calls handlers of another kind")
			case rm && n0 == 0:
				c.bad("notify-delete", name, f.Pos(), "a path removes the key and calls no delete handler")
			case !rm && n0 > 0:
				c.bad("notify-delete", name, f.Pos(), "the delete handlers are called although nothing was removed")
			case early:
				c.bad("notify-delete", name, f.Pos(), "the delete handlers are called before the node is removed")
			case !rm:
				c.ok("notify-delete")
			default:
				if c.oneLoop("notify-delete", name, e, o, "delete", hf["delete"], ns, f) {
					c.ok("notify-delete")
				}
			}
			for _, n := range ns {
				a := n.ev.args
				if len(a) != 3 || n.kind != "delete" {
					continue
				}
				g := 0
				if a[0] == path {
					g = 1
				} else if a[0].isConst() || a[0].op == "call" || isZeroTerm(a[0]) {
					g = -1
				} else if _, _, ok := fieldLoad(a[0]); ok {
					g = -1
				}
				arg(name, n.ev.pos, g, "the path", a[0])
				g = 0
				v := a[1]
				for v.op == "iface" {
					v = v.args[0]
				}
				if l != nil && isFieldLoad(e.ts.noEpoch(v), e.ts.noEpoch(l.child), r.data) {
					g = 1
				} else if isZeroTerm(v) || v == path {
					g = -1
				} else if b, _, ok := fieldLoad(v); ok && isNodePtr(w, b.typ) {
					g = -1
				}
				arg(name, n.ev.pos, g, "the value", a[1])
				arg(name, n.ev.pos, e.loadingTerm(n.ev.facts, a[2]), "the loading flag", a[2])
			}
		}
	}
	c.registerOpts(hf)
}

// registerOpts: functions (handlers ...H) Opt.
func (c *Ctx) registerOpts(hf map[string]string) {
	w := c.w
	for _, f := range w.fns {
		if f.Signature.Recv() != nil || f.Parent() != nil || !token.IsExported(f.Name()) || !f.Signature.Variadic() || f.Signature.Params().Len() != 1 {
			continue
		}
		sl, ok := f.Signature.Params().At(0).Type().Underlying().(*types.Slice)
		if !ok || handlerKind(sl.Elem()) == "" || f.Signature.Results().Len() != 1 {
			continue
		}
		k := handlerKind(sl.Elem())
		c.saw(f)
		name := w.fname(f)
		e := newEngine(w)
		given := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
		for _, o := range e.Analyze(f) {
			if o.panic {
				continue
			}
			cl := o.rets[0]
			if cl.op == "conv" || cl.op == "iface" {
				cl = cl.args[0]
			}
			if cl.op != "closure" || cl.fn == nil {
				c.und("register", name, "returns %s", brief(cl))
				continue
			}
			s := e.ts.mk("param", "s", cl.fn.Params[0].Type())
			for _, q := range e.AnalyzeFrom(cl.fn, []*Term{s}, cl.args, o.st.clone()) {
				if q.panic {
					continue
				}
				var v *Term
				other := ""
				for _, ev := range q.st.events {
					if ev.kind == "store" && ev.addr.op == "fieldaddr" && ev.addr.args[0] == s {
						if ev.addr.aux == hf[k] {
							v = ev.val
						} else {
							other = ev.addr.aux
						}
					}
				}
				switch {
				case other != "":
					c.bad("register", name, f.Pos(), "writes %s", other)
				case v == nil:
					if z, ok := e.lenZero(q.st.facts, given); ok && z {
						c.ok("register")
						continue
					}
					loop := false
					for _, ev := range q.st.events {
						loop = loop || ev.kind == "loop"
					}
					if loop {
						c.und("register", name, "handlers added one by one")
					} else {
						c.bad("register", name, f.Pos(), "the given handlers are not registered on some path")
					}
				case v.op == "append" && len(v.args) == 2 && v.args[1].op == "spread":
					old := isFieldLoad(v.args[0], s, hf[k])
					all := v.args[1].args[0] == given
					switch {
					case old && all:
						c.ok("register")
					case !old:
						c.bad("register", name, f.Pos(), "handlers registered before are dropped")
					default:
						c.bad("register", name, f.Pos(), "only %s of the given handlers is registered", brief(v.args[1].args[0]))
					}
				case v == given:
					c.bad("register", name, f.Pos(), "handlers registered before are dropped")
				default:
					c.und("register", name, "stores %s", brief(v))
				}
			}
		}
	}
}
