package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P15: external changes - starting and ending a watch, applying its events.

func init() { register("P15", p15) }

// optField: the field that an option constructor's result stores its argument
// into.
func (w *World) optField(pkg *types.Package, ctor string) string {
	f := w.pkgFunc(pkg.Path(), ctor)
	if f == nil {
		return ""
	}
	for _, a := range append([]*ssa.Function{f}, f.AnonFuncs...) {
		for _, b := range a.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if s, ok := derefT(fa.X.Type()).Underlying().(*types.Struct); ok {
							return s.Field(fa.Field).Name()
						}
					}
				}
			}
		}
	}
	return ""
}

// eventEngine: the tree's own operations are primitive.
func (w *World) eventEngine() *Engine {
	e := w.viewEngine()
	old := e.opaque
	e.opaque = func(f *ssa.Function) bool {
		return old(f) || isRecvOf(f, w.trieT) && f.Object() != nil && f.Object().Exported()
	}
	return e
}

// boolFieldFact: what the path knows about a boolean field of that name.
func boolFieldFact(facts *Fact, field string) (pol, ok bool) {
	for f := facts; f != nil; f = f.up {
		if _, n, is := fieldLoad(f.atom); is && n == field {
			return f.pol, true
		}
		if f.atom.op == "loopvar" && len(f.atom.args) == 1 && f.atom.args[0].op == "fieldaddr" && f.atom.args[0].aux == field {
			return f.pol, true
		}
		if f.atom.op == "out" && len(f.atom.args) == 1 && f.atom.args[0].op == "fieldaddr" && f.atom.args[0].aux == field {
			return f.pol, true
		}
	}
	return
}

func p15(c *Ctx) {
	c.rule("watch-start", "after a load that delivered something, the source is watched, with the caller's context, exactly when watching is allowed by the store, not forbidden for this load and supported by the source")
	c.rule("watch-close", "a source whose watch was started is added to what the store closes, nothing is dropped from there, and closing the store closes all of it and the tree")
	c.rule("apply-change", "an event that creates or writes sets every key it carries to its value, one that removes removes every key it carries, and any other event or an error changes nothing")
	c.watchStart()
	c.closeAll()
}

func (c *Ctx) closersField() string {
	st := structOf(c.w.storeT)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		if it, ok := sl.Elem().Underlying().(*types.Interface); ok {
			for j := 0; j < it.NumMethods(); j++ {
				if it.Method(j).Name() == "Close" {
					return st.Field(i).Name()
				}
			}
		}
	}
	return ""
}

func (c *Ctx) watchStart() {
	w := c.w
	f := w.method(w.storeT, "Load")
	if f == nil || !declared(f) {
		c.und("watch-start", "store", "no Load")
		return
	}
	c.saw(f)
	name := w.fname(f)
	allow, no := w.optField(w.store, "WithWatchEnable"), w.optField(w.store, "WithoutWatch")
	if allow == "" || no == "" {
		c.und("watch-start", name, "watch settings not recognised")
		return
	}
	closers := c.closersField()
	e := w.viewEngine()
	outs := e.Analyze(f)
	if e.over {
		c.und("watch-start", name, "analysis gave up")
		return
	}
	s := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
	ctx := e.ts.mk("param", pname(f.Params[1], 1), f.Params[1].Type())
	cbs := map[*ssa.Function]bool{}
	for _, o := range outs {
		if o.panic {
			continue
		}
		facts := o.st.facts
		evs := flatten(o.st.events)
		var watch *Event
		nw, merged := 0, false
		for _, ev := range evs {
			if isCall(ev.Event, "Watchable).Watch") {
				watch = ev.Event
				nw++
			}
			if ev.kind == "go" {
				// a watch started from another goroutine
				if ev.fn != nil && len(ev.fn.Blocks) > 0 {
					c.und("watch-start", name, "a goroutine is started while loading")
					return
				}
			}
			if ev.kind == "call" && ev.fn != nil && w.inWorkspace(ev.fn) && w.writesTree(ev.fn) {
				merged = true
			}
		}
		if nw > 1 {
			c.bad("watch-start", name, watch.pos, "the source is watched twice")
			continue
		}
		allowed, ka := boolFieldFact(facts, allow)
		forbid, kf := boolFieldFact(facts, no)
		if watch == nil {
			if !merged || len(o.rets) < 2 || !isNilT(o.rets[1]) && e.nilState(facts, o.rets[1]) != 1 {
				continue
			}
			why := ka && !allowed || kf && forbid || nilFieldFact(facts, "provider")
			for fc := facts; fc != nil; fc = fc.up {
				if !fc.pol && fc.atom.op == "istype" && strings.Contains(fc.atom.aux, "Watchable") {
					why = true
				}
			}
			if why {
				c.ok("watch-start")
			} else {
				c.bad("watch-start", name, f.Pos(), "a load that delivered something does not watch its source although nothing speaks against it")
			}
			continue
		}
		switch {
		case !merged:
			c.bad("watch-start", name, watch.pos, "the source is watched although nothing was delivered")
		case !ka || !allowed:
			c.bad("watch-start", name, watch.pos, "the source is watched although the store may not allow watching")
		case !kf || forbid:
			c.bad("watch-start", name, watch.pos, "the source is watched although this load may have forbidden it")
		case len(watch.args) < 3:
			c.und("watch-start", name, "arguments of the watch")
		case watch.args[1] != ctx:
			if mentionsT(watch.args[1], ctx) {
				c.und("watch-start", name, "the watch is given the context %s", brief(watch.args[1]))
			} else {
				c.bad("watch-start", name, watch.pos, "the watch is not given the caller's context but %s", brief(watch.args[1]))
			}
		default:
			c.ok("watch-start")
		}
		if len(watch.args) == 3 {
			cl := unwrapPayload(watch.args[2])
			if cl.fn != nil && !cbs[cl.fn] {
				cbs[cl.fn] = true
				c.applyCb(cl.fn)
			} else if isNilT(cl) {
				c.bad("apply-change", name, watch.pos, "the watch has no callback")
			} else if cl.fn == nil {
				c.und("apply-change", name, "callback of the watch not recognised")
			}
		}
		// what is closed later
		if closers == "" {
			c.und("watch-close", name, "what the store closes is not recognised")
			continue
		}
		st := e.nilState(facts, watch.res)
		if st == -1 {
			continue // the watch did not start
		}
		if st == 0 && !c.mentionedIn(evs, watch.res) {
			// not looked at: then it counts as started
			st = 1
		}
		src := watch.args[0]
		if c.kept(e, o, s, src, closers, evs) {
			c.ok("watch-close")
		} else {
			c.bad("watch-close", name, watch.pos, "the source is watched but not among what the store closes")
		}
	}
	if len(cbs) == 0 {
		c.und("apply-change", name, "no watch callback found")
	}
}

func (c *Ctx) mentionedIn(evs []flatEv, t *Term) bool {
	for _, ev := range evs {
		if mentionsT(ev.val, t) {
			return true
		}
	}
	return false
}

// kept: src is finally in the store's (s) list, behind everything that was in
// it already.
func (c *Ctx) kept(e *Engine, o *Outcome, s, src *Term, closers string, evs []flatEv) bool {
	same := func(a, b *Term) bool {
		return a == b || e.isSame(a, b) || mentionsT(unwrapPayload(a), unwrapPayload(b)) && unwrapPayload(a).op == "assert"
	}
	var has func(t *Term, d int) bool
	has = func(t *Term, d int) bool {
		if d > 8 {
			return false
		}
		switch t.op {
		case "append":
			for _, a := range t.args {
				if same(a, src) || has(a, d+1) {
					return true
				}
			}
		case "spread", "vec":
			for _, a := range t.args {
				if same(a, src) || has(a, d+1) {
					return true
				}
			}
		}
		return false
	}
	var isS func(b *Term) bool
	keeps := func(t *Term) bool { // first operand of the append chain is the old list
		for t.op == "append" && len(t.args) > 0 {
			t = t.args[0]
		}
		cl := cellOf(t)
		return cl != nil && cl.aux == closers && isS(cl.args[0])
	}
	isS = func(b *Term) bool {
		if b == s || e.isSame(b, s) {
			return true
		}
		if v, k := e.decide(o.st.facts, e.ts.eq(b, s)); k {
			return v
		}
		// the loader's store, read again after other calls
		if cb := cellOf(b); cb != nil {
			for fc := o.st.facts; fc != nil; fc = fc.up {
				if fc.pol && fc.atom.op == "eq" && (fc.atom.args[0] == s && cellOf(fc.atom.args[1]) == cb || fc.atom.args[1] == s && cellOf(fc.atom.args[0]) == cb) {
					return true
				}
			}
		}
		return false
	}
	good := false
	drop := false
	for _, ev := range evs {
		if ev.kind != "store" || ev.addr == nil || ev.addr.op != "fieldaddr" || ev.addr.aux != closers || !isS(ev.addr.args[0]) {
			continue
		}
		good = has(ev.Event.val, 0)
		drop = !keeps(ev.Event.val)
	}
	return good && !drop
}

// cellOf: the memory cell a value was read from.
func cellOf(t *Term) *Term {
	if t != nil && (t.op == "load" || t.op == "loopvar" || t.op == "out") && len(t.args) == 1 && t.args[0].op == "fieldaddr" {
		return t.args[0]
	}
	return nil
}

// applyCb: the callback handed to a watch.
func (c *Ctx) applyCb(f *ssa.Function) {
	w := c.w
	e := w.eventEngine()
	var args, fv []*Term
	for i, p := range f.Params {
		args = append(args, e.ts.mk("param", pname(p, i), p.Type()))
	}
	for i, p := range f.FreeVars {
		fv = append(fv, e.ts.mk("param", "bound"+string(rune('0'+i)), p.Type()))
	}
	outs := e.AnalyzeWith(f, args, fv)
	c.saw(f)
	name := strings.TrimSuffix(w.fname(f), "$bound")
	pos := f.Pos()
	if e.over {
		c.und("apply-change", name, "analysis gave up")
		return
	}
	c.ends("apply-change", name, e, "applying a change never ends")
	if len(args) < 2 {
		c.und("apply-change", name, "callback not recognised")
		return
	}
	event, errT := args[len(args)-2], args[len(args)-1]
	ops := map[string]int64{}
	for _, n := range []string{"OpCreate", "OpWrite", "OpRemove"} {
		ops[n] = w.constOf(w.store, n)
	}
	isEv := func(t *Term) bool { return mentionsT(t, event) }
	for _, o := range outs {
		if o.panic {
			continue
		}
		facts := o.st.facts
		var sets, rems, other []flatEv
		for _, ev := range flatten(o.st.events) {
			if ev.kind == "go" && ev.fn != nil {
				c.und("apply-change", name, "changes are applied from another goroutine")
				return
			}
			if ev.kind != "call" || ev.fn == nil || !isRecvOf(ev.fn, w.trieT) {
				continue
			}
			if n := ev.fn.Name(); n == "Set" || n == "SetEx" {
				sets = append(sets, ev)
			} else if n == "Remove" || n == "RemoveEx" {
				rems = append(rems, ev)
			} else if w.writesTree(ev.fn) {
				other = append(other, ev)
			}
		}
		if len(other) > 0 {
			c.und("apply-change", name, "the tree is changed through %s", other[0].fn.Name())
			continue
		}
		quiet := func(why string) {
			if len(sets)+len(rems) > 0 {
				c.bad("apply-change", name, pos, "the tree is changed although %s", why)
			} else {
				c.ok("apply-change")
			}
		}
		switch e.nilState(facts, errT) {
		case -1:
			quiet("the source reported an error")
			continue
		case 0:
			if len(sets)+len(rems) > 0 {
				c.bad("apply-change", name, pos, "the tree is changed without looking at the reported error")
				continue
			}
		}
		change := 0
		know := map[string]int{}
		for fc := facts; fc != nil; fc = fc.up {
			a := fc.atom
			pol := -1
			if fc.pol {
				pol = 1
			}
			switch {
			case a.op == "istype" && a.args[0] == event:
				change = pol
			case a.op == "call" && strings.HasSuffix(a.aux, "Change).Has") || a.op == "call" && strings.Contains(a.aux, "Change).Has#"):
				if len(a.args) == 2 && isEv(a.args[0]) {
					if k, ok := a.args[1].constInt(); ok {
						for n, v := range ops {
							if v == k {
								know[n] = pol
							}
						}
					}
				}
			case a.op == "eq":
				// Op()&mask == 0, Op() == k
				for i := 0; i < 2; i++ {
					x, k := a.args[i], a.args[1-i]
					kv, ok := k.constInt()
					if !ok {
						continue
					}
					isOp := func(t *Term) bool { return t.op == "call" && strings.Contains(t.aux, "Change).Op") }
					if x.op == "bin" && x.aux == "&" && kv == 0 {
						for j := 0; j < 2; j++ {
							if mv, ok := x.args[j].constInt(); ok && isOp(x.args[1-j]) {
								for n, v := range ops {
									if mv == v {
										know[n] = -pol
									} else if mv&v != 0 && pol == 1 {
										know[n] = -1
									}
								}
							}
						}
					}
					if isOp(x) && pol == 1 {
						for n, v := range ops {
							if kv&v != 0 {
								know[n] = 1
							} else {
								know[n] = -1
							}
						}
					}
				}
			}
		}
		if change == -1 {
			quiet("the event is not a change")
			continue
		}
		if change == 0 {
			if len(sets)+len(rems) > 0 {
				c.und("apply-change", name, "type of the event not recognised")
			}
			continue
		}
		cw := know["OpCreate"] == 1 || know["OpWrite"] == 1
		noCW := know["OpCreate"] == -1 && know["OpWrite"] == -1
		switch {
		case cw:
			if len(rems) > 0 {
				c.bad("apply-change", name, rems[0].pos, "keys are removed for an event that creates or writes")
				continue
			}
			c.drain(e, o, f, name, sets, true)
		case noCW && know["OpRemove"] == 1:
			if len(sets) > 0 {
				c.bad("apply-change", name, sets[0].pos, "keys are set for an event that removes")
				continue
			}
			c.drain(e, o, f, name, rems, false)
		case noCW && know["OpRemove"] == -1:
			quiet("the event neither creates, writes nor removes")
		case len(sets) > 0 && len(know) == 0 || len(rems) > 0 && len(know) == 0:
			c.und("apply-change", name, "kind of the event not recognised")
		case len(sets) > 0:
			c.bad("apply-change", name, sets[0].pos, "keys are set for an event that may neither create nor write")
		case len(rems) > 0:
			c.bad("apply-change", name, rems[0].pos, "keys are removed for an event that may not be a removal")
		case len(know) == 0 && c.usedBy(o, event):
			c.und("apply-change", name, "kind of the event not recognised")
		default:
			c.bad("apply-change", name, pos, "an event that may create, write or remove is not applied")
		}
	}
}

func (c *Ctx) usedBy(o *Outcome, t *Term) bool {
	for _, ev := range flatten(o.st.events) {
		if isCall(ev.Event, "Change).Timestamp", "Change).Path", "Change).Provider") {
			continue // says nothing about the kind of the event
		}
		for _, a := range ev.args {
			if unwrapPayload(a) == t {
				return true
			}
		}
	}
	return false
}

// drain: the one loop that takes every pair out of the event and applies it.
func (c *Ctx) drain(e *Engine, o *Outcome, f *ssa.Function, name string, ops []flatEv, set bool) {
	what := "removed"
	if set {
		what = "set"
	}
	emb := c.w.storeTrie()
	var loop *LoopEv
	nloops := 0
	allLoops(o.st.events, func(l *LoopEv) {
		is := false
		for _, b := range l.bodies {
			for _, ev := range b.events {
				if isCall(ev, "Change).Next") {
					is = true
				}
			}
		}
		if is {
			loop = l
			nloops++
		}
	})
	if loop == nil {
		// the loop may have been left before one iteration was completed
		if len(ops) == 0 {
			for _, ev := range o.st.events {
				if isCall(ev, "Change).Next") {
					if v, k := e.decide(o.st.facts, e.resOf(ev, 2)); k && v {
						c.bad("apply-change", name, ev.pos, "a key the event carries is not %s", what)
						return
					}
					if v, k := e.decide(o.st.facts, e.resOf(ev, 2)); k && !v {
						c.bad("apply-change", name, ev.pos, "only the first key of an event is looked at")
						return
					}
				}
			}
			c.bad("apply-change", name, f.Pos(), "the keys of an event that should be %s are not looked at", what)
			return
		}
		c.bad("apply-change", name, ops[0].pos, "only one key of an event is %s", what)
		return
	}
	if nloops > 1 {
		c.und("apply-change", name, "several loops take keys out of an event")
		return
	}
	good := true
	for i, b := range loop.bodies {
		var here []flatEv
		for _, ev := range ops {
			if ev.loop == loop && ev.body == i {
				here = append(here, ev)
			}
		}
		ok, known := false, false
		for fc := b.facts; fc != nil; fc = fc.up {
			if e.isChangeRes(fc.atom, "2", nil) {
				ok, known = fc.pol, true
				break
			}
		}
		if known && !ok && len(here) == 0 {
			continue // the last round, when the end was found
		}
		if !known || !ok {
			c.bad("apply-change", name, f.Pos(), "the end of an event's keys is not tested")
			return
		}
		if len(here) == 0 {
			for _, ev := range ops {
				if ev.loop != nil && ev.loop != loop {
					c.und("apply-change", name, "keys are applied by another loop")
					return
				}
			}
			c.bad("apply-change", name, f.Pos(), "a key the event carries may be left out and not %s", what)
			return
		}
		if len(here) > 1 {
			c.und("apply-change", name, "a key is %s more than once", what)
			return
		}
		ev := here[0]
		if !e.isChangeRes(ev.args[1], "0", nil) {
			if mentionsRes(ev.args[1], "Change).Next") || ev.args[1].op == "loopvar" {
				c.bad("apply-change", name, ev.pos, "the key %s is %s, not the key the event carries", what, brief(ev.args[1]))
			} else {
				c.bad("apply-change", name, ev.pos, "the key %s is %s, not the key the event carries", what, brief(ev.args[1]))
			}
			return
		}
		if set && !e.isChangeRes(ev.args[2], "1", nil) {
			c.bad("apply-change", name, ev.pos, "the value set is %s, not the value the event carries", brief(ev.args[2]))
			return
		}
		if t := e.ts.noEpoch(ev.args[0]); true {
			if t.op == "loopvar" && len(t.args) == 1 {
				t = t.args[0]
			} else if t.op == "load" {
				t = t.args[0]
			}
			if t.op != "fieldaddr" || t.aux != emb {
				c.und("apply-change", name, "changes are applied to %s", brief(ev.args[0]))
				good = false
			}
		}
	}
	// left only at the end of the keys
	end := false
	for fc := o.st.facts; fc != nil; fc = fc.up {
		if e.isChangeRes(fc.atom, "2", nil) {
			end = !fc.pol
			break
		}
	}
	if !end {
		c.bad("apply-change", name, f.Pos(), "an event is left before all its keys are %s", what)
		return
	}
	if good {
		c.ok("apply-change")
	}
}

func mentionsRes(t *Term, name string) bool {
	return walkTerm(t, func(x *Term) bool { return strings.Contains(x.aux, name) })
}

// isChangeRes: the i-th result of a change's Next, possibly carried round a
// loop.
func (e *Engine) isChangeRes(t *Term, i string, busy map[*Term]bool) bool {
	if t.op == "res" && t.aux == i && len(t.args) == 1 {
		return strings.Contains(t.args[0].aux, "Change).Next")
	}
	if t.op == "loopvar" && len(e.loopIn[t.id]) > 0 && !busy[t] {
		nb := map[*Term]bool{t: true}
		for k := range busy {
			nb[k] = true
		}
		for _, x := range e.loopIn[t.id] {
			if k, ok := x.constBool(); ok && k && i == "2" {
				continue
			}
			if !nb[x] && !e.isChangeRes(x, i, nb) {
				return false
			}
		}
		return true
	}
	return false
}

// closeAll: closing the store.
func (c *Ctx) closeAll() {
	w := c.w
	f := w.method(w.storeT, "Close")
	if f == nil || !declared(f) {
		c.und("watch-close", "store", "no Close")
		return
	}
	c.saw(f)
	name := w.fname(f)
	closers := c.closersField()
	emb := w.storeTrie()
	e := w.eventEngine()
	e.inline = func(g *ssa.Function) bool { // helpers of Close look recursive: what is closed could be a store
		return g != f && w.inWorkspace(g) && pkgOf(g) == w.store && (g.Object() == nil || !g.Object().Exported())
	}
	outs := e.Analyze(f)
	if e.over || closers == "" {
		c.und("watch-close", name, "analysis gave up")
		return
	}
	s := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
	for _, o := range outs {
		if o.panic {
			continue
		}
		all, tree := false, false
		why := "what the store has to close is not closed on some path"
		und := ""
		for _, ev := range flatten(o.st.events) {
			if ev.kind == "call" && ev.fn != nil && ev.fn.Name() == "Close" && isRecvOf(ev.fn, w.trieT) || isCall(ev.Event, "Peripheral).Close") && ev.loop == nil || isCall(ev.Event, "Trie).Close") {
				if mentionsField(ev.args[0], emb) {
					tree = true
				}
			}
			if ev.kind == "loop" && ev.loop == nil {
				continue
			}
		}
		for fc := o.st.facts; fc != nil; fc = fc.up {
			if !fc.pol && fc.atom.op == "istype" && mentionsField(fc.atom.args[0], emb) {
				tree = true // has nothing to close
			}
			if fc.pol && fc.atom.op == "eq" && mentionsField(fc.atom, emb) && (fc.atom.args[0].isNil() || fc.atom.args[1].isNil()) {
				tree = true
			}
		}
		if v, k := e.decide(o.st.facts, e.ts.eq(e.ts.length(e.finalField(&Outcome{st: e.newState()}, s, w.storeT, closers)), e.ts.intc(0))); k && v {
			all = true
		}
		allLoops(o.st.events, func(l *LoopEv) {
			cv := e.loopCover(l)
			if !cv.known || cv.slice == nil {
				for _, b := range l.bodies {
					for _, ev := range b.events {
						if isCall(ev, "Peripheral).Close") {
							und = "the loop that closes is not recognised"
						}
					}
				}
				return
			}
			b, fl, ok := fieldOfSlice(cv.slice)
			if !ok || fl != closers || b != s {
				for _, bd := range l.bodies {
					for _, ev := range bd.events {
						if isCall(ev, "Peripheral).Close") {
							und = "what is closed is " + brief(cv.slice)
						}
					}
				}
				return
			}
			if !cv.full {
				why = "not everything the store has to close is closed: " + cv.why
				return
			}
			good := true
			for _, bd := range l.bodies {
				n := 0
				for _, ev := range bd.events {
					if isCall(ev, "Peripheral).Close") && mentionsAny(ev.args[0], cv.at) {
						n++
					}
				}
				if n == 0 {
					isNil := false
					for fc := bd.facts; fc != nil && fc != l.entry; fc = fc.up {
						if fc.pol && fc.atom.op == "eq" && (fc.atom.args[0].isNil() || fc.atom.args[1].isNil()) && mentionsAny(fc.atom, cv.at) {
							isNil = true
						}
					}
					if !isNil {
						good = false
						why = "something the store has to close may be left out"
					}
				}
			}
			if good {
				all = true
			}
		})
		switch {
		case all && tree:
			c.ok("watch-close")
		case und != "":
			c.und("watch-close", name, "%s", und)
		case !all:
			c.bad("watch-close", name, f.Pos(), "%s", why)
		default:
			c.bad("watch-close", name, f.Pos(), "the tree is not closed with the store")
		}
	}
}

func mentionsField(t *Term, field string) bool {
	return walkTerm(t, func(x *Term) bool { return x.op == "fieldaddr" && x.aux == field })
}

func mentionsAny(t *Term, l []*Term) bool {
	for _, x := range l {
		if mentionsT(t, x) {
			return true
		}
	}
	return false
}
