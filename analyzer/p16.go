package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P16: time-to-live - registration, worker, expiry, end.

func init() { register("P16", p16) }

type ttlRoles struct {
	adder, done, cancel, tree string
	job                       *types.Struct
	jNode, jKey, jDur, jAct   string
	iNode, iKey, iDur, iAct   int
}

func (w *World) ttlRoles() *ttlRoles {
	if w.ttlT == nil {
		return nil
	}
	r := &ttlRoles{}
	st := structOf(w.ttlT)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		f := st.Field(i)
		switch t := f.Type().Underlying().(type) {
		case *types.Chan:
			if s, ok := t.Elem().Underlying().(*types.Struct); ok {
				if s.NumFields() == 0 {
					r.done = f.Name()
				} else {
					r.adder, r.job = f.Name(), s
				}
			}
		case *types.Signature:
			if t.Params().Len() == 0 && t.Results().Len() == 0 {
				r.cancel = f.Name()
			}
		}
		if mentionsNamed(f.Type(), w.trieT) {
			r.tree = f.Name()
		}
	}
	if r.job == nil || r.done == "" || r.cancel == "" {
		return nil
	}
	for i := 0; i < r.job.NumFields(); i++ {
		f := r.job.Field(i)
		switch {
		case namedOf(f.Type()) != nil && namedOf(f.Type()).Obj() == w.nodeT.Obj():
			r.jNode, r.iNode = f.Name(), i
		case f.Type().String() == "time.Duration":
			r.jDur, r.iDur = f.Name(), i
		case isStrT(f.Type()):
			r.jKey, r.iKey = f.Name(), i
		default:
			if _, ok := f.Type().Underlying().(*types.Signature); ok {
				r.jAct, r.iAct = f.Name(), i
			}
		}
	}
	if r.jNode == "" || r.jDur == "" || r.jAct == "" {
		return nil
	}
	return r
}

func mentionsNamed(t types.Type, n *types.Named) bool {
	switch x := t.(type) {
	case *types.Pointer:
		return mentionsNamed(x.Elem(), n)
	case *types.Slice:
		return mentionsNamed(x.Elem(), n)
	case *types.Named:
		return x.Obj() == n.Obj()
	}
	return false
}

func (c *Ctx) isJobSend(ev *Event, r *ttlRoles) bool {
	if ev.kind != "send" || len(ev.args) != 2 {
		return false
	}
	ch, ok := ev.args[0].typ.Underlying().(*types.Chan)
	return ok && types.Identical(ch.Elem().Underlying(), r.job)
}

// structField: field i of a struct value.
func (e *Engine) structField(t *Term, st *types.Struct, i int) *Term {
	if t.op == "struct" && i < len(t.args) {
		return t.args[i]
	}
	return e.fieldOf(t, st, i, st.Field(i).Type())
}

func p16(c *Ctx) {
	w := c.w
	c.rule("ttl-register", "for a located key (or given node), and only then, exactly that node goes to the tree's running worker with the given duration and callback, and success is reported")
	c.rule("ttl-worker", "the worker handles every job until the tree is closed: each duration worth timing gets a timer of that very duration, bound to that very job")
	c.rule("ttl-expire", "when the timer fires, and not when the tree is closed, the callback runs once with the key's current node and then that node is emptied (leaf) or removed (branch)")
	c.rule("ttl-close", "closing a tree with a worker cancels it; what is cancelled is what the worker and the timers wait for")
	r := w.ttlRoles()
	tr := w.trieRoles()
	if r == nil || tr.ttl == "" {
		c.und("ttl-register", "tree", "time-to-live types not recognised")
		return
	}
	flags := c.ttlClose(r, tr)
	workers := map[*ssa.Function]bool{}
	type sub struct {
		n  *types.Named
		nm string
	}
	for _, s := range []sub{{w.trieT, "SetTTL"}, {w.trieT, "SetTTLFast"}, {w.nodeT, "SetTTL"}, {w.storeT, "SetTTL"}, {w.storeT, "SetTTLFast"}} {
		f := w.method(s.n, s.nm)
		if f == nil || !declared(f) {
			continue
		}
		c.ttlRegister(f, s.n, s.nm, r, tr, flags, workers)
	}
	if len(workers) == 0 {
		c.und("ttl-worker", "tree", "no worker found")
	}
	c.ttlTree(r)
	expiry := map[*ssa.Function]bool{}
	for f := range workers {
		c.ttlWorker(f, r, expiry)
	}
	for f := range expiry {
		c.ttlExpire(f, r)
	}
}

func isPlain(t *Term) bool { return t.isConst() || t.op == "param" }

// ttlTree: the worker's tree is the one it was made with.
func (c *Ctx) ttlTree(r *ttlRoles) {
	w := c.w
	if r.tree == "" {
		return
	}
	for _, f := range w.ownMethods(w.ttlT) {
		if !declared(f) {
			continue
		}
		name := w.fname(f)
		e := w.viewEngine()
		for _, o := range e.Analyze(f) {
			if o.panic {
				continue
			}
			chk := func(t *Term, pos token.Pos) {
				walkTerm(t, func(x *Term) bool {
					if x.op == "idxaddr" {
						if _, fl, ok := fieldLoad(e.ts.noEpoch(x.args[0])); ok && fl == r.tree {
							if k, ok := x.args[1].constInt(); ok && k > 0 && w.ttlTrees == 1 {
								c.bad("ttl-worker", name, pos, "the worker looks for a tree it does not have")
							}
						}
					}
					return false
				})
			}
			allEvents(o.st.events, func(ev *Event, _ *LoopEv) {
				for _, a := range ev.args {
					chk(a, ev.pos)
				}
			})
			if rs := f.Signature.Results(); rs.Len() == 1 && len(o.rets) == 1 && f.Signature.Params().Len() == 0 && strings.Contains(rs.At(0).Type().String(), "Trie") {
				if isNilT(o.rets[0]) {
					c.bad("ttl-worker", name, f.Pos(), "the worker does not name its tree")
				} else {
					chk(o.rets[0], f.Pos())
					c.ok("ttl-worker")
				}
			}
		}
	}
}

// ttlClose returns the flag fields that Close looks at before it cancels.
func (c *Ctx) ttlClose(r *ttlRoles, tr *trieRoles) map[string]bool {
	w := c.w
	flags := map[string]bool{}
	f := w.method(w.trieT, "Close")
	if f == nil || !declared(f) {
		c.und("ttl-close", "tree", "no Close")
		return flags
	}
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	outs := e.Analyze(f)
	s := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
	for _, o := range outs {
		if o.panic {
			continue
		}
		cancelled := false
		for _, ev := range flatten(o.st.events) {
			if ev.kind == "go" {
				c.und("ttl-close", name, "a goroutine is started")
				return flags
			}
			if ev.kind == "call" && ev.val != nil {
				if b, fl, ok := fieldLoad(ev.val); ok && fl == r.cancel && e.isLoadOf(b, s, tr.ttl) {
					cancelled = true
				}
			}
		}
		absent := false
		for fc := o.st.facts; fc != nil; fc = fc.up {
			a := fc.atom
			if fc.pol && a.op == "eq" && (a.args[0].isNil() || a.args[1].isNil()) && mentionsField(a, tr.ttl) {
				absent = true
			}
			// a flag: CompareAndSwap(flag,1,0) failed, or Load(flag) is zero
			walkTerm(a, func(x *Term) bool {
				if x.op == "call" && len(x.args) > 0 && x.args[0].op == "fieldaddr" && x.args[0].args[0] == s && strings.Contains(x.aux, "atomic.") {
					flags[x.args[0].aux] = true
					if strings.Contains(x.aux, "CompareAndSwap") && x == a && !fc.pol && len(x.args) == 3 {
						if k, ok := x.args[1].constInt(); ok && k == 1 {
							absent = true
						}
					}
					if strings.Contains(x.aux, "Load") || strings.Contains(x.aux, "Swap#") {
						if v, k := e.decide(o.st.facts, e.ts.eq(x, e.ts.intc(0))); k && v {
							absent = true
						}
						if v, k := e.decide(o.st.facts, e.ts.eq(x, e.ts.intc(1))); k && !v {
							absent = true
						}
					}
				}
				return false
			})
			if b, fl, ok := fieldLoad(a); ok && b == s && !fc.pol {
				flags[fl] = true
				absent = true
			}
		}
		if cancelled {
			// the next time-to-live must not go to the worker just ended
			free, seen := false, false
			for _, ev := range flatten(o.st.events) {
				if ev.kind == "store" && ev.addr.op == "fieldaddr" && ev.addr.args[0] == s && (ev.addr.aux == tr.ttl || flags[ev.addr.aux]) {
					seen = true
					free = free || isZeroTerm(ev.Event.val) || isNilT(ev.Event.val)
				}
				if ev.kind == "call" && len(ev.args) > 1 && ev.args[0].op == "fieldaddr" && ev.args[0].args[0] == s && strings.Contains(ev.name, "atomic.") {
					last := ev.args[len(ev.args)-1]
					if !last.isConst() {
						seen = true
						free = free || !isPlain(last)
						continue
					}
					if !isZeroTerm(last) {
						continue
					}
					if strings.Contains(ev.name, "CompareAndSwap") {
						if pol, ok := o.st.facts.get(ev.res); ok && pol {
							free = true
						}
					} else if strings.Contains(ev.name, "Store") || strings.Contains(ev.name, "Swap") {
						free = true
					}
				}
			}
			_ = seen
			if free {
				c.ok("ttl-close")
			} else {
				c.bad("ttl-close", name, f.Pos(), "after closing, the next time-to-live would be handed to the worker that was ended")
			}
		}
		switch {
		case cancelled:
			c.ok("ttl-close")
		case absent:
			c.ok("ttl-close")
		default:
			c.bad("ttl-close", name, f.Pos(), "a path leaves the worker running")
		}
	}
	return flags
}

func (c *Ctx) ttlRegister(f *ssa.Function, n *types.Named, nm string, r *ttlRoles, tr *trieRoles, flags map[string]bool, workers map[*ssa.Function]bool) {
	w := c.w
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	outs := e.Analyze(f)
	if e.over {
		c.und("ttl-register", name, "analysis gave up")
		return
	}
	var ps []*Term
	for i, p := range f.Params {
		ps = append(ps, e.ts.mk("param", pname(p, i), p.Type()))
	}
	var dur, cb, tree *Term
	for i, p := range f.Params {
		if p.Type().String() == "time.Duration" {
			dur = ps[i]
		} else if _, ok := p.Type().Underlying().(*types.Signature); ok {
			cb = ps[i]
		}
	}
	switch n {
	case w.trieT:
		tree = ps[0]
	case w.storeT:
		tree = e.ts.noEpoch(e.finalField(&Outcome{st: e.newState()}, ps[0], w.storeT, w.storeTrie()))
	default:
		for i, p := range f.Params {
			if i > 0 && p.Type() != dur.typ {
				if _, ok := p.Type().Underlying().(*types.Interface); ok {
					tree = ps[i]
				}
			}
		}
	}
	if dur == nil || cb == nil || tree == nil {
		c.und("ttl-register", name, "parameters not recognised")
		return
	}
	byKey := nm == "SetTTL" && n != w.nodeT
	for _, o := range outs {
		if o.panic {
			continue
		}
		facts := o.st.facts
		evs := flatten(o.st.events)
		var sends []flatEv
		for _, ev := range evs {
			if c.isJobSend(ev.Event, r) {
				sends = append(sends, ev)
			}
		}
		var want *Term
		should := 0
		if byKey {
			l, sure := w.located(e, o)
			if !sure {
				if len(sends) > 0 {
					c.bad("ttl-register", name, f.Pos(), "something is scheduled without looking at the result of the lookup")
				}
				continue
			}
			should = e.exact(o, l)
			if l != nil {
				want = l.child
			}
		} else {
			should = 1
			for fc := facts; fc != nil; fc = fc.up {
				if fc.atom.op == "istype" && !fc.pol {
					should = -1
				}
				if fc.pol && fc.atom.op == "eq" && (fc.atom.args[0].isNil() || fc.atom.args[1].isNil()) && (mentionsT(fc.atom, ps[0]) || mentionsT(fc.atom, ps[1])) && !strings.Contains(brief(fc.atom), ".") {
					should = -1
				}
			}
			if n == w.nodeT {
				want = ps[0]
			} else {
				want = ps[1]
			}
		}
		ret := func() (zero, known bool) {
			if len(o.rets) == 0 {
				return true, false
			}
			return e.decide(facts, e.ts.eq(o.rets[0], e.ts.intc(0)))
		}
		if should == 0 {
			if len(sends) > 0 {
				c.bad("ttl-register", name, f.Pos(), "something is scheduled although the match may be partial or missing")
			} else {
				c.und("ttl-register", name, "the path does not tell whether the key was located")
			}
			continue
		}
		if should < 0 {
			if len(sends) > 0 {
				c.bad("ttl-register", name, sends[0].pos, "something is scheduled although nothing was located")
				continue
			}
			if z, k := ret(); k && z {
				c.bad("ttl-register", name, f.Pos(), "success is reported although nothing was located")
				continue
			}
			c.ok("ttl-register")
			continue
		}
		if len(sends) == 0 {
			// a tree that is no tree of ours
			foreign := false
			for _, ev := range evs {
				if ev.kind == "call" && ev.fn == nil && strings.Contains(ev.name, "SetTTL") {
					foreign = true
				}
			}
			if foreign {
				c.und("ttl-register", name, "handed on to %s", "another tree")
				continue
			}
			c.bad("ttl-register", name, f.Pos(), "a path schedules nothing for a located key")
			continue
		}
		if len(sends) > 1 || sends[0].loop != nil {
			c.bad("ttl-register", name, sends[0].pos, "a time-to-live is scheduled more than once")
			continue
		}
		if z, k := ret(); k && !z {
			c.bad("ttl-register", name, f.Pos(), "failure is reported although the time-to-live was scheduled")
			continue
		}
		sd := sends[0]
		job := sd.args[1]
		jn, jd, ja := e.structField(job, r.job, r.iNode), e.structField(job, r.job, r.iDur), e.structField(job, r.job, r.iAct)
		same := func(a, b *Term) bool { return a == b || e.isSame(a, b) }
		switch {
		case !same(strip(jn), strip(want)) && !(unwrapPayload(jn).op == "assert" && mentionsT(jn, want)):
			c.bad("ttl-register", name, sd.pos, "what is scheduled is %s, not the located node", brief(jn))
			continue
		case jd != dur:
			c.bad("ttl-register", name, sd.pos, "the duration scheduled is %s, not the given one", brief(jd))
			continue
		case ja != cb && !(ja.op == "closure" && mentionsT(ja, cb)):
			c.bad("ttl-register", name, sd.pos, "the callback scheduled is %s, not the given one", brief(ja))
			continue
		}
		if r.jKey != "" {
			jk := e.structField(job, r.job, r.iKey)
			if _, fl, ok := fieldLoad(jk); !(ok && fl == w.roles().key) && isZeroTerm(jk) {
				c.bad("ttl-register", name, sd.pos, "the job does not carry the node's key")
				continue
			}
		}
		if c.workerUp(e, f, name, o, evs, sd, tree, r, tr, flags, workers) {
			c.ok("ttl-register")
		}
	}
}

// workerUp: the channel a job goes to is that of the tree's worker, which runs.
func (c *Ctx) workerUp(e *Engine, f *ssa.Function, name string, o *Outcome, evs []flatEv, sd flatEv, tree *Term, r *ttlRoles, tr *trieRoles, flags map[string]bool, workers map[*ssa.Function]bool) bool {
	w := c.w
	facts := o.st.facts
	ch := sd.args[0]
	// the objects made on this path
	var made *Term
	for _, ev := range evs {
		if ev.kind == "store" && ev.addr.op == "fieldaddr" && ev.addr.aux == r.adder && isAllocOf(ev.addr.args[0], w.ttlT) && ev.Event.val == ch {
			made = ev.addr.args[0]
		}
	}
	if made == nil {
		b, fl, ok := fieldLoad(ch)
		if !ok || fl != r.adder {
			c.und("ttl-register", name, "the job goes to %s", brief(ch))
			return false
		}
		if !e.isLoadOf(b, tree, tr.ttl) {
			if cl := cellOf(b); cl == nil || cl.aux != tr.ttl {
				c.und("ttl-register", name, "the job goes to a worker of %s", brief(b))
				return false
			}
		}
		// must be known to exist
		for fc := facts; fc != nil; fc = fc.up {
			a := fc.atom
			if !fc.pol && a.op == "eq" && (a.args[0].isNil() || a.args[1].isNil()) && mentionsField(a, tr.ttl) {
				return true
			}
			if !fc.pol && a.op == "call" && strings.Contains(a.aux, "CompareAndSwap") && len(a.args) == 3 && a.args[0].op == "fieldaddr" && flags[a.args[0].aux] {
				return true
			}
			if x := a; x.op == "eq" && (x.args[0].op == "call" && strings.Contains(x.args[0].aux, "atomic.") || x.args[1].op == "call" && strings.Contains(x.args[1].aux, "atomic.")) {
				return true
			}
		}
		c.bad("ttl-register", name, sd.pos, "a job is handed to a worker that may not exist")
		return false
	}
	// a new worker: it must be the tree's own, run, and be closable
	own, run := false, false
	setFlag := len(flags) == 0
	var runPos int
	var done, cancel, tv *Term
	for _, ev := range evs {
		switch ev.kind {
		case "store":
			if ev.addr.op == "fieldaddr" && ev.addr.aux == tr.ttl && ev.Event.val == made && e.ts.noEpoch(ev.addr.args[0]) == e.ts.noEpoch(tree) {
				own = true
			}
			if ev.addr.op == "fieldaddr" && ev.addr.args[0] == made {
				switch ev.addr.aux {
				case r.done:
					done = ev.Event.val
				case r.cancel:
					cancel = ev.Event.val
				case r.tree:
					tv = ev.Event.val
				}
			}
			if ev.addr.op == "fieldaddr" && flags[ev.addr.aux] && !isZeroTerm(ev.Event.val) {
				setFlag = true
			}
		case "go":
			for _, a := range ev.args {
				if a == made && ev.fn != nil && ev.n < sd.n {
					run = true
					runPos = ev.n
					workers[ev.fn] = true
				}
			}
			if ev.fn != nil && !run && ev.Event.val != nil && ev.Event.val.op == "closure" && mentionsT(ev.Event.val, made) && ev.n < sd.n {
				run = true
				workers[ev.fn] = true
			}
		case "call":
			if len(ev.args) > 0 && ev.args[0].op == "fieldaddr" && flags[ev.args[0].aux] {
				switch {
				case strings.Contains(ev.name, "CompareAndSwap") && len(ev.args) == 3:
					if k, ok := ev.args[2].constInt(); ok && k != 0 {
						if pol, ok := facts.get(ev.res); ok && pol {
							setFlag = true
						}
					}
				case strings.Contains(ev.name, "Store") || strings.Contains(ev.name, "Swap"):
					if k, ok := ev.args[len(ev.args)-1].constInt(); ok && k != 0 {
						setFlag = true
					}
				}
			}
		}
	}
	_ = runPos
	if tv != nil {
		w.ttlTrees = 0
		if tv.op == "vec" {
			w.ttlTrees = len(tv.args)
		}
	}
	switch {
	case !run:
		c.bad("ttl-register", name, sd.pos, "a job is handed to a worker that does not run")
	case !own:
		c.bad("ttl-register", name, sd.pos, "the worker started is not kept by the tree: closing does not reach it")
	case !setFlag:
		c.bad("ttl-register", name, sd.pos, "the worker started is not marked as present: closing does not reach it")
	case tv == nil || !mentionsT(tv, tree) && !mentionsT(e.ts.noEpoch(tv), tree):
		c.bad("ttl-worker", name, sd.pos, "the worker started does not know the tree")
	case done == nil || cancel == nil:
		c.bad("ttl-close", name, sd.pos, "the worker started cannot be ended")
	default:
		// both from one context
		var ctx1, ctx2 *Term
		walkTerm(done, func(x *Term) bool {
			if x.op == "call" && strings.Contains(x.aux, "Context).Done") {
				ctx1 = x.args[0]
			}
			return false
		})
		ctx2 = cancel
		if ctx1 != nil && ctx1.op == "call" && (strings.Contains(ctx1.aux, "context.Background") || strings.Contains(ctx1.aux, "context.TODO")) {
			c.bad("ttl-close", name, sd.pos, "the worker waits for %s, which closing does not end", brief(done))
			return false
		}
		if ctx1 == nil || ctx1.op != "res" || ctx2.op != "res" || ctx2.aux != "1" {
			c.und("ttl-close", name, "how the worker is ended is not recognised")
			return true
		}
		if ctx1.args[0] != ctx2.args[0] || ctx1.aux != "0" {
			c.bad("ttl-close", name, sd.pos, "the worker waits for %s, which closing does not end", brief(done))
			return false
		}
		c.ok("ttl-close")
		return true
	}
	return false
}

// recvChan classifies the channel of a receive: "done", "adder", "timer" or "".
func (e *Engine) recvChan(ch *Term, r *ttlRoles) string {
	if _, fl, ok := fieldLoad(ch); ok {
		switch fl {
		case r.done:
			return "done"
		case r.adder:
			return "adder"
		case "C":
			return "timer"
		}
	}
	if cl := cellOf(ch); cl != nil {
		switch cl.aux {
		case r.done:
			return "done"
		case r.adder:
			return "adder"
		}
	}
	if ch.op == "call" && strings.Contains(ch.aux, "time.After") {
		return "timer"
	}
	return ""
}

func (c *Ctx) ttlWorker(f *ssa.Function, r *ttlRoles, expiry map[*ssa.Function]bool) {
	w := c.w
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	var args, fv []*Term
	for i, p := range f.Params {
		args = append(args, e.ts.mk("param", pname(p, i), p.Type()))
	}
	for i, p := range f.FreeVars {
		fv = append(fv, e.ts.mk("param", "bound"+string(rune('0'+i)), p.Type()))
	}
	outs := e.AnalyzeWith(f, args, fv)
	if e.over {
		c.und("ttl-worker", name, "analysis gave up")
		return
	}
	if len(outs) == 0 {
		c.bad("ttl-worker", name, f.Pos(), "the worker never ends, not even when the tree is closed")
		return
	}
	nloop := 0
	for _, o := range outs {
		if o.panic {
			continue
		}
		last := ""
		for _, ev := range o.st.events {
			if ev.kind == "recv" {
				last = e.recvChan(ev.args[0], r)
			}
		}
		if last != "done" {
			closed := false
			for fc := o.st.facts; fc != nil; fc = fc.up {
				if fc.atom.op == "recvok" && !fc.pol {
					closed = true
				}
			}
			if closed {
				c.und("ttl-worker", name, "ends when a channel is closed")
			} else {
				c.bad("ttl-worker", name, f.Pos(), "the worker ends although the tree is not closed")
			}
			continue
		}
		for _, ev := range o.st.events {
			if ev.kind == "loop" {
				nloop++
				c.ttlBodies(e, f, name, ev.loop, r, expiry)
			}
		}
	}
	if nloop == 0 {
		c.bad("ttl-worker", name, f.Pos(), "the worker handles no jobs, or only one")
	}
}

func (c *Ctx) ttlBodies(e *Engine, f *ssa.Function, name string, l *LoopEv, r *ttlRoles, expiry map[*ssa.Function]bool) {
	for _, b := range l.bodies {
		var rcv *Event
		var recvT *Term
		dn := false
		for _, ev := range b.events {
			if ev.kind == "recv" {
				switch e.recvChan(ev.args[0], r) {
				case "adder":
					rcv = ev
				case "done":
					dn = true
				}
			}
		}
		if dn && rcv == nil {
			c.bad("ttl-worker", name, f.Pos(), "the worker goes on after the tree was closed")
			return
		}
		if rcv == nil {
			continue
		}
		// the received job
		find := func(t *Term) {
			walkTerm(t, func(x *Term) bool {
				if x.op == "recv" && len(x.args) == 1 && x.args[0] == rcv.args[0] {
					recvT = x
					return true
				}
				return false
			})
		}
		if rcv.res != nil {
			recvT = rcv.res
		}
		for _, ev := range b.events {
			if recvT != nil {
				break
			}
			for _, a := range ev.args {
				find(a)
			}
			if ev.val != nil {
				find(ev.val)
			}
		}
		if recvT == nil {
			c.bad("ttl-worker", name, rcv.pos, "a job that is received is not handled")
			return
		}
		fld := func(i int) *Term { return e.fieldOf(recvT, r.job, i, r.job.Field(i).Type()) }
		dur := fld(r.iDur)
		short := false
		for fc := b.facts; fc != nil && fc != l.entry; fc = fc.up {
			a := fc.atom
			if a.op == "lt" && fc.pol && a.args[0] == dur {
				if k, ok := a.args[1].constInt(); ok && k <= 200 {
					short = true
				}
			}
			if a.op == "lt" && !fc.pol && a.args[1] == dur {
				if k, ok := a.args[0].constInt(); ok && k < 200 {
					short = true
				}
			}
			if a.op == "eq" && fc.pol && (a.args[0] == dur || a.args[1] == dur) {
				short = true
			}
			if fc.pol && a.op == "eq" && (a.args[0].isNil() || a.args[1].isNil()) && (mentionsT(a, fld(r.iNode))) {
				short = true
			}
			if a.op == "recvok" && !fc.pol {
				short = true
			}
		}
		var gos []*Event
		var after *Event
		for _, ev := range b.events {
			if ev.kind == "go" && ev.fn != nil {
				gos = append(gos, ev)
			}
			if isCall(ev, "time.AfterFunc") {
				after = ev
			}
		}
		if after != nil {
			c.und("ttl-worker", name, "jobs are timed with AfterFunc")
			continue
		}
		if len(gos) == 0 {
			inline := false
			for _, ev := range b.events {
				if ev.kind == "recv" && e.recvChan(ev.args[0], r) == "timer" {
					inline = true
				}
			}
			if inline {
				c.bad("ttl-worker", name, rcv.pos, "the worker waits for one job to expire before it takes the next")
				return
			}
			if short {
				c.ok("ttl-worker")
				continue
			}
			c.bad("ttl-worker", name, rcv.pos, "a job with a duration worth timing is dropped")
			return
		}
		lo, about := int64(-1)<<62, false
		for fc := b.facts; fc != nil && fc != l.entry; fc = fc.up {
			a := fc.atom
			if a.op != "lt" {
				continue
			}
			if k, ok := a.args[1].constInt(); ok && a.args[0] == dur {
				about = true
				if !fc.pol && k > lo {
					lo = k
				}
			}
			if k, ok := a.args[0].constInt(); ok && a.args[1] == dur {
				about = true
				if fc.pol && k+1 > lo {
					lo = k + 1
				}
			}
		}
		if lo < 200 {
			if about {
				c.bad("ttl-worker", name, gos[0].pos, "a duration under 200 ns, which is to be ignored, is timed")
				return
			}
			c.und("ttl-worker", name, "where short durations are ignored")
		}
		if len(gos) > 1 {
			c.bad("ttl-worker", name, gos[1].pos, "a job is timed twice")
			return
		}
		g := gos[0]
		// what the goroutine gets: the job and a timer of its duration
		timed, whole := false, false
		look := append([]*Term{}, g.args...)
		if g.val != nil {
			look = append(look, g.val.args...)
			for _, a := range g.val.args { // captured variables
				if a.op == "alloc" {
					if v := b.heap[a.id]; v != nil {
						look = append(look, v)
					}
				}
			}
		}
		wrong := ""
		for _, a := range look {
			walkTerm(a, func(x *Term) bool {
				if x.op == "call" && (strings.Contains(x.aux, "time.NewTimer") || strings.Contains(x.aux, "time.After")) && len(x.args) == 1 {
					if x.args[0] == dur {
						timed = true
					} else {
						wrong = brief(x.args[0])
					}
					return true
				}
				return false
			})
			if a == recvT {
				whole = true
			}
			if a.op == "struct" && len(a.args) == r.job.NumFields() {
				whole = true
				for i, x := range a.args {
					if x != fld(i) {
						whole = false
						wrong = r.job.Field(i).Name() + " " + brief(x)
					}
				}
			}
		}
		switch {
		case wrong != "" && !(timed && whole):
			c.bad("ttl-worker", name, g.pos, "a job is timed with %s instead of its own", wrong)
			return
		case !whole:
			c.und("ttl-worker", name, "what the timing goroutine gets is not recognised")
		default:
			c.ok("ttl-worker")
			if !timed {
				c.und("ttl-worker", name, "no timer is made here")
			}
		}
		expiry[g.fn] = true
	}
}

func (c *Ctx) ttlExpire(f *ssa.Function, r *ttlRoles) {
	w := c.w
	nr := w.roles()
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	old := e.opaque
	e.opaque = func(g *ssa.Function) bool {
		return old(g) || (isRecvOf(g, w.trieT) || isRecvOf(g, w.nodeT)) && g.Object() != nil && g.Object().Exported()
	}
	var args, fv []*Term
	var job *Term
	isJob := func(t types.Type) bool { return types.Identical(derefT(t).Underlying(), r.job) }
	for i, p := range f.Params {
		t := e.ts.mk("param", pname(p, i), p.Type())
		args = append(args, t)
		if isJob(p.Type()) {
			job = t
		}
	}
	for i, p := range f.FreeVars {
		t := e.ts.mk("free", "bound"+string(rune('0'+i)), p.Type())
		fv = append(fv, t)
		if isJob(p.Type()) && job == nil {
			job = t
		}
	}
	if job == nil {
		c.und("ttl-expire", name, "no job")
		return
	}
	outs := e.AnalyzeWith(f, args, fv)
	if e.over {
		c.und("ttl-expire", name, "analysis gave up")
		return
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		allEvents(o.st.events, func(ev *Event, _ *LoopEv) {
			for _, a := range ev.args {
				walkTerm(a, func(x *Term) bool {
					if x.op == "idxaddr" && w.ttlTrees == 1 {
						if _, fl, ok := fieldLoad(e.ts.noEpoch(x.args[0])); ok && fl == r.tree {
							if k, ok := x.args[1].constInt(); ok && k > 0 {
								c.bad("ttl-expire", name, ev.pos, "the worker looks for a tree it does not have")
							}
						}
					}
					return false
				})
			}
		})
	}
	leaf := w.flagBit("IsLeaf")
	jfield := func(t *Term, i int) bool {
		want := r.job.Field(i).Name()
		if t.op == "field" && t.aux == want && (t.args[0] == job || mentionsT(t.args[0], job)) {
			return true
		}
		if b, fl, ok := fieldLoad(t); ok && fl == want && mentionsT(b, job) {
			return true
		}
		return e.fieldOf(job, r.job, i, r.job.Field(i).Type()) == t
	}
	waits, fires := false, false
	for _, o := range outs {
		if o.panic {
			continue
		}
		facts := o.st.facts
		evs := flatten(o.st.events)
		state := ""
		var acts, rems, empt []flatEv
		var otherW string
		early := false
		for _, ev := range evs {
			if ev.kind == "recv" {
				if k := e.recvChan(ev.args[0], r); k != "" {
					state = k
					if k == "timer" {
						// a timer made here must have the job's duration
						walkTerm(ev.args[0], func(x *Term) bool {
							if x.op == "call" && len(x.args) == 1 && (strings.Contains(x.aux, "time.NewTimer") || strings.Contains(x.aux, "time.After")) && !jfield(x.args[0], r.iDur) {
								c.bad("ttl-worker", name, ev.pos, "a job is timed with %s instead of its own duration", brief(x.args[0]))
								return true
							}
							return false
						})
					}
				}
				continue
			}
			eff := false
			switch {
			case ev.kind == "call" && ev.val != nil && jfield(ev.val, r.iAct):
				acts = append(acts, ev)
				eff = true
			case ev.kind == "call" && ev.fn != nil && isRecvOf(ev.fn, w.trieT) && (ev.fn.Name() == "Remove" || ev.fn.Name() == "RemoveEx"):
				rems = append(rems, ev)
				eff = true
			case ev.kind == "call" && ev.fn != nil && isRecvOf(ev.fn, w.nodeT) && ev.fn.Name() == "SetEmpty":
				empt = append(empt, ev)
				eff = true
			case ev.kind == "call" && ev.fn != nil && w.inWorkspace(ev.fn) && !w.isLookupOp(ev.fn) && w.writesTree(ev.fn):
				otherW = ev.fn.Name()
			case ev.kind == "call" && ev.fn != nil && isRecvOf(ev.fn, w.nodeT) && strings.HasPrefix(ev.fn.Name(), "Set"):
				otherW = ev.fn.Name()
			case ev.kind == "go":
				otherW = "another goroutine"
			}
			if eff && state == "" {
				early = true
			}
		}
		n := len(acts) + len(rems) + len(empt)
		if otherW != "" {
			c.und("ttl-expire", name, "uses %s", otherW)
			continue
		}
		if early {
			c.bad("ttl-expire", name, f.Pos(), "a job takes effect before its time")
			continue
		}
		switch state {
		case "done":
			waits = true
			if n > 0 {
				c.bad("ttl-expire", name, f.Pos(), "a job takes effect although the tree was closed")
			} else {
				c.ok("ttl-expire")
			}
			continue
		case "timer":
			fires = true
		default:
			if n > 0 {
				c.bad("ttl-expire", name, f.Pos(), "a job takes effect without waiting for its timer")
			} else {
				c.und("ttl-expire", name, "a path neither waits for the timer nor for the end")
			}
			continue
		}
		// the key's current node
		isCur := func(t *Term) bool { return jfield(strip(unwrapPayload(t)), r.iNode) }
		looks := w.lookups(e, o)
		if len(looks) > 0 {
			l := looks[len(looks)-1]
			lc, sure := w.located(e, o)
			if lc != nil {
				l = lc
			}
			if sure && lc == nil {
				if n > 0 {
					c.bad("ttl-expire", name, f.Pos(), "a job takes effect although its key is gone")
				} else {
					c.ok("ttl-expire")
				}
				continue
			}
			// the node found carries the job's key
			carries := 0
			for fc := facts; fc != nil; fc = fc.up {
				if fc.atom.op == "eq" {
					x, y := fc.atom.args[0], fc.atom.args[1]
					if jfield(x, r.iKey) && e.isLoadOf(y, l.child, nr.key) || jfield(y, r.iKey) && e.isLoadOf(x, l.child, nr.key) {
						if carries = -1; fc.pol {
							carries = 1
						}
					}
				}
			}
			wi := w.wordParam(l.ev.fn)
			if wi < len(l.ev.args) && r.jKey != "" {
				wd := l.ev.args[wi]
				ok := walkTerm(wd, func(x *Term) bool { return jfield(x, r.iKey) })
				if !ok && walkTerm(wd, func(x *Term) bool {
					b, fl, isl := fieldLoad(x)
					return isl && fl == nr.key && jfield(b, r.iNode)
				}) {
					c.bad("ttl-expire", name, l.ev.pos, "the key looked up at expiry is the one the node holds by now, not the job's")
					continue
				}
				if !ok && carries <= 0 && n > 0 {
					c.bad("ttl-expire", name, l.ev.pos, "the key looked up at expiry is %s, not the job's key", brief(wd))
					continue
				}
			}
			if carries < 0 && n == 0 {
				c.ok("ttl-expire")
				continue
			}
			ex := e.exact(o, l)
			if ex < 0 {
				if n > 0 {
					c.bad("ttl-expire", name, f.Pos(), "a job takes effect although its key is gone")
				} else {
					c.ok("ttl-expire")
				}
				continue
			}
			if ex == 0 {
				c.bad("ttl-expire", name, l.ev.pos, "the key is looked up again at expiry without testing the result")
				continue
			}
			isCur = func(t *Term) bool { return strip(unwrapPayload(t)) == l.child }
		} else if r.jKey != "" {
			same := false
			for fc := facts; fc != nil; fc = fc.up {
				if fc.pol && fc.atom.op == "eq" {
					x, y := fc.atom.args[0], fc.atom.args[1]
					_, f1, ok1 := fieldLoad(x)
					_, f2, ok2 := fieldLoad(y)
					if jfield(x, r.iKey) && ok2 && f2 == nr.key || jfield(y, r.iKey) && ok1 && f1 == nr.key {
						same = true
					}
				}
			}
			if !same {
				if n > 0 {
					c.bad("ttl-expire", name, f.Pos(), "the node scheduled is ended although it may hold another key by now")
				} else {
					c.bad("ttl-expire", name, f.Pos(), "an expired job has no effect on some path")
				}
				continue
			}
		}
		// callback
		actNil := 0
		for fc := facts; fc != nil; fc = fc.up {
			a := fc.atom
			if a.op == "eq" && (a.args[0].isNil() && jfield(a.args[1], r.iAct) || a.args[1].isNil() && jfield(a.args[0], r.iAct)) {
				actNil = -1
				if fc.pol {
					actNil = 1
				}
			}
		}
		switch {
		case actNil == 0 && len(acts) > 0:
			c.bad("ttl-expire", name, acts[0].pos, "the callback is called without testing that there is one")
			continue
		case actNil <= 0 && len(acts) == 0:
			c.bad("ttl-expire", name, f.Pos(), "the callback is not called when a job expires")
			continue
		case len(acts) > 1:
			c.bad("ttl-expire", name, acts[1].pos, "the callback is called more than once")
			continue
		case len(acts) == 1:
			if a := acts[0].args; len(a) == 0 || !isCur(a[len(a)-1]) {
				c.bad("ttl-expire", name, acts[0].pos, "the callback is given %s, not the key's node", brief(a[len(a)-1]))
				continue
			}
		}
		// kind of the node
		branch := 0
		for fc := facts; fc != nil; fc = fc.up {
			a := fc.atom
			if a.op == "eq" {
				for i := 0; i < 2; i++ {
					x, k := a.args[i], a.args[1-i]
					kv, ok := k.constInt()
					if !ok || x.op != "bin" || x.aux != "&" {
						continue
					}
					for j := 0; j < 2; j++ {
						m, ok := x.args[j].constInt()
						b, fl, ok2 := fieldLoad(x.args[1-j])
						if !ok || m != leaf || !ok2 || fl != nr.flags || !isCur(b) {
							continue
						}
						isBr := fc.pol == (kv == 0)
						if branch = -1; isBr {
							branch = 1
						}
					}
				}
			}
			if a.op == "call" && len(a.args) == 1 && isCur(a.args[0]) {
				switch {
				case strings.Contains(a.aux, "IsBranch"):
					if branch = -1; fc.pol {
						branch = 1
					}
				case strings.Contains(a.aux, "IsLeaf"):
					if branch = 1; fc.pol {
						branch = -1
					}
				}
			}
		}
		last := -1
		if len(acts) > 0 {
			last = acts[0].n
		}
		switch {
		case len(rems)+len(empt) == 0:
			c.bad("ttl-expire", name, f.Pos(), "an expired key is neither emptied nor removed on some path")
		case len(rems)+len(empt) > 1:
			c.bad("ttl-expire", name, f.Pos(), "an expired key is both emptied and removed, or twice")
		case branch == 0:
			c.bad("ttl-expire", name, f.Pos(), "an expired key is ended without telling a branch from a leaf")
		case len(rems) == 1 && branch < 0:
			c.bad("ttl-expire", name, rems[0].pos, "an expired leaf is removed instead of emptied")
		case len(empt) == 1 && branch > 0:
			c.bad("ttl-expire", name, empt[0].pos, "an expired branch is emptied instead of removed")
		case len(empt) == 1 && !isCur(empt[0].args[0]):
			c.bad("ttl-expire", name, empt[0].pos, "what is emptied is %s, not the key's node", brief(empt[0].args[0]))
		case len(rems) == 1 && !c.curKey(rems[0].args[1], isCur, nr.key, func(t *Term) bool { return jfield(t, r.iKey) }):
			c.bad("ttl-expire", name, rems[0].pos, "what is removed is %s, not the key's own path", brief(rems[0].args[1]))
		case len(rems) == 1 && !c.plainView(e, o, rems[0].args[0], rems[0].pos, name):
		case len(rems) == 1 && rems[0].n < last || len(empt) == 1 && empt[0].n < last:
			c.bad("ttl-expire", name, f.Pos(), "the callback runs after the key was ended")
		default:
			c.ok("ttl-expire")
		}
	}
	if !waits {
		c.bad("ttl-expire", name, f.Pos(), "a pending job is not ended when the tree is closed")
	}
	if !fires {
		c.bad("ttl-expire", name, f.Pos(), "a job does not wait for its timer")
	}
}

func (c *Ctx) curKey(t *Term, isCur func(*Term) bool, key string, isJobKey func(*Term) bool) bool {
	if b, fl, ok := fieldLoad(t); ok && fl == key && isCur(b) {
		return true
	}
	if t.op == "call" && strings.Contains(t.aux, "Key") && len(t.args) == 1 && isCur(t.args[0]) {
		return true
	}
	return isJobKey(t)
}

// plainView: the receiver adds no prefix to a full key.
func (c *Ctx) plainView(e *Engine, o *Outcome, t *Term, pos token.Pos, name string) bool {
	pf := c.w.trieRoles().prefix
	v := e.finalField(o, t, c.w.trieT, pf)
	if s, ok := v.constStr(); ok {
		if s == "" {
			return true
		}
	} else if jp := e.jpaths(v); len(jp) == 1 && jp[0].known && len(jp[0].parts) == 0 {
		return true
	} else if z, k := e.decide(o.st.facts, e.ts.eq(v, e.ts.strc(""))); k && z {
		return true
	} else if e.ts.noEpoch(v).op != "load" && cellOf(v) == nil {
		c.und("ttl-expire", name, "prefix %s", brief(v))
		return false
	}
	c.bad("ttl-expire", name, pos, "the full key is removed through a view that adds its prefix again")
	return false
}
