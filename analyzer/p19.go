package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// goOn: what happens in the goroutine an outcome has started (the last one),
// seen as a continuation of that outcome.
func (e *Engine) goOn(o *Outcome) (outs []*Outcome, started *Event) {
	for _, ev := range o.st.events {
		if ev.kind == "go" {
			started = ev
		}
	}
	if started == nil || started.fn == nil {
		return nil, started
	}
	var fv []*Term
	if started.val != nil && started.val.op == "closure" {
		fv = started.val.args
	}
	return e.AnalyzeFrom(started.fn, started.args, fv, o.st.clone()), started
}

func init() { register("P19", p19) }

// P19: watching a source.
func p19(c *Ctx) {
	w := c.w
	c.rule("watch-start", "a watch is started, once, exactly when watching is enabled; failing to start it is reported")
	c.rule("watch-source", "what is watched is the file, key or key prefix the provider was made for")
	c.rule("watch-event", "every change the source announces reaches the callback once, as a change that carries that very event; every failure reaches it as an error; nothing else does")
	c.rule("watch-end", "a watch ends with its context or source, and closing the provider ends it; what it holds is given back on every way out")
	c.rule("change-next", "a change yields each of its entries once, under its normalised key with its own value, and then the end")
	c.rule("change-op", "the kind of a change is the kind of the event it was made from, and asking for a kind tests that very kind")
	ps := w.libTypes("providers", "Provider")
	if len(ps) == 0 {
		c.und("watch-start", "providers", "none found")
	}
	for _, n := range ps {
		p := &provider{c: c, w: w, n: n, opt: map[string]map[int]string{}, via: map[string]string{}, rk: "change-next"}
		p.st, _ = n.Underlying().(*types.Struct)
		if p.st == nil {
			continue
		}
		p.optFields()
		p.watch()
		p.changes()
	}
}

// posField: the field GetPosition reads.
func (p *provider) posField() (pos string) {
	if g := p.meth("GetPosition"); g != nil {
		e := p.w.viewEngine()
		for _, o := range e.Analyze(g) {
			if len(o.rets) == 1 {
				if _, n, ok := fieldLoad(o.rets[0]); ok {
					pos = n
				}
			}
		}
	}
	return
}

// run is one watch as started on one path of Watch.
type watchRun struct {
	p       *provider
	e       *Engine
	f       *ssa.Function
	name    string
	o       *Outcome // of Watch itself
	outs    []*Outcome
	started *Event
	recv    *Term
	ctx, cb *Term
}

func (p *provider) watch() {
	c, w := p.c, p.w
	f := p.meth("Watch")
	flag := p.field("WithWatchEnabled", 0)
	if f == nil || flag == "" {
		return
	}
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	e.quietGo = true
	outs := e.Analyze(f)
	if e.over {
		c.und("watch-start", name, "analysis gave up")
		return
	}
	r := &watchRun{p: p, e: e, f: f, name: name}
	ps := e.params(f)
	r.recv = ps[0]
	for i, x := range f.Params {
		if _, ok := x.Type().Underlying().(*types.Signature); ok {
			r.cb = ps[i]
		} else if i > 0 {
			r.ctx = ps[i]
		}
	}
	if r.cb == nil || r.ctx == nil {
		c.und("watch-start", name, "parameters not recognised")
		return
	}
	ended := false
	loops := false
	for _, o := range outs {
		if o.panic {
			continue
		}
		evs := flatten(o.st.events)
		starts := 0
		var used *flatEv
		for i, ev := range evs {
			if ev.kind == "go" {
				starts++
			}
			if ev.kind == "call" && (ev.fn == nil || !w.inWorkspace(ev.fn)) && !(ev.fn != nil && pureExt(ev.fn)) && !strings.Contains(ev.name, "slog") && !strings.Contains(ev.name, "log.") {
				used = &evs[i]
			}
		}
		er := e.retErr(f, o)
		on, kn := boolFieldFact(o.st.facts, flag)
		if kn && !on {
			switch {
			case starts > 0 || used != nil:
				c.bad("watch-start", name, f.Pos(), "something is started although watching is not enabled")
			case er != nil && e.nilState(o.st.facts, er) < 0:
				c.bad("watch-start", name, f.Pos(), "an error is returned although watching is merely not enabled")
			default:
				c.ok("watch-start")
			}
			continue
		}
		if !kn && starts > 0 {
			c.bad("watch-start", name, f.Pos(), "a watch is started whether watching is enabled or not")
			continue
		}
		if starts == 0 {
			if er == nil || e.nilState(o.st.facts, er) == 1 {
				c.bad("watch-start", name, f.Pos(), "success is returned on a path that watches nothing")
				continue
			}
			p.leftOpen(r, o, evs)
			c.ok("watch-start")
			continue
		}
		if starts > 1 {
			c.bad("watch-start", name, f.Pos(), "the watch is started %d times", starts)
			continue
		}
		if er != nil && e.nilState(o.st.facts, er) < 0 && er.op != "call" && er.op != "res" {
			c.bad("watch-start", name, f.Pos(), "an error is returned although the watch was started")
			continue
		}
		if !p.clientKnown(e, o.st.facts, r.recv) {
			c.bad("watch-start", name, f.Pos(), "a watch is started although there may be no client")
			continue
		}
		c.ok("watch-start")
		r.o = o
		r.outs, r.started = e.goOn(o)
		if e.over || len(r.outs) == 0 && (r.started.fn == nil || r.started.fn.Blocks == nil) {
			c.und("watch-event", name, "the goroutine is not recognised")
			continue
		}
		if r.started.fn != nil {
			c.saw(r.started.fn)
		}
		l, end := r.dispatch(evs)
		loops = loops || l
		ended = ended || end
	}
	p.closing(loops, ended)
}

// clientKnown: the embedded client, or what it is made of, is there.
func (p *provider) clientKnown(e *Engine, facts *Fact, recv *Term) bool {
	needs := false
	for i := 0; i < p.st.NumFields(); i++ {
		fl := p.st.Field(i)
		_, ptr := fl.Type().(*types.Pointer)
		needs = needs || fl.Embedded() && ptr
	}
	if !needs {
		return true
	}
	for fc := facts; fc != nil; fc = fc.up {
		if fc.atom.op != "eq" {
			continue
		}
		for k := 0; k < 2; k++ {
			b, n, ok := fieldLoad(fc.atom.args[k])
			if !ok || b != recv || !fc.atom.args[1-k].isNil() {
				continue
			}
			for i := 0; i < p.st.NumFields(); i++ {
				fl := p.st.Field(i)
				if fl.Name() != n {
					continue
				}
				_, ptr := fl.Type().(*types.Pointer)
				if ptr && !fc.pol || fl.Type().String() == "error" && fc.pol {
					return true
				}
			}
		}
	}
	return false
}

// leftOpen: a watcher made on a path that fails afterwards is closed.
func (p *provider) leftOpen(r *watchRun, o *Outcome, evs []flatEv) {
	for _, ev := range evs {
		if !isCall(ev.Event, "fsnotify.NewWatcher", "fsnotify.NewBufferedWatcher") {
			continue
		}
		if e := r.e.errOf(ev.Event); e != nil && r.e.nilState(o.st.facts, e) < 0 {
			continue
		}
		wt := r.e.resOf(ev.Event, 0)
		for _, x := range evs {
			if isCall(x.Event, "Watcher).Close") && len(x.args) > 0 && x.args[0] == wt {
				p.c.ok("watch-end")
				return
			}
		}
		p.c.bad("watch-end", r.name, ev.pos, "the watcher stays open when the watch cannot be started")
	}
}

// dispatch by what the watch is built on; ended tells whether a path ends
// because the provider was closed.
func (r *watchRun) dispatch(evs []flatEv) (flagged, ended bool) {
	for _, ev := range evs {
		if isCall(ev.Event, "fsnotify.NewWatcher", "fsnotify.NewBufferedWatcher") {
			return true, r.files(ev)
		}
		if isCall(ev.Event, "watch.Parse", "watch.ParseExempt") {
			r.plan(evs, ev)
			return
		}
	}
	for _, o := range r.outs {
		var wch *flatEv
		all := flatten(o.st.events)
		for i, ev := range all {
			if ev.kind == "call" && strings.HasSuffix(ev.name, ").Watch") && ev.res != nil {
				if _, ok := ev.res.typ.Underlying().(*types.Chan); ok {
					wch = &all[i]
				}
			}
		}
		if wch == nil {
			r.p.c.bad("watch-source", r.name, r.f.Pos(), "a started watch asks for nothing")
			continue
		}
		r.channel(o, wch)
	}
	return
}

// path of the goroutine: one iteration of its loop, or the way out of it.
type watchPath struct {
	evs   []*Event
	facts *Fact
	cont  bool
}

func (r *watchRun) paths(o *Outcome) (out []watchPath, found bool) {
	var tail []*Event
	var lp *LoopEv
	for i, ev := range o.st.events {
		if ev.kind != "loop" {
			continue
		}
		has := false
		for _, b := range ev.loop.bodies {
			for _, x := range b.events {
				has = has || x.kind == "recv"
			}
		}
		if has {
			lp = ev.loop
			tail = o.st.events[i+1:]
		}
	}
	if lp == nil {
		// a loop no iteration of which comes round again
		for i, ev := range o.st.events {
			if ev.kind == "go" {
				tail = o.st.events[i+1:]
			}
		}
		return []watchPath{{tail, o.st.facts, false}}, false
	}
	for _, b := range lp.bodies {
		out = append(out, watchPath{b.events, b.facts, true})
	}
	return append(out, watchPath{tail, o.st.facts, false}), true
}

func (x *watchPath) received() *Event {
	var out *Event
	for _, ev := range x.evs {
		if ev.kind == "recv" && len(ev.args) > 0 {
			out = ev
		}
	}
	return out
}

func (x *watchPath) open(ch *Term) (pol, known bool) {
	for f := x.facts; f != nil; f = f.up {
		if f.atom.op == "recvok" && len(f.atom.args) == 1 && f.atom.args[0] == ch {
			return f.pol, true
		}
	}
	return
}

func isDone(ch, ctx *Term) bool {
	return ch.op == "call" && strings.HasSuffix(callName(ch), ".Done") && len(ch.args) == 1 && ch.args[0] == ctx
}

func (r *watchRun) called(evs []*Event) (out []*Event) {
	for _, ev := range evs {
		if ev.kind == "call" && ev.val == r.cb {
			out = append(out, ev)
		}
	}
	return
}

func (r *watchRun) inLoops(evs []*Event) bool {
	in := false
	for _, ev := range evs {
		if ev.kind == "loop" {
			for _, b := range ev.loop.bodies {
				for _, fe := range flatten(b.events) {
					in = in || fe.kind == "call" && fe.Event.val == r.cb
				}
			}
		}
	}
	return in
}

// files: a watch built on file system events.
func (r *watchRun) files(nw flatEv) (ended bool) {
	c, e, p := r.p.c, r.e, r.p
	wt := e.resOf(nw.Event, 0)
	pos := r.f.Pos()
	// a text field of the provider: the file's name
	named := func(t *Term) bool {
		return walkTerm(t, func(x *Term) bool {
			a := x
			if b, _, ok := fieldLoad(x); ok {
				return b == r.recv && isStrT(x.typ)
			}
			if (x.op == "loopvar" || x.op == "out") && len(x.args) == 1 {
				a = x.args[0]
				return a.op == "fieldaddr" && a.args[0] == r.recv && isStrT(x.typ)
			}
			return false
		})
	}
	resolved := func(t *Term) bool {
		return findCall(t, func(n string, _ *Term) bool { return strings.HasSuffix(n, "EvalSymlinks") }) != nil
	}
	for _, o := range r.outs {
		if o.panic {
			continue
		}
		evs := flatten(o.st.events)
		// what is watched
		added := false
		for _, ev := range evs {
			if !isCall(ev.Event, "Watcher).Add", "Watcher).AddWith") || len(ev.args) < 2 || ev.args[0] != wt {
				continue
			}
			added = true
			a := ev.args[1]
			switch {
			case !named(a):
				c.bad("watch-source", r.name, ev.pos, "what is watched (%s) is not the named file's directory", brief(a))
			case resolved(a):
				c.bad("watch-source", r.name, ev.pos, "the directory watched is not that of the named file but of what it links to")
			default:
				c.ok("watch-source")
			}
		}
		if !added {
			c.bad("watch-source", r.name, nw.pos, "nothing is given to the watcher to watch")
		}
		// given back
		closed, marked, unmarked := false, "", false
		taken := true
		for _, ev := range evs {
			if ev.loop != nil || ev.kind != "call" {
				continue
			}
			if isCall(ev.Event, "Watcher).Close") && len(ev.args) > 0 && ev.args[0] == wt {
				closed = true
			}
			if !strings.Contains(ev.name, "atomic.") || len(ev.args) < 2 || ev.args[0].op != "fieldaddr" || ev.args[0].args[0] != r.recv {
				continue
			}
			last := ev.args[len(ev.args)-1]
			k, ok := last.constInt()
			if !ok || strings.Contains(ev.name, "Add") {
				continue
			}
			if k != 0 {
				marked, unmarked = ev.args[0].aux, false
				if strings.Contains(ev.name, "CompareAndSwap") {
					v, kn := e.decide(o.st.facts, ev.res)
					if kn && !v {
						marked, taken = "", false
					}
					if !kn {
						c.bad("watch-start", r.name, ev.pos, "a watch runs whether or not there is one already")
					}
				}
			} else if ev.args[0].aux == marked {
				unmarked = true
			}
		}
		for _, ev := range evs {
			if ev.kind == "store" && ev.loop == nil && ev.addr.op == "fieldaddr" && ev.addr.args[0] == r.recv && marked == ev.addr.aux && isZeroTerm(ev.Event.val) {
				unmarked = true
			}
		}
		if !closed {
			c.bad("watch-end", r.name, nw.pos, "the watcher stays open after the watch has ended")
		} else {
			c.ok("watch-end")
		}
		if marked != "" {
			if !unmarked {
				c.bad("watch-end", r.name, pos, "the mark of a running watch (%s) stays set after it has ended", marked)
			} else {
				c.ok("watch-end")
			}
		}
		ps, found := r.paths(o)
		if !found && !taken {
			continue // there is a watch already
		}
		if found && !taken {
			c.bad("watch-start", r.name, pos, "a watch runs although there is one already")
		}
		for _, x := range ps {
			rc := x.received()
			if rc == nil {
				// ended by the mark
				for f := x.facts; f != nil; f = f.up {
					if walkTerm(f.atom, func(y *Term) bool {
						return y.op == "call" && strings.Contains(y.aux, "atomic.Load") && len(y.args) == 1 && y.args[0].op == "fieldaddr" && y.args[0].args[0] == r.recv
					}) {
						ended = ended || !x.cont
					}
				}
				continue
			}
			r.fileEvent(x, rc, wt, named, resolved)
		}
		_ = p
	}
	seen := false
	for _, o := range r.outs {
		ps, _ := r.paths(o)
		for _, x := range ps {
			if rc := x.received(); rc != nil && isDone(rc.args[0], r.ctx) {
				seen = true
			}
		}
	}
	if !seen {
		c.bad("watch-end", r.name, pos, "the watch does not end with its context")
	}
	return
}

const (
	fsCreate = 1 << iota
	fsWrite
	fsRemove
)

func (r *watchRun) fileEvent(x watchPath, rc *Event, wt *Term, named, resolved func(*Term) bool) {
	c, e := r.p.c, r.e
	ch := rc.args[0]
	name := r.p.w.fname(r.started.fn)
	cbs := r.called(x.evs)
	if r.inLoops(x.evs) {
		c.und("watch-event", name, "the callback runs in an inner loop")
		return
	}
	if isDone(ch, r.ctx) {
		if x.cont {
			c.bad("watch-end", name, rc.pos, "the watch goes on after its context has ended")
		} else {
			c.ok("watch-end")
		}
		return
	}
	b, fl, ok := fieldLoad(ch)
	if !ok || b != wt || fl != "Events" && fl != "Errors" {
		return // a channel of another kind
	}
	oneErr := func(what string, is func(*Term) bool) bool {
		if len(cbs) != 1 {
			c.bad("watch-event", name, rc.pos, "%s: the callback runs %d times, not once", what, len(cbs))
			return false
		}
		if er := cbs[0].args[1]; e.nilState(x.facts, er) == 1 {
			c.bad("watch-event", name, cbs[0].pos, "%s, and no error is reported", what)
			return false
		} else if is != nil && !is(er) {
			c.bad("watch-event", name, cbs[0].pos, "%s, and another error is reported", what)
			return false
		}
		c.ok("watch-event")
		return true
	}
	open, known := x.open(ch)
	if !known {
		c.bad("watch-end", name, rc.pos, "whether the source still delivers (%s) is not looked at", fl)
		return
	}
	if !open {
		if x.cont {
			c.bad("watch-end", name, rc.pos, "the watch goes on reading a channel that is closed")
			return
		}
		c.ok("watch-end")
		oneErr("the source has ended", nil)
		return
	}
	isV := func(t *Term) bool {
		return walkTerm(t, func(y *Term) bool { return y.op == "recv" && len(y.args) == 1 && y.args[0] == ch })
	}
	if fl == "Errors" {
		oneErr("the source reports an error", isV)
		return
	}
	evField := func(t *Term, nm string) bool {
		return walkTerm(t, func(y *Term) bool { return y.op == "field" && y.aux == nm && isV(y) })
	}
	var same, before, hit, miss1, miss2 bool
	zero, non := 0, 0
	for f := x.facts; f != nil; f = f.up {
		a := f.atom
		if a.op == "call" && strings.HasSuffix(callName(a), ").Has") && len(a.args) == 2 && isV(a.args[0]) {
			if k, ok := a.args[1].constInt(); ok {
				if f.pol {
					non |= int(k)
				} else {
					zero |= int(k)
				}
			}
			continue
		}
		if len(a.args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			u, v := a.args[i], a.args[1-i]
			if a.op == "eq" && evField(u, "Name") {
				switch {
				case f.pol && (named(v) || resolved(v)):
					hit = true
				case !f.pol && resolved(v):
					miss1 = true
				case !f.pol && named(v):
					miss2 = true
				}
			}
			if a.op == "eq" && f.pol && isV(u) && strings.Contains(brief(u), ".String") {
				same = true
			}
			if a.op == "eq" && u.op == "bin" && u.aux == "&" && len(u.args) == 2 && evField(u, "Op") {
				k, ok := u.args[0].constInt()
				if !ok {
					k, ok = u.args[1].constInt()
				}
				n, okn := v.constInt()
				if ok && okn && (n == 0 || n == k && k&(k-1) == 0) {
					if (n == 0) == f.pol {
						zero |= int(k)
					} else if k&(k-1) == 0 || k == fsCreate|fsWrite {
						non |= int(k)
					}
				}
			}
		}
		if a.op == "lt" && f.pol && findCall(a.args[0], func(n string, _ *Term) bool {
			return strings.HasSuffix(n, "time.Since") || strings.HasSuffix(n, ").Sub")
		}) != nil {
			if k, ok := a.args[1].constInt(); ok && k <= 5_000_000 {
				before = true
			}
		}
	}
	var evalErr *Term
	for _, ev := range x.evs {
		if isCall(ev, "EvalSymlinks") {
			if er := e.errOf(ev); er != nil && e.nilState(x.facts, er) < 0 {
				evalErr = er
			}
		}
	}
	none := func(what string) {
		if len(cbs) > 0 {
			c.bad("watch-event", name, cbs[0].pos, "the callback runs although %s", what)
		} else {
			c.ok("watch-event")
		}
	}
	switch {
	case same && before && len(cbs) == 0:
		c.ok("watch-event") // the same event again, within milliseconds
	case !hit && miss1 && miss2:
		none("the event is about another file")
	case !hit:
		if len(cbs) > 0 {
			c.bad("watch-event", name, cbs[0].pos, "the callback runs for events of any file")
		} else if zero&7 == 7 {
			c.ok("watch-event")
		} else {
			c.bad("watch-event", name, rc.pos, "an event is dropped before its file was compared with the file watched, by name and by what it links to")
		}
	case non&fsRemove != 0 && non&3 == 0:
		oneErr("the file was removed", nil)
	case evalErr != nil:
		oneErr("the file is not there any more", func(t *Term) bool { return t == evalErr || mentionsT(t, evalErr) })
	case zero&3 == 3:
		none("the file was neither created nor written")
	case non&3 != 0:
		if len(cbs) != 1 {
			c.bad("watch-event", name, rc.pos, "a change of the file is announced %d times, not once", len(cbs))
		} else if e.nilState(x.facts, cbs[0].args[1]) != 1 || e.nilState(x.facts, cbs[0].args[0]) == 1 {
			c.bad("watch-event", name, cbs[0].pos, "a change of the file is not announced as a change")
		} else {
			c.ok("watch-event")
		}
	case len(cbs) == 0:
		c.bad("watch-event", name, rc.pos, "an event of the file watched is dropped")
	default:
		c.bad("watch-event", name, cbs[0].pos, "an event is announced whatever happened to the file")
	}
	if !x.cont && len(cbs) == 0 && evalErr == nil && non&fsRemove == 0 {
		c.bad("watch-end", name, rc.pos, "the watch ends although nothing has failed")
	}
	if len(cbs) == 1 && non&3 != 0 && evalErr == nil && e.nilState(x.facts, cbs[0].args[1]) == 1 {
		knows := func(t *Term) bool { return t != nil && (named(t) || resolved(t)) }
		carries := knows(cbs[0].args[0])
		for _, ev := range x.evs {
			if ev == cbs[0] {
				break
			}
			if ev.kind == "store" && ev.addr.op == "fieldaddr" && knows(ev.val) {
				carries = true
			}
			if ev.kind == "call" && walkAny(ev.args, knows) && ev.fn != nil && r.p.w.inWorkspace(ev.fn) {
				carries = true
			}
		}
		if carries {
			c.ok("watch-event")
		} else {
			c.bad("watch-event", name, cbs[0].pos, "the change announced does not say which file it is about")
		}
	}
	if x.cont && len(cbs) > 0 && non&3 != 0 {
		c.ok("watch-end")
	} else if !x.cont && non&3 != 0 && evalErr == nil && non&fsRemove == 0 && len(cbs) == 1 {
		c.bad("watch-end", name, rc.pos, "the watch ends after the first change")
	}
}

// channel: a watch that delivers responses with lists of events.
func (r *watchRun) channel(o *Outcome, wch *flatEv) {
	c, e, p := r.p.c, r.e, r.p
	if o.panic {
		return
	}
	name := r.p.w.fname(r.started.fn)
	okCtx, okPos := false, false
	posF := p.posField()
	for _, a := range wch.args {
		okCtx = okCtx || a == r.ctx || mentionsT(a, r.ctx)
		okPos = okPos || posF != "" && fieldIs(a, posF)
	}
	if !okPos {
		c.bad("watch-source", r.name, wch.pos, "what is watched is not the position the provider was made for")
	} else {
		c.ok("watch-source")
	}
	if rec := p.field("WithRecursive", 0); rec != "" {
		on, kn := boolFieldFact(o.st.facts, rec)
		all := walkAny(wch.args, func(x *Term) bool { return x.op == "call" && strings.HasSuffix(callName(x), "WithPrefix") })
		if !kn || on != all {
			c.bad("watch-source", r.name, wch.pos, "watching one key or all below it does not follow the option given")
		} else {
			c.ok("watch-source")
		}
	}
	if !okCtx {
		c.bad("watch-end", r.name, wch.pos, "the watch is not bound to the caller's context")
	}
	ch := wch.res
	ps, found := r.paths(o)
	if !found {
		if len(ps) == 0 || ps[0].received() == nil {
			c.bad("watch-event", name, r.f.Pos(), "the events of the watch are not received")
		}
	}
	for _, x := range ps {
		rc := x.received()
		if rc == nil {
			continue
		}
		got := rc.args[0]
		if isDone(got, r.ctx) {
			if x.cont {
				c.bad("watch-end", name, rc.pos, "the watch goes on after its context has ended")
			} else {
				c.ok("watch-end")
			}
			continue
		}
		if got != ch {
			continue
		}
		open, known := x.open(ch)
		if !known && x.cont {
			c.bad("watch-end", name, rc.pos, "whether the watch still delivers is not looked at")
			continue
		}
		if known && !open {
			if x.cont {
				c.bad("watch-end", name, rc.pos, "the watch goes on reading a channel that is closed")
			} else {
				c.ok("watch-end")
			}
			continue
		}
		isV := func(t *Term) bool {
			return walkTerm(t, func(y *Term) bool { return y.op == "recv" && len(y.args) == 1 && y.args[0] == ch })
		}
		if !x.cont {
			why := false
			for f := x.facts; f != nil; f = f.up {
				why = why || f.atom.op != "recvok" && isV(f.atom) && !mentionsEvents(f.atom)
			}
			if !why {
				c.bad("watch-end", name, rc.pos, "the watch ends after an event")
			}
			continue
		}
		var lp *LoopEv
		var cov cover
		for _, ev := range x.evs {
			if ev.kind == "loop" {
				if cv := e.loopCover(ev.loop); cv.known && isV(wholeOf(&cv)) {
					lp, cov = ev.loop, cv
				}
			}
		}
		if lp == nil {
			if r.inLoops(x.evs) {
				c.und("watch-event", name, "the loop over the events is not recognised")
			} else {
				why := false
				for f := x.facts; f != nil; f = f.up {
					why = why || f.atom.op != "recvok" && isV(f.atom)
				}
				if why {
					c.und("watch-event", name, "a response is not looked into on some condition")
				} else {
					c.bad("watch-event", name, rc.pos, "the events of a response are not announced")
				}
			}
			continue
		}
		if !cov.full {
			c.bad("watch-event", name, rc.pos, "not every event of a response is announced: %s", cov.why)
			continue
		}
		isElem := func(t *Term) bool {
			t = strip(t)
			if t.op != "load" {
				return false
			}
			for _, a := range cov.at {
				if e.ts.noEpoch(t.args[0]) == e.ts.noEpoch(a) {
					return true
				}
			}
			return false
		}
		for _, b := range lp.bodies {
			cbs := r.called(b.events)
			if r.inLoops(b.events) {
				c.und("watch-event", name, "the callback runs in an inner loop")
				continue
			}
			if len(cbs) != 1 {
				c.bad("watch-event", name, rc.pos, "an event is announced %d times, not once", len(cbs))
				continue
			}
			cb := cbs[0]
			if e.nilState(b.facts, cb.args[1]) != 1 {
				c.bad("watch-event", name, cb.pos, "an event is announced with an error")
				continue
			}
			obj := strip(cb.args[0])
			carried := walkTerm(obj, isElem)
			stale := false
			for _, ev := range b.events {
				if ev == cb {
					break
				}
				if ev.kind == "store" && ev.addr.op == "fieldaddr" && ev.addr.args[0] == obj {
					if isElem(ev.val) {
						carried = true
					}
				}
				if ev.kind == "call" && len(ev.args) > 1 && ev.args[0] == obj && isElem(ev.args[1]) {
					carried = true
				}
			}
			if !carried || stale {
				c.bad("watch-event", name, cb.pos, "the change announced does not carry the event received")
				continue
			}
			c.ok("watch-event")
		}
	}
}

func mentionsEvents(t *Term) bool {
	return walkTerm(t, func(y *Term) bool { return y.op == "field" && y.aux == "Events" || y.op == "len" })
}

// closing: Close ends the watch.
func (p *provider) closing(flagged, ended bool) {
	c, w := p.c, p.w
	f := p.meth("Close")
	if f == nil || !declared(f) {
		c.bad("watch-end", p.n.Obj().Pkg().Name(), p.n.Obj().Pos(), "a provider that can be watched cannot be closed")
		return
	}
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	recv := e.params(f)[0]
	if flagged && !ended {
		c.bad("watch-end", name, f.Pos(), "a running watch does not end when the provider is closed")
	}
	for _, o := range e.Analyze(f) {
		if o.panic {
			continue
		}
		done := false
		for _, ev := range flatten(o.st.events) {
			if ev.kind == "go" {
				done = true
			}
			if ev.kind == "store" && ev.addr.op == "fieldaddr" && isZeroTerm(ev.Event.val) {
				done = true
			}
			if ev.kind != "call" {
				continue
			}
			if strings.Contains(ev.name, "atomic.") && len(ev.args) > 1 && ev.args[0].op == "fieldaddr" {
				k, ok := ev.args[len(ev.args)-1].constInt()
				from := int64(1)
				if len(ev.args) == 3 {
					from, _ = ev.args[1].constInt()
				}
				if ok && k == 0 && from == 1 {
					done = true
				}
			}
			if len(ev.args) > 0 && (hasSuffixName(ev.name, ".Close") || hasSuffixName(ev.name, ".Stop")) {
				if _, _, ok := fieldLoad(ev.args[0]); ok && mentionsT(ev.args[0], recv) {
					done = true
					if _, ptr := ev.args[0].typ.Underlying().(*types.Pointer); ptr && e.nilState(ev.facts, ev.args[0]) >= 0 {
						c.bad("watch-end", name, ev.pos, "closing uses what may not have been made")
					}
				}
			}
			if ev.val != nil && len(ev.args) == 0 {
				if b, _, ok := fieldLoad(ev.val); ok && b == recv {
					done = true // a cancel function
				}
			}
		}
		for fc := o.st.facts; fc != nil && !done; fc = fc.up {
			a := fc.atom
			if a.op == "eq" && fc.pol && (a.args[0].isNil() || a.args[1].isNil()) && mentionsT(a, recv) {
				done = true
			}
			if a.op == "call" && fc.pol && strings.HasSuffix(callName(a), "IsStopped") {
				done = true
			}
			if walkTerm(a, func(y *Term) bool {
				return y.op == "call" && (strings.Contains(y.aux, "atomic.Load") || strings.Contains(y.aux, "CompareAndSwap")) && len(y.args) > 0 && y.args[0].op == "fieldaddr"
			}) {
				done = true
			}
		}
		if done {
			c.ok("watch-end")
		} else {
			c.bad("watch-end", name, f.Pos(), "a path through closing leaves the watch running")
		}
	}
}

// plan: a watch that calls a handler.
func (r *watchRun) plan(evs []flatEv, parse flatEv) {
	c, e, p := r.p.c, r.e, r.p
	if er := e.errOf(parse.Event); er != nil && e.nilState(r.o.st.facts, er) < 0 {
		c.bad("watch-start", r.name, parse.pos, "a watch that cannot be made is started")
		return
	}
	pl := e.resOf(parse.Event, 0)
	posF, rec := p.posField(), p.field("WithRecursive", 0)
	on, kn := boolFieldFact(r.o.st.facts, rec)
	m := strip(parse.args[0])
	set := map[string]*Term{}
	kept := false
	var handler *Term
	for _, ev := range evs {
		if ev.n < parse.n && ev.kind == "mapupdate" && ev.addr == m {
			if k, ok := ev.key.constStr(); ok {
				set[k] = strip(ev.Event.val)
			}
		}
		if ev.kind == "store" && ev.addr.op == "fieldaddr" {
			if ev.addr.args[0] == r.recv && ev.Event.val == pl {
				kept = true
			}
			if ev.addr.args[0] == pl && strings.HasSuffix(ev.addr.aux, "Handler") {
				handler = strip(ev.Event.val)
			}
		}
		if ev.kind == "go" && handler == nil {
			break
		}
	}
	if m.op != "makemap" {
		c.und("watch-source", r.name, "the description of the watch is not recognised")
	} else {
		ty, _ := "", false
		if set["type"] != nil {
			ty, _ = set["type"].constStr()
		}
		at := ""
		switch ty {
		case "keyprefix":
			at = "prefix"
		case "key":
			at = "key"
		}
		switch {
		case at == "":
			c.bad("watch-source", r.name, parse.pos, "what kind of watch is started (%s) is neither one of a key nor one of a key prefix", ty)
		case !kn || on != (at == "prefix"):
			c.bad("watch-source", r.name, parse.pos, "watching one key or all below it does not follow the option given")
		case set[at] == nil || !fieldIs(set[at], posF):
			c.bad("watch-source", r.name, parse.pos, "what is watched is not the position the provider was made for")
		default:
			c.ok("watch-source")
		}
	}
	if !kept {
		c.bad("watch-end", r.name, parse.pos, "the watch is not kept anywhere it could be stopped from")
	} else {
		c.ok("watch-end")
	}
	for _, o := range r.outs {
		ran := false
		var rerr *Term
		told := false
		for _, ev := range flatten(o.st.events) {
			if ev.kind == "call" && len(ev.args) > 0 && ev.args[0] == pl && strings.Contains(ev.name, ").Run") {
				ran = true
				rerr = e.errOf(ev.Event)
			}
			if rerr != nil && ev.kind == "call" && ev.Event.val == r.cb && len(ev.args) == 2 && mentionsT(ev.args[1], rerr) {
				told = true
			}
		}
		if rerr != nil && !o.panic {
			if st := e.nilState(o.st.facts, rerr); st == 1 && told {
				c.bad("watch-event", r.name, parse.pos, "the callback is called when the watch merely ended")
			} else if st != 1 && !told {
				c.bad("watch-event", r.name, parse.pos, "that the watch could not run does not reach the callback")
			} else {
				c.ok("watch-event")
			}
		}
		if !ran && !o.panic {
			c.bad("watch-start", r.name, parse.pos, "the watch is made and not run")
		}
	}
	if handler == nil {
		c.bad("watch-event", r.name, parse.pos, "the watch runs without a handler")
		return
	}
	if handler.op != "closure" || handler.fn == nil {
		c.und("watch-event", r.name, "the handler is not recognised")
		return
	}
	r.handler(handler)
}

// a change type: what is announced.
type changeType struct {
	n                     *types.Named
	st                    *types.Struct
	op, count, index, val string
}

func (p *provider) changeTypes() (out []*changeType) {
	sc := p.n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		tn, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		f := p.w.method(n, "Next")
		if !ok || f == nil || f.Signature.Results().Len() != 3 || p.w.method(n, "Has") == nil {
			continue
		}
		ct := &changeType{n: n, st: st}
		for i := 0; i < st.NumFields(); i++ {
			fd := st.Field(i)
			ts := fd.Type().String()
			switch {
			case strings.HasSuffix(ts, "store.Op"):
				ct.op = fd.Name()
			case ts == "int":
				ct.count = fd.Name()
			case ts == "uint64":
				ct.index = fd.Name()
			case ts == "any" || ts == "interface{}":
				ct.val = fd.Name()
			}
		}
		out = append(out, ct)
	}
	return
}

// indexFact: whether an entry is known to be created (modified) by this very change.
func indexFact(facts *Fact, field string, of *Term) (pol, known bool) {
	for f := facts; f != nil; f = f.up {
		a := f.atom
		if a.op != "eq" {
			continue
		}
		if walkTerm(a, func(x *Term) bool {
			b, n, ok := fieldLoad(x)
			return ok && n == field && (of == nil || mentionsT(b, of))
		}) {
			return f.pol, true
		}
	}
	return
}

func (r *watchRun) handler(cl *Term) {
	c, p, w := r.p.c, r.p, r.p.w
	c.saw(cl.fn)
	name := w.fname(cl.fn)
	cts := p.changeTypes()
	if len(cts) != 1 || cts[0].op == "" || cts[0].count == "" || cts[0].index == "" || cts[0].val == "" || len(cl.fn.Params) != 2 {
		c.und("watch-event", name, "the change is not recognised")
		return
	}
	ct := cts[0]
	e := r.e
	st := e.newState()
	var fv []*Term
	for i, v := range cl.fn.FreeVars {
		t := e.ts.mk("param", "bound:"+v.Name(), v.Type())
		fv = append(fv, t)
		if x := r.o.st.heap[cl.args[i].id]; x != nil && (x == r.recv || x == r.cb || x == r.ctx) {
			st.heap[t.id] = x
		}
	}
	ps := e.params(cl.fn)
	val, idx := ps[1], ps[0]
	outs := e.AnalyzeFrom(cl.fn, ps, fv, st)
	if e.over {
		c.und("watch-event", name, "analysis gave up")
		return
	}
	rec := p.field("WithRecursive", 0)
	for _, o := range outs {
		if o.panic {
			continue
		}
		for _, ev := range flatten(o.st.events) {
			if ev.kind == "call" && ev.fn == nil && ev.Event.val != nil && strip(ev.Event.val).isNil() {
				c.bad("watch-event", name, ev.pos, "a function that does not exist is called after a change")
			}
		}
		cbs := r.called(o.st.events)
		if r.inLoops(o.st.events) {
			c.und("watch-event", name, "the callback runs in a loop")
			continue
		}
		if len(cbs) != 1 {
			// nothing announced is fine when nothing was touched
			c.bad("watch-event", name, cl.fn.Pos(), "a change is announced %d times, not once", len(cbs))
			continue
		}
		cb := cbs[0]
		if e.nilState(o.st.facts, cb.args[1]) != 1 {
			c.bad("watch-event", name, cb.pos, "a change is announced with an error")
			continue
		}
		obj := strip(cb.args[0])
		if namedOf(obj.typ) == nil || namedOf(obj.typ).Obj() != ct.n.Obj() {
			c.und("watch-event", name, "what is announced is not recognised")
			continue
		}
		at := func(fl string, end *Event) (v *Term) {
			for _, ev := range o.st.events {
				if ev == end {
					break
				}
				if ev.kind == "store" && ev.addr.op == "fieldaddr" && ev.addr.aux == fl && ev.addr.args[0] == obj {
					v = ev.val
				}
			}
			return
		}
		if at(ct.index, cb) != idx {
			c.bad("watch-event", name, cb.pos, "the change announced does not carry the index received")
			continue
		}
		if v := at(ct.count, cb); v == nil || !isZeroTerm(v) {
			c.bad("change-next", name, cb.pos, "a change is announced that does not start with its first entry")
			continue
		}
		on, kn := boolFieldFact(o.st.facts, rec)
		is, isKn := false, false
		for f := o.st.facts; f != nil; f = f.up {
			if f.atom.op == "istype" && f.atom.args[0] == val {
				is, isKn = f.pol, true
				if f.pol {
					break
				}
			}
		}
		created, ck := indexFact(o.st.facts, "CreateIndex", val)
		modified, mk := indexFact(o.st.facts, "ModifyIndex", val)
		created, modified = created && ck, modified && mk
		op := at(ct.op, cb)
		v := at(ct.val, cb)
		fin := at(ct.val, nil)
		want := func(k int64, what string) bool {
			if op == nil {
				c.bad("change-op", name, cb.pos, "%s, and the kind of the change is not set", what)
				return false
			}
			if n, ok := op.constInt(); !ok || n != k {
				c.bad("change-op", name, cb.pos, "%s, and the kind announced is %s", what, brief(op))
				return false
			}
			c.ok("change-op")
			return true
		}
		next := func() {
			if fin == nil || fin != val {
				c.bad("watch-event", name, cb.pos, "what was received is not kept for the next change to be compared with")
				return
			}
			c.ok("watch-event")
		}
		switch {
		case !isKn || !kn:
			c.und("watch-event", name, "what was received is not looked at")
		case !is && on:
			c.ok("watch-event") // not a list at all
		case !is:
			if want(4, "the key is gone") {
				if v != nil {
					c.bad("watch-event", name, cb.pos, "the key is gone, and what is announced as removed is not what it was")
					continue
				}
				next()
			}
		case created || modified:
			k, what := int64(1), "a key was created"
			if !created {
				k, what = 2, "a key was written"
			}
			if want(k, what) {
				if v != val {
					c.bad("watch-event", name, cb.pos, "the change announced does not carry what was received")
					continue
				}
				next()
			}
		case !on:
			if op == nil || !isZeroTerm(op) {
				c.bad("change-op", name, cb.pos, "nothing happened to the key, and a kind of change is announced")
				continue
			}
			next()
		default:
			inLoop := false
			allLoops(o.st.events, func(l *LoopEv) {
				for _, b := range l.bodies {
					for _, ev := range b.events {
						inLoop = inLoop || ev.kind == "store" && ev.addr.op == "fieldaddr" && ev.addr.aux == ct.op
					}
				}
			})
			if op == nil && inLoop {
				c.und("change-op", name, "the kind of the change is found in a loop")
				continue
			}
			if want(4, "no key was created or written") && r.allSeen(e, o, name, cb, val) && r.removed(e, o, name, cb, obj, ct, v, val) {
				next()
			}
		}
	}
}

// allSeen: before a change is taken for a removal every entry received was
// looked at for having been created or written.
func (r *watchRun) allSeen(e *Engine, o *Outcome, name string, cb *Event, val *Term) bool {
	c := r.p.c
	why, seen := "", false
	allLoops(o.st.events, func(l *LoopEv) {
		l2 := *l
		l2.exits = nil
		cv := e.loopCover(&l2)
		if !cv.known {
			for _, b := range l.bodies {
				for f := b.facts; f != nil && f != l.entry; f = f.up {
					walkTerm(f.atom, func(x *Term) bool {
						if x.op == "idxaddr" && mentionsT(x.args[0], val) && x.args[1].isConst() {
							why = "one entry is looked at again and again"
						}
						return false
					})
				}
			}
		}
		if !cv.known || !mentionsT(wholeOf(&cv), val) {
			return
		}
		looks := false
		for _, b := range l.bodies {
			_, k1 := indexFact(b.facts, "CreateIndex", val)
			_, k2 := indexFact(b.facts, "ModifyIndex", val)
			looks = looks || k1 || k2
		}
		if !looks {
			return
		}
		seen = true
		if !cv.full && why == "" {
			why = cv.why
		}
		for _, b := range l.bodies {
			a, k1 := indexFact(b.facts, "CreateIndex", val)
			m, k2 := indexFact(b.facts, "ModifyIndex", val)
			if a && k1 || m && k2 {
				continue // noted somewhere
			}
			if !k1 || !k2 {
				why = "an entry is passed over"
			}
		}
		done := false
		for f := o.st.facts; f != nil; f = f.up {
			if !f.pol && f.atom.op == "lt" && f.atom.args[1].op == "len" && mentionsT(f.atom.args[1], val) {
				done = true
			}
			if f.pol && f.atom.op == "eq" && f.atom.args[0].op == "len" && isZeroTerm(f.atom.args[1]) && mentionsT(f.atom.args[0], val) {
				done = true
			}
		}
		if !done {
			why = "the search ends early"
		}
	})
	if why != "" {
		c.bad("watch-event", name, cb.pos, "a change is taken for a removal without every entry received being looked at: %s", why)
		return false
	}
	if seen {
		c.ok("watch-event")
	}
	return true
}

// removed: the list announced as removed holds exactly the former entries that
// are not among the present ones.
func (r *watchRun) removed(e *Engine, o *Outcome, name string, cb *Event, obj *Term, ct *changeType, v, val *Term) bool {
	c := r.p.c
	was := func(t *Term) bool {
		return walkTerm(t, func(x *Term) bool { return e.isLoadOf(x, obj, ct.val) })
	}
	if v == nil {
		c.bad("watch-event", name, cb.pos, "what is announced as removed was not worked out")
		return false
	}
	v = strip(v)
	if isNilT(v) {
		for f := o.st.facts; f != nil; f = f.up {
			if f.pol && f.atom.op == "eq" && (f.atom.args[0].isNil() || f.atom.args[1].isNil()) && was(f.atom) || !f.pol && f.atom.op == "istype" && was(f.atom) {
				c.ok("watch-event")
				return true // there was nothing before
			}
		}
	}
	// every present entry was looked at before
	for f := o.st.facts; f != nil; f = f.up {
		if f.atom.op != "eq" || !f.atom.args[0].isNil() && !f.atom.args[1].isNil() || !was(f.atom) {
			continue
		}
		if f.pol {
			c.bad("watch-event", name, cb.pos, "former entries are looked for where there were none")
			return false
		}
		if isNilT(v) {
			c.bad("watch-event", name, cb.pos, "what is announced as removed was not worked out")
			return false
		}
	}
	ok := false
	allLoops(o.st.events, func(l *LoopEv) {
		cv := e.loopCover(l)
		if !cv.known || !was(wholeOf(&cv)) {
			return
		}
		ok = true
		if !cv.full {
			c.bad("watch-event", name, cb.pos, "not every former entry is looked at for a removal: %s", cv.why)
			return
		}
		for _, b := range l.bodies {
			same, app := false, false
			other, more, exhausted, looked := false, false, false, false
			for f := b.facts; f != nil && f != l.entry; f = f.up {
				if !f.pol && f.atom.op == "eq" && walkTerm(f.atom.args[0], isKeyOf) && walkTerm(f.atom.args[1], isKeyOf) {
					other = true
				}
				if f.atom.op != "eq" && walkTerm(f.atom, func(x *Term) bool { return isKeyOf(x) && was(x) }) {
					looked = true // in some other way
				}
				if f.atom.op == "lt" && f.atom.args[1].op == "len" && mentionsT(f.atom.args[1], val) && !was(f.atom.args[1]) {
					more = more || f.pol
					exhausted = exhausted || !f.pol
				}
				if f.atom.op == "eq" && f.atom.args[0].op == "len" && isZeroTerm(f.atom.args[1]) && mentionsT(f.atom.args[0], val) && !was(f.atom.args[0]) {
					more = more || !f.pol
					exhausted = exhausted || f.pol
				}
				if f.pol && f.atom.op == "eq" && walkTerm(f.atom.args[0], isKeyOf) && walkTerm(f.atom.args[1], isKeyOf) && (was(f.atom.args[0]) != was(f.atom.args[1])) {
					same = true
				}
			}
			for _, fe := range flatten(b.events) {
				if fe.kind == "append" {
					for _, a := range fe.args {
						if was(a) {
							app = true
						}
					}
				}
			}
			switch {
			case looked && !same && !other:
				c.und("watch-event", name, "how a removal is found is not recognised")
			case same && app:
				c.bad("watch-event", name, cb.pos, "an entry that is still there is announced as removed")
			case !same && !app:
				c.bad("watch-event", name, cb.pos, "an entry that is gone is not announced as removed")
			case app && other && more && !exhausted:
				c.bad("watch-event", name, cb.pos, "an entry is announced as removed before all present ones were looked at")
			default:
				c.ok("watch-event")
			}
		}
	})
	if !ok {
		c.und("watch-event", name, "how removals are found is not recognised")
	}
	return ok
}

func isKeyOf(x *Term) bool { _, n, ok := fieldLoad(x); return ok && n == "Key" }

// changes: the change types of the provider's package.
func (p *provider) changes() {
	for _, ct := range p.changeTypes() {
		if ct.op == "" || ct.count == "" {
			p.c.und("change-op", ct.n.Obj().Pkg().Name(), "the change is not recognised")
			continue
		}
		p.changeHas(ct)
		p.changeProvider(ct)
		p.changeNext(ct)
		p.changeSet(ct)
	}
}

func nonZero(t *Term) bool { k, ok := t.constInt(); return ok && k != 0 }

// changeProvider: the provider a change reports is the one that announced it.
func (p *provider) changeProvider(ct *changeType) {
	c, w := p.c, p.w
	f := w.method(ct.n, "Provider")
	if f == nil || !declared(f) || len(f.Params) != 1 {
		return
	}
	c.saw(f)
	e := w.viewEngine()
	s := e.params(f)[0]
	fl := ""
	for _, o := range e.Analyze(f) {
		if o.panic || len(o.rets) != 1 {
			continue
		}
		if b, n, ok := fieldLoad(strip(o.rets[0])); ok && b == s {
			fl = n
			c.ok("watch-event")
		} else if strip(o.rets[0]).isNil() {
			c.bad("watch-event", w.fname(f), f.Pos(), "a change does not know the provider it comes from")
		}
	}
	wf := p.meth("Watch")
	if fl == "" || wf == nil {
		return
	}
	e = w.viewEngine()
	e.quietGo = true
	recv := e.params(wf)[0]
	for _, o := range e.Analyze(wf) {
		starts := false
		for _, ev := range o.st.events {
			starts = starts || ev.kind == "go"
		}
		if o.panic || !starts {
			continue
		}
		set := false
		see := func(evs []flatEv) {
			for _, ev := range evs {
				if ev.kind == "store" && ev.Event.val != nil && walkTerm(ev.Event.val, func(x *Term) bool { return x == recv }) {
					set = set || ev.addr.op == "fieldaddr" && ev.addr.aux == fl || isAllocOf(ev.addr, ct.n)
				}
			}
		}
		see(flatten(o.st.events))
		outs, _ := e.goOn(o)
		for _, x := range outs {
			see(flatten(x.st.events))
		}
		if set {
			c.ok("watch-event")
		} else {
			c.bad("watch-event", w.fname(wf), wf.Pos(), "the changes announced do not know the provider they come from")
			return
		}
	}
}

func (p *provider) changeHas(ct *changeType) {
	c, w := p.c, p.w
	if f := w.method(ct.n, "Op"); f != nil && declared(f) {
		c.saw(f)
		e := w.viewEngine()
		s := e.params(f)[0]
		for _, o := range e.Analyze(f) {
			if len(o.rets) == 1 && e.isLoadOf(o.rets[0], s, ct.op) {
				c.ok("change-op")
			} else {
				c.bad("change-op", w.fname(f), f.Pos(), "the kind reported is not that of the change")
			}
		}
	}
	f := w.method(ct.n, "Has")
	if f == nil || !declared(f) {
		return
	}
	c.saw(f)
	e := w.viewEngine()
	ps := e.params(f)
	for _, o := range e.Analyze(f) {
		if o.panic || len(o.rets) != 1 {
			continue
		}
		type lit struct {
			t   *Term
			pol bool
		}
		var ls []lit
		if b, ok := o.rets[0].constBool(); ok {
			for fc := o.st.facts; fc != nil; fc = fc.up {
				ls = append(ls, lit{fc.atom, fc.pol == b})
			}
		} else {
			t, pol := o.rets[0], true
			for t.op == "not" {
				t, pol = t.args[0], !pol
			}
			ls = append(ls, lit{t, pol})
		}
		done := false
		for _, l := range ls {
			and := (*Term)(nil)
			walkTerm(l.t, func(x *Term) bool {
				if x.op == "bin" && x.aux == "&" {
					and = x
				}
				return false
			})
			if and == nil {
				continue
			}
			done = true
			own := walkTerm(and, func(x *Term) bool { return e.isLoadOf(x, ps[0], ct.op) }) && mentionsT(and, ps[1])
			switch {
			case !own:
				c.bad("change-op", w.fname(f), f.Pos(), "the kind asked for is not compared with that of the change")
			case l.t.op == "eq" && (nonZero(l.t.args[0]) || nonZero(l.t.args[1])):
				c.bad("change-op", w.fname(f), f.Pos(), "the kinds the change and the question share are compared with something else than none")
			case l.t.op == "eq" && (isZeroTerm(l.t.args[0]) || isZeroTerm(l.t.args[1])) && l.pol:
				c.bad("change-op", w.fname(f), f.Pos(), "the answer is yes when the change is not of the kind asked for")
			default:
				c.ok("change-op")
			}
		}
		if !done {
			c.bad("change-op", w.fname(f), f.Pos(), "the answer (%s) does not tell whether the kind asked for is among those of the change", brief(o.rets[0]))
		}
	}
}

// loopStart: what the cell at addr held at the beginning of the round, as it
// occurs in v.
func loopStart(addr, v *Term) (at *Term) {
	walkTerm(v, func(x *Term) bool {
		if x.op == "loopvar" && len(x.args) == 1 && x.args[0] == addr {
			at = x
		}
		return at != nil
	})
	return
}

// lastRound: does this round leave a loop value such that the loop's own
// condition, which held for this round, no longer holds?
func (e *Engine) lastRound(l *LoopEv, b *LoopBody) bool {
	for id, n := range b.next {
		v := e.ts.all[id]
		for f := b.facts; f != nil && f != l.entry; f = f.up {
			if k, ok := n.constBool(); ok && f.atom == v && k != f.pol {
				return true
			}
		}
	}
	return false
}

func (p *provider) changeNext(ct *changeType) {
	c, w := p.c, p.w
	f := w.method(ct.n, "Next")
	if f == nil || !declared(f) {
		return
	}
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	outs := e.Analyze(f)
	if e.over {
		c.und("change-next", name, "analysis gave up")
		return
	}
	s := e.params(f)[0]
	isCount := func(t *Term) bool {
		if e.isLoadOf(t, s, ct.count) {
			return true
		}
		return (t.op == "loopvar" || t.op == "out") && len(t.args) == 1 && t.args[0].op == "fieldaddr" && t.args[0].args[0] == s && t.args[0].aux == ct.count
	}
	indexed := func(t *Term) bool { // entries that say when they were changed
		st, ok := derefT(t.typ).Underlying().(*types.Struct)
		for i := 0; ok && i < st.NumFields(); i++ {
			if st.Field(i).Name() == "ModifyIndex" {
				return true
			}
		}
		return false
	}
	removal := func(facts *Fact) (pol, known bool) {
		for fc := facts; fc != nil; fc = fc.up {
			if fc.atom.op != "eq" {
				continue
			}
			for k := 0; k < 2; k++ {
				x, y := fc.atom.args[k], fc.atom.args[1-k]
				if n, ok := y.constInt(); ok && n == 4 && (e.isLoadOf(x, s, ct.op) || x.op == "loopvar" && len(x.args) == 1 && x.args[0].op == "fieldaddr" && x.args[0].aux == ct.op) {
					return fc.pol, true
				}
			}
		}
		return
	}
	untouched := func(facts *Fact) bool {
		a, k1 := indexFact(facts, "CreateIndex", nil)
		b, k2 := indexFact(facts, "ModifyIndex", nil)
		rm, k3 := removal(facts)
		return k1 && k2 && !a && !b && k3 && !rm
	}
	ended := func(facts *Fact) bool {
		for fc := facts; fc != nil; fc = fc.up {
			a := fc.atom
			if a.op == "istype" && !fc.pol {
				return true
			}
			if a.op == "lt" && !fc.pol && isCount(a.args[0]) && a.args[1].op == "len" {
				return true
			}
			if a.op == "lt" && fc.pol && isCount(a.args[1]) {
				return true // 0 < count
			}
			if a.op == "eq" && !fc.pol && (isCount(a.args[0]) && isZeroTerm(a.args[1]) || isCount(a.args[1]) && isZeroTerm(a.args[0])) {
				return true
			}
			if a.op == "eq" && fc.pol && (a.args[0].isNil() || a.args[1].isNil()) && mentionsT(a, s) {
				return true
			}
		}
		return false
	}
	left := func(facts *Fact) bool { // there was an entry at the position reached
		for fc := facts; fc != nil; fc = fc.up {
			if a := fc.atom; a.op == "lt" && fc.pol && isCount(a.args[0]) && a.args[1].op == "len" {
				return true
			}
		}
		return false
	}
	for _, o := range outs {
		if o.panic || len(o.rets) != 3 {
			continue
		}
		facts := o.st.facts
		ok, kn := e.decide(facts, o.rets[2])
		if !kn {
			c.und("change-next", name, "whether there is another entry is not recognised")
			continue
		}
		// entries passed over
		skipped, jumped, leaves := false, false, false
		allLoops(o.st.events, func(l *LoopEv) {
			for _, b := range l.bodies {
				for _, ev := range b.events {
					if ev.kind != "store" || ev.addr.op != "fieldaddr" || ev.addr.aux != ct.count {
						continue
					}
					if was := loopStart(ev.addr, ev.val); was != nil {
						if d, okd := e.ts.constDiff(ev.val, was); okd && d != 1 {
							jumped = true
						}
					}
					if untouched(b.facts) {
						continue
					}
					if e.lastRound(l, &b) {
						leaves = true
						continue
					}
					skipped = true
				}
			}
		})
		if leaves {
			c.und("change-next", name, "the entry delivered is carried out of a loop")
			continue
		}
		if jumped {
			c.bad("change-next", name, f.Pos(), "an entry is passed over that was not looked at")
			continue
		}
		if skipped {
			c.bad("change-next", name, f.Pos(), "an entry is passed over that the change is about")
			continue
		}
		var stored *Term
		for _, ev := range o.st.events {
			if ev.kind == "store" && ev.addr.op == "fieldaddr" && ev.addr.args[0] == s && ev.addr.aux == ct.count {
				stored = ev.val
			}
		}
		if !ok {
			if !ended(facts) && !(untouched(facts) && !left(facts)) {
				c.bad("change-next", name, f.Pos(), "a path says there is no more entry without having looked")
			} else if !isZeroTerm(o.rets[0]) {
				c.und("change-next", name, "a key is returned at the end")
			} else {
				c.ok("change-next")
			}
			continue
		}
		if stored == nil {
			c.bad("change-next", name, f.Pos(), "an entry is delivered again and again")
			continue
		}
		// the entry
		var raw *Term
		walkTerm(o.rets[0], func(x *Term) bool {
			if isKeyOf(x) && mentionsT(x, s) {
				raw = x
			}
			return false
		})
		hasKeys := p.field("WithStripPrefix", 0) != ""
		if raw == nil {
			if hasKeys {
				c.bad("change-next", name, f.Pos(), "the key delivered (%s) is not that of the entry", brief(o.rets[0]))
			} else if b, _, okf := fieldLoad(strip(o.rets[0])); !okf || b != s {
				c.bad("change-next", name, f.Pos(), "the key delivered (%s) is not that of the change", brief(o.rets[0]))
			} else {
				c.ok("change-next")
			}
		} else {
			base, _, _ := fieldLoad(raw)
			if !elemField(o.rets[1], base, "Value") {
				c.bad("change-next", name, f.Pos(), "the value delivered (%s) is not that of the entry", brief(o.rets[1]))
				continue
			}
			if findCall(o.rets[1], func(string, *Term) bool { return true }) != nil {
				c.bad("change-next", name, f.Pos(), "the value delivered (%s) is not that of the entry as it is", brief(o.rets[1]))
				continue
			}
			if t := strip(o.rets[1]).typ; t != nil && !isStrT(t) {
				c.bad("change-next", name, f.Pos(), "the value is delivered as %s, not as the text that reading delivers", t)
				continue
			}
			if !p.keyCheck(e, name, f.Pos(), facts, o.rets[0], raw) {
				continue
			}
			if indexed(base) {
				a, k1 := indexFact(facts, "CreateIndex", nil)
				b, k2 := indexFact(facts, "ModifyIndex", nil)
				rm, k3 := removal(facts)
				if !(k1 && a || k2 && b || k3 && rm) {
					c.bad("change-next", name, f.Pos(), "an entry is delivered that the change is not about")
					continue
				}
			}
			var at *Term
			walkTerm(base, func(x *Term) bool {
				if x.op == "idxaddr" {
					at = x.args[1]
				}
				return false
			})
			if at != nil {
				if d, okd := e.ts.constDiff(stored, at); !okd || d != 1 {
					c.bad("change-next", name, f.Pos(), "after an entry the next one is not the one behind it")
					continue
				}
				if !isCount(at) {
					c.bad("change-next", name, f.Pos(), "the entry delivered is not the next one")
					continue
				}
				beyond := false
				for fc := facts; fc != nil; fc = fc.up {
					if a := fc.atom; a.op == "lt" && !fc.pol && a.args[0].op == "len" && isCount(a.args[1]) {
						beyond = true
					}
				}
				if beyond && !left(facts) {
					c.bad("change-next", name, f.Pos(), "the entry behind the last one is looked for")
					continue
				}
			}
			if on, kn := boolFieldFact(facts, p.field("WithRecursive", 0)); kn && indexed(base) && on != (at != nil) {
				c.bad("change-next", name, f.Pos(), "a list of entries and a single one are mistaken for each other")
				continue
			}
			c.ok("change-next")
		}
		// single entries: only the first time
		if raw == nil || !walkTerm(raw, func(x *Term) bool { return x.op == "idxaddr" }) {
			first := false
			for fc := facts; fc != nil; fc = fc.up {
				a := fc.atom
				if a.op == "eq" && fc.pol && (isCount(a.args[0]) && isZeroTerm(a.args[1]) || isCount(a.args[1]) && isZeroTerm(a.args[0])) {
					first = true
				}
				if a.op == "lt" && (fc.pol && isCount(a.args[0]) || !fc.pol && isCount(a.args[1])) {
					first = true
				}
			}
			if !first || isZeroTerm(stored) {
				c.bad("change-next", name, f.Pos(), "the entry is delivered again and again")
			} else {
				c.ok("change-next")
			}
		}
	}
}

// changeSet: taking over an event that says itself what happened.
func (p *provider) changeSet(ct *changeType) {
	c, w := p.c, p.w
	for _, f := range w.ownMethods(ct.n) {
		if len(f.Params) != 2 {
			continue
		}
		est, ok := derefT(f.Params[1].Type()).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		kv, ty := false, false
		for i := 0; i < est.NumFields(); i++ {
			kv = kv || est.Field(i).Name() == "Kv"
			ty = ty || est.Field(i).Name() == "Type"
		}
		if !kv || !ty {
			continue
		}
		c.saw(f)
		name := w.fname(f)
		e := w.viewEngine()
		ps := e.params(f)
		outs := e.Analyze(f)
		if f.Signature.Results().Len() > 0 && !anyStore(outs) || w.partOf(f) {
			continue // it tells something about the event
		}
		for _, o := range outs {
			if o.panic {
				continue
			}
			took := false
			var op, cnt *Term
			for _, ev := range o.st.events {
				if ev.kind != "store" || ev.addr.op != "fieldaddr" || ev.addr.args[0] != ps[0] {
					continue
				}
				took = took || ev.val == ps[1]
				switch ev.addr.aux {
				case ct.op:
					op = ev.val
				case ct.count:
					cnt = ev.val
				}
			}
			if !took {
				c.bad("watch-event", name, f.Pos(), "the change does not take over the event")
				continue
			}
			if cnt == nil || !isZeroTerm(cnt) {
				c.bad("change-next", name, f.Pos(), "a change taken over does not start with its first entry")
				continue
			}
			yes, no := int64(0), int64(0)
			note := func(k int64, pol bool) {
				if pol {
					yes |= k
				} else {
					no |= k
				}
			}
			del, delKn, same := false, false, false
			for fc := o.st.facts; fc != nil; fc = fc.up {
				a := fc.atom
				switch {
				case a.op == "call" && strings.HasSuffix(callName(a), "IsCreate"):
					note(1, fc.pol)
				case a.op == "call" && strings.HasSuffix(callName(a), "IsModify"):
					note(2, fc.pol)
				case a.op == "eq":
					for k := 0; k < 2; k++ {
						if _, n, ok := fieldLoad(a.args[k]); ok && n == "Type" {
							if v, ok := a.args[1-k].constInt(); ok {
								del, delKn = fc.pol == (v == 1), true
							}
						}
					}
					if fc.pol && walkTerm(a, func(x *Term) bool { _, n, ok := fieldLoad(x); return ok && n == "ModRevision" }) {
						same = true
					}
				}
			}
			if delKn {
				note(4, del && !same)
			}
			k, ok := int64(0), false
			if op != nil {
				k, ok = op.constInt()
			}
			if !ok {
				if op == nil {
					c.bad("change-op", name, f.Pos(), "a change keeps the kind of the one before")
				} else {
					c.und("change-op", name, "the kind is %s", brief(op))
				}
				continue
			}
			switch {
			case k&^yes != 0:
				c.bad("change-op", name, f.Pos(), "an event is taken for a kind (%d) it is not", k)
			case yes != 0 && (k == 0 || yes&(yes-1) == 0 && k != yes):
				c.bad("change-op", name, f.Pos(), "an event of kind %d is taken for kind %d", yes, k)
			case k == 0 && no != 7:
				c.bad("change-op", name, f.Pos(), "an event whose kind was not looked at is taken for no change")
			default:
				c.ok("change-op")
			}
		}
	}
}

func anyStore(outs []*Outcome) bool {
	for _, o := range outs {
		for _, ev := range flatten(o.st.events) {
			if ev.kind == "store" && ev.addr.op == "fieldaddr" {
				return true
			}
		}
	}
	return false
}
