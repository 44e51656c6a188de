package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P10: loading a source.

func init() { register("P10", p10) }

// nilState: +1 the path knows t to be nil, -1 not nil, 0 neither.
func (e *Engine) nilState(f *Fact, t *Term) int {
	if t == nil {
		return 0
	}
	if isNilT(t) {
		return 1
	}
	if t.op == "iface" || t.op == "closure" || t.op == "alloc" || t.op == "makemap" {
		return -1
	}
	if v, ok := e.decide(f, e.ts.eq(t, e.ts.mk("nil", "", t.typ))); ok {
		if v {
			return 1
		}
		return -1
	}
	return 0
}

// resOf: the i-th result of a call event.
func (e *Engine) resOf(ev *Event, i int) *Term {
	if ev.res == nil {
		return nil
	}
	rs := sigOf(ev)
	if rs == nil || rs.Results().Len() <= i {
		return nil
	}
	if rs.Results().Len() == 1 {
		return ev.res
	}
	return e.ts.mk("res", fmt.Sprint(i), rs.Results().At(i).Type(), ev.res)
}

// isCall: an event that calls the named method (interface or concrete).
func isCall(ev *Event, names ...string) bool {
	if ev.kind != "call" {
		return false
	}
	for _, n := range names {
		if strings.HasSuffix(ev.name, n) {
			return true
		}
	}
	return false
}

// flatEv is an event with the loops it sits in and a running number.
type flatEv struct {
	*Event
	loop *LoopEv
	body int
	n    int
}

func flatten(evs []*Event) (out []flatEv) {
	var rec func(evs []*Event, l *LoopEv, b int)
	rec = func(evs []*Event, l *LoopEv, b int) {
		for _, ev := range evs {
			if ev.kind == "loop" {
				out = append(out, flatEv{ev, l, b, len(out)})
				for i, bd := range ev.loop.bodies {
					rec(bd.events, ev.loop, i)
				}
				continue
			}
			out = append(out, flatEv{ev, l, b, len(out)})
		}
	}
	rec(evs, nil, 0)
	return
}

// writesTree: the function may insert nodes.
func (w *World) writesTree(f *ssa.Function) bool {
	m := w.mods[f]
	return f != nil && m != nil && m.fields[w.nodeT.Obj().Name()+"."+w.roles().children]
}

// mapLoop: the range loop over map m among the events; full tells whether it
// visits every entry (control leaves only from the range test).
func mapLoop(evs []*Event, m *Term) (l *LoopEv, full bool) {
	allLoops(evs, func(x *LoopEv) {
		is := false
		for _, b := range x.bodies {
			for f := b.facts; f != nil && f != x.entry; f = f.up {
				if f.atom.op == "rangeok" && len(f.atom.args) == 1 && f.atom.args[0] == m {
					is = true
				}
			}
		}
		if is {
			l = x
			full = len(x.exits) == 1 && x.exits[0] == x.header
		}
	})
	return
}

func loadingCell(a *Term) (base *Term, ok bool) {
	if a != nil && a.op == "fieldaddr" && a.aux == "loading" {
		return a.args[0], true
	}
	return nil, false
}

func p10(c *Ctx) {
	w := c.w
	c.rule("load-error", "when the source cannot be read or decoded, that error is returned, nothing is merged, no watch is started and no writer is returned")
	c.rule("load-merge", "everything a source delivers - the entries it reads, the decoded document, every entry of a stream - is handed to the merge, every key with its value, at the loader's prefix")
	c.rule("load-source", "the source's own reader comes first; the byte reader or the stream only when it says it is not implemented; bytes are decoded with the given codec, else the source's codec, else as JSON")
	c.rule("loading-flag", "the loading mark is taken before the source is read, nothing is done when it is taken already, and it is released by a deferred action after everything else")
	f := w.method(w.storeT, "Load")
	if f == nil || !declared(f) {
		c.und("load-error", "store", "no Load")
		return
	}
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	outs := e.Analyze(f)
	if e.over {
		c.und("load-error", name, "analysis gave up")
		return
	}
	c.ends("load-merge", name, e, "taking in what the source delivers never ends")
	s := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
	for _, o := range outs {
		for _, ev := range flatten(o.st.events) {
			if ev.kind == "mapupdate" && ev.addr.op != "makemap" && e.nilState(o.st.facts, ev.addr) != -1 {
				if t := unwrapPayload(ev.addr); t.isNil() || t.op == "res" || t.op == "call" {
					c.bad("load-merge", name, ev.pos, "entries are put into a map that may not be there")
				}
			}
		}
		if o.panic {
			continue
		}
		c.loadPath(e, f, name, s, o)
	}
	if g := w.method(w.storeT, "WithinLoading"); g != nil && declared(g) {
		c.saw(g)
		nm := w.fname(g)
		e := w.viewEngine()
		s := e.ts.mk("param", pname(g.Params[0], 0), g.Params[0].Type())
		for _, o := range e.Analyze(g) {
			if o.panic {
				continue
			}
			var work []flatEv
			evs := flatten(o.st.events)
			for _, ev := range evs {
				if ev.kind == "call" && ev.val != nil && ev.val.op == "param" {
					work = append(work, ev)
				}
			}
			c.loadingFlag(e, g, nm, s, o, evs, work)
			if len(work) > 1 {
				c.bad("loading-flag", nm, g.Pos(), "the given function runs more than once")
			}
			if taken(o, evs, s) && len(work) == 0 {
				c.bad("loading-flag", nm, g.Pos(), "the given function does not run")
			}
		}
	}
}

// taken: the path took the loading mark of s.
func taken(o *Outcome, evs []flatEv, s *Term) bool {
	for _, ev := range evs {
		if !isCall(ev.Event, "atomic.CompareAndSwapInt32", "Int32).CompareAndSwap") || ev.defrd {
			continue
		}
		if b, ok := loadingCell(ev.args[0]); ok && b == s && len(ev.args) == 3 {
			if k, ok := ev.args[2].constInt(); ok && k == 1 {
				if pol, ok := o.st.facts.get(ev.res); ok {
					return pol
				}
			}
		}
	}
	return false
}

// loadingFlag checks the bracket around the work of a path.
func (c *Ctx) loadingFlag(e *Engine, f *ssa.Function, name string, s *Term, o *Outcome, evs []flatEv, work []flatEv) {
	take, rel := -1, -1
	var relEv, takeEv *Event
	for _, ev := range evs {
		if ev.kind != "call" && ev.kind != "store" {
			continue
		}
		var cell *Term
		var set int64 = -1
		switch {
		case isCall(ev.Event, "atomic.CompareAndSwapInt32") && len(ev.args) == 3:
			cell = ev.args[0]
			if k, ok := ev.args[2].constInt(); ok {
				set = k
			}
		case isCall(ev.Event, "atomic.StoreInt32") && len(ev.args) == 2:
			cell = ev.args[0]
			if k, ok := ev.args[1].constInt(); ok {
				set = k
			}
		case ev.kind == "store":
			cell = ev.addr
			if k, ok := ev.Event.val.constInt(); ok {
				set = k
			}
		}
		b, ok := loadingCell(cell)
		if !ok || b != s {
			continue
		}
		if set == 1 && take < 0 {
			take, takeEv = ev.n, ev.Event
		}
		if set == 0 {
			rel, relEv = ev.n, ev.Event
		}
	}
	if take < 0 {
		if len(work) > 0 {
			c.bad("loading-flag", name, f.Pos(), "work is done on a path that never sets the loading mark")
		} else {
			c.und("loading-flag", name, "the loading mark is not recognised")
		}
		return
	}
	got := true
	if takeEv.res != nil && strings.Contains(takeEv.name, "CompareAndSwap") {
		if pol, ok := o.st.facts.get(takeEv.res); ok {
			got = pol
		} else if len(work) > 0 {
			c.bad("loading-flag", name, f.Pos(), "the result of taking the loading mark is not looked at")
			return
		}
	}
	if !got {
		if len(work) > 0 {
			c.bad("loading-flag", name, f.Pos(), "work is done although the loading mark was taken already")
		} else if rel >= 0 {
			c.bad("loading-flag", name, f.Pos(), "the loading mark is released although it was not taken here")
		} else {
			c.ok("loading-flag")
		}
		return
	}
	switch {
	case rel < 0:
		c.bad("loading-flag", name, f.Pos(), "the loading mark is not released on some path")
		return
	case !relEv.defrd:
		if len(work) > 0 {
			c.bad("loading-flag", name, f.Pos(), "the loading mark is not released by a deferred action: a panic while loading leaves it set")
			return
		}
	}
	for _, x := range work {
		if x.n < take {
			c.bad("loading-flag", name, f.Pos(), "work is done before the loading mark is set")
			return
		}
		if x.n > rel {
			c.bad("loading-flag", name, f.Pos(), "work is done after the loading mark is released")
			return
		}
	}
	c.ok("loading-flag")
}

// inheritsLoading: a view made of a store takes over its loading mark.
func (w *World) inheritsLoading() bool {
	f := w.method(w.storeT, "WithPrefixReplaced")
	if f == nil {
		return false
	}
	e := w.viewEngine()
	for _, o := range e.Analyze(f) {
		var v *Term
		for _, ev := range flatten(o.st.events) {
			if ev.kind == "store" {
				if b, ok := loadingCell(ev.addr); ok && b.op == "alloc" {
					v = ev.Event.val
				}
			}
		}
		if v != nil && strings.Contains(brief(v), "loading") {
			return true
		}
	}
	return false
}

// viewFlag: the loader's own view, if it has one, gives back the mark it took
// over from the store.
func (c *Ctx) viewFlag(e *Engine, f *ssa.Function, name string, s *Term, o *Outcome, evs []flatEv, merged bool) {
	if !merged || !c.w.inheritsLoading() {
		return
	}
	isView := func(b *Term) bool {
		cl := cellOf(b)
		if cl == nil || cl.args[0].op != "alloc" {
			return false
		}
		n := namedOf(cl.args[0].typ)
		return n != nil && n.Obj().Pkg() == c.w.store && structOf(n) != nil && n.Obj() != c.w.storeT.Obj() && namedOf(b.typ) != nil && namedOf(b.typ).Obj() == c.w.storeT.Obj()
	}
	for fc := o.st.facts; fc != nil; fc = fc.up {
		if fc.pol && fc.atom.op == "eq" && (fc.atom.args[0] == s && isView(fc.atom.args[1]) || fc.atom.args[1] == s && isView(fc.atom.args[0])) {
			return // no view of its own
		}
	}
	seen := false
	for _, ev := range evs {
		if ev.kind != "call" && ev.kind != "store" {
			continue
		}
		var cell, v *Term
		switch {
		case isCall(ev.Event, "atomic.CompareAndSwapInt32") && len(ev.args) == 3:
			cell, v = ev.args[0], ev.args[2]
		case isCall(ev.Event, "atomic.StoreInt32", "atomic.SwapInt32") && len(ev.args) == 2:
			cell, v = ev.args[0], ev.args[1]
		case ev.kind == "store":
			cell, v = ev.addr, ev.Event.val
		}
		if b, ok := loadingCell(cell); ok && isView(b) {
			if k, ok := v.constInt(); ok && k == 0 {
				seen = true
			}
		}
	}
	if !seen {
		c.bad("loading-flag", name, f.Pos(), "the view made for the load keeps the loading mark when the load is over")
		return
	}
	c.ok("loading-flag")
}

func (c *Ctx) loadPath(e *Engine, f *ssa.Function, name string, s *Term, o *Outcome) {
	w := c.w
	evs := flatten(o.st.events)
	var read, bytes, dec, next, watch *Event
	var decJSON bool
	var work []flatEv
	var merges []flatEv
	for _, ev := range evs {
		switch {
		case isCall(ev.Event, "Provider).Read"):
			read = ev.Event
			work = append(work, ev)
		case isCall(ev.Event, "Provider).ReadBytes"):
			bytes = ev.Event
			work = append(work, ev)
		case isCall(ev.Event, "Codec).Unmarshal"):
			dec = ev.Event
			decJSON = false
		case isCall(ev.Event, "json.Unmarshal"):
			dec = ev.Event
			decJSON = true
		case isCall(ev.Event, "Provider).Next"):
			next = ev.Event
		case isCall(ev.Event, "Watchable).Watch"):
			watch = ev.Event
		case ev.kind == "call" && ev.fn != nil && w.inWorkspace(ev.fn) && w.writesTree(ev.fn):
			merges = append(merges, ev)
			work = append(work, ev)
		}
	}
	c.loadingFlag(e, f, name, s, o, evs, work)
	c.viewFlag(e, f, name, s, o, evs, len(merges) > 0)
	c.mergeFails(e, f, name, o, evs, merges)
	facts := o.st.facts
	errRet, wr := o.rets[1], o.rets[0]
	if read == nil {
		if len(merges) > 0 {
			c.bad("load-merge", name, f.Pos(), "something is merged that was not read from the source")
		}
		// no source: no provider, or the loading mark was not available
		if taken(o, evs, s) && bytes == nil && next == nil {
			if !nilFieldFact(facts, "provider") {
				c.bad("load-source", name, f.Pos(), "a path with a source does not read it")
			} else {
				c.ok("load-source")
			}
		}
		return
	}
	rErr, rData := e.resOf(read, 1), e.resOf(read, 0)
	fail := func(t *Term, what string) {
		// the failure must come out and nothing else happen
		switch {
		case len(merges) > 0:
			c.bad("load-error", name, f.Pos(), "data is merged although %s failed", what)
		case watch != nil:
			c.bad("load-error", name, f.Pos(), "a watch is started although %s failed", what)
		case errRet != t && !mentionsT(errRet, t):
			if isNilT(errRet) {
				c.bad("load-error", name, f.Pos(), "no error is returned although %s failed", what)
			} else if _, isRes := errOrigin(errRet); isRes && e.nilState(facts, errRet) != -1 {
				c.bad("load-error", name, f.Pos(), "the error of %s is replaced by %s", what, brief(errRet))
			} else {
				c.und("load-error", name, "the error of %s becomes %s", what, brief(errRet))
			}
		case !isNilT(wr):
			c.bad("load-error", name, f.Pos(), "a writer is returned although %s failed", what)
		default:
			c.ok("load-error")
		}
	}
	// is "not implemented" tested on this path?
	notImpl := 0
	for fc := facts; fc != nil; fc = fc.up {
		a := fc.atom
		if a.op == "call" && strings.HasSuffix(a.aux, ".Is") && len(a.args) == 2 && a.args[0] == rErr || a.op == "eq" && (a.args[0] == rErr || a.args[1] == rErr) && !a.args[0].isNil() && !a.args[1].isNil() {
			notImpl = -1
			if fc.pol {
				notImpl = 1
			}
		}
	}
	sources := 0
	switch e.nilState(facts, rErr) {
	case 1:
		if bytes != nil || next != nil {
			c.bad("load-source", name, f.Pos(), "the source is read a second time although reading it succeeded")
			return
		}
		c.ok("load-source")
		c.merged(e, f, name, o, rData, "the entries read", merges)
		return
	case 0:
		// the error is not looked at
		c.bad("load-error", name, f.Pos(), "the error of reading the source is not looked at")
		return
	}
	if notImpl != 1 {
		if bytes != nil || next != nil {
			c.bad("load-source", name, f.Pos(), "the byte reader or stream is used although reading failed for another reason")
			return
		}
		fail(rErr, "reading the source")
		return
	}
	if bytes != nil {
		sources++
		bErr := e.resOf(bytes, 1)
		switch e.nilState(facts, bErr) {
		case -1:
			fail(bErr, "reading the bytes")
			return
		case 0:
			c.bad("load-error", name, f.Pos(), "the error of reading the bytes is not looked at")
			return
		}
		if dec == nil {
			// nothing decoded
			if len(merges) > 0 || !isNilT(wr) {
				if e.nilState(facts, rData) == -1 {
					c.ok("load-source") // a reader that delivers data together with "not implemented"
					return
				}
			}
			if e.nilState(facts, rData) == -1 {
				return
			}
			c.bad("load-source", name, f.Pos(), "the bytes read are not decoded on some path")
			return
		}
		c.decoderOK(e, f, name, o, dec, decJSON, bytes)
		var dErr, dData *Term
		if decJSON {
			dErr = dec.res
			dData = e.outOf(dec, 1)
		} else {
			dErr, dData = e.resOf(dec, 1), e.resOf(dec, 0)
		}
		switch e.nilState(facts, dErr) {
		case -1:
			fail(dErr, "decoding")
			return
		case 0:
			c.bad("load-error", name, f.Pos(), "the error of decoding is not looked at")
			return
		}
		if dData != nil {
			c.merged(e, f, name, o, dData, "the decoded document", merges)
		}
		return
	}
	if next != nil {
		c.stream(e, f, name, o, merges)
		return
	}
	fail(rErr, "reading the source")
}

// mergeFails: the errors of merging come out of the load.
func (c *Ctx) mergeFails(e *Engine, f *ssa.Function, name string, o *Outcome, evs, merges []flatEv) {
	ret := o.rets[len(o.rets)-1]
	check := func(er *Term, pos flatEv) {
		if er == nil {
			return
		}
		if e.nilState(o.st.facts, er) == 1 || mentionsT(ret, er) {
			c.ok("load-error")
			return
		}
		if pos.loop != nil || !isNilT(ret) && e.nilState(o.st.facts, ret) == -1 {
			return
		}
		c.bad("load-error", name, pos.pos, "the error of merging is dropped")
	}
	for _, ev := range evs {
		if isCall(ev.Event, "errors.Error).Defer") && len(ev.args) == 2 {
			for _, mg := range merges {
				for _, a := range mg.args {
					if a == ev.args[0] {
						check(e.outOf(ev.Event, 1), ev)
						goto next
					}
				}
			}
		}
	next:
	}
	for _, mg := range merges {
		if sg := sigOf(mg.Event); sg != nil {
			for i := 0; i < sg.Results().Len(); i++ {
				if types.TypeString(sg.Results().At(i).Type(), nil) == "error" {
					check(e.resOf(mg.Event, i), mg)
				}
			}
		}
	}
}

func errOrigin(t *Term) (*Term, bool) {
	if t.op == "res" && len(t.args) == 1 && t.args[0].op == "call" {
		return t.args[0], true
	}
	return nil, t.op == "call"
}

// outOf: what a call left in the variable whose address was its i-th argument.
func (e *Engine) outOf(ev *Event, i int) *Term {
	if i >= len(ev.args) {
		return nil
	}
	a := ev.args[i]
	for a.op == "iface" {
		a = a.args[0]
	}
	pt, ok := a.typ.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	return e.ts.mk("out", ev.tag, pt.Elem(), a)
}

// decoderOK: the decoder is the right one and is given the bytes read.
func (c *Ctx) decoderOK(e *Engine, f *ssa.Function, name string, o *Outcome, dec *Event, isJSON bool, bytes *Event) {
	b := e.resOf(bytes, 0)
	var given *Term
	if isJSON {
		given = dec.args[0]
	} else {
		given = dec.args[len(dec.args)-1]
	}
	if given != b {
		if given.op == "slice" || isZeroTerm(given) || given.op == "conv" || given.op == "call" {
			c.bad("load-source", name, f.Pos(), "the decoder is given %s instead of the bytes read", brief(given))
		} else {
			c.und("load-source", name, "the decoder is given %s", brief(given))
		}
		return
	}
	// the codec: option first, then the source's own
	optKnown, getC := 0, (*Event)(nil)
	var opt *Term
	for fc := o.st.facts; fc != nil; fc = fc.up {
		if fc.atom.op != "eq" {
			continue
		}
		for i, x := range fc.atom.args {
			if !x.isNil() {
				continue
			}
			y := fc.atom.args[1-i]
			fl := ""
			if y.op == "loopvar" && len(y.args) == 1 && y.args[0].op == "fieldaddr" {
				fl = y.args[0].aux
			} else if _, f2, ok := fieldLoad(y); ok {
				fl = f2
			}
			if fl == "codec" {
				opt = y
				optKnown = 1
				if fc.pol {
					optKnown = -1
				}
			}
		}
	}
	for _, ev := range flatten(o.st.events) {
		if isCall(ev.Event, "Provider).GetCodec") {
			getC = ev.Event
		}
	}
	if isJSON {
		if optKnown == 1 {
			c.bad("load-source", name, f.Pos(), "a codec is given, but the bytes are decoded as JSON")
			return
		}
		if getC != nil && e.nilState(o.st.facts, getC.res) == -1 {
			c.bad("load-source", name, f.Pos(), "the source has a codec, but the bytes are decoded as JSON")
			return
		}
		c.ok("load-source")
		return
	}
	used := dec.args[0]
	switch {
	case getC != nil && used == getC.res:
		if optKnown == 1 {
			c.bad("load-source", name, f.Pos(), "a codec is given, but the source's own codec decodes")
			return
		}
		if optKnown == 0 {
			c.bad("load-source", name, f.Pos(), "the source's own codec decodes without looking at whether a codec was given")
			return
		}
		c.ok("load-source")
	case opt != nil && e.ts.noEpoch(used) == e.ts.noEpoch(opt), optKnown == 1 && strings.Contains(brief(used), "codec"):
		c.ok("load-source")
	default:
		c.und("load-source", name, "decoded by %s", brief(used))
	}
}

// merged: the map m is handed over entirely.
func (c *Ctx) merged(e *Engine, f *ssa.Function, name string, o *Outcome, m *Term, what string, merges []flatEv) {
	st := e.nilState(o.st.facts, m)
	if st == 1 {
		c.ok("load-merge")
		return
	}
	// given as a whole to a function that merges
	for _, mg := range merges {
		for _, a := range mg.args {
			if a == m {
				c.mergePlace(e, f, name, mg, what)
				return
			}
		}
	}
	l, full := mapLoop(o.st.events, m)
	if l == nil && e.nilState(o.st.facts, o.rets[1]) == -1 {
		return // an earlier merge failed, and its error is returned
	}
	if l == nil {
		if st == -1 || len(merges) == 0 {
			c.bad("load-merge", name, f.Pos(), "%s is not merged on some path", what)
		} else {
			c.und("load-merge", name, "%s: merge not recognised", what)
		}
		return
	}
	if !full {
		c.bad("load-merge", name, f.Pos(), "the loop over %s may end before its last entry", what)
		return
	}
	for i := range l.bodies {
		n := 0
		for _, mg := range merges {
			if mg.loop == l && mg.body == i {
				n++
				if !c.entryArgs(e, f, name, mg, l, what) {
					return
				}
				c.mergePlace(e, f, name, mg, what)
			}
		}
		if n == 0 {
			c.bad("load-merge", name, f.Pos(), "an entry of %s may be skipped", what)
			return
		}
	}
	if len(l.bodies) == 0 {
		c.bad("load-merge", name, f.Pos(), "the loop over %s does nothing", what)
		return
	}
	c.ok("load-merge")
}

// entryArgs: the merge of one entry gets its key and its value.
func (c *Ctx) entryArgs(e *Engine, f *ssa.Function, name string, mg flatEv, l *LoopEv, what string) bool {
	key, val := false, false
	odd := ""
	for _, a := range mg.args {
		x := a
		for x.op == "conv" || x.op == "iface" || x.op == "field" && x.aux == "Value" {
			x = x.args[0]
		}
		switch x.op {
		case "rangekey":
			key = true
			if x != a {
				odd = ""
			}
		case "rangeval":
			val = true
		case "call":
			if mentionsOp(x, "rangekey") {
				key = true
				if !strings.Contains(x.aux, "String") && !strings.Contains(x.aux, "Sprint") && !strings.Contains(x.aux, "oin") {
					odd = brief(x)
				}
			}
			if mentionsOp(x, "rangeval") {
				odd = brief(x)
			}
		}
	}
	if odd != "" {
		c.und("load-merge", name, "an entry of %s is merged as %s", what, odd)
		return false
	}
	if !key || !val {
		c.bad("load-merge", name, f.Pos(), "an entry of %s is merged without its own key or value", what)
		return false
	}
	return true
}

func mentionsOp(t *Term, op string) bool {
	return walkTerm(t, func(x *Term) bool { return x.op == op })
}

// mergePlace: some argument of the merge depends on the loader's prefix.
func (c *Ctx) mergePlace(e *Engine, f *ssa.Function, name string, mg flatEv, what string) {
	w := c.w
	ok := false
	for i, a := range mg.args {
		if i == 0 {
			continue
		}
		if isStrT(a.typ) && strings.Contains(brief(a), "prefix") {
			ok = true
		}
	}
	if ok {
		c.ok("load-merge")
		return
	}
	for _, a := range mg.args[1:] {
		if isStrT(a.typ) && walkTerm(a, func(x *Term) bool {
			return x.op == "call" && x.fn != nil && w.inWorkspace(x.fn) && !w.joinLike(x.fn) || x.op == "loopvar" && len(x.args) == 0
		}) {
			c.und("load-merge", name, "%s is merged at %s", what, brief(a))
			return
		}
	}
	c.bad("load-merge", name, f.Pos(), "%s is not merged at the loader's prefix", what)
}

// stream: every key of the stream lands in the map that is merged.
func (c *Ctx) stream(e *Engine, f *ssa.Function, name string, o *Outcome, merges []flatEv) {
	var loop *LoopEv
	allLoops(o.st.events, func(l *LoopEv) {
		for _, b := range l.bodies {
			for _, ev := range b.events {
				if isCall(ev, "Provider).Next") {
					loop = l
				}
			}
		}
	})
	if loop == nil {
		c.bad("load-merge", name, f.Pos(), "only one entry of the stream is read")
		return
	}
	var m *Term
	for _, b := range loop.bodies {
		var nx, upd *Event
		for _, ev := range b.events {
			if isCall(ev, "Provider).Next") {
				nx = ev
			}
			if ev.kind == "mapupdate" {
				upd = ev
			}
		}
		if nx == nil {
			c.und("load-merge", name, "stream loop not recognised")
			return
		}
		eol, known := false, false
		for fc := b.facts; fc != nil; fc = fc.up {
			if e.isNextRes(fc.atom, "1", nil) {
				eol, known = fc.pol, true
				break
			}
		}
		if !known {
			c.bad("load-merge", name, f.Pos(), "the end of the stream is not tested")
			return
		}
		if eol {
			c.bad("load-merge", name, f.Pos(), "the stream is read past its end, or ended before it")
			return
		}
		if upd == nil {
			c.bad("load-merge", name, f.Pos(), "an entry of the stream may be skipped")
			return
		}
		if !e.isNextRes(upd.key, "0", nil) {
			c.bad("load-merge", name, f.Pos(), "an entry of the stream is kept under %s", brief(upd.key))
			return
		}
		if !walkTerm(upd.val, func(x *Term) bool {
			for x.op == "res" {
				x = x.args[0]
			}
			return x.op == "call" && strings.Contains(x.aux, "Value") && len(x.args) == 2 && x.args[1] == upd.key
		}) {
			c.bad("load-merge", name, f.Pos(), "an entry of the stream is kept with %s instead of its value", brief(upd.val))
			return
		}
		if m != nil && m != upd.addr {
			c.und("load-merge", name, "several maps")
			return
		}
		m = upd.addr
	}
	if m == nil {
		c.und("load-merge", name, "stream loop not recognised")
		return
	}
	// the round that leaves the loop
	var out *Event
	for _, ev := range flatten(o.st.events) {
		if ev.loop == nil && isCall(ev.Event, "Provider).Next") {
			out = ev.Event
		}
	}
	if out != nil {
		if v, ok := e.decide(o.st.facts, e.resOf(out, 1)); ok && !v {
			c.bad("load-merge", name, out.pos, "the stream may be left before its end")
			return
		}
	}
	c.ok("load-merge")
	c.merged(e, f, name, o, m, "the stream", merges)
}

// sigOf: the signature called by a call event.
func sigOf(ev *Event) *types.Signature {
	if ci, ok := ev.instr.(ssa.CallInstruction); ok {
		return ci.Common().Signature()
	}
	if ev.fn != nil {
		return ev.fn.Signature
	}
	return nil
}

// isNextRes: t is the i-th result of the stream's Next (possibly carried round
// a loop).
func (e *Engine) isNextRes(t *Term, i string, busy map[*Term]bool) bool {
	if t.op == "res" && t.aux == i && len(t.args) == 1 {
		return strings.Contains(t.args[0].aux, "Provider).Next")
	}
	if t.op == "loopvar" && len(e.loopIn[t.id]) > 0 && !busy[t] {
		nb := map[*Term]bool{t: true}
		for k := range busy {
			nb[k] = true
		}
		for _, x := range e.loopIn[t.id] {
			if !e.isNextRes(x, i, nb) {
				return false
			}
		}
		return true
	}
	return false
}
