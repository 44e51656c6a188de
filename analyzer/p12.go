package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P12: saving.

func init() { register("P12", p12) }

// saveEngine: the map export is primitive too.
func (w *World) saveEngine() *Engine {
	e := w.viewEngine()
	old := e.opaque
	ex := w.method(w.trieT, "GetM")
	exn := ""
	if ex != nil {
		exn = ex.Name()
	}
	e.opaque = func(f *ssa.Function) bool {
		return old(f) || f.Name() == exn && isRecvOf(f, w.trieT)
	}
	return e
}

func p12(c *Ctx) {
	w := c.w
	c.rule("save-content", "what is encoded is the whole export of the store as a nested document: everything for a save-as, exactly the modified keys for a save")
	c.rule("save-write", "what is written is exactly what the codec produced, once, through the target's own writer, and through its plain writer only when that is not implemented")
	c.rule("save-error", "a failing export, encoding or write is returned, and nothing is written after a failure")
	c.rule("save-nothing", "nothing is written when there is nothing to save; a target and codec that are given are always used")
	c.rule("mark", "a key set outside loading is marked as modified, one set while loading is not")
	c.rule("save-pure", "saving changes neither a value, a mark nor anything else of the store")
	n := 0
	if w.loaderT != nil {
		for _, nm := range []string{"Save", "SaveAs"} {
			if f := w.method(w.loaderT, nm); f != nil && declared(f) {
				n++
				c.saveFn(f, nm == "Save")
			}
		}
	}
	c.savePure()
	if n == 0 {
		c.und("save-content", "loader", "no Save recognised")
	}
	c.marks()
}

// savePure: a save reads; what it reaches writes nothing of a node or the tree.
func (c *Ctx) savePure() {
	w := c.w
	ef := w.effects()
	for _, n := range []*types.Named{w.loaderT, w.storeT} {
		if n == nil {
			continue
		}
		for _, nm := range []string{"Save", "SaveAs"} {
			f := w.method(n, nm)
			if f == nil || !declared(f) {
				continue
			}
			c.saw(f)
			bad := false
			for _, x := range ef.of(f) {
				owner, _, _ := strings.Cut(x.what, ".")
				if x.or.kind == "global" || w.nodeT == nil || w.trieT == nil || owner != w.nodeT.Obj().Name() && owner != w.trieT.Obj().Name() {
					continue
				}
				bad = true
				c.bad("save-pure", w.fname(f)+" -> "+w.fname(x.fn)+" writes "+x.what, x.pos, "saving reaches a write of %s, in %s", x.what, w.fname(x.fn))
			}
			if !bad {
				c.ok("save-pure")
			}
		}
	}
}

// nilFieldFact: the path knows that something read from a field of that name is nil.
func nilFieldFact(facts *Fact, names ...string) bool {
	for f := facts; f != nil; f = f.up {
		if !f.pol || f.atom.op != "eq" || !(f.atom.args[0].isNil() || f.atom.args[1].isNil()) {
			continue
		}
		y := f.atom.args[0]
		if y.isNil() {
			y = f.atom.args[1]
		}
		fl := ""
		if cl := cellOf(y); cl != nil {
			fl = cl.aux
		} else if _, g, ok := fieldLoad(y); ok {
			fl = g
		}
		ty := ""
		if n, ok := types.Unalias(y.typ).(*types.Named); ok && y.op != "call" && y.op != "res" {
			ty = n.Obj().Name()
		}
		for _, n := range names {
			if strings.EqualFold(fl, n) || strings.EqualFold(ty, n) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) saveFn(f *ssa.Function, modifiedOnly bool) {
	w := c.w
	c.saw(f)
	name := w.fname(f)
	e := w.saveEngine()
	outs := e.Analyze(f)
	if e.over {
		c.und("save-content", name, "analysis gave up")
		return
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		c.savePath(e, f, name, o, modifiedOnly)
	}
}

func (c *Ctx) savePath(e *Engine, f *ssa.Function, name string, o *Outcome, modifiedOnly bool) {
	var exp, enc *Event
	var writes []flatEv
	nexp, nenc := 0, 0
	for _, ev := range flatten(o.st.events) {
		switch {
		case ev.kind == "call" && ev.fn != nil && ev.fn.Name() == "GetM":
			exp = ev.Event
			nexp++
		case isCall(ev.Event, "Codec).Marshal"):
			enc = ev.Event
			nenc++
		case isCall(ev.Event, "Provider).Write", "Writer).Write"):
			writes = append(writes, ev)
		}
	}
	facts := o.st.facts
	ret := o.rets[len(o.rets)-1]
	if exp == nil {
		if len(writes) > 0 || enc != nil {
			c.bad("save-content", name, f.Pos(), "something is saved that is not the export of the store")
			return
		}
		if nilFieldFact(facts, "codec", "provider") {
			c.ok("save-nothing")
			return
		}
		if e.nilState(facts, ret) == -1 {
			c.ok("save-nothing")
			return
		}
		c.bad("save-nothing", name, f.Pos(), "with a codec and a target, a path saves nothing and reports nothing")
		return
	}
	if nexp > 1 || nenc > 1 {
		c.und("save-content", name, "several exports or encodings")
		return
	}
	c.exportArgs(e, f, name, o, exp, modifiedOnly)
	m, xerr := e.resOf(exp, 0), e.resOf(exp, 1)
	returned := func(t *Term, what string) {
		switch {
		case len(writes) > 0:
			c.bad("save-error", name, f.Pos(), "something is written although %s failed", what)
		case ret == t || mentionsT(ret, t):
			c.ok("save-error")
		case isNilT(ret):
			c.bad("save-error", name, f.Pos(), "no error is returned although %s failed", what)
		default:
			if e.nilState(facts, ret) == -1 {
				c.ok("save-error")
				return
			}
			c.und("save-error", name, "the error of %s becomes %s", what, brief(ret))
		}
	}
	switch e.nilState(facts, xerr) {
	case -1:
		if enc != nil && len(writes) > 0 {
			c.bad("save-error", name, f.Pos(), "something is written although the export failed")
			return
		}
		returned(xerr, "the export")
		return
	case 0:
		c.bad("save-error", name, f.Pos(), "the error of the export is not looked at")
		return
	}
	if enc == nil {
		if len(writes) > 0 {
			c.bad("save-content", name, f.Pos(), "something is written that was not encoded")
			return
		}
		empty := e.nilState(facts, m) == 1
		if v, ok := e.decide(facts, e.ts.eq(e.ts.length(m), e.ts.intc(0))); ok && v {
			empty = true
		}
		if v, ok := e.decide(facts, e.ts.lt(e.ts.intc(0), e.ts.length(m))); ok && !v {
			empty = true
		}
		if !empty {
			c.bad("save-nothing", name, f.Pos(), "a path with something to save saves nothing")
			return
		}
		c.ok("save-nothing")
		return
	}
	if enc.args[len(enc.args)-1] != m {
		a := enc.args[len(enc.args)-1]
		if a.op == "call" || a.op == "loopvar" || a.op == "phi" {
			c.und("save-content", name, "what is encoded is %s", brief(a))
		} else {
			c.bad("save-content", name, enc.pos, "what is encoded is %s, not the export", brief(a))
		}
		return
	}
	for _, ev := range flatten(o.st.events) {
		if (ev.kind == "mapupdate" || ev.kind == "delete") && (ev.addr == m || unwrapPayload(ev.addr).op == "assert" && mentionsT(ev.addr, m)) {
			c.bad("save-content", name, ev.pos, "the export is changed before it is encoded")
			return
		}
	}
	c.ok("save-content")
	// there is a codec, and something to save
	some, named := false, false
	for fc := facts; fc != nil; fc = fc.up {
		a := fc.atom
		if a.op != "eq" {
			named = named || a.op == "call" && mentionsT(a, m)
			continue
		}
		for i, x := range a.args {
			if y := a.args[1-i]; x.isNil() && !fc.pol && y.typ != nil {
				if n := namedOf(y.typ); n != nil && n.Obj().Name() == "Codec" && (y.op == "call" || y.op == "res" || enc.args[0] == y || fieldOr(y) == fieldOr(enc.args[0])) {
					some = true
				}
			}
		}
	}
	if !some && e.nilState(facts, enc.args[0]) != -1 {
		c.bad("save-nothing", name, enc.pos, "something is encoded without there being a codec for it")
		return
	}
	if v, k := e.decide(facts, e.ts.eq(e.ts.length(m), e.ts.intc(0))); (!k || v) && len(writes) > 0 {
		if v, k := e.decide(facts, e.ts.lt(e.ts.intc(0), e.ts.length(m))); !k || !v {
			if named {
				c.und("save-nothing", name, "whether there is something to save is not recognised")
			} else {
				c.bad("save-nothing", name, f.Pos(), "something is written although there is nothing to save")
			}
			return
		}
	}
	data, merr := e.resOf(enc, 0), e.resOf(enc, 1)
	switch e.nilState(facts, merr) {
	case -1:
		returned(merr, "encoding")
		return
	case 0:
		c.bad("save-error", name, f.Pos(), "the error of encoding is not looked at")
		return
	}
	var own, plain *Event
	for _, wr := range writes {
		if wr.args[len(wr.args)-1] != data {
			a := wr.args[len(wr.args)-1]
			if a.op == "call" && len(a.args) > 0 && mentionsT(a, data) {
				c.und("save-write", name, "what is written is %s", brief(a))
			} else {
				c.bad("save-write", name, wr.pos, "what is written is %s, not what the codec produced", brief(a))
			}
			return
		}
		if wr.loop != nil {
			c.und("save-write", name, "written in a loop")
			return
		}
		if isCall(wr.Event, "Provider).Write") {
			if own != nil {
				c.bad("save-write", name, wr.pos, "written twice")
				return
			}
			own = wr.Event
			if plain != nil {
				c.bad("save-write", name, wr.pos, "the target's own writer is used after its plain writer")
				return
			}
		} else {
			if plain != nil {
				c.bad("save-write", name, wr.pos, "written twice")
				return
			}
			plain = wr.Event
		}
	}
	isOnce, isPlain := typeFact(facts, "OnceProvider"), typeFact(facts, "io.Writer")
	notImpl := 0
	if own != nil {
		for fc := facts; fc != nil; fc = fc.up {
			a := fc.atom
			if a.op == "call" && strings.HasSuffix(a.aux, ".Is") && len(a.args) == 2 && a.args[0] == own.res ||
				a.op == "eq" && (a.args[0] == own.res || a.args[1] == own.res) && !a.args[0].isNil() && !a.args[1].isNil() {
				notImpl = -1
				if fc.pol {
					notImpl = 1
				}
			}
		}
		if notImpl == 0 && e.nilState(facts, own.res) == 1 {
			notImpl = -1
		}
	}
	if own == nil && plain == nil {
		for fc := facts; fc != nil; fc = fc.up { // no error is another one than itself
			if a := fc.atom; !fc.pol && a.op == "call" && strings.HasSuffix(a.aux, ".Is") && len(a.args) == 2 && e.isSame(strip(a.args[0]), strip(a.args[1])) {
				c.ok("save-error")
				return
			}
		}
	}
	switch {
	case own == nil && isOnce == 1:
		c.bad("save-write", name, f.Pos(), "the target's own writer is not used")
		return
	case own == nil && isOnce == 0 && plain != nil:
		c.bad("save-write", name, f.Pos(), "the plain writer is used without looking for the target's own")
		return
	case own != nil && plain != nil && notImpl != 1:
		c.bad("save-write", name, f.Pos(), "written a second time although the target's own writer is implemented")
		return
	case plain == nil && isPlain == 1 && (own == nil || notImpl == 1):
		c.bad("save-write", name, f.Pos(), "the plain writer is not used although the target has no other")
		return
	}
	if own == nil && plain == nil {
		if isPlain == 0 && isOnce != 0 {
			c.bad("save-write", name, f.Pos(), "a target with a plain writer only is not written to")
			return
		}
		// nobody can write it
		if isNilT(ret) || e.nilState(facts, ret) == 1 {
			c.bad("save-error", name, f.Pos(), "nothing is written and no error is returned")
		} else {
			c.ok("save-error")
		}
		return
	}
	c.ok("save-write")
	last := own
	i := 0
	if plain != nil {
		last = plain
		i = 1
	}
	werr := last.res
	if i == 1 {
		werr = e.resOf(last, 1)
	}
	switch {
	case ret == werr || mentionsT(ret, werr):
		c.ok("save-error")
	case e.nilState(facts, werr) == 1 && isNilT(ret):
		c.ok("save-error")
	case isNilT(ret):
		c.bad("save-error", name, f.Pos(), "the error of writing is dropped")
	case own != nil && plain != nil && ret == own.res:
		c.bad("save-error", name, f.Pos(), "the result of the plain writer is dropped")
	default:
		c.und("save-error", name, "the error of writing becomes %s", brief(ret))
	}
}

// fieldOr: the name of the field a value was read from.
func fieldOr(t *Term) string {
	if cl := cellOf(t); cl != nil {
		return cl.aux
	}
	if _, g, ok := fieldLoad(t); ok {
		return g
	}
	return "?" + t.op
}

// typeFact: what the path knows about something being of the named type.
func typeFact(facts *Fact, name string) int {
	for f := facts; f != nil; f = f.up {
		if f.atom.op == "istype" && strings.HasSuffix(f.atom.aux, name) {
			if f.pol {
				return 1
			}
			return -1
		}
	}
	return 0
}

// exportArgs: the whole tree, nested, with the right filter.
func (c *Ctx) exportArgs(e *Engine, f *ssa.Function, name string, o *Outcome, exp *Event, modifiedOnly bool) {
	w := c.w
	if len(exp.args) < 2 {
		return
	}
	if s, ok := exp.args[1].constStr(); !ok || s != "" {
		c.bad("save-content", name, exp.pos, "only a part (%s) is exported", brief(exp.args[1]))
		return
	}
	var opts []*Term
	if len(exp.args) > 2 {
		v := exp.args[2]
		switch v.op {
		case "vec":
			opts = v.args
		case "nil":
		default:
			c.und("save-content", name, "options %s", brief(v))
			return
		}
	}
	var filter *Term
	nested := false
	for _, op := range opts {
		op = unwrapPayload(op)
		var fn *ssa.Function
		var fv []*Term
		switch op.op {
		case "closure":
			fn, fv = op.fn, op.args
		case "func":
			fn = op.fn
		}
		if fn == nil || len(fn.Params) != 1 {
			c.und("save-content", name, "option %s", brief(op))
			return
		}
		st := e.newState()
		for k, v := range o.st.heap {
			st.heap[k] = v
		}
		pt := e.ts.mk("param", "putter", fn.Params[0].Type())
		for _, oo := range e.AnalyzeFrom(fn, []*Term{pt}, fv, st) {
			for _, ev := range flatten(oo.st.events) {
				if ev.kind != "store" || ev.addr.op != "fieldaddr" || ev.addr.args[0] != pt {
					continue
				}
				fl := strings.ToLower(ev.addr.aux)
				switch {
				case strings.Contains(fl, "filter"):
					filter = ev.Event.val
				case strings.Contains(fl, "flat"):
					if b, ok := ev.Event.val.constBool(); ok {
						nested = b
					} else {
						c.und("save-content", name, "nesting %s", brief(ev.Event.val))
						return
					}
				}
			}
		}
	}
	if !nested {
		c.bad("save-content", name, exp.pos, "the export is not a nested document")
		return
	}
	if !modifiedOnly {
		if filter != nil && !isNilT(filter) {
			c.bad("save-content", name, exp.pos, "a filter leaves out part of the store")
			return
		}
		c.ok("save-content")
		return
	}
	if filter == nil || isNilT(filter) {
		c.bad("save-content", name, exp.pos, "keys that were not modified are saved too")
		return
	}
	filter = unwrapPayload(filter)
	var fn *ssa.Function
	var fv []*Term
	if filter.op == "closure" || filter.op == "func" {
		fn = filter.fn
		if filter.op == "closure" {
			fv = filter.args
		}
	}
	if fn == nil || len(fn.Params) != 1 {
		c.und("save-content", name, "filter %s", brief(filter))
		return
	}
	mod := w.method(w.nodeT, "Modified")
	if mod == nil {
		c.und("save-content", name, "no Modified")
		return
	}
	nd := e.ts.mk("param", "nd", types.NewPointer(w.nodeT))
	set := map[string]bool{}
	for _, oo := range e.AnalyzeWith(mod, []*Term{nd}, nil) {
		if !oo.panic {
			set[normRet(e, oo)] = true
		}
	}
	for _, oo := range e.AnalyzeWith(fn, []*Term{nd}, fv) {
		if oo.panic {
			continue
		}
		k := normRet(e, oo)
		if set[k] {
			c.ok("save-content")
			continue
		}
		if b, ok := oo.rets[0].constBool(); ok && oo.st.facts == nil {
			c.bad("save-content", name, fn.Pos(), "the filter of a save is always %v", b)
			return
		}
		if mb := modBits(w, e); mb != nil {
			switch v := flagState(e, oo, nd, mb); {
			case v == 2:
				c.ok("save-content")
				continue
			case v == 1:
				c.bad("save-content", name, fn.Pos(), "the filter of a save does not let exactly the modified keys through")
				return
			}
		}
		c.und("save-content", name, "filter: %s", k)
	}
}

func normRet(e *Engine, o *Outcome) string {
	s := fmt.Sprint(brief(e.ts.noEpoch(o.rets[0])))
	return s
}

// modBits: the flag bits Modified tests.
func modBits(w *World, e *Engine) *Term {
	mod := w.method(w.nodeT, "Modified")
	if mod == nil {
		return nil
	}
	nd := e.ts.mk("param", "nd", types.NewPointer(w.nodeT))
	var out *Term
	for _, o := range e.AnalyzeWith(mod, []*Term{nd}, nil) {
		if !o.panic {
			out = e.ts.noEpoch(o.rets[0])
		}
	}
	return out
}

// flagState: 2 the outcome returns what the modified flag is known to be,
// 1 it returns something else, 0 unknown.
func flagState(e *Engine, o *Outcome, nd, mod *Term) int {
	a, pol := atomOf(mod)
	for f := o.st.facts; f != nil; f = f.up {
		if e.ts.noEpoch(f.atom) == a {
			v := f.pol == pol
			if b, ok := o.rets[0].constBool(); ok {
				if b == v {
					return 2
				}
			}
			return 1 // something else decides
		}
	}
	// the flag is not consulted or combined with something else
	if walkTerm(e.ts.noEpoch(o.rets[0]), func(x *Term) bool { return x == a }) {
		return 1
	}
	if _, ok := o.rets[0].constBool(); ok {
		return 1 // decided by something else
	}
	return 0
}

// marks: nodes set by the store.
func (c *Ctx) marks() {
	w := c.w
	e0 := w.viewEngine()
	mod := modBits(w, e0)
	if mod == nil {
		c.und("mark", "node", "no modified flag")
		return
	}
	bit := int64(0)
	walkTerm(mod, func(x *Term) bool {
		if x.op == "bin" && x.aux == "&" {
			for _, a := range x.args {
				if k, ok := a.constInt(); ok {
					bit = k
				}
			}
		}
		return false
	})
	if bit == 0 {
		c.und("mark", "node", "modified bit not recognised")
		return
	}
	fns := []*ssa.Function{}
	if f := w.method(w.storeT, "Set"); f != nil && declared(f) {
		fns = append(fns, f)
	}
	for _, f := range w.mergeFns() {
		if isRecvOf(f, w.storeT) {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		c.saw(f)
		c.markFn(f, bit)
	}
}

func (c *Ctx) markFn(f *ssa.Function, bit int64) {
	w := c.w
	name := w.fname(f)
	r := w.roles()
	e := w.viewEngine()
	outs := e.Analyze(f)
	if e.over {
		c.und("mark", name, "analysis gave up")
		return
	}
	s := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
	for _, o := range outs {
		if o.panic {
			continue
		}
		evs := flatten(o.st.events)
		for _, ev := range evs {
			if ev.kind != "call" || ev.fn == nil || !w.isInsertOp(ev.fn) || ev.loop != nil {
				continue
			}
			node := e.resOf(ev.Event, 0)
			if e.nilState(o.st.facts, node) == 1 {
				continue
			}
			// the loading flag as consulted
			load := 0
			for fc := o.st.facts; fc != nil; fc = fc.up {
				a := fc.atom
				if a.op != "eq" {
					continue
				}
				x, k := a.args[0], a.args[1]
				kv, isK := k.constInt()
				if !isK {
					continue
				}
				cell := (*Term)(nil)
				if x.op == "call" && len(x.args) > 0 && strings.Contains(x.aux, "LoadInt32") {
					cell = x.args[0]
				} else if x.op == "load" {
					cell = x.args[0]
				}
				b, ok := loadingCell(cell)
				if !ok {
					continue
				}
				if !c.sameLoading(e, f, name, evs, s, b, cell, ev.Event) {
					return
				}
				on := (kv == 1) == fc.pol
				if kv != 0 && kv != 1 {
					continue
				}
				if on {
					load = 1
				} else {
					load = -1
				}
			}
			// the flag as written after the insertion
			set := 0
			for _, x := range evs {
				if x.kind != "store" || x.n < ev.n || x.addr.op != "fieldaddr" || x.addr.aux != r.flags || !e.isSame(x.addr.args[0], node) {
					continue
				}
				switch e.bitEffect(x.Event.val, func(t *Term) bool {
					b, fl, ok := fieldLoad(t)
					return ok && fl == r.flags && e.isSame(b, node)
				}, bit) {
				case "1":
					set = 1
				case "0":
					set = -1
				case "keep":
				case "flip":
					set = 3
				default:
					set = 2
				}
			}
			switch {
			case load == 0 && set == 1:
				c.bad("mark", name, ev.pos, "a key is marked as modified whether or not it is being loaded")
			case load == 0 && set == 2, load == 0:
				if set == 0 || set == -1 {
					c.bad("mark", name, ev.pos, "a key is set without being marked as modified")
				} else {
					c.und("mark", name, "mark not recognised")
				}
			case set == 2:
				c.und("mark", name, "mark not recognised")
			case set == 3:
				c.bad("mark", name, ev.pos, "setting a key flips its modified mark")
			case load == 1 && set == 1:
				c.bad("mark", name, ev.pos, "a key set while loading is marked as modified")
			case load == -1 && set != 1:
				c.bad("mark", name, ev.pos, "a key set outside loading is not marked as modified")
			default:
				c.ok("mark")
			}
		}
	}
}

// sameLoading: the loading flag consulted is the store's own, or that of a
// view made from it with the flag carried over.
func (c *Ctx) sameLoading(e *Engine, f *ssa.Function, name string, evs []flatEv, s, b, cell *Term, at *Event) bool {
	if e.isSame(b, s) {
		return true
	}
	if b.op == "alloc" {
		var v *Term
		for _, x := range evs {
			if isCall(x.Event, "atomic.LoadInt32") && x.args[0] == cell && x.n > 0 && v != nil {
				break
			}
			if x.kind == "store" && x.addr == cell && (v == nil || !x.defrd) {
				v = x.Event.val
			}
			if isCall(x.Event, "atomic.StoreInt32", "atomic.SwapInt32") && len(x.args) == 2 && x.args[0] == cell {
				v = x.args[1]
			}
			if isCall(x.Event, "atomic.CompareAndSwapInt32") && len(x.args) == 3 && x.args[0] == cell {
				v = x.args[2]
			}
		}
		if v == nil {
			c.bad("mark", name, f.Pos(), "the loading mark is lost on a view: loaded keys are taken for modified ones")
			return false
		}
		if _, isC := v.constInt(); isC {
			c.bad("mark", name, f.Pos(), "the loading mark of a view is a constant")
			return false
		}
		return true
	}
	c.und("mark", name, "loading mark of %s", brief(b))
	return false
}
