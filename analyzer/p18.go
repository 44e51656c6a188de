package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P18: providers - the whole source, or the reason why not.

func init() { register("P18", p18) }

func p18(c *Ctx) {
	w := c.w
	c.rule("provider-error", "every error a provider meets on a path is nil or is what it returns; a client that could not be made is not used")
	c.rule("provider-read", "reading delivers the named source, every entry of it, each with its own value")
	c.rule("provider-key", "a key is delivered as its own name, changed by the options given and by nothing else")
	c.rule("provider-write", "writing back happens only when enabled, whole, to the named file, and is refused otherwise")
	c.rule("provider-iter", "iteration yields each key once and then the end; tests, values, counts and lists use the table that is read")
	c.rule("provider-setting", "codec and position are those last given")
	c.rule("provider-option", "every option given is applied and keeps the value it was given, in the field named after it")
	c.rule("provider-map", "the helpers that bring maps into shape keep every entry and leave the caller's map alone")
	ps := w.libTypes("providers", "Provider")
	if len(ps) == 0 {
		c.und("provider-read", "providers", "none found")
	}
	for _, n := range ps {
		p := &provider{c: c, w: w, n: n, opt: map[string]map[int]string{}, via: map[string]string{}}
		p.st, _ = n.Underlying().(*types.Struct)
		if p.st == nil {
			continue
		}
		p.optFields()
		p.errors()
		p.client()
		p.settings()
		p.readBytes()
		p.write()
		p.read()
		p.iter()
		p.filled()
		c.options(n, "provider-option")
	}
	c.mapHelpers()
}

type provider struct {
	c   *Ctx
	w   *World
	n   *types.Named
	st  *types.Struct
	opt map[string]map[int]string // option function -> parameter -> field it is kept in
	via map[string]string         // option function -> what its first parameter goes through
	rk  string                    // the rule keys are checked under

	details bool // entries are read with details somewhere
}

func (p *provider) pkg() *ssa.Package { return p.w.prog.Package(p.n.Obj().Pkg()) }

func (p *provider) meth(nm string) *ssa.Function {
	f := p.w.method(p.n, nm)
	if f == nil || !declared(f) || p.pkg() == nil || f.Pkg != p.pkg() {
		return nil
	}
	return f
}

func (p *provider) field(opt string, i int) string { return p.opt[opt][i] }

func (p *provider) funcs() (out []*ssa.Function) {
	sp := p.pkg()
	if sp == nil {
		return
	}
	for _, m := range p.w.ownMethods(p.n) {
		if declared(m) && m.Pkg == sp {
			out = append(out, m)
		}
	}
	var names []string
	for nm := range sp.Members {
		names = append(names, nm)
	}
	sort.Strings(names)
	for _, nm := range names {
		if f, ok := sp.Members[nm].(*ssa.Function); ok && f.Synthetic == "" && f.Blocks != nil {
			out = append(out, f)
		}
	}
	return
}

// optFields: where the options keep what they are given.
func (p *provider) optFields() {
	w := p.w
	for _, f := range p.funcs() {
		if f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Results().Len() != 1 {
			continue
		}
		sg, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Signature)
		if !ok || sg.Params().Len() != 1 || namedOf(sg.Params().At(0).Type()) == nil || namedOf(sg.Params().At(0).Type()).Obj() != p.n.Obj() {
			continue
		}
		e := w.viewEngine()
		ps := e.params(f)
		got := map[int]string{}
		for _, o := range e.Analyze(f) {
			if o.panic || len(o.rets) != 1 {
				continue
			}
			cl := strip(o.rets[0])
			if cl.op != "closure" || cl.fn == nil {
				continue
			}
			e2 := w.viewEngine()
			var fv2 []*Term
			idx := map[*Term]int{}
			for i, v := range cl.fn.FreeVars {
				t := e2.ts.mk("param", "bound:"+v.Name(), v.Type())
				fv2 = append(fv2, t)
				a := cl.args[i]
				if a.op == "alloc" {
					if x := o.st.heap[a.id]; x != nil {
						a = x
					}
				}
				for k := range ps {
					if ps[k] == a {
						idx[t] = k
					}
				}
			}
			self := e2.ts.mk("param", "self", cl.fn.Params[0].Type())
			for _, o2 := range e2.AnalyzeWith(cl.fn, []*Term{self}, fv2) {
				for _, ev := range flatten(o2.st.events) {
					if ev.kind != "store" || ev.addr.op != "fieldaddr" || !mentionsT(ev.addr, self) {
						continue
					}
					for t, k := range idx {
						if mentionsT(ev.Event.val, t) || e2.viaLoop(ev.Event.val, t) {
							got[k] = ev.addr.aux
							if x := findCall(ev.Event.val, func(string, *Term) bool { return true }); x != nil && k == 0 {
								p.via[f.Name()] = callName(x)
							}
						}
					}
				}
			}
		}
		p.opt[f.Name()] = got
		// the field named after the option
		if p.rk == "" && len(f.Params) >= 1 && got[0] != "" && strings.HasPrefix(f.Name(), "With") {
			want := strings.TrimPrefix(f.Name(), "With")
			for i := 0; i < p.st.NumFields(); i++ {
				if fn := p.st.Field(i).Name(); strings.EqualFold(fn, want) {
					if fn != got[0] {
						p.c.bad("provider-option", w.fname(f), f.Pos(), "the option is kept in %s, which belongs to another one", got[0])
					} else {
						p.c.ok("provider-option")
					}
				}
			}
		}
	}
}

func (p *provider) errors() {
	c, w := p.c, p.w
	for _, f := range p.funcs() {
		rs := f.Signature.Results()
		if rs.Len() == 0 || rs.At(rs.Len()-1).Type().String() != "error" {
			continue
		}
		c.saw(f)
		e := w.viewEngine()
		e.noteDerefs()
		name := w.fname(f)
		outs := e.Analyze(f)
		if e.over {
			c.und("provider-error", name, "analysis gave up")
			continue
		}
		for _, o := range outs {
			c.derefs("provider-error", e, name, o)
			if !o.panic {
				c.errorsOut("provider-error", e, f, name, o, nil)
			}
		}
		if f.Signature.Recv() == nil {
			continue
		}
		if rs.Len() == 2 && f.Name() == "Reader" {
			for _, o := range outs {
				if o.panic || len(o.rets) != 2 || !strip(o.rets[0]).isNil() {
					continue
				}
				if strip(o.rets[1]).isNil() {
					c.bad("provider-error", name, f.Pos(), "neither a reader nor an error is returned")
				} else {
					c.ok("provider-error")
				}
			}
		}
		// the client
		if w.partOf(f) && f.Name() != "prepare" {
			continue
		}
		recv := e.params(f)[0]
		for i := 0; i < p.st.NumFields(); i++ {
			fl := p.st.Field(i)
			if !fl.Embedded() {
				continue
			}
			if _, ok := fl.Type().(*types.Pointer); !ok || f.Name() == "prepare" || f.Name() == "Watch" || f.Name() == "Close" {
				continue
			}
			for _, o := range outs {
				used, guarded := token.NoPos, false
				for _, ev := range flatten(o.st.events) {
					for _, a := range ev.args {
						if ev.kind == "call" && walkTerm(a, func(x *Term) bool {
							b, n, ok := fieldLoad(x)
							return ok && b == recv && n == fl.Name()
						}) {
							used = ev.pos
						}
					}
				}
				if used == token.NoPos {
					continue
				}
				for fc := o.st.facts; fc != nil; fc = fc.up {
					if fc.atom.op == "eq" && !fc.pol {
						for k := 0; k < 2; k++ {
							if b, n, ok := fieldLoad(fc.atom.args[k]); ok && b == recv && n == fl.Name() && fc.atom.args[1-k].isNil() {
								guarded = true
							}
						}
					}
					if fc.atom.op == "eq" && fc.pol { // the error kept instead
						for k := 0; k < 2; k++ {
							if b, _, ok := fieldLoad(fc.atom.args[k]); ok && b == recv && fc.atom.args[1-k].isNil() && fc.atom.args[k].typ.String() == "error" {
								guarded = true
							}
						}
					}
				}
				if !guarded {
					c.bad("provider-error", name, used, "the client is used although it may not have been made")
					break
				}
				c.ok("provider-error")
			}
		}
	}
}

// noteDerefs: fields read through a pointer a call returned.
func (e *Engine) noteDerefs() {
	e.noteLoad = func(a *Term) bool {
		return a.op == "fieldaddr" && derefBase(a) != nil
	}
}

func derefBase(a *Term) *Term {
	b := a
	for b.op == "fieldaddr" {
		b = b.args[0]
	}
	if b.op == "res" || b.op == "call" || b.op == "extract" {
		return b
	}
	return nil
}

// derefs: what a failed call returned is not looked into, and nothing is put into a map that does not exist.
func (c *Ctx) derefs(rule string, e *Engine, name string, o *Outcome) {
	evs := flatten(o.st.events)
	for _, ev := range evs {
		if ev.kind == "mapupdate" && ev.addr.isNil() {
			c.bad(rule, name, ev.pos, "an entry is put into a map that was never made")
			return
		}
		if ev.kind != "load" {
			continue
		}
		base := derefBase(ev.addr)
		if base == nil || e.nilState(ev.facts, base) < 0 {
			continue
		}
		for _, x := range evs {
			if x.kind != "call" || x.pos == ev.pos {
				continue
			}
			er := e.errOf(x.Event)
			if er == nil {
				continue
			}
			sg := x.instr.(ssa.CallInstruction).Common().Signature()
			for i := 0; i < sg.Results().Len()-1; i++ {
				if e.resOf(x.Event, i) != base {
					continue
				}
				if e.nilState(ev.facts, er) != 1 {
					c.bad(rule, name, ev.pos, "what %s returned is looked into although it may have failed", shortName(x.name))
					return
				}
				if strings.HasSuffix(x.name, "api.KV).Get") {
					c.bad(rule, name, ev.pos, "what %s returned is looked into although there may be no such key", shortName(x.name))
					return
				}
				c.ok(rule)
			}
		}
	}
}

// settings: WithX then GetX.
func (p *provider) settings() {
	c, w := p.c, p.w
	for _, nm := range []string{"Codec", "Position"} {
		g, s := p.meth("Get"+nm), p.meth("With"+nm)
		if g == nil || s == nil {
			continue
		}
		c.saw(g)
		c.saw(s)
		fields := map[string]bool{}
		e := w.viewEngine()
		for _, o := range e.Analyze(g) {
			if o.panic || len(o.rets) != 1 {
				continue
			}
			b, fn, ok := fieldLoad(o.rets[0])
			if !ok || b != e.params(g)[0] {
				c.bad("provider-setting", w.fname(g), g.Pos(), "what is returned (%s) is not what was given", brief(o.rets[0]))
				continue
			}
			fields[fn] = true
		}
		if len(fields) != 1 {
			continue
		}
		e = w.viewEngine()
		ps := e.params(s)
		for _, o := range e.Analyze(s) {
			if o.panic {
				continue
			}
			good := false
			for _, ev := range flatten(o.st.events) {
				if ev.kind == "store" && ev.addr.op == "fieldaddr" && ev.addr.args[0] == ps[0] && fields[ev.addr.aux] {
					good = ev.Event.val == ps[1]
				}
			}
			if good {
				c.ok("provider-setting")
			} else {
				c.bad("provider-setting", w.fname(s), s.Pos(), "what is given is not what Get%s returns", nm)
			}
		}
		if fn := p.field("With"+nm, 0); fn != "" {
			if fields[fn] {
				c.ok("provider-setting")
			} else {
				c.bad("provider-setting", w.fname(s), s.Pos(), "the option keeps it elsewhere (%s) than Get%s looks", fn, nm)
			}
		}
	}
}

// client: the embedded client is the one that was made, or the reason why not is kept.
func (p *provider) client() {
	c, w := p.c, p.w
	fl, clients := "", 0
	for i := 0; i < p.st.NumFields(); i++ {
		if x := p.st.Field(i); x.Embedded() {
			if _, ok := x.Type().(*types.Pointer); ok {
				fl = x.Name()
				clients++
			}
		}
	}
	if clients != 1 {
		return
	}
	for _, f := range p.funcs() {
		if !strings.HasPrefix(f.Name(), "New") || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 {
			continue
		}
		e := w.viewEngine()
		name := w.fname(f)
		outs := e.Analyze(f)
		if e.over {
			c.und("provider-error", name, "analysis gave up")
			continue
		}
		for _, o := range outs {
			if o.panic || len(o.rets) != 1 {
				continue
			}
			self := strip(o.rets[0])
			evs := flatten(o.st.events)
			var mk *flatEv
			for i := range evs {
				ev := &evs[i]
				if ev.kind == "call" && ev.loop == nil && e.errOf(ev.Event) != nil && (ev.fn == nil || !w.inWorkspace(ev.fn)) && !harmlessErr(ev.Event, o) {
					mk = ev
				}
			}
			cl := e.finalField(o, self, p.n, fl)
			var er *Term
			for i := 0; i < p.st.NumFields(); i++ {
				if p.st.Field(i).Type().String() == "error" {
					er = e.finalField(o, self, p.n, p.st.Field(i).Name())
				}
			}
			if mk == nil {
				// not made: there has to be a reason
				if er == nil || er.isNil() || e.nilState(o.st.facts, er) == 1 {
					c.bad("provider-error", name, f.Pos(), "no client is made and no reason kept")
					continue
				}
				// which has to be a setting that is missing
				miss := false
				for fc := o.st.facts; fc != nil; fc = fc.up {
					if fc.atom.op == "eq" && fc.pol && (fc.atom.args[0].isNil() || fc.atom.args[1].isNil()) {
						miss = true
					}
				}
				if !miss {
					c.bad("provider-error", name, f.Pos(), "no client is made although nothing is missing")
					continue
				}
				c.ok("provider-error")
				continue
			}
			failed := e.nilState(o.st.facts, e.errOf(mk.Event)) < 0
			if !failed && (cl == nil || strip(cl) != strip(e.resOf(mk.Event, 0))) {
				c.bad("provider-error", name, mk.pos, "the client made is not the one used")
				continue
			}
			if er == nil || strip(er) != strip(e.errOf(mk.Event)) && e.nilState(o.st.facts, e.errOf(mk.Event)) != 1 {
				c.bad("provider-error", name, mk.pos, "why there is no client is not kept")
				continue
			}
			bad := false
			for _, a := range mk.args {
				if _, ok := a.typ.Underlying().(*types.Pointer); ok && e.nilState(o.st.facts, a) == 1 {
					bad = true
				}
			}
			if bad {
				c.bad("provider-error", name, mk.pos, "a client is made from a configuration that is not there")
				continue
			}
			c.ok("provider-error")
		}
	}
}

// made: the fields that hold what the constructor was given.
func (p *provider) made() map[string]bool {
	out := map[string]bool{}
	for _, f := range p.funcs() {
		if f.Signature.Recv() != nil || !strings.HasPrefix(f.Name(), "New") {
			continue
		}
		e := p.w.viewEngine()
		ps := e.params(f)
		for _, o := range e.Analyze(f) {
			for _, ev := range flatten(o.st.events) {
				if ev.kind == "store" && ev.addr.op == "fieldaddr" {
					for _, x := range ps {
						if ev.Event.val == x {
							out[ev.addr.aux] = true
						}
					}
				}
			}
		}
	}
	return out
}

// refused: the path returns an error: a sentinel or one known not to be nil.
func (e *Engine) refused(f *ssa.Function, o *Outcome) (bool, *Term) {
	er := e.retErr(f, o)
	if er == nil {
		return false, nil
	}
	if e.nilState(o.st.facts, er) < 0 {
		return true, er
	}
	if er.op == "load" && er.args[0].op == "global" {
		return true, er
	}
	return false, er
}

func openCall(ev *Event) (path int, ok bool) {
	if ev.kind != "call" {
		return 0, false
	}
	if isCall(ev, "os.Open", "os.ReadFile", "os.OpenFile") {
		return 0, true
	}
	if strings.HasSuffix(ev.name, "fs.ReadFile") && len(ev.args) == 2 {
		return 1, true
	}
	if strings.HasSuffix(ev.name, "(fs.FS).Open") || strings.HasSuffix(ev.name, "ReadFileFS).ReadFile") {
		return 1, true
	}
	return 0, false
}

func (p *provider) readBytes() {
	c, w := p.c, p.w
	f := p.meth("ReadBytes")
	if f == nil {
		return
	}
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	made := p.made()
	for _, o := range e.Analyze(f) {
		if o.panic {
			continue
		}
		if no, _ := e.refused(f, o); no {
			c.ok("provider-read")
			continue
		}
		evs := flatten(o.st.events)
		var op *flatEv
		at := 0
		for i := range evs {
			if k, ok := openCall(evs[i].Event); ok {
				op, at = &evs[i], k
				break
			}
		}
		if op == nil {
			known := false
			for _, ev := range evs {
				known = known || ev.kind == "call"
			}
			if known {
				c.und("provider-read", name, "how the source is opened is not recognised")
			} else {
				c.bad("provider-read", name, f.Pos(), "success is returned without reading the source")
			}
			continue
		}
		if b, fn, ok := fieldLoad(op.args[at]); !ok || b != e.params(f)[0] || !made[fn] {
			c.bad("provider-read", name, op.pos, "the file read is %s, not the one the provider was made for", brief(op.args[at]))
			continue
		}
		if at == 1 {
			if b, fn, ok := fieldLoad(strip(op.args[0])); !ok || b != e.params(f)[0] || !made[fn] {
				c.und("provider-read", name, "the file system used is not recognised")
				continue
			}
		}
		whole := strings.HasSuffix(op.name, "ReadFile")
		if !whole && !c.closed(e, name, "provider-read", o, evs, *op) {
			continue
		}
		ret := o.rets[0]
		if whole {
			if ret != e.resOf(op.Event, 0) {
				c.bad("provider-read", name, f.Pos(), "what is returned (%s) is not the file's content", brief(ret))
			} else {
				c.ok("provider-read")
			}
			continue
		}
		h := e.resOf(op.Event, 0)
		done := false
		for _, ev := range evs {
			if ev.kind != "call" || done {
				continue
			}
			if isCall(ev.Event, "io.ReadAll") && ret == e.resOf(ev.Event, 0) {
				src := strip(ev.args[0])
				done = true
				switch {
				case src == h:
					c.ok("provider-read")
				case walkTerm(src, func(x *Term) bool {
					return x.op == "call" && strings.Contains(x.aux, "LimitReader") || x.op == "alloc" && strings.Contains(x.typ.String(), "LimitedReader")
				}):
					c.bad("provider-read", name, ev.pos, "only a limited part of the file is read")
				case mentionsT(src, h):
					c.ok("provider-read")
				default:
					c.und("provider-read", name, "what is read is not recognised")
				}
			}
			if strings.HasSuffix(ev.name, ").Read") && ev.loop == nil && len(ev.args) > 0 && strip(ev.args[0]) == h {
				c.bad("provider-read", name, ev.pos, "a single read may deliver less than the file holds")
				done = true
			}
		}
		if !done {
			if ret.op == "slice" {
				c.bad("provider-read", name, f.Pos(), "only a part of what was read is returned")
			} else {
				c.und("provider-read", name, "how the file is read is not recognised")
			}
		}
	}
}

func (p *provider) write() {
	c, w := p.c, p.w
	f := p.meth("Write")
	if f == nil {
		return
	}
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	made := p.made()
	gate := p.field("WithWriteBackEnabled", 0)
	ps := e.params(f)
	for _, o := range e.Analyze(f) {
		if o.panic {
			continue
		}
		evs := flatten(o.st.events)
		var op *flatEv
		for i := range evs {
			if isCall(evs[i].Event, "os.WriteFile", "os.Create", "os.OpenFile", "os.CreateTemp") {
				op = &evs[i]
				break
			}
		}
		on, known := false, false
		if gate != "" {
			on, known = boolFieldFact(o.st.facts, gate)
		}
		if op == nil {
			no, er := e.refused(f, o)
			switch {
			case !no:
				if er != nil && er.isNil() || er == nil {
					c.bad("provider-write", name, f.Pos(), "success is returned although nothing was written")
				} else {
					c.und("provider-write", name, "how the file is written is not recognised")
				}
			case gate != "" && known && !on && er.op == "load" && er.args[0].op == "global" && strings.Contains(er.args[0].aux, "ErrNotImplemented"):
				c.bad("provider-write", name, f.Pos(), "the refusal is reported as not implemented: the saver then writes by other means")
			case gate != "" && known && on:
				c.bad("provider-write", name, f.Pos(), "writing is refused although it is enabled")
			default:
				c.ok("provider-write")
			}
			continue
		}
		if gate != "" && (!known || !on) {
			c.bad("provider-write", name, op.pos, "the file is written although writing back is not enabled")
			continue
		}
		if b, fn, ok := fieldLoad(op.args[0]); !ok || b != ps[0] || !made[fn] {
			// a temporary file that is renamed
			moved := false
			for _, ev := range evs {
				if isCall(ev.Event, "os.Rename") && len(ev.args) == 2 {
					if b, fn, ok := fieldLoad(ev.args[1]); ok && b == ps[0] && made[fn] {
						moved = true
					}
				}
			}
			if no, _ := e.refused(f, o); !moved && !no {
				c.bad("provider-write", name, op.pos, "the file written is %s, not the one the provider was made for", brief(op.args[0]))
			} else {
				c.und("provider-write", name, "written by way of another file")
			}
			continue
		}
		if isCall(op.Event, "os.WriteFile") {
			if op.args[1] != ps[1] {
				c.bad("provider-write", name, op.pos, "what is written (%s) is not what was given", brief(op.args[1]))
			} else {
				c.ok("provider-write")
			}
			continue
		}
		if isCall(op.Event, "os.OpenFile") && len(op.args) == 3 {
			if k, ok := op.args[1].constInt(); ok && k&0x200 == 0 {
				c.bad("provider-write", name, op.pos, "the file is not truncated: what it held before shows behind a shorter document")
				continue
			}
		}
		if !c.closed(e, name, "provider-write", o, evs, *op) {
			continue
		}
		if no, _ := e.refused(f, o); no {
			c.ok("provider-write")
			continue
		}
		h := e.resOf(op.Event, 0)
		wrote := false
		for _, ev := range evs {
			if ev.kind == "call" && strings.HasSuffix(ev.name, ").Write") && len(ev.args) == 2 && mentionsT(ev.args[0], h) && ev.args[1] == ps[1] {
				wrote = true
			}
			if ev.kind == "call" && isCall(ev.Event, "io.Copy") && mentionsT(ev.args[0], h) && mentionsT(ev.args[1], ps[1]) {
				wrote = true
			}
		}
		oerr := e.errOf(op.Event)
		if !wrote && !(oerr != nil && e.nilState(o.st.facts, oerr) < 0) {
			c.bad("provider-write", name, f.Pos(), "success is returned although the document was not written")
			continue
		}
		c.ok("provider-write")
	}
}

// table: the field Read returns, if it is one.
func (p *provider) table() string {
	f := p.meth("Read")
	if f == nil {
		return ""
	}
	e := p.w.viewEngine()
	out := ""
	for _, o := range e.Analyze(f) {
		if o.panic {
			continue
		}
		if no, _ := e.refused(f, o); no {
			continue
		}
		b, n, ok := fieldLoad(o.rets[0])
		if !ok || b != e.params(f)[0] || out != "" && out != n {
			return ""
		}
		out = n
	}
	return out
}

// emptyState: 1 the text field is known to be empty, -1 known not to be.
func emptyState(facts *Fact, field string) int {
	is := func(t *Term) bool {
		_, n, ok := fieldLoad(t)
		if ok && n == field {
			return true
		}
		if (t.op == "loopvar" || t.op == "out") && len(t.args) == 1 && t.args[0].op == "fieldaddr" && t.args[0].aux == field {
			return true
		}
		return false
	}
	for f := facts; f != nil; f = f.up {
		a := f.atom
		if len(a.args) != 2 {
			continue
		}
		for k := 0; k < 2; k++ {
			x, y := a.args[k], a.args[1-k]
			if a.op == "eq" {
				if s, ok := y.constStr(); ok && s == "" && is(x) || y.isNil() && is(x) {
					return sgn(f.pol)
				}
				if n, ok := y.constInt(); ok && n == 0 && x.op == "len" && is(x.args[0]) {
					return sgn(f.pol)
				}
			}
			if a.op == "lt" && k == 1 { // 0 < len(field)
				if n, ok := a.args[0].constInt(); ok && n == 0 && a.args[1].op == "len" && is(a.args[1].args[0]) {
					return sgn(!f.pol)
				}
			}
		}
	}
	return 0
}

func sgn(b bool) int {
	if b {
		return 1
	}
	return -1
}

func fieldIs(t *Term, field string) bool {
	_, n, ok := fieldLoad(strip(t))
	if ok {
		return n == field
	}
	t = strip(t)
	return (t.op == "loopvar" || t.op == "out") && len(t.args) == 1 && t.args[0].op == "fieldaddr" && t.args[0].aux == field
}

func callName(t *Term) string {
	n := t.aux
	if i := strings.IndexAny(n, "@#"); i >= 0 {
		n = n[:i]
	}
	return n
}

func findCall(t *Term, ok func(n string, x *Term) bool) *Term {
	var out *Term
	walkTerm(t, func(x *Term) bool {
		if x.op == "call" && ok(callName(x), x) {
			out = x
		}
		return out != nil
	})
	return out
}

// keyCheck: key is made from raw by the options that are on, and by nothing else.
func (p *provider) keyCheck(e *Engine, name string, pos token.Pos, facts *Fact, key, raw *Term) bool {
	c, rk := p.c, "provider-key"
	if p.rk != "" {
		rk = p.rk
	}
	bad := func(f string, a ...any) bool {
		c.bad(rk, name, pos, f, a...)
		return false
	}
	if !mentionsT(key, raw) {
		return bad("the key delivered (%s) is not the entry's own", brief(key))
	}
	// what was done
	if fl := p.field("WithLowerCase", 0); fl != "" {
		on, kn := boolFieldFact(facts, fl)
		did := findCall(key, func(n string, x *Term) bool { return strings.HasSuffix(n, "strings.ToLower") }) != nil
		if kn && on && !did || !kn && !did {
			return bad("lower case is asked for and not applied")
		}
		if did && kn && !on {
			return bad("lower case is applied though not asked for")
		}
		if did && !kn {
			return bad("lower case is applied whether asked for or not")
		}
	}
	if fl := p.field("WithUnderlineToDot", 0); fl != "" {
		on, kn := boolFieldFact(facts, fl)
		did := findCall(key, func(n string, x *Term) bool {
			return strings.Contains(n, "Replace") || strings.Contains(n, "strings.Map")
		}) != nil
		if kn && on && !did || !kn && !did {
			// an empty key has nothing to replace
			empty := false
			for f := facts; f != nil; f = f.up {
				if f.pol && f.atom.op == "eq" && len(f.atom.args) == 2 && (f.atom.args[0].op == "len" && mentionsT(f.atom.args[0], raw) || f.atom.args[0] == e.ts.length(raw)) {
					if n, ok := f.atom.args[1].constInt(); ok && n <= 1 {
						empty = true
					}
				}
			}
			if !empty {
				return bad("underlines are to become dots and do not")
			}
		}
		if did && kn && !on {
			return bad("underlines become dots though not asked for")
		}
	}
	text := func(opt string, i int, what string, did func(fl string) bool) bool {
		fl := p.field(opt, i)
		if fl == "" {
			return true
		}
		st := emptyState(facts, fl)
		d := did(fl)
		if !d && st >= 0 && st != 1 {
			return bad("%s is not applied (%s)", what, fl)
		}
		if !d && st < 0 {
			return bad("%s is given and not applied (%s)", what, fl)
		}
		return true
	}
	if p.field("WithKeyCB", 0) != "" {
		if !text("WithKeyCB", 0, "the caller's key function", func(fl string) bool {
			return findCall(key, func(n string, x *Term) bool { return strings.HasPrefix(n, "dynamic") }) != nil
		}) {
			return false
		}
	}
	trim := func(fl, tail string) bool {
		return findCall(key, func(n string, x *Term) bool {
			if !strings.HasSuffix(n, "strings.TrimPrefix") && !strings.HasSuffix(n, "strings.CutPrefix") || len(x.args) != 2 {
				return false
			}
			if tail == "" {
				return fieldIs(x.args[1], fl)
			}
			y := x.args[1]
			if y.op != "concat" || len(y.args) != 2 || !fieldIs(y.args[0], fl) {
				return false
			}
			s, ok := y.args[1].constStr()
			return ok && s == tail
		}) != nil
	}
	if !text("WithPrefix", 1, "the part to strip", func(fl string) bool { return trim(fl, "") }) {
		return false
	}
	if !text("WithStripPrefix", 0, "the part to strip", func(fl string) bool { return trim(fl, "/") }) {
		return false
	}
	// a prefix in front, with one delimiter
	front := func(fl string, delim func(*Term) bool) bool {
		return walkTerm(key, func(x *Term) bool {
			if x.op == "concat" && len(x.args) >= 3 && fieldIs(x.args[0], fl) && delim(x.args[1]) {
				return true
			}
			if x.op == "call" && strings.HasSuffix(callName(x), "strings.Join") && len(x.args) == 2 && x.args[0].op == "vec" && len(x.args[0].args) >= 2 {
				return fieldIs(x.args[0].args[0], fl) && delim(x.args[1]) && mentionsT(x.args[0].args[1], raw)
			}
			return false
		})
	}
	if p.field("WithKeyCB", 0) != "" && !text("WithStorePrefix", 0, "the key prefix", func(fl string) bool {
		return front(fl, func(t *Term) bool { s, ok := t.constStr(); return ok && s == "." })
	}) {
		return false
	}
	dl := p.field("WithDelimiter", 0)
	if !text("WithPrependPrefix", 0, "the prefix to prepend", func(fl string) bool {
		return front(fl, func(t *Term) bool { return fieldIs(t, dl) })
	}) {
		return false
	}
	if p.field("WithPrependPrefix", 0) != "" && dl != "" {
		if !text("WithDelimiter", 0, "the delimiter", func(fl string) bool {
			return findCall(key, func(n string, x *Term) bool {
				if !strings.HasSuffix(n, "strings.ReplaceAll") && !strings.HasSuffix(n, "strings.Replace") || len(x.args) < 3 || !fieldIs(x.args[2], fl) {
					return false
				}
				if len(x.args) == 4 {
					if k, ok := x.args[3].constInt(); !ok || k >= 0 {
						return false
					}
				}
				s, ok := x.args[1].constStr()
				return ok && s == "/"
			}) != nil
		}) {
			return false
		}
	}
	// nothing lost: pieces fit together
	type piece struct{ base, lo, hi *Term }
	var pieces []piece
	lost := ""
	walkTerm(key, func(x *Term) bool {
		if x == raw || mentionsT(raw, x) {
			return false
		}
		if x.op == "slice" && isStrT(x.typ) && mentionsT(x, raw) {
			pieces = append(pieces, piece{x.args[0], x.args[1], x.args[2]})
		}
		if x.op == "call" && strings.Contains(callName(x), "Regexp).Replace") && len(x.args) == 3 {
			tpl, ok := x.args[2].constStr()
			pat := ""
			if mc := findCall(x.args[0], func(n string, _ *Term) bool { return strings.HasSuffix(n, "Compile") }); mc != nil && len(mc.args) > 0 {
				pat, _ = mc.args[0].constStr()
			}
			if pat == "" {
				pat = p.pattern()
			}
			if ok && strings.Contains(callName(x), "ReplaceAllString") && !strings.Contains(callName(x), "Literal") {
				for i := 1; i <= strings.Count(pat, "("); i++ {
					if d := string(rune('0' + i)); !strings.Contains(tpl, "$"+d) && !strings.Contains(tpl, "${"+d) {
						lost = "what is found is not put back"
					}
				}
				if pat != "" && !strings.Contains(tpl, ".") {
					lost = "underlines are dropped and no dots put in their place"
				}
			}
		}
		return false
	})
	for _, x := range pieces {
		at, ok := x.lo.constInt()
		end, ok2 := x.hi.constInt()
		switch {
		case ok && x.hi.op == "none":
			fit := false
			for _, y := range pieces {
				if k, is := y.hi.constInt(); is && k == at && y.lo.op == "none" && y.base == x.base {
					fit = true
				}
			}
			if !fit {
				lost = "its beginning is left out"
			}
		case ok2 && x.lo.op == "none":
			fit := false
			for _, y := range pieces {
				if k, is := y.lo.constInt(); is && k == end && y.hi.op == "none" && y.base == x.base {
					fit = true
				}
			}
			if !fit {
				lost = "its end is left out"
			}
		default:
			continue
		}
		if lost == "" {
			some := false
			for f := facts; f != nil; f = f.up {
				a := f.atom
				if a.op == "eq" && !f.pol && (a.args[0] == x.base || a.args[1] == x.base || a.args[0] == e.ts.length(x.base)) || (a.op == "lt" || a.op == "le") && mentionsT(a, e.ts.length(x.base)) {
					some = true
				}
			}
			if !some {
				lost = "it fails where it is empty"
			}
		}
	}
	if lost != "" {
		return bad("the key is taken apart and not put together again: %s", lost)
	}
	// nothing else
	extra := ""
	walkTerm(key, func(x *Term) bool {
		if x == raw {
			return false
		}
		if x.op == "slice" && p.field("WithUnderlineToDot", 0) == "" && mentionsT(x, raw) && !mentionsT(raw, x) {
			if k, ok := x.args[1].constInt(); ok && k > 0 {
				extra = "a slice from a fixed position"
			}
		}
		if x.op != "call" || mentionsT(raw, x) {
			return false
		}
		n := callName(x)
		if mentionsT(x, raw) {
			for _, s := range []string{"TrimSpace", "strings.Trim@", "TrimLeft", "TrimRight", "TrimSuffix", "ToUpper", "Title", "Fields", "Repeat"} {
				if strings.Contains(n+"@", s) {
					extra = n
				}
			}
			if strings.HasSuffix(n, "strings.ReplaceAll") && p.field("WithUnderlineToDot", 0) == "" {
				if s, ok := x.args[1].constStr(); !ok || s != "/" {
					extra = n
				}
			}
		}
		return false
	})
	if extra != "" {
		return bad("the key is changed by %s, which nothing asks for", extra)
	}
	c.ok(rk)
	return true
}

// pattern: the only regular expression of the package, if there is just one.
func (p *provider) pattern() string {
	pats := map[string]bool{}
	for _, f := range p.funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "regexp" && strings.HasSuffix(g.Name(), "Compile") {
						if k, ok := ci.Common().Args[0].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
							pats[constant.StringVal(k.Value)] = true
						} else {
							pats[""] = true
						}
					}
				}
			}
		}
	}
	if len(pats) != 1 {
		return ""
	}
	for k := range pats {
		return k
	}
	return ""
}

// valueOf: the Value field of an entry written.
func (e *Engine) valueOf(v *Term, nm string) *Term {
	st, ok := v.typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == nm {
			return e.structField(v, st, i)
		}
	}
	return nil
}

func elemField(t *Term, elem *Term, nm string) bool {
	return walkTerm(t, func(x *Term) bool {
		b, n, ok := fieldLoad(x)
		return ok && n == nm && mentionsT(b, elem)
	})
}

// read: providers that ask a remote store.
func (p *provider) read() {
	c, w := p.c, p.w
	f := p.meth("Read")
	if f == nil {
		return
	}
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	outs := e.Analyze(f)
	if e.over {
		c.und("provider-read", name, "analysis gave up")
		return
	}
	if p.table() != "" {
		c.ok("provider-read")
		return
	}
	recv := e.params(f)[0]
	pos := ""
	if g := p.meth("GetPosition"); g != nil {
		e2 := w.viewEngine()
		for _, o := range e2.Analyze(g) {
			if len(o.rets) == 1 {
				if _, n, ok := fieldLoad(o.rets[0]); ok {
					pos = n
				}
			}
		}
	}
	for _, o := range outs {
		for _, ev := range flatten(o.st.events) {
			if ev.kind == "mapupdate" {
				if tg := e.valueOf(ev.Event.val, "Tag"); tg != nil && strip(tg).op == "makemap" {
					p.details = true
				}
			}
		}
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		if no, _ := e.refused(f, o); no {
			c.ok("provider-read")
			continue
		}
		evs := flatten(o.st.events)
		// asked
		var ask *flatEv
		for i := range evs {
			ev := &evs[i]
			if ev.kind == "call" && ev.loop == nil && (ev.fn == nil || !w.inWorkspace(ev.fn)) && e.errOf(ev.Event) != nil && len(ev.args) >= 2 && !harmlessErr(ev.Event, o) {
				ask = ev
			}
		}
		if ask == nil {
			// no client: its error is returned
			er := e.retErr(f, o)
			if b, _, ok := fieldLoad(er); ok && b == recv {
				c.ok("provider-read")
				continue
			}
			c.bad("provider-read", name, f.Pos(), "success is returned without asking the source")
			continue
		}
		aerr := e.errOf(ask.Event)
		if er := e.retErr(f, o); er == aerr && e.nilState(o.st.facts, aerr) < 0 {
			c.ok("provider-read")
			continue
		}
		if pos != "" {
			asked := false
			for _, a := range ask.args[1:] {
				if fieldIs(a, pos) {
					asked = true
				}
			}
			if !asked {
				c.bad("provider-read", name, ask.pos, "the source is not asked for the position given (%s)", pos)
				continue
			}
		}
		rec := ""
		if rec = p.field("WithRecursive", 0); rec != "" {
			on, kn := boolFieldFact(o.st.facts, rec)
			all := strings.HasSuffix(ask.name, ".List") || walkAny(ask.args, func(x *Term) bool { return x.op == "call" && strings.HasSuffix(callName(x), "WithPrefix") })
			if !kn || on != all {
				c.bad("provider-read", name, ask.pos, "asking for one key or for all below it does not follow the option given")
				continue
			}
		}
		if lim := findIn(ask.args, "WithLimit"); lim != nil {
			asked, other := false, false
			for fc := o.st.facts; fc != nil; fc = fc.up {
				if b, fl, ok := fieldLoad(fc.atom); ok && b == recv && fc.pol {
					switch {
					case strings.Contains(strings.ToLower(brief(fc.atom)), "limit"):
						asked = true
					case !p.optKeeps(fl):
						other = true
					}
				}
			}
			if !asked && other {
				c.und("provider-read", name, "limited under a condition not recognised")
				continue
			}
			if !asked {
				c.bad("provider-read", name, ask.pos, "only a limited number of entries is asked for")
				continue
			}
		}
		res := e.resOf(ask.Event, 0)
		p.entries(e, f, name, o, evs, res)
	}
	p.wideOptions()
}

// wideOptions: an option that names a prefix asks for all below it, one that names a key for that key.
func (p *provider) wideOptions() {
	rec := p.field("WithRecursive", 0)
	if rec == "" {
		return
	}
	c, w := p.c, p.w
	for nm, want := range map[string]string{"WithStorePrefix": "true", "WithKey": "false"} {
		f, ok := p.pkg().Members[nm].(*ssa.Function)
		if !ok || p.field(nm, 0) == "" {
			continue
		}
		for _, a := range f.AnonFuncs {
			if len(a.Params) != 1 {
				continue
			}
			e := w.viewEngine()
			var fv []*Term
			for _, v := range a.FreeVars {
				fv = append(fv, e.ts.mk("param", "bound:"+v.Name(), v.Type()))
			}
			self := e.ts.mk("param", "self", a.Params[0].Type())
			for _, o := range e.AnalyzeWith(a, []*Term{self}, fv) {
				if o.panic {
					continue
				}
				v := e.finalField(o, self, p.n, rec)
				if v == nil || brief(v) != want {
					c.bad("provider-option", w.fname(f), f.Pos(), "whether one key or all below it is meant is not settled as the option says")
					continue
				}
				c.ok("provider-option")
			}
		}
	}
}

func walkAny(l []*Term, f func(*Term) bool) bool {
	for _, t := range l {
		if walkTerm(t, f) {
			return true
		}
	}
	return false
}

func findIn(l []*Term, s string) *Term {
	for _, t := range l {
		if x := findCall(t, func(n string, x *Term) bool { return strings.HasSuffix(n, s) }); x != nil {
			return x
		}
	}
	return nil
}

// entries: everything res holds is delivered.
func (p *provider) entries(e *Engine, f *ssa.Function, name string, o *Outcome, evs []flatEv, res *Term) {
	c := p.c
	ret := o.rets[0]
	list := false
	switch t := res.typ.Underlying().(type) {
	case *types.Slice:
		list = true
	case *types.Pointer:
		if st, ok := t.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
					if _, ok := sl.Elem().Underlying().(*types.Pointer); ok {
						list = true
					}
				}
			}
		}
	}
	one := func(ups []*Event, elem *Term, facts *Fact, pos token.Pos) bool {
		if len(ups) == 0 {
			if e.nilState(facts, elem) == 1 {
				return true
			}
			c.bad("provider-read", name, pos, "an entry of the source is left out")
			return false
		}
		for _, ev := range ups {
			if ev.addr != ret {
				c.und("provider-read", name, "the map written is not recognised")
				return false
			}
			var raw *Term
			walkTerm(ev.key, func(x *Term) bool {
				b, n, ok := fieldLoad(x)
				if ok && n == "Key" && mentionsT(b, elem) {
					raw = x
				}
				return false
			})
			if raw == nil {
				c.bad("provider-key", name, ev.pos, "the key delivered (%s) is not the entry's own", brief(ev.key))
				return false
			}
			if !p.keyCheck(e, name, ev.pos, facts, ev.key, raw) {
				return false
			}
			v := e.valueOf(ev.val, "Value")
			if v == nil {
				c.und("provider-read", name, "the value written is not recognised")
				return false
			}
			if !elemField(v, elem, "Value") {
				c.bad("provider-read", name, ev.pos, "the value delivered (%s) is not the entry's own", brief(v))
				return false
			}
			// details only, and always, when asked for
			if fn := p.field("WithProcessMeta", 0); fn != "" && p.details {
				on, kn := boolFieldFact(facts, fn)
				tg := e.valueOf(ev.val, "Tag")
				if kn && tg != nil && on == strip(tg).isNil() {
					c.bad("provider-read", name, ev.pos, "an entry's details do not follow the option given")
					return false
				}
				if !kn && tg != nil && (strip(tg).isNil() || strip(tg).op == "makemap") {
					c.bad("provider-read", name, ev.pos, "an entry's details are given, or not, whatever the option says")
					return false
				}
			}
			// the tag's parts
			if tg := e.valueOf(ev.val, "Tag"); tg != nil && strip(tg).op == "makemap" {
				m := strip(tg)
				for _, x := range evs {
					if x.kind != "mapupdate" || x.addr != m {
						continue
					}
					k, ok := x.key.constStr()
					if !ok {
						continue
					}
					other, own := "", false
					walkTerm(x.Event.val, func(y *Term) bool {
						if b, n, ok := fieldLoad(y); ok && mentionsT(b, elem) {
							if n != k {
								other = n
							} else {
								own = true
							}
						}
						return false
					})
					if _, cst := strip(x.Event.val).constStr(); cst && !own {
						// a placeholder, for what is empty
						b, _, _ := fieldLoad(raw)
						known := false
						if b != nil {
							for fc := x.facts; fc != nil; fc = fc.up {
								known = known || fc.pol && walkTerm(fc.atom, func(y *Term) bool {
									_, n, ok := fieldLoad(y)
									return ok && n == k
								})
							}
						}
						if !known {
							c.bad("provider-read", name, x.pos, "the entry's %s is not reported", k)
							return false
						}
					}
					if other != "" {
						c.bad("provider-read", name, x.pos, "the entry's %s is reported as its %s", other, k)
						return false
					}
				}
			}
		}
		return true
	}
	if list {
		var lp *LoopEv
		var cov cover
		for _, ev := range o.st.events {
			if ev.kind == "loop" {
				if cv := e.loopCover(ev.loop); cv.known && mentionsT(wholeOf(&cv), res) {
					lp, cov = ev.loop, cv
				}
			}
		}
		if lp == nil {
			any := false
			for _, ev := range o.st.events {
				any = any || ev.kind == "loop"
			}
			if any {
				c.und("provider-read", name, "the loop over the entries is not recognised")
				return
			}
			if walkTermFacts(o.st.facts, func(x *Term) bool { return x.op == "len" && mentionsT(x, res) }) {
				c.ok("provider-read")
				return
			}
			c.bad("provider-read", name, f.Pos(), "the entries of the source are not delivered")
			return
		}
		if !cov.full {
			c.bad("provider-read", name, f.Pos(), "not every entry of the source is delivered: %s", cov.why)
			return
		}
		for _, b := range lp.bodies {
			var ups []*Event
			for _, fe := range flatten(b.events) {
				if fe.kind == "mapupdate" && fe.addr == ret {
					ups = append(ups, fe.Event)
				}
			}
			var elem *Term
			for _, a := range cov.at {
				elem = a
			}
			if elem == nil {
				c.und("provider-read", name, "the element is not recognised")
				return
			}
			if !one(ups, e.ts.mk("load", "", derefT(elem.typ), elem), b.facts, f.Pos()) {
				return
			}
		}
		c.ok("provider-read")
		return
	}
	if e.nilState(o.st.facts, res) == 1 {
		c.ok("provider-read") // no such key
		return
	}
	var ups []*Event
	for _, ev := range evs {
		if ev.kind == "mapupdate" && ev.addr == ret {
			ups = append(ups, ev.Event)
		}
	}
	if one(ups, res, o.st.facts, f.Pos()) {
		c.ok("provider-read")
	}
}

func walkTermFacts(f *Fact, ok func(*Term) bool) bool {
	for ; f != nil; f = f.up {
		if walkTerm(f.atom, ok) {
			return true
		}
	}
	return false
}

// iter: Next, Has, Value, MustValue, Count, Keys.
func (p *provider) iter() {
	c, w := p.c, p.w
	tab := p.table()
	keys := ""
	if f := p.meth("Keys"); f != nil {
		c.saw(f)
		e := w.viewEngine()
		for _, o := range e.Analyze(f) {
			if o.panic {
				continue
			}
			if no, _ := e.refused(f, o); no {
				c.ok("provider-iter")
				continue
			}
			b, n, ok := fieldLoad(o.rets[0])
			if !ok || b != e.params(f)[0] {
				if cp := findCall(o.rets[0], func(n string, x *Term) bool { return strings.Contains(n, "slices.Clone") }); cp != nil || o.rets[0].op == "append" {
					c.und("provider-iter", w.fname(f), "the list returned is not recognised")
				} else {
					c.bad("provider-iter", w.fname(f), f.Pos(), "the list returned (%s) is not the list of keys", brief(o.rets[0]))
				}
				continue
			}
			keys = n
			c.ok("provider-iter")
		}
	}
	if f := p.meth("Count"); f != nil {
		c.saw(f)
		e := w.viewEngine()
		for _, o := range e.Analyze(f) {
			if o.panic {
				continue
			}
			r := o.rets[0]
			switch {
			case r.op == "len" && (fieldIs(r.args[0], keys) && keys != "" || fieldIs(r.args[0], tab) && tab != ""):
				c.ok("provider-iter")
			case keys == "":
				if k, ok := r.constInt(); ok && k == 0 {
					c.ok("provider-iter")
				} else {
					c.und("provider-iter", w.fname(f), "the count is not recognised")
				}
			default:
				c.bad("provider-iter", w.fname(f), f.Pos(), "the count (%s) is not the number of keys", brief(r))
			}
		}
	}
	if f := p.meth("Next"); f != nil {
		p.next(f, keys)
	}
	if f := p.meth("Extras"); f != nil && tab != "" {
		c.saw(f)
		e := w.viewEngine()
		ps := e.params(f)
		for _, o := range e.Analyze(f) {
			if o.panic || len(o.rets) != 3 {
				continue
			}
			has := true
			for fc := o.st.facts; fc != nil; fc = fc.up {
				if fc.atom.op == "haskey" && fieldIs(fc.atom.args[0], tab) && !fc.pol {
					has = false
				}
			}
			fine := true
			for i, nm := range []string{"Desc", "Comment", "Tag"} {
				r := strip(o.rets[i])
				if !has && (r.isNil() || isZeroTerm(r)) {
					continue
				}
				if !walkTerm(r, func(x *Term) bool { return x.op == "lookup" && fieldIs(x.args[0], tab) && x.args[1] == ps[1] }) {
					c.bad("provider-iter", w.fname(f), f.Pos(), "the %s of an entry (%s) is not what was noted for it", nm, brief(r))
					fine = false
					continue
				}
				if r.op == "field" && r.aux != nm {
					c.bad("provider-iter", w.fname(f), f.Pos(), "the %s of an entry is reported as its %s", r.aux, nm)
					fine = false
				}
			}
			if fine {
				c.ok("provider-iter")
			}
		}
	}
	for _, nm := range []string{"Has", "Value", "MustValue"} {
		f := p.meth(nm)
		if f == nil {
			continue
		}
		c.saw(f)
		name := w.fname(f)
		e := w.viewEngine()
		ps := e.params(f)
		for _, o := range e.Analyze(f) {
			if o.panic {
				continue
			}
			if keys == "" {
				// a provider without a key list: nothing is ever there
				z := true
				for _, r := range o.rets {
					if !isZeroTerm(r) && !r.isNil() {
						if v, k := e.decide(o.st.facts, r); !k || v {
							z = false
						}
					}
				}
				if z {
					c.ok("provider-iter")
				} else if walkAny(o.rets, func(x *Term) bool { return x.op == "lookup" || x.op == "haskey" }) {
					c.und("provider-iter", name, "the table asked is not recognised")
				} else {
					c.bad("provider-iter", name, f.Pos(), "a key is reported without a table that holds it")
				}
				continue
			}
			p.lookup(e, f, nm, name, o, ps, tab)
		}
	}
}

func (p *provider) lookup(e *Engine, f *ssa.Function, nm, name string, o *Outcome, ps []*Term, tab string) {
	c := p.c
	isHas := func(x *Term) bool {
		return x.op == "haskey" && fieldIs(x.args[0], tab) && x.args[1] == ps[1]
	}
	isGet := func(x *Term) bool {
		return (x.op == "lookup") && fieldIs(x.args[0], tab) && x.args[1] == ps[1]
	}
	has, hk := false, false
	for fc := o.st.facts; fc != nil; fc = fc.up {
		if isHas(fc.atom) {
			has, hk = fc.pol, true
		}
	}
	bad := func(s string, a ...any) { c.bad("provider-iter", name, f.Pos(), s, a...) }
	boolOK := func(r *Term) bool {
		if isHas(r) {
			return true
		}
		v, k := e.decide(o.st.facts, r)
		return k && hk && v == has
	}
	valOK := func(r *Term) (bool, bool) {
		if hk && !has {
			return r.isNil() || isZeroTerm(r) || walkTerm(r, isGet), true
		}
		if !walkTerm(r, isGet) {
			return false, true
		}
		if b, n, ok := fieldLoad(r); ok {
			_ = b
			return n == "Value", true
		}
		if r.op == "field" {
			return strings.HasSuffix(r.aux, "Value") || r.aux == "0", true
		}
		return true, false
	}
	switch nm {
	case "Has":
		if !boolOK(o.rets[0]) {
			bad("the answer (%s) is not whether the key is in the table", brief(o.rets[0]))
			return
		}
	case "Value":
		if !boolOK(o.rets[1]) {
			bad("the answer (%s) is not whether the key is in the table", brief(o.rets[1]))
			return
		}
		if ok, _ := valOK(o.rets[0]); !ok {
			bad("what is returned (%s) is not the value of the key", brief(o.rets[0]))
			return
		}
	default:
		if ok, _ := valOK(o.rets[0]); !ok {
			bad("what is returned (%s) is not the value of the key", brief(o.rets[0]))
			return
		}
	}
	c.ok("provider-iter")
}

func (p *provider) next(f *ssa.Function, keys string) {
	c, w := p.c, p.w
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	recv := e.params(f)[0]
	for _, o := range e.Analyze(f) {
		if o.panic {
			continue
		}
		key, eol := o.rets[0], o.rets[1]
		end, kn := e.decide(o.st.facts, eol)
		if !kn {
			c.und("provider-iter", name, "the end is not recognised")
			continue
		}
		if keys == "" {
			if !end {
				c.bad("provider-iter", name, f.Pos(), "the end is never reported")
			} else {
				c.ok("provider-iter")
			}
			continue
		}
		var moved *Event
		for _, ev := range flatten(o.st.events) {
			if ev.kind == "store" && ev.addr.op == "fieldaddr" && ev.addr.args[0] == recv {
				moved = ev.Event
			}
		}
		if end {
			// the end only when the position is past the last key
			past := false
			for fc := o.st.facts; fc != nil; fc = fc.up {
				if fc.atom.op == "lt" && !fc.pol && fc.atom.args[1].op == "len" && fieldIs(fc.atom.args[1].args[0], keys) {
					if b, _, ok := fieldLoad(fc.atom.args[0]); ok && b == recv {
						past = true
					}
				}
				if fc.atom.op == "eq" && fc.pol {
					for k := 0; k < 2; k++ {
						if x := fc.atom.args[k]; x.op == "len" && fieldIs(x.args[0], keys) {
							past = true
						}
					}
				}
			}
			if !past {
				c.bad("provider-iter", name, f.Pos(), "the end is reported before all keys were delivered")
				continue
			}
			c.ok("provider-iter")
			continue
		}
		// one key, the next one
		if key.op != "load" || key.args[0].op != "idxaddr" || !fieldIs(key.args[0].args[0], keys) {
			c.bad("provider-iter", name, f.Pos(), "what is delivered (%s) is not a key of the list", brief(key))
			continue
		}
		idx := key.args[0].args[1]
		b, at, ok := fieldLoad(idx)
		if !ok || b != recv {
			c.bad("provider-iter", name, f.Pos(), "the key delivered is not the one at the current position")
			continue
		}
		p.start(f, at)
		if moved == nil || moved.addr != idx.args[0] {
			c.bad("provider-iter", name, f.Pos(), "the position does not move on")
			continue
		}
		if d, ok := e.ts.constDiff(moved.val, idx); !ok || d != 1 {
			c.bad("provider-iter", name, f.Pos(), "the position does not move on by one")
			continue
		}
		c.ok("provider-iter")
	}
}

// start: nothing but Next moves the position, except back to the first key.
func (p *provider) start(next *ssa.Function, at string) {
	c := p.c
	for _, f := range p.funcs() {
		if f == next {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || namedOf(fa.X.Type()) != p.n || p.n.Underlying().(*types.Struct).Field(fa.Field).Name() != at {
					continue
				}
				k, ok := st.Val.(*ssa.Const)
				switch {
				case !ok:
					c.und("provider-iter", p.w.fname(f), "where the walk over the keys begins is not recognised")
				case k.Value != nil && constant.Sign(k.Value) != 0:
					c.bad("provider-iter", p.w.fname(f), st.Pos(), "the walk over the keys does not begin with the first one")
				default:
					c.ok("provider-iter")
				}
			}
		}
	}
}

// filled: how the table of the provider is filled.
func (p *provider) filled() {
	tab := p.table()
	if tab == "" {
		return
	}
	for _, f := range p.funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || g.Pkg == nil {
					continue
				}
				switch {
				case g.Pkg.Pkg.Path() == "os" && g.Name() == "Environ":
					p.fillEnv(f, tab)
				case g.Pkg.Pkg.Path() == "flag" && (g.Name() == "VisitAll" || g.Name() == "Visit"):
					p.fillFlags(f, tab, g.Name())
				}
			}
		}
		if f.Signature.Recv() == nil && strings.HasPrefix(f.Name(), "New") {
			for i, q := range f.Params {
				if _, ok := q.Type().Underlying().(*types.Map); ok {
					p.fillMap(f, tab, i)
				}
			}
		}
	}
}

func (p *provider) keyList() string {
	f := p.meth("Keys")
	if f == nil {
		return ""
	}
	e := p.w.viewEngine()
	for _, o := range e.Analyze(f) {
		if !o.panic {
			if _, n, ok := fieldLoad(o.rets[0]); ok {
				return n
			}
		}
	}
	return ""
}

// taken: what one entry of the source leaves behind.
func (p *provider) taken(e *Engine, f *ssa.Function, name, tab string, evs []*Event, facts *Fact, raw *Term, val func(*Term, *Event) bool, left func() bool) {
	c := p.c
	keys := p.keyList()
	var up, ap *Event
	for _, fe := range flatten(evs) {
		if fe.kind == "mapupdate" && (fieldIs(fe.addr, tab) || fe.addr.op == "makemap") {
			up = fe.Event
		}
		if fe.kind == "append" && fe.val != nil || fe.kind == "append" {
			if keys != "" && fieldIs(appendBase(fe.Event), keys) || appendBase(fe.Event) != nil && appendBase(fe.Event).op == "loopvar" {
				ap = fe.Event
			}
		}
	}
	if up == nil {
		// left out: only because of the filter
		fl := p.field("WithPrefix", 0)
		for fc := facts; fc != nil; fc = fc.up {
			a := fc.atom
			if a.op == "call" && strings.HasSuffix(callName(a), "strings.HasPrefix") && !fc.pol && len(a.args) == 2 && fl != "" && fieldIs(a.args[1], fl) {
				if a.args[0] != raw {
					if findCall(a.args[0], func(n string, x *Term) bool { return strings.HasSuffix(n, "ToLower") }) != nil {
						c.bad("provider-read", name, f.Pos(), "the filter looks at a changed name")
						return
					}
					c.und("provider-read", name, "what the filter looks at is not recognised")
					return
				}
				if emptyState(facts, fl) == 1 {
					continue
				}
				c.ok("provider-read")
				return
			}
		}
		if left != nil && left() {
			c.ok("provider-read")
			return
		}
		c.bad("provider-read", name, f.Pos(), "an entry is left out although the filter does not ask for it")
		return
	}
	// passed the filter
	if fl := p.field("WithPrefix", 0); fl != "" && emptyState(facts, fl) != 1 {
		passed := false
		for fc := facts; fc != nil; fc = fc.up {
			a := fc.atom
			if a.op == "call" && strings.HasSuffix(callName(a), "strings.HasPrefix") && fc.pol && len(a.args) == 2 && fieldIs(a.args[1], fl) {
				passed = true
			}
		}
		if !passed {
			c.bad("provider-read", name, up.pos, "an entry is delivered although it does not pass the filter")
			return
		}
	}
	if !p.keyCheck(e, name, up.pos, facts, up.key, raw) {
		return
	}
	v := e.valueOf(up.val, "Value")
	if v == nil {
		c.und("provider-read", name, "the value written is not recognised")
		return
	}
	if !val(v, up) {
		return
	}
	if keys != "" {
		if ap == nil {
			c.bad("provider-iter", name, up.pos, "an entry of the table is missing in the list of keys")
			return
		}
		if !mentionsAny2(ap.args, up.key) {
			c.bad("provider-iter", name, ap.pos, "the list of keys names %s, the table %s", brief2(ap.args), brief(up.key))
			return
		}
	}
	c.ok("provider-read")
}

func brief2(l []*Term) string {
	s := ""
	for _, t := range l {
		s += brief(t) + " "
	}
	return strings.TrimSpace(s)
}

func appendBase(ev *Event) *Term {
	return ev.addr
}

func (p *provider) fillEnv(f *ssa.Function, tab string) {
	c, w := p.c, p.w
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	outs := e.Analyze(f)
	if e.over {
		c.und("provider-read", name, "analysis gave up")
		return
	}
	if p.field("WithPrefix", 0) != "" && !strings.HasSuffix(p.via["WithPrefix"], "strings.ToUpper") {
		c.bad("provider-read", name, f.Pos(), "the filter given is not brought to upper case, as names of variables are")
		return
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		var lp *LoopEv
		var cov cover
		for _, ev := range o.st.events {
			if ev.kind == "loop" {
				if cv := e.loopCover(ev.loop); cv.known && findCall(wholeOf(&cv), func(n string, x *Term) bool { return strings.HasSuffix(n, "os.Environ") }) != nil {
					lp, cov = ev.loop, cv
				}
			}
		}
		if lp == nil {
			c.und("provider-read", name, "the loop over the environment is not recognised")
			continue
		}
		if !cov.full {
			c.bad("provider-read", name, f.Pos(), "not every variable is looked at: %s", cov.why)
			continue
		}
		for _, b := range lp.bodies {
			// where the name ends
			var entry, cut *Term
			for _, fe := range flatten(b.events) {
				if fe.kind == "call" && len(fe.args) >= 2 && walkTerm(fe.args[0], func(x *Term) bool { return x.op == "idxaddr" && x.args[0] == cov.slice }) {
					if s, ok := fe.args[1].constStr(); ok && s == "=" || isEq(fe.args[1]) {
						if cut == nil {
							entry, cut = fe.args[0], fe.res
						}
					}
				}
			}
			if cut == nil {
				c.und("provider-read", name, "how an entry is taken apart is not recognised")
				return
			}
			n := callName(cut)
			var raw *Term
			var goodV func(*Term) (bool, bool)
			var none func() bool
			switch {
			case strings.HasSuffix(n, "strings.Index") || strings.HasSuffix(n, "strings.IndexByte") || strings.HasSuffix(n, "strings.IndexRune"):
				raw = e.findSlice(b, entry, cut)
				goodV = func(v *Term) (bool, bool) {
					v = strip(v)
					if v.op == "slice" && v.args[0] == entry {
						d, ok := e.ts.constDiff(v.args[1], cut)
						return ok && d == 1 && (len(v.args) < 3 || v.args[2].op == "none"), true
					}
					return false, v.op != "call"
				}
				none = func() bool {
					if v, k := e.decide(b.facts, e.ts.lt(e.ts.intc(0), cut)); k && !v {
						return true
					}
					if v, k := e.decide(b.facts, e.ts.lt(cut, e.ts.intc(0))); k && v {
						return true
					}
					if v, k := e.decide(b.facts, e.ts.lt(cut, e.ts.intc(1))); k && v {
						return true
					}
					for _, kk := range []int64{-1, 0} {
						if v, k := e.decide(b.facts, e.ts.eq(cut, e.ts.intc(kk))); k && v {
							return true
						}
					}
					return false
				}
			case strings.HasSuffix(n, "strings.Cut"):
				raw = e.ts.mk("res", "0", types.Typ[types.String], cut)
				goodV = func(v *Term) (bool, bool) {
					v = strip(v)
					return v == e.ts.mk("res", "1", types.Typ[types.String], cut), true
				}
				none = func() bool {
					for fc := b.facts; fc != nil; fc = fc.up {
						if fc.atom.op == "res" && fc.atom.aux == "2" && fc.atom.args[0] == cut && !fc.pol {
							return true
						}
						if fc.atom.op == "eq" && fc.pol && mentionsT(fc.atom, raw) {
							if z, ok := fc.atom.args[1].constInt(); ok && z == 0 {
								return true
							}
							if z, ok := fc.atom.args[1].constStr(); ok && z == "" {
								return true
							}
						}
					}
					return false
				}
			case strings.Contains(n, "LastIndex"):
				c.bad("provider-read", name, f.Pos(), "the entry is taken apart at its last '=', which may belong to the value")
				return
			default:
				c.und("provider-read", name, "how an entry is taken apart is not recognised")
				return
			}
			if raw == nil {
				if none() {
					c.ok("provider-read")
					continue
				}
				raw = e.ts.mk("slice", "", entry.typ, entry, e.ts.mk("none", "", nil), cut)
			}
			p.taken(e, f, name, tab, b.events, b.facts, raw, func(v *Term, ev *Event) bool {
				ok, known := goodV(v)
				if !ok {
					if known || findCall(v, func(n string, x *Term) bool { return strings.HasPrefix(n, "strings.T") || strings.Contains(n, "Split") }) != nil {
						c.bad("provider-read", name, ev.pos, "the value delivered (%s) is not all that follows the first '='", brief(v))
					} else {
						c.und("provider-read", name, "the value delivered is not recognised")
					}
				}
				return ok
			}, none)
		}
	}
}

func isEq(t *Term) bool { k, ok := t.constInt(); return ok && k == '=' }

// findSlice: entry[:cut] as it occurs in the iteration.
func (e *Engine) findSlice(b LoopBody, entry, cut *Term) (out *Term) {
	look := func(t *Term) {
		if t == nil {
			return
		}
		walkTerm(t, func(x *Term) bool {
			if x.op == "slice" && x.args[0] == entry && len(x.args) >= 3 && x.args[2] == cut {
				if x.args[1].op == "none" {
					out = x
				} else if k, ok := x.args[1].constInt(); ok && k == 0 {
					out = x
				}
			}
			return false
		})
	}
	for _, fe := range flatten(b.events) {
		for _, a := range fe.args {
			look(a)
		}
		look(fe.key)
		look(fe.Event.val)
	}
	for fc := b.facts; fc != nil; fc = fc.up {
		look(fc.atom)
	}
	return
}

func (p *provider) fillFlags(f *ssa.Function, tab, how string) {
	c, w := p.c, p.w
	c.saw(f)
	name := w.fname(f)
	if v := p.via["WithPrefix"]; v != "" {
		c.bad("provider-read", name, f.Pos(), "the filter given is changed by %s, the names it is compared with are not", v)
		return
	}
	if how == "Visit" {
		c.bad("provider-read", name, f.Pos(), "only flags given on the command line are delivered, not those with their defaults")
		return
	}
	e := w.viewEngine()
	for _, o := range e.Analyze(f) {
		if o.panic {
			continue
		}
		for _, ev := range flatten(o.st.events) {
			if ev.kind != "call" || !strings.HasSuffix(ev.name, "VisitAll") {
				continue
			}
			cl := strip(ev.args[len(ev.args)-1])
			if (cl.op != "closure" && cl.op != "func") || cl.fn == nil || len(cl.fn.Params) == 0 {
				c.und("provider-read", name, "the visitor is not recognised")
				continue
			}
			e2 := w.viewEngine()
			var fv []*Term
			for _, v := range cl.fn.FreeVars {
				fv = append(fv, e2.ts.mk("param", "bound:"+v.Name(), v.Type()))
			}
			var args []*Term
			for i, q := range cl.fn.Params {
				args = append(args, e2.ts.mk("param", pname(q, i), q.Type()))
			}
			fl := args[len(args)-1]
			outs := e2.AnalyzeWith(cl.fn, args, fv)
			if e2.over {
				c.und("provider-read", name, "analysis gave up")
				continue
			}
			for _, o2 := range outs {
				if o2.panic {
					continue
				}
				var raw *Term
				find := func(t *Term) {
					if t != nil {
						walkTerm(t, func(x *Term) bool {
							if b, n, ok := fieldLoad(x); ok && b == fl && n == "Name" {
								raw = x
							}
							return false
						})
					}
				}
				for _, fe := range flatten(o2.st.events) {
					find(fe.key)
					for _, a := range fe.args {
						find(a)
					}
				}
				for fc := o2.st.facts; fc != nil; fc = fc.up {
					find(fc.atom)
				}
				if raw == nil {
					c.bad("provider-key", name, f.Pos(), "a flag is not delivered under its name")
					continue
				}
				p.taken(e2, f, name, tab, o2.st.events, o2.st.facts, raw, func(v *Term, ev *Event) bool {
					if !elemField(v, fl, "Value") {
						c.bad("provider-read", name, ev.pos, "the value delivered (%s) is not the flag's own", brief(v))
						return false
					}
					elem := findCall(v, func(n string, x *Term) bool {
						return strings.HasSuffix(n, "Value).Elem") || strings.HasSuffix(n, "reflect.Indirect")
					})
					if ptr, known := kindFact(o2.st.facts, fl); known {
						if ptr && elem == nil && findCall(v, func(n string, x *Term) bool { return strings.Contains(n, "Get") }) == nil {
							c.bad("provider-read", name, ev.pos, "the flag's variable is delivered in place of its value")
							return false
						}
						if !ptr && elem != nil && strings.HasSuffix(callName(elem), "Value).Elem") {
							c.bad("provider-read", name, ev.pos, "what a value points to is asked for where it is no pointer")
							return false
						}
					}
					for _, x := range []struct{ to, from string }{{"Desc", "Usage"}, {"Tag", "DefValue"}} {
						if d := e2.valueOf(ev.val, x.to); d != nil && !elemField(d, fl, x.from) {
							c.bad("provider-read", name, ev.pos, "the flag's %s is lost", x.from)
							return false
						}
					}
					return true
				}, nil)
			}
		}
	}
}

// kindFact: whether the flag's value is known to be a pointer, or not to be one.
func kindFact(facts *Fact, fl *Term) (ptr, known bool) {
	for fc := facts; fc != nil; fc = fc.up {
		if fc.atom.op != "eq" {
			continue
		}
		for k := 0; k < 2; k++ {
			x, y := fc.atom.args[k], fc.atom.args[1-k]
			n, ok := y.constInt()
			if ok && n == int64(reflect.Pointer) && x.op == "call" && strings.HasSuffix(callName(x), "Kind") && elemField(x, fl, "Value") {
				return fc.pol, true
			}
		}
	}
	return
}

// fillMap: the map a constructor is given.
func (p *provider) fillMap(f *ssa.Function, tab string, i int) {
	c, w := p.c, p.w
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	old := e.opaque
	cv := modRoot + "/internal/cvt"
	e.opaque = func(g *ssa.Function) bool { return g.Pkg != nil && g.Pkg.Pkg.Path() == cv || old(g) }
	outs := e.Analyze(f)
	if e.over {
		c.und("provider-read", name, "analysis gave up")
		return
	}
	m := e.params(f)[i]
	dl := p.field("WithDelimiter", 0)
	for _, o := range outs {
		if o.panic {
			continue
		}
		evs := flatten(o.st.events)
		// the caller's map is only read
		hurt := false
		for _, ev := range evs {
			if (ev.kind == "mapupdate" || ev.kind == "delete") && ev.addr == m {
				hurt = true
			}
			if ev.kind == "call" && ev.fn != nil && ev.fn.Pkg != nil && ev.fn.Pkg.Pkg.Path() == cv && ev.fn.Name() != "Copy" && mentionsOutside(ev.args, m) {
				hurt = true
			}
		}
		if hurt {
			c.bad("provider-map", name, f.Pos(), "the caller's map itself is brought into shape, not a copy")
			continue
		}
		var lp *LoopEv
		var src *Term
		full := false
		allLoops(o.st.events, func(x *LoopEv) {
			for _, b := range x.bodies {
				for _, ev := range b.events {
					if ev.kind == "mapupdate" && ev.key.op == "rangekey" {
						lp, src = x, ev.key.args[0]
						full = len(x.exits) == 1 && x.exits[0] == x.header
					}
				}
			}
		})
		if lp == nil {
			c.und("provider-read", name, "how the table is filled is not recognised")
			continue
		}
		if !mentionsT(src, m) && !e.viaLoop(src, m) && !newFlowRun(m, evs).has(src) {
			c.bad("provider-read", name, f.Pos(), "the table is not filled from the map given")
			continue
		}
		if !full {
			c.bad("provider-read", name, f.Pos(), "the loop over the map is left early")
			continue
		}
		good := true
		for _, b := range lp.bodies {
			var up *Event
			for _, ev := range b.events {
				if ev.kind == "mapupdate" {
					up = ev
				}
			}
			if up == nil {
				c.bad("provider-read", name, f.Pos(), "an entry of the map is left out")
				good = false
				continue
			}
			if up.key.op != "rangekey" {
				c.bad("provider-key", name, up.pos, "the key delivered (%s) is not the entry's own", brief(up.key))
				good = false
				continue
			}
			v := e.valueOf(up.val, "Value")
			if v == nil || strip(v).op != "rangeval" || strip(v).args[0] != src {
				c.bad("provider-read", name, up.pos, "the value delivered is not the entry's own")
				good = false
			}
		}
		if !good {
			continue
		}
		// keys are taken apart when there is a delimiter
		if dl != "" {
			did := findCall(src, func(n string, x *Term) bool { return strings.HasSuffix(n, "Deflate") })
			st := emptyState(o.st.facts, dl)
			switch {
			case did == nil && st != 1:
				c.bad("provider-key", name, f.Pos(), "keys are not taken apart at the delimiter given")
				continue
			case did != nil && (len(did.args) < 2 || !fieldIs(did.args[1], dl)):
				c.bad("provider-key", name, f.Pos(), "keys are taken apart at something else than the delimiter given")
				continue
			}
			c.ok("provider-key")
		}
		c.ok("provider-read")
	}
}

func newFlowRun(m *Term, evs []flatEv) *flow {
	f := newFlow(m)
	f.run(evs)
	return f
}

func mentionsOutside(l []*Term, m *Term) bool {
	for _, t := range l {
		if strip(t) == m {
			return true
		}
	}
	return false
}

// mapHelpers: internal/cvt.
func (c *Ctx) mapHelpers() {
	w := c.w
	pk := w.byPth[modRoot+"/internal/cvt"]
	if pk == nil {
		return
	}
	sp := w.prog.Package(pk.Types)
	if f := sp.Func("Copy"); f != nil {
		c.saw(f)
		e := w.viewEngine()
		m := e.params(f)[0]
		for _, o := range e.Analyze(f) {
			if o.panic {
				continue
			}
			if strip(o.rets[0]) == m {
				c.bad("provider-map", w.fname(f), f.Pos(), "the map itself is returned, not a copy")
				continue
			}
			fl := newFlowRun(m, flatten(o.st.events))
			if !fl.has(o.rets[0]) && !walkTerm(o.rets[0], func(x *Term) bool { return x.op == "out" && fl.has(x) }) {
				l, full := mapLoop(o.st.events, m)
				if l != nil && full {
					if shallowCopy(l) {
						c.bad("provider-map", w.fname(f), f.Pos(), "only the top level is copied: nested maps are shared with the caller")
						continue
					}
					c.und("provider-map", w.fname(f), "the copy is made by hand")
					continue
				}
				c.bad("provider-map", w.fname(f), f.Pos(), "what is returned is not a copy of the map given")
				continue
			}
			deep := false
			for _, ev := range flatten(o.st.events) {
				if ev.kind == "call" && strings.Contains(ev.name, "evendeep") {
					deep = true
				}
				if ev.kind == "call" && strings.HasSuffix(ev.name, "maps.Copy") || ev.kind == "call" && strings.HasSuffix(ev.name, "maps.Clone") {
					c.bad("provider-map", w.fname(f), ev.pos, "only the top level is copied: nested maps are shared with the caller")
				}
			}
			if deep {
				c.ok("provider-map")
				continue
			}
			if l, _ := mapLoop(o.st.events, m); l != nil && shallowCopy(l) {
				c.bad("provider-map", w.fname(f), f.Pos(), "only the top level is copied: nested maps are shared with the caller")
				continue
			}
			c.und("provider-map", w.fname(f), "the copy is made by hand")
		}
	}
	if f := sp.Func("Normalize"); f != nil {
		c.saw(f)
		name := w.fname(f)
		e := w.viewEngine()
		m := e.params(f)[0]
		outs := e.Analyze(f)
		if e.over {
			c.und("provider-map", name, "analysis gave up")
			outs = nil
		}
		for _, o := range outs {
			if o.panic {
				continue
			}
			if o.rets[0] != m {
				c.und("provider-map", name, "what is returned is not recognised")
				continue
			}
			l, full := mapLoop(o.st.events, m)
			if l == nil {
				c.und("provider-map", name, "the loop over the map is not recognised")
				continue
			}
			if !full {
				c.bad("provider-map", name, f.Pos(), "the loop over the map is left early")
				continue
			}
			for _, b := range l.bodies {
				c.shaped(e, f, name, b, func(x *Term) bool { return x.op == "rangeval" && x.args[0] == m }, func(ev *Event, x *Term) bool {
					return ev.kind == "mapupdate" && ev.addr == m && ev.key.op == "rangekey" && ev.key.args[0] == m && strip(ev.val) == x
				})
			}
		}
	}
	if f := sp.Func("Deflate"); f != nil {
		c.deflate(f)
	}
	if f := sp.Func("merge"); f != nil {
		c.saw(f)
		name := w.fname(f)
		e := w.viewEngine()
		ps := e.params(f)
		if len(ps) != 3 {
			return
		}
		for _, o := range e.Analyze(f) {
			if o.panic {
				continue
			}
			set := false
			for _, ev := range o.st.events {
				if ev.kind == "mapupdate" && ev.addr == ps[0] && ev.key == ps[1] && ev.val == ps[2] {
					set = true
				}
			}
			if set {
				c.ok("provider-map")
				continue
			}
			done := false
			allLoops(o.st.events, func(l *LoopEv) {
				for _, b := range l.bodies {
					for _, ev := range b.events {
						if ev.kind == "call" && ev.fn == f && len(ev.args) == 3 && ev.args[1].op == "rangekey" && ev.args[2].op == "rangeval" && mentionsT(ev.args[1], ps[2]) && mentionsT(ev.args[2], ps[2]) {
							done = len(l.exits) == 1 && l.exits[0] == l.header && len(l.bodies) == 1
						}
					}
				}
			})
			if done {
				c.ok("provider-map")
			} else {
				c.bad("provider-map", name, f.Pos(), "an entry is not taken over on some path")
			}
		}
	}
}

// shaped: a nested value keeps all it holds.
func (c *Ctx) shaped(e *Engine, f *ssa.Function, name string, b LoopBody, isV func(*Term) bool, put func(*Event, *Term) bool) {
	kind := ""
	var v *Term
	for fc := b.facts; fc != nil; fc = fc.up {
		if fc.atom.op == "istype" && isV(fc.atom.args[0]) {
			if fc.pol {
				kind, v = fc.atom.aux, fc.atom.args[0]
			}
		}
	}
	evs := flatten(b.events)
	again := func(x func(*Term) bool) bool {
		for _, ev := range evs {
			if ev.kind == "call" && ev.fn == f && len(ev.args) > 0 && x(ev.args[0]) {
				return true
			}
		}
		return false
	}
	switch kind {
	case "":
		for _, ev := range evs {
			if ev.kind == "mapupdate" || ev.kind == "delete" || ev.kind == "store" && ev.addr.op == "idxaddr" && ev.addr.args[0].op != "alloc" {
				c.bad("provider-map", name, ev.pos, "a plain value is changed")
				return
			}
		}
	case "map[string]any", "map[string]interface{}":
		if !again(func(x *Term) bool { return mentionsT(x, v) }) {
			c.bad("provider-map", name, f.Pos(), "a nested map is not brought into shape")
			return
		}
	case "map[any]any", "map[interface{}]interface{}":
		var x *Term
		for _, ev := range b.events {
			if ev.kind == "mapupdate" || ev.kind == "store" {
				y := strip(ev.val)
				if y.op == "call" && len(y.args) > 0 && y.args[0].op == "makemap" && put(ev, y) {
					for _, g := range evs { // what the function itself returned
						if g.kind == "call" && g.res == y && g.fn == f {
							x = y.args[0]
						}
					}
				}
				if y.op == "makemap" && put(ev, y) {
					x = y
				}
			}
		}
		if x == nil {
			c.bad("provider-map", name, f.Pos(), "a nested map is not put in place of the one with untyped keys")
			return
		}
		var lp *LoopEv
		full := false
		allLoops(b.events, func(l *LoopEv) {
			for _, bb := range l.bodies {
				for _, ev := range bb.events {
					if ev.kind == "mapupdate" && ev.addr == x {
						lp = l
						full = len(l.exits) == 1 && l.exits[0] == l.header
					}
				}
			}
		})
		if lp == nil || !full {
			c.bad("provider-map", name, f.Pos(), "not every entry of a nested map is taken over")
			return
		}
		for _, bb := range lp.bodies {
			ok := false
			for _, ev := range bb.events {
				if ev.kind == "mapupdate" && ev.addr == x && walkTerm(ev.key, func(t *Term) bool { return t.op == "rangekey" && mentionsT(t, v) }) && ev.val.op == "rangeval" && mentionsT(ev.val, v) {
					ok = true
				}
			}
			if !ok {
				c.bad("provider-map", name, f.Pos(), "an entry of a nested map is left out")
				return
			}
			for _, ev := range bb.events {
				if ev.kind == "mapupdate" && ev.addr == x {
					if why := plainText(ev.key, bb.facts); why != "" {
						c.bad("provider-map", name, ev.pos, "the key of a nested map is changed: %s", why)
						return
					}
				}
			}
		}
		if !again(func(t *Term) bool { return t == x }) {
			c.bad("provider-map", name, f.Pos(), "a nested map is not brought into shape")
			return
		}
	case "[]any", "[]interface{}":
		var lp *LoopEv
		var cov cover
		for _, ev := range b.events {
			if ev.kind == "loop" {
				if cv := e.loopCover(ev.loop); cv.known && mentionsT(wholeOf(&cv), v) {
					lp, cov = ev.loop, cv
				}
			}
		}
		if lp == nil {
			c.und("provider-map", name, "the loop over a list is not recognised")
			return
		}
		if !cov.full {
			c.bad("provider-map", name, f.Pos(), "not every element of a list is brought into shape: %s", cov.why)
			return
		}
		isE := func(t *Term) bool {
			return t.op == "load" && t.args[0].op == "idxaddr" && t.args[0].args[0] == cov.slice
		}
		for _, bb := range lp.bodies {
			c.shaped(e, f, name, bb, isE, func(ev *Event, x *Term) bool {
				return ev.kind == "store" && ev.addr.op == "idxaddr" && ev.addr.args[0] == cov.slice && strip(ev.val) == x
			})
		}
		return
	default:
		c.und("provider-map", name, "a value of type %s is treated", kind)
		return
	}
	c.ok("provider-map")
}

// plainText: a key of any type is written the way it prints.
func plainText(key *Term, facts *Fact) (why string) {
	walkTerm(key, func(x *Term) bool {
		if x.op == "assert" && x.args[0].op == "rangekey" {
			known := false
			for fc := facts; fc != nil; fc = fc.up {
				if fc.atom.op == "istype" && fc.atom.args[0] == x.args[0] && fc.pol {
					known = true
				}
			}
			if !known {
				why = "only keys of one type have a name"
			}
		}
		if x.op == "call" && strings.HasPrefix(callName(x), "fmt.Sprintf") && len(x.args) > 0 {
			if s, ok := x.args[0].constStr(); ok && s != "%v" && s != "%+v" {
				why = "it is printed with " + s
			}
		}
		return why != ""
	})
	return
}

func (c *Ctx) deflate(f *ssa.Function) {
	w := c.w
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	ps := e.params(f)
	m := ps[0]
	outs := e.Analyze(f)
	if e.over {
		c.und("provider-map", name, "analysis gave up")
		return
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		l, full := mapLoop(o.st.events, m)
		if l == nil {
			c.und("provider-map", name, "the loop over the map is not recognised")
			continue
		}
		if !full {
			c.bad("provider-map", name, f.Pos(), "the loop over the map is left early")
			continue
		}
		// either each body stores its entry, or it notes the key
		listed := true
		for _, b := range l.bodies {
			ok := false
			for _, fe := range flatten(b.events) {
				if fe.kind == "append" && walkAny(fe.args, func(x *Term) bool { return x.op == "rangekey" && x.args[0] == m }) {
					ok = true
				}
			}
			listed = listed && ok
		}
		stores := func(evs []*Event, is func(*Term) bool) bool {
			for _, fe := range flatten(evs) {
				if fe.kind == "mapupdate" && is(strip(fe.Event.val)) {
					return true
				}
				if fe.kind == "call" && fe.fn != nil && w.inWorkspace(fe.fn) {
					for _, a := range fe.args {
						if is(strip(a)) {
							return true
						}
					}
				}
			}
			return false
		}
		if !listed {
			good := true
			for _, b := range l.bodies {
				if !stores(b.events, func(x *Term) bool { return x.op == "rangeval" && x.args[0] == m }) {
					good = false
				}
			}
			if good {
				c.ok("provider-map")
			} else {
				c.bad("provider-map", name, f.Pos(), "an entry of the map is left out")
			}
			continue
		}
		var lp *LoopEv
		var cov cover
		for _, ev := range o.st.events {
			if ev.kind == "loop" && ev.loop != l {
				if cv := e.loopCover(ev.loop); cv.known {
					wholeOf(&cv)
					lp, cov = ev.loop, cv
				}
			}
		}
		if lp == nil {
			c.und("provider-map", name, "the loop over the keys is not recognised")
			continue
		}
		if !cov.full {
			c.bad("provider-map", name, f.Pos(), "not every entry of the map is taken over: %s", cov.why)
			continue
		}
		if cov.down {
			c.bad("provider-map", name, f.Pos(), "keys are taken over last first, so that one may replace what is below it")
			continue
		}
		sorted := false
		for _, ev := range o.st.events {
			if ev.kind == "call" && (strings.HasPrefix(ev.name, "sort.") || strings.HasPrefix(ev.name, "slices.Sort")) {
				for _, a := range ev.args {
					sorted = sorted || cov.slice != nil && (mentionsT(a, cov.slice) || mentionsT(cov.slice, a))
				}
				sorted = sorted || cov.slice != nil && ev.res != nil && mentionsT(cov.slice, ev.res)
			}
		}
		if !sorted {
			c.bad("provider-map", name, f.Pos(), "keys are taken over in no particular order, so that one may replace what is below it")
			continue
		}
		good := true
		c.taken2(e, name, lp, &good)
		for _, b := range lp.bodies {
			if !stores(b.events, func(x *Term) bool {
				return x.op == "lookup" && x.args[0] == m && walkTerm(x.args[1], func(y *Term) bool { return y.op == "idxaddr" && y.args[0] == cov.slice })
			}) {
				good = false
			}
			// taken apart, and put together, with the delimiter given
			for _, fe := range flatten(b.events) {
				if fe.kind == "call" && len(fe.args) >= 2 && (strings.HasPrefix(fe.name, "strings.Split") || strings.HasPrefix(fe.name, "strings.Join")) && len(ps) > 1 && fe.args[1] != ps[1] {
					c.bad("provider-map", name, fe.pos, "keys are taken apart or put together with something else than the delimiter given")
					good = false
				}
			}
		}
		if good {
			c.ok("provider-map")
		} else {
			c.bad("provider-map", name, f.Pos(), "an entry of the map is left out")
		}
	}
}

// taken2: going down the parts of a key keeps what is there and passes over no part.
func (c *Ctx) taken2(e *Engine, name string, lp *LoopEv, good *bool) {
	bad := func(pos token.Pos, f string, a ...any) {
		if *good {
			c.bad("provider-map", name, pos, f, a...)
		}
		*good = false
	}
	for _, ob := range lp.bodies {
		allLoops(ob.events, func(l *LoopEv) {
			for _, b := range l.bodies {
				var made *Term
				for _, ev := range b.events {
					if ev.kind != "mapupdate" || strip(ev.val).op != "makemap" {
						continue
					}
					made = strip(ev.val)
					has, kn := true, false
					for f := b.facts; f != nil && f != l.entry; f = f.up {
						if f.atom.op == "haskey" && f.atom.args[0] == ev.addr && f.atom.args[1] == ev.key {
							has, kn = f.pol, true
						}
						if f.atom.op == "eq" && f.pol && (f.atom.args[0].isNil() || f.atom.args[1].isNil()) && mentionsT(f.atom, ev.key) {
							has, kn = false, true
						}
					}
					if !kn || has {
						bad(ev.pos, "what a key holds is replaced by a map for what is below it")
					}
				}
				for id, nx := range b.next {
					v := e.ts.all[id]
					x := strip(nx)
					if x.op == "makemap" && made != nil && x != made {
						bad(lp0(b.events), "what is below a key is put into a map that is not kept")
					}
					if x.op == "slice" && x.args[0] == v && x.args[2].op == "none" {
						if k, ok := x.args[1].constInt(); ok && k != 1 {
							bad(lp0(b.events), "a part of a key is passed over")
						}
					}
				}
			}
		})
		for _, ev := range ob.events {
			var key *Term
			switch {
			case ev.kind == "mapupdate":
				key = ev.key
			case ev.kind == "call" && ev.fn != nil && len(ev.args) == 3 && isStrT(ev.args[1].typ):
				key = strip(ev.args[1])
			}
			if key == nil || key.op != "load" || len(key.args) != 1 || key.args[0].op != "idxaddr" || key.args[0].args[0].op != "loopvar" {
				continue
			}
			if v, kn := e.decide(ob.facts, e.ts.lt(e.ts.intc(1), e.ts.length(key.args[0].args[0]))); kn && v {
				bad(ev.pos, "the rest of a key is left out")
			}
		}
	}
}

func lp0(evs []*Event) token.Pos {
	for _, ev := range evs {
		if ev.pos != token.NoPos {
			return ev.pos
		}
	}
	return token.NoPos
}

func shallowCopy(l *LoopEv) bool {
	for _, b := range l.bodies {
		typed := false
		for fc := b.facts; fc != nil; fc = fc.up {
			typed = typed || fc.atom.op == "istype"
		}
		for _, ev := range b.events {
			if ev.kind == "mapupdate" && ev.val.op == "rangeval" && !typed {
				return true
			}
		}
	}
	return false
}

// optKeeps: is the field one that an option sets?
func (p *provider) optKeeps(field string) bool {
	for _, m := range p.opt {
		for _, f := range m {
			if f == field {
				return true
			}
		}
	}
	return false
}
