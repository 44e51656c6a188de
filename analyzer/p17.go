package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P17: codecs - what goes in comes out, and failures are reported.

func init() { register("P17", p17) }

// libTypes: the named types of the library packages under dir ("codecs",
// "providers") that implement the named interface of the store package.
func (w *World) libTypes(dir, iface string) (out []*types.Named) {
	obj := w.store.Scope().Lookup(iface)
	if obj == nil {
		return
	}
	it, ok := obj.Type().Underlying().(*types.Interface)
	if !ok {
		return
	}
	for _, p := range w.pkgs {
		if !strings.HasPrefix(p.PkgPath, modRoot+"/"+dir+"/") || strings.HasSuffix(p.PkgPath, "/test") {
			continue
		}
		for _, nm := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(n) || n.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(types.NewPointer(n), it) {
				out = append(out, n)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return
}

// flow follows a value through the calls of one path.
type flow struct {
	set map[*Term]bool
}

func newFlow(roots ...*Term) *flow {
	f := &flow{set: map[*Term]bool{}}
	for _, r := range roots {
		f.set[r] = true
	}
	return f
}

func (f *flow) has(t *Term) bool {
	return t != nil && walkTerm(t, func(x *Term) bool { return f.set[x] })
}

func (f *flow) objects(t *Term) {
	walkTerm(t, func(x *Term) bool {
		switch x.op {
		case "alloc", "call", "makemap", "res":
			f.set[x] = true
		}
		return false
	})
}

func (f *flow) run(evs []flatEv) {
	for pass := 0; pass < 2; pass++ {
		for _, ev := range evs {
			switch ev.kind {
			case "call":
				hit := false
				for _, a := range ev.args {
					hit = hit || f.has(a)
				}
				if !hit {
					continue
				}
				if ev.res != nil {
					f.set[ev.res] = true
				}
				for _, a := range ev.args {
					f.objects(a)
				}
			case "store":
				if f.has(ev.Event.val) && ev.addr != nil {
					f.objects(ev.addr)
				}
			case "mapupdate":
				if f.has(ev.Event.val) || f.has(ev.key) {
					if ev.addr != nil {
						f.objects(ev.addr)
					}
					for _, a := range ev.args {
						f.objects(a)
					}
				}
			}
		}
	}
}

// errOf: the error result of a call, if it has one.
func (e *Engine) errOf(ev *Event) *Term {
	sg := sigOf(ev)
	if sg == nil || sg.Results().Len() == 0 {
		return nil
	}
	i := sg.Results().Len() - 1
	if sg.Results().At(i).Type().String() != "error" {
		return nil
	}
	return e.resOf(ev, i)
}

// harmless: calls whose error says nothing about the result.
func harmlessErr(ev *Event, o *Outcome) bool {
	n := ev.name
	switch {
	case strings.Contains(n, "bytes.Buffer"), strings.Contains(n, "strings.Builder"), strings.Contains(n, "fmt.Errorf"),
		strings.Contains(n, "errors.New"), strings.Contains(n, "fmt.Fprint"), strings.Contains(n, "fmt.Print"):
		return true
	case strings.HasSuffix(n, ".Close"):
		// closing what was only read
		if len(ev.args) > 0 {
			w := false
			walkTerm(ev.args[0], func(x *Term) bool {
				if x.op == "call" && (strings.Contains(x.aux, "os.Create") || strings.Contains(x.aux, "os.OpenFile") || strings.Contains(x.aux, "NewEncoder") || strings.Contains(x.aux, "NewWriter")) {
					w = true
				}
				return w
			})
			return !w
		}
		return true
	}
	return false
}

// errorsOut: every error a path meets is nil or comes out.
func (c *Ctx) errorsOut(rule string, e *Engine, f *ssa.Function, name string, o *Outcome, skip func(*Event) bool) bool {
	good := true
	ret := e.retErr(f, o)
	for _, ev := range flatten(o.st.events) {
		if ev.kind != "call" || ev.defrd && ret == nil {
			continue
		}
		er := e.errOf(ev.Event)
		if er == nil || harmlessErr(ev.Event, o) || skip != nil && skip(ev.Event) {
			continue
		}
		facts := o.st.facts
		if ev.loop != nil {
			facts = ev.loop.bodies[ev.body].facts
			if e.nilState(facts, er) == 1 {
				c.ok(rule)
				continue
			}
			carried := false
			for _, nx := range ev.loop.bodies[ev.body].next {
				carried = carried || mentionsT(nx, er)
			}
			for _, x := range ev.loop.bodies[ev.body].events {
				if x.kind == "store" && mentionsT(x.val, er) || x.kind == "call" && x != ev.Event && mentionsAny2(x.args, er) {
					carried = true
				}
			}
			if carried {
				c.und(rule, name, "an error of %s is carried on", shortName(ev.name))
				continue
			}
			c.bad(rule, name, ev.pos, "an error of %s is dropped and the loop goes on", shortName(ev.name))
			good = false
			continue
		}
		if e.nilState(facts, er) == 1 || ret != nil && (mentionsT(ret, er) || e.nilState(facts, ret) < 0) {
			c.ok(rule)
			continue
		}
		if ret != nil && e.viaLoop(ret, er) {
			c.ok(rule)
			continue
		}
		c.bad(rule, name, ev.pos, "an error of %s does not come out on some path", shortName(ev.name))
		good = false
	}
	return good
}

func mentionsAny2(l []*Term, t *Term) bool {
	for _, x := range l {
		if mentionsT(x, t) {
			return true
		}
	}
	return false
}

// viaLoop: ret is a loop value that may hold t.
func (e *Engine) viaLoop(ret, t *Term) bool {
	seen := map[int]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if seen[x.id] {
			return false
		}
		seen[x.id] = true
		return walkTerm(x, func(y *Term) bool {
			if y == t {
				return true
			}
			for _, z := range e.loopIn[y.id] {
				if rec(z) {
					return true
				}
			}
			return false
		})
	}
	return rec(ret)
}

func shortName(n string) string {
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		n = n[i+1:]
	}
	return strings.Trim(n, "()*")
}

func (e *Engine) retErr(f *ssa.Function, o *Outcome) *Term {
	rs := f.Signature.Results()
	if rs.Len() == 0 || rs.At(rs.Len()-1).Type().String() != "error" || len(o.rets) != rs.Len() {
		return nil
	}
	return o.rets[rs.Len()-1]
}

func (e *Engine) params(f *ssa.Function) (out []*Term) {
	for i, p := range f.Params {
		out = append(out, e.ts.mk("param", pname(p, i), p.Type()))
	}
	return
}

func p17(c *Ctx) {
	w := c.w
	c.rule("codec-error", "every error the format library reports on a path is nil or is what the codec returns")
	c.rule("codec-decode", "the given bytes, whole, go to the decoder and what is returned is what it decoded, in a document of this call's own")
	c.rule("codec-encode", "the given document, whole, goes to the encoder and what is returned is its whole output, in memory of this call's own")
	c.rule("codec-entry", "an encoder written here visits every entry of every map and list and writes it under its own key")
	c.rule("codec-file", "loading and saving use the named file and close it on every path")
	c.rule("codec-table", "each file suffix is served by the codec of that format; registering and looking up use the given suffix")
	c.rule("codec-option", "every option given is applied and stores the value it was given")
	cs := w.libTypes("codecs", "Codec")
	if len(cs) == 0 {
		c.und("codec-decode", "codecs", "none found")
	}
	for _, n := range cs {
		if f := w.method(n, "Unmarshal"); f != nil && declared(f) {
			c.codecFn(f, "codec-decode")
			c.reshaped(f)
		}
		if f := w.method(n, "Marshal"); f != nil && declared(f) {
			c.codecFn(f, "codec-encode")
			c.codecEntries(f)
		}
		for _, nm := range []string{"Load", "Save"} {
			if f := w.method(n, nm); f != nil && declared(f) {
				c.codecFile(f, nm == "Save")
			}
		}
		c.options(n, "codec-option")
	}
	c.codecTable()
}

// sharedRoot: the memory t lies in outlives the call.
func sharedRoot(t *Term, recv *Term) bool {
	for t != nil {
		switch t.op {
		case "param":
			return t == recv
		case "global":
			return true
		case "call":
			if strings.Contains(t.aux, "sync.Pool).Get") {
				return true
			}
			return false
		case "assert", "iface", "chtype", "fieldaddr", "idxaddr", "load", "slice", "res":
			if len(t.args) == 0 {
				return t.op == "load"
			}
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

func (c *Ctx) codecFn(f *ssa.Function, rule string) {
	w := c.w
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	outs := e.Analyze(f)
	if e.over {
		c.und(rule, name, "analysis gave up")
		return
	}
	ps := e.params(f)
	recv, in := ps[0], ps[1]
	var consulted []string // options the decoder looks at
	for _, o := range outs {
		for fc := o.st.facts; fc != nil; fc = fc.up {
			if b, n, ok := fieldLoad(fc.atom); ok && b == recv && !hasStr(consulted, n) {
				consulted = append(consulted, n)
			}
		}
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		evs := flatten(o.st.events)
		if !c.errorsOut("codec-error", e, f, name, o, nil) {
			continue
		}
		ret, er := o.rets[0], o.rets[1]
		facts := o.st.facts
		if e.nilState(facts, er) < 0 {
			c.ok(rule)
			continue
		}
		if g := er; g.op == "load" && len(g.args) == 1 && g.args[0].op == "global" {
			c.ok(rule) // a sentinel
			continue
		}
		// state kept
		stateful := ""
		for _, ev := range evs {
			switch ev.kind {
			case "store":
				if ev.addr != nil && ev.addr.op != "alloc" && sharedRoot(ev.addr, recv) {
					stateful = brief(ev.addr)
				}
			case "call":
				if len(ev.args) > 0 && (strings.HasSuffix(ev.name, "Encode") || strings.HasSuffix(ev.name, "Decode")) && ev.fn != nil && !w.inWorkspace(ev.fn) && ev.args[0].op != "call" && sharedRoot(ev.args[0], recv) {
					stateful = brief(ev.args[0])
				}
			}
		}
		if stateful != "" {
			c.bad(rule, name, f.Pos(), "the result depends on, or is left in, memory shared by all calls (%s)", stateful)
			continue
		}
		if rule == "codec-decode" {
			wrong := false
			for fc := facts; fc != nil; fc = fc.up {
				if fc.atom.op == "istype" && !fc.pol && len(fc.atom.args) > 0 && (fc.atom.args[0].op == "call" || fc.atom.args[0].op == "res") {
					wrong = true
				}
			}
			if wrong && (isZeroTerm(ret) || ret.op == "assert") {
				c.bad(rule, name, f.Pos(), "success is returned without a document, the text not being one")
				continue
			}
		}
		// the input, whole
		whole := false
		part := (*Term)(nil)
		for _, ev := range evs {
			if ev.kind != "call" || ev.fn != nil && w.inWorkspace(ev.fn) && !w.scc[ev.fn] {
				continue
			}
			for _, a := range ev.args {
				x := strip(a)
				for x.op == "conv" || x.op == "string" || x.op == "bytes" {
					x = strip(x.args[0])
				}
				if x == in {
					whole = true
				}
				if x.op == "slice" && x.args[0] == in {
					part = x
				}
			}
		}
		fl := newFlow(in)
		fl.run(evs)
		if !whole {
			if part != nil {
				c.bad(rule, name, f.Pos(), "only a part of the input is used")
				continue
			}
			if !fl.has(ret) {
				c.bad(rule, name, f.Pos(), "success is returned without using the input")
				continue
			}
			c.und(rule, name, "the input is transformed first")
			continue
		}
		if !fl.has(ret) {
			c.bad(rule, name, f.Pos(), "what is returned (%s) does not come from the %s", brief(ret), map[string]string{"codec-decode": "decoder", "codec-encode": "encoder"}[rule])
			continue
		}
		if ret.op == "slice" && len(ret.args) > 1 {
			cut := false
			for _, a := range ret.args[1:] {
				if k, ok := a.constInt(); a.op != "none" && !(ok && k == 0) && !a.isNil() && a.op != "len" {
					cut = true
				}
			}
			if cut {
				c.bad(rule, name, f.Pos(), "only a part of the encoder's output is returned")
				continue
			}
		}
		if rule == "codec-encode" {
			x := ret
			if x.op == "call" && strings.HasSuffix(strings.SplitN(x.aux, "@", 2)[0], ").Bytes") && len(x.args) > 0 {
				if r := x.args[0]; r.op != "call" || strings.Contains(r.aux, "sync.Pool).Get") {
					if sharedRoot(r, recv) {
						c.bad(rule, name, f.Pos(), "the bytes returned lie in a buffer used again by later calls")
						continue
					}
				}
			} else if (x.op == "slice" || x.op == "load") && sharedRoot(x, recv) {
				c.bad(rule, name, f.Pos(), "the bytes returned lie in a buffer used again by later calls")
				continue
			}
		}
		// the decoded document is not altered afterwards, unless asked to
		asked, told := false, map[string]bool{}
		for fc := facts; fc != nil; fc = fc.up {
			if b, n, ok := fieldLoad(fc.atom); ok && b == recv {
				asked = asked || fc.pol
				told[n] = fc.pol
			}
		}
		altered := token.NoPos
		for _, ev := range evs {
			switch {
			case rule != "codec-decode":
			case ev.kind == "mapupdate" || ev.kind == "delete":
				for _, a := range append([]*Term{ev.addr}, ev.args...) {
					if a != nil && a.op != "makemap" && fl.has(a) {
						altered = ev.pos
					}
				}
			case ev.kind == "call" && ev.fn != nil && w.inWorkspace(ev.fn):
				for _, a := range ev.args {
					if _, ok := a.typ.Underlying().(*types.Map); ok && fl.has(a) && a != in {
						altered = ev.pos
					}
				}
			}
		}
		if altered != token.NoPos && !asked {
			c.bad(rule, name, altered, "the decoded document is altered before it is returned")
			continue
		}
		if rule == "codec-decode" {
			late := ""
			for _, n := range consulted {
				if _, ok := told[n]; !ok && !walkTermFacts(facts, func(x *Term) bool { return x.op == "len" && fl.has(x) }) && e.nilState(facts, ret) != 1 {
					late = n
				}
				if told[n] && altered == token.NoPos {
					c.bad(rule, name, f.Pos(), "the document is not brought into the shape asked for by %s", n)
				}
			}
			if late != "" {
				c.bad(rule, name, f.Pos(), "a path does not look at the option %s", late)
				continue
			}
		} else {
			indent, plain := false, false
			for _, ev := range evs {
				if ev.kind == "call" && (ev.fn == nil || !w.inWorkspace(ev.fn)) {
					indent = indent || strings.HasSuffix(ev.name, "Indent")
					plain = plain || strings.HasSuffix(ev.name, "json.Marshal")
				}
			}
			if _, _, isP := fieldNamed(f.Params[0].Type(), "pretty"); isP && (indent || plain) {
				if on, kn := told["pretty"]; !kn || on != indent {
					c.bad(rule, name, f.Pos(), "the layout of the text does not follow the option given")
					continue
				}
			}
		}
		c.ok(rule)
	}
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func fieldNamed(t types.Type, nm string) (*types.Var, int, bool) {
	st, ok := derefT(t).Underlying().(*types.Struct)
	for i := 0; ok && i < st.NumFields(); i++ {
		if st.Field(i).Name() == nm {
			return st.Field(i), i, true
		}
	}
	return nil, 0, false
}

// reshaped: a decoder's helper that replaces entries keeps what they hold.
func (c *Ctx) reshaped(u *ssa.Function) {
	w := c.w
	for _, b := range u.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := ci.Common().StaticCallee()
			if f == nil || f.Pkg != u.Pkg || f.Blocks == nil || f.Signature.Recv() != nil {
				continue
			}
			e := w.viewEngine()
			name := w.fname(f)
			for i, p := range f.Params {
				if _, ok := p.Type().Underlying().(*types.Map); !ok {
					continue
				}
				c.saw(f)
				m := e.params(f)[i]
				for _, o := range e.Analyze(f) {
					if o.panic {
						continue
					}
					for _, ev := range flatten(o.st.events) {
						if ev.kind == "delete" {
							c.bad("codec-decode", name, ev.pos, "an entry of the document is dropped")
							continue
						}
						if ev.kind != "mapupdate" || ev.addr != m {
							continue
						}
						if strip(ev.key).op != "rangekey" || strip(ev.key).args[0] != m {
							c.bad("codec-decode", name, ev.pos, "an entry of the document is put under another key")
							continue
						}
						// one element for a list
						var at *Term
						walkTerm(ev.Event.val, func(x *Term) bool {
							if x.op == "idxaddr" {
								at = x
							}
							return at != nil
						})
						if at == nil {
							continue
						}
						facts := ev.facts
						if ev.loop != nil {
							facts = ev.loop.bodies[ev.body].facts
						}
						if v, kn := e.decide(facts, e.ts.eq(e.ts.length(at.args[0]), e.ts.intc(1))); kn && v {
							c.ok("codec-decode")
						} else {
							c.bad("codec-decode", name, ev.pos, "one element is put in the place of a list that may have another number of them")
						}
					}
				}
			}
		}
	}
}

// codecEntries: encoders that take the document apart themselves.
func (c *Ctx) codecEntries(m *ssa.Function) {
	w := c.w
	seen := map[*ssa.Function]bool{}
	var list []*ssa.Function
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Pkg == nil || f.Pkg != m.Pkg || f.Blocks == nil {
			return
		}
		seen[f] = true
		list = append(list, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					rec(ci.Common().StaticCallee())
				}
			}
		}
	}
	rec(m)
	for _, f := range list {
		if f == m && !hasRange(f) {
			continue
		}
		c.saw(f)
		name := w.fname(f)
		e := w.viewEngine()
		outs := e.Analyze(f)
		if e.over {
			c.und("codec-entry", name, "analysis gave up")
			continue
		}
		ps := e.params(f)
		for _, o := range outs {
			if o.panic {
				continue
			}
			if f != m && !c.errorsOut("codec-error", e, f, name, o, nil) {
				continue
			}
			er := e.retErr(f, o)
			failed := er != nil && e.nilState(o.st.facts, er) < 0
			if failed && er.op == "call" {
				for _, ev := range o.st.events {
					if x := e.errOf(ev); ev.kind == "call" && x != nil && ev.res != er && e.nilState(o.st.facts, x) == 1 && (mentionsT(er, x) || walkAny(er.args, func(y *Term) bool { return y == x })) {
						c.bad("codec-error", name, f.Pos(), "a failure is reported although nothing has failed")
					}
				}
			}
			for i, p := range f.Params {
				if i == 0 && f.Signature.Recv() != nil {
					continue
				}
				switch t := p.Type().Underlying().(type) {
				case *types.Map:
					c.entryMap(e, f, name, o, ps[i], failed)
				case *types.Interface:
					if t.NumMethods() == 0 && !failed {
						c.entryValue(e, f, name, o, ps, i)
					}
				}
			}
		}
	}
}

func hasRange(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Range); ok {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) entryMap(e *Engine, f *ssa.Function, name string, o *Outcome, m *Term, failed bool) {
	l, full := mapLoop(o.st.events, m)
	if l == nil {
		used := false
		for _, ev := range flatten(o.st.events) {
			for _, a := range ev.args {
				used = used || ev.kind == "call" && mentionsT(a, m)
			}
		}
		if !used && !failed {
			// an empty map has no entries
			if v, k := e.decide(o.st.facts, e.ts.eq(e.ts.length(m), e.ts.intc(0))); k && v || e.nilState(o.st.facts, m) == 1 {
				c.ok("codec-entry")
				return
			}
			done := false
			for fc := o.st.facts; fc != nil; fc = fc.up {
				if fc.atom.op == "rangeok" && !fc.pol && fc.atom.args[0] == m {
					done = true // the loop's own exit, all iterations fail
				}
			}
			if done {
				c.ok("codec-entry")
				return
			}
			c.bad("codec-entry", name, f.Pos(), "the entries of a map are not written")
		}
		return
	}
	if !full && !failed {
		// left early without failing?
		ended := false
		for fc := o.st.facts; fc != nil; fc = fc.up {
			if fc.atom.op == "rangeok" && !fc.pol && fc.atom.args[0] == m {
				ended = true
			}
		}
		if !ended {
			c.bad("codec-entry", name, f.Pos(), "the loop over a map is left before all entries are written, without an error")
			return
		}
	}
	for _, b := range l.bodies {
		isK := func(x *Term) bool { return x.op == "rangekey" && x.args[0] == m }
		isV := func(x *Term) bool { return x.op == "rangeval" && x.args[0] == m }
		if c.pairWritten(b.events, isK, isV) {
			c.ok("codec-entry")
		} else {
			c.bad("codec-entry", name, f.Pos(), "an entry of a map is passed over without being written")
			return
		}
	}
}

// pairWritten: some call takes both the key and what comes of the value.
func (c *Ctx) pairWritten(evs []*Event, isK, isV func(*Term) bool) bool {
	fe := flatten(evs)
	fk, fv := newFlow(), newFlow()
	for _, ev := range fe {
		for _, a := range append(append([]*Term{}, ev.args...), ev.key, ev.Event.val) {
			if a == nil {
				continue
			}
			walkTerm(a, func(x *Term) bool {
				if isK(x) {
					fk.set[x] = true
				}
				if isV(x) {
					fv.set[x] = true
				}
				return false
			})
		}
	}
	// results only: no marking of the receivers, they hold other entries too
	mark := func(f *flow) {
		for _, ev := range fe {
			if ev.kind == "call" && ev.res != nil && !strings.Contains(ev.name, "fmt.") {
				for _, a := range ev.args {
					if f.has(a) {
						f.set[ev.res] = true
					}
				}
			}
		}
	}
	mark(fk)
	mark(fv)
	for _, ev := range fe {
		switch ev.kind {
		case "mapupdate":
			if fk.has(ev.key) && fv.has(ev.Event.val) {
				return true
			}
		case "call":
			if strings.Contains(ev.name, "fmt.") || strings.Contains(ev.name, "log") {
				continue
			}
			k, v := false, false
			for _, a := range ev.args {
				if fv.has(a) {
					v = true
				} else if fk.has(a) {
					k = true
				}
			}
			if k && v {
				return true
			}
		}
	}
	return false
}

// entryValue: a function that turns one value (perhaps with its key) into its
// encoded form.
func (c *Ctx) entryValue(e *Engine, f *ssa.Function, name string, o *Outcome, ps []*Term, i int) {
	v := ps[i]
	var key *Term
	for j, p := range f.Params {
		if j != i && isStrT(p.Type()) {
			key = ps[j]
		}
	}
	if key != nil {
		if c.pairWritten(o.st.events, func(x *Term) bool { return x == key }, func(x *Term) bool { return x == v }) {
			c.ok("codec-entry")
		} else {
			c.bad("codec-entry", name, f.Pos(), "a value is not written under its key on some path")
		}
		return
	}
	if len(o.rets) == 0 {
		return
	}
	fl := newFlow(v)
	fl.run(flatten(o.st.events))
	ret := o.rets[0]
	if isZeroTerm(ret) || !fl.has(ret) && !e.viaLoopFlow(ret, fl) {
		// an empty list
		empty := false
		for fc := o.st.facts; fc != nil; fc = fc.up {
			if a := fc.atom; (a.op == "lt" || a.op == "eq" || a.op == "le") && mentionsT(a, v) && strings.Contains(brief(a), "Len") {
				for _, x := range a.args {
					if x.op != "call" && x.op != "len" && x.op != "res" {
						continue
					}
					if t, kn := e.decide(o.st.facts, e.ts.lt(e.ts.intc(0), x)); kn && !t {
						empty = true
					}
					if t, kn := e.decide(o.st.facts, e.ts.eq(x, e.ts.intc(0))); kn && t {
						empty = true
					}
				}
			}
		}
		if empty {
			c.ok("codec-entry")
			return
		}
		c.bad("codec-entry", name, f.Pos(), "a value is encoded as %s, whatever it is", brief(ret))
		return
	}
	// integers: no narrower type on the way
	bad, part, not, one := "", false, false, false
	for _, ev := range o.st.events {
		if ev.kind == "call" && (strings.HasSuffix(ev.name, "cty.ListVal") || strings.HasSuffix(ev.name, "cty.SetVal")) {
			one = true
		}
		if ev.kind == "call" && mentionsT(ret, ev.res) {
			for _, a := range ev.args {
				part = part || strip(a).op == "slice"
			}
		}
	}
	walkTerm(ret, func(x *Term) bool {
		not = not || x.op == "not"
		if x.op == "conv" && len(x.args) == 1 {
			from, ok1 := x.args[0].typ.Underlying().(*types.Basic)
			to, ok2 := x.typ.Underlying().(*types.Basic)
			if ok1 && ok2 && from.Info()&types.IsInteger != 0 && to.Info()&types.IsInteger != 0 && !fits(from, to) {
				bad = from.String() + " to " + to.String()
			}
		}
		return false
	})
	if one {
		c.bad("codec-entry", name, f.Pos(), "the elements of a list are taken to be of one type, which fails where they are not")
		return
	}
	if part {
		c.bad("codec-entry", name, f.Pos(), "only a part of a value is encoded")
		return
	}
	if not {
		c.bad("codec-entry", name, f.Pos(), "the opposite of a value is encoded")
		return
	}
	if bad != "" {
		c.bad("codec-entry", name, f.Pos(), "a number is converted from %s on the way", bad)
		return
	}
	c.ok("codec-entry")
	// lists: every element
	for _, ev := range o.st.events {
		if ev.kind != "loop" {
			continue
		}
		c.elementLoop(e, f, name, o, ev.loop, v)
	}
}

func (e *Engine) viaLoopFlow(ret *Term, fl *flow) bool {
	seen := map[int]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if seen[x.id] {
			return false
		}
		seen[x.id] = true
		return walkTerm(x, func(y *Term) bool {
			if fl.set[y] {
				return true
			}
			for _, z := range e.loopIn[y.id] {
				if rec(z) {
					return true
				}
			}
			return false
		})
	}
	return rec(ret)
}

func fits(from, to *types.Basic) bool {
	sz := func(b *types.Basic) (int, bool) {
		switch b.Kind() {
		case types.Int8:
			return 8, true
		case types.Int16:
			return 16, true
		case types.Int32:
			return 32, true
		case types.Int, types.Int64:
			return 64, true
		case types.Uint8:
			return 8, false
		case types.Uint16:
			return 16, false
		case types.Uint32:
			return 32, false
		}
		return 64, false
	}
	a, as := sz(from)
	b, bs := sz(to)
	if as == bs {
		return a <= b
	}
	return !as && bs && a < b
}

// elementLoop: a loop over the elements of a list by position.
func (c *Ctx) elementLoop(e *Engine, f *ssa.Function, name string, o *Outcome, l *LoopEv, v *Term) {
	for _, b := range l.bodies {
		var at *Event
		for _, ev := range b.events {
			if ev.kind == "call" && strings.HasSuffix(ev.name, ").Index") && len(ev.args) == 2 && mentionsT(ev.args[0], v) {
				at = ev
			}
		}
		if at == nil {
			continue
		}
		idx := at.args[1]
		st, nx := l.start[idx.id], b.next[idx.id]
		if st == nil || nx == nil {
			c.und("codec-entry", name, "the loop over a list is not recognised")
			return
		}
		if k, ok := st.constInt(); !ok || k != 0 {
			c.bad("codec-entry", name, at.pos, "the loop over a list does not begin at its first element")
			return
		}
		if d, ok := e.ts.constDiff(nx, idx); !ok || d != 1 {
			c.bad("codec-entry", name, at.pos, "the loop over a list passes over elements")
			return
		}
		// kept
		fl := newFlow(at.res)
		fl.run(flatten(b.events))
		kept := false
		for id, x := range b.next {
			if id != idx.id && fl.has(x) {
				kept = true
			}
		}
		for _, ev := range b.events {
			if (ev.kind == "store" || ev.kind == "mapupdate") && fl.has(ev.val) {
				kept = true
			}
		}
		if !kept {
			c.bad("codec-entry", name, at.pos, "an element of a list is passed over")
			return
		}
		c.ok("codec-entry")
	}
}

func (ts *Terms) constDiff(a, b *Term) (int64, bool) {
	d := ts.toLin(ts.linAdd(a, b, -1, a.typ))
	return d.c, len(d.co) == 0
}

func (c *Ctx) codecFile(f *ssa.Function, save bool) {
	w := c.w
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	outs := e.Analyze(f)
	if e.over {
		c.und("codec-file", name, "analysis gave up")
		return
	}
	ps := e.params(f)
	var path, doc *Term
	for i, p := range f.Params {
		if i > 0 && isStrT(p.Type()) && path == nil {
			path = ps[i]
		} else if _, ok := p.Type().Underlying().(*types.Map); ok {
			doc = ps[i]
		}
	}
	if path == nil {
		c.und("codec-file", name, "no file name")
		return
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		if !c.errorsOut("codec-error", e, f, name, o, nil) {
			continue
		}
		er := e.retErr(f, o)
		evs := flatten(o.st.events)
		var opens []flatEv
		for _, ev := range evs {
			if ev.kind == "call" && (isCall(ev.Event, "os.Open", "os.Create", "os.OpenFile", "os.ReadFile", "os.WriteFile")) {
				opens = append(opens, ev)
			}
		}
		if len(opens) == 0 {
			if er != nil && (e.nilState(o.st.facts, er) < 0 || er.op == "load" && er.args[0].op == "global") {
				c.ok("codec-file") // not implemented
				continue
			}
			c.bad("codec-file", name, f.Pos(), "success is returned without touching the file")
			continue
		}
		op := opens[0]
		if op.args[0] != path {
			c.bad("codec-file", name, op.pos, "the file used is %s, not the one given", brief(op.args[0]))
			continue
		}
		if !c.closed(e, name, "codec-file", o, evs, op) {
			continue
		}
		if er == nil || e.nilState(o.st.facts, er) < 0 {
			c.ok("codec-file")
			continue
		}
		var fl *flow
		if save {
			fl = newFlow(doc)
		} else {
			fl = newFlow(e.resOf(op.Event, 0))
		}
		fl.run(evs)
		switch {
		case save && !fl.has(e.resOf(op.Event, 0)) && !c.writtenTo(evs, fl, op):
			c.bad("codec-file", name, f.Pos(), "success is returned although the document was not written to the file")
		case !save && !fl.has(o.rets[0]):
			c.bad("codec-file", name, f.Pos(), "what is returned does not come from the file")
		default:
			c.ok("codec-file")
		}
		if save {
			// an encoder that can be closed is closed
			for _, ev := range evs {
				if ev.kind == "call" && ev.res != nil && strings.Contains(ev.name, "NewEncoder") {
					if hasMethod(ev.res.typ, "Close") {
						shut := false
						for _, x := range evs {
							if x.kind == "call" && len(x.args) > 0 && x.args[0] == ev.res && strings.HasSuffix(x.name, ").Close") {
								shut = true
							}
						}
						if !shut {
							c.bad("codec-file", name, ev.pos, "the encoder is not closed: what it holds back never reaches the file")
						}
					}
				}
			}
		}
	}
}

func (c *Ctx) writtenTo(evs []flatEv, fl *flow, op flatEv) bool {
	if !isCall(op.Event, "os.WriteFile") {
		return false
	}
	return len(op.args) > 1 && fl.has(op.args[1])
}

func hasMethod(t types.Type, nm string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, nm)
	_, ok := o.(*types.Func)
	return ok
}

// closed: a file that was opened is closed on the path, after its last use.
func (c *Ctx) closed(e *Engine, name, rule string, o *Outcome, evs []flatEv, op flatEv) bool {
	if isCall(op.Event, "os.ReadFile", "os.WriteFile") {
		return true
	}
	oerr := e.errOf(op.Event)
	if oerr != nil && e.nilState(o.st.facts, oerr) < 0 {
		return true
	}
	h := e.resOf(op.Event, 0)
	last, cl := -1, -1
	for _, ev := range evs {
		if ev.kind != "call" || ev.n <= op.n {
			continue
		}
		for i, a := range ev.args {
			if !mentionsT(a, h) {
				continue
			}
			if i == 0 && strip(a) == h && strings.HasSuffix(ev.name, ".Close") {
				if cl < 0 {
					cl = ev.n
				}
			} else {
				last = ev.n
			}
		}
	}
	if cl < 0 {
		c.bad(rule, name, op.pos, "the file opened is not closed on some path")
		return false
	}
	if cl < last {
		c.bad(rule, name, op.pos, "the file is closed before its last use")
		return false
	}
	return true
}

// wholeOf: what is looped over; a part of a list is not all of it.
func wholeOf(cv *cover) *Term {
	t := cv.slice
	for t.op == "slice" {
		for i, a := range t.args[1:] {
			if k, ok := a.constInt(); a.op == "none" || i == 0 && ok && k == 0 || i == 1 && a.op == "len" && a.args[0] == t.args[0] {
				continue
			}
			if cv.full {
				cv.full, cv.why = false, "only a part of the list is looked at"
			}
		}
		t = t.args[0]
	}
	return t
}

// options: New applies every option; each option stores what it was given.
func (c *Ctx) options(n *types.Named, rule string) {
	w := c.w
	pkg := n.Obj().Pkg()
	sp := w.prog.Package(pkg)
	if sp == nil {
		return
	}
	var names []string
	for nm := range sp.Members {
		names = append(names, nm)
	}
	sort.Strings(names)
	for _, nm := range names {
		f, ok := sp.Members[nm].(*ssa.Function)
		if !ok || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() != 1 {
			continue
		}
		isOpt := func(t types.Type) bool {
			sg, ok := t.Underlying().(*types.Signature)
			return ok && sg.Params().Len() == 1 && namedOf(sg.Params().At(0).Type()) != nil && namedOf(sg.Params().At(0).Type()).Obj() == n.Obj()
		}
		name := w.fname(f)
		if isOpt(rs.At(0).Type()) {
			c.option(f, name, n, rule)
			continue
		}
		// a constructor with options
		np := f.Signature.Params().Len()
		if np == 0 || !f.Signature.Variadic() {
			continue
		}
		sl, ok := f.Signature.Params().At(np - 1).Type().(*types.Slice)
		if !ok || !isOpt(sl.Elem()) {
			continue
		}
		c.saw(f)
		e := w.viewEngine()
		outs := e.Analyze(f)
		if e.over {
			c.und(rule, name, "analysis gave up")
			continue
		}
		ps := e.params(f)
		opts := ps[len(ps)-1]
		for _, o := range outs {
			if o.panic {
				continue
			}
			if len(o.rets) == 1 && strip(o.rets[0]).isNil() {
				c.bad(rule, name, f.Pos(), "nothing is returned for the options to be used by")
				continue
			}
			var lp *LoopEv
			var cov cover
			for _, ev := range o.st.events {
				if ev.kind == "loop" {
					if cv := e.loopCover(ev.loop); cv.known && wholeOf(&cv) == opts {
						lp, cov = ev.loop, cv
					}
				}
			}
			if lp == nil {
				none := false
				if v, k := e.decide(o.st.facts, e.ts.eq(e.ts.length(opts), e.ts.intc(0))); k && v {
					none = true
				}
				if none {
					c.ok(rule)
				} else {
					any := false
					for _, ev := range flatten(o.st.events) {
						any = any || ev.kind == "loop"
					}
					if any {
						c.und(rule, name, "the loop over the options is not recognised")
					} else {
						c.bad(rule, name, f.Pos(), "the options given are not applied")
					}
				}
				continue
			}
			if !cov.full {
				c.bad(rule, name, f.Pos(), "not every option given is applied: %s", cov.why)
				continue
			}
			if cov.down {
				c.bad(rule, name, f.Pos(), "the options are applied last first: of two that set the same thing, the earlier wins")
				continue
			}
			okAll := true
			for _, b := range lp.bodies {
				called := false
				for _, ev := range b.events {
					if ev.kind == "call" && ev.val != nil && mentionsT(ev.val, opts) {
						called = true
					}
				}
				nilOpt := false
				for fc := b.facts; fc != nil && fc != lp.entry; fc = fc.up {
					if fc.pol && fc.atom.op == "eq" && (fc.atom.args[0].isNil() || fc.atom.args[1].isNil()) && mentionsT(fc.atom, opts) {
						nilOpt = true
					}
				}
				if !called && !nilOpt {
					okAll = false
				}
			}
			if !okAll {
				c.bad(rule, name, f.Pos(), "an option given is passed over")
				continue
			}
			c.ok(rule)
		}
	}
}

func (c *Ctx) option(f *ssa.Function, name string, n *types.Named, rule string) {
	w := c.w
	c.saw(f)
	e := w.viewEngine()
	outs := e.Analyze(f)
	ps := e.params(f)
	for _, o := range outs {
		if o.panic || len(o.rets) != 1 {
			continue
		}
		cl := strip(o.rets[0])
		flag := false // a trailing list of switches, of which the absence means something
		if f.Signature.Variadic() {
			if b, ok := ps[len(ps)-1].typ.Underlying().(*types.Slice); ok {
				bb, ok := b.Elem().Underlying().(*types.Basic)
				flag = ok && bb.Kind() == types.Bool || len(ps) > 1
			}
		}
		if cl.op == "func" && cl.fn != nil && cl.fn.Parent() == f && len(ps) > 0 && !flag {
			c.bad(rule, name, f.Pos(), "the option does not use %s", ps[0].aux)
			continue
		}
		if cl.isNil() {
			c.bad(rule, name, f.Pos(), "the option is none: applying it fails")
			continue
		}
		if cl.op != "closure" || cl.fn == nil {
			c.und(rule, name, "not a function literal")
			continue
		}
		// captured variables hold the parameters
		fv := make([]*Term, len(cl.args))
		for i, a := range cl.args {
			fv[i] = a
			if a.op == "alloc" {
				if v := o.st.heap[a.id]; v != nil {
					fv[i] = v
				}
			}
		}
		e2 := w.viewEngine()
		// rebuild the captured values in the second engine's terms
		var fv2 []*Term
		var roots []*Term
		for i, p := range cl.fn.FreeVars {
			t := e2.ts.mk("param", "bound:"+p.Name(), p.Type())
			fv2 = append(fv2, t)
			_ = i
			roots = append(roots, t)
		}
		self := e2.ts.mk("param", "self", cl.fn.Params[0].Type())
		o2 := e2.AnalyzeWith(cl.fn, []*Term{self}, fv2)
		if e2.over {
			c.und(rule, name, "analysis gave up")
			continue
		}
		for pi := range ps {
			// which captured variable holds this parameter?
			var b *Term
			for i := range fv {
				if fv[i] == ps[pi] {
					b = roots[i]
				}
			}
			variadic := flag && pi == len(ps)-1
			if b == nil {
				if !variadic {
					c.bad(rule, name, f.Pos(), "the option does not use %s", ps[pi].aux)
				}
				continue
			}
			for _, o := range o2 {
				if o.panic {
					continue
				}
				stored, neg, cut := false, false, false
				for _, ev := range flatten(o.st.events) {
					if ev.kind == "store" && ev.addr.op == "fieldaddr" && mentionsT(ev.addr, self) {
						v := ev.Event.val
						if mentionsT(v, b) || e2.viaLoop(v, b) {
							stored = true
							if v.op == "not" {
								neg = true
							}
							if x := strip(v); x.op == "slice" && mentionsT(x.args[0], b) {
								cut = true
							}
						}
					}
				}
				switch {
				case cut:
					c.bad(rule, name, f.Pos(), "the option keeps only a part of what it was given")
				case neg:
					c.bad(rule, name, f.Pos(), "the option stores the opposite of what it was given")
				case stored:
					c.ok(rule)
				case variadic:
					c.ok(rule)
				default:
					c.bad(rule, name, f.Pos(), "the option does not store what it was given")
				}
			}
		}
	}
}

// codecTable: the suffix table of the collection package.
func (c *Ctx) codecTable() {
	w := c.w
	p := w.byPth[modRoot+"/codecs/all"]
	if p == nil {
		c.und("codec-table", "codecs/all", "no such package")
		return
	}
	sp := w.prog.Package(p.Types)
	ini := sp.Func("init")
	if ini == nil {
		c.und("codec-table", "codecs/all", "no initialisation")
		return
	}
	c.saw(ini)
	formats := map[string]bool{}
	for _, q := range w.pkgs {
		if strings.HasPrefix(q.PkgPath, modRoot+"/codecs/") && !strings.HasSuffix(q.PkgPath, "/test") && q != p {
			formats[q.Types.Name()] = true
		}
	}
	alias := map[string]string{"yml": "yaml", "tf": "hcl", "nestedtext": "nestext", "txt": "nestext", "conf": "nestext", "": "nestext"}
	makes := func(v ssa.Value) (out map[string]bool) {
		out = map[string]bool{}
		seen := map[*ssa.Function]bool{}
		var rec func(f *ssa.Function)
		rec = func(f *ssa.Function) {
			if f == nil || seen[f] {
				return
			}
			seen[f] = true
			if f.Pkg != nil && f.Pkg != sp && strings.HasPrefix(f.Pkg.Pkg.Path(), modRoot+"/codecs/") {
				out[f.Pkg.Pkg.Name()] = true
				return
			}
			if f.Pkg != sp && f.Parent() == nil {
				if f.Synthetic == "" {
					return
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						rec(ci.Common().StaticCallee())
					}
				}
			}
		}
		switch x := v.(type) {
		case *ssa.Function:
			rec(x)
		case *ssa.MakeClosure:
			rec(x.Fn.(*ssa.Function))
		}
		return
	}
	var table *ssa.Global
	n := 0
	have := map[string]bool{}
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				k, ok := x.Key.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				ext := constant.StringVal(k.Value)
				ms := makes(x.Value)
				if len(ms) != 1 {
					c.und("codec-table", "codecs/all", "what serves %q is not recognised", ext)
					continue
				}
				n++
				have[ext] = true
				want := ext
				if a, ok := alias[ext]; ok {
					want = a
				}
				if !formats[want] {
					c.ok("codec-table") // a suffix of its own
					continue
				}
				if !ms[want] {
					for g := range ms {
						c.bad("codec-table", "codecs/all "+ext, x.Pos(), "suffix %q is served by the codec of %s", ext, g)
					}
					continue
				}
				c.ok("codec-table")
			case *ssa.Store:
				if g, ok := x.Addr.(*ssa.Global); ok {
					if _, ok := derefT(g.Type()).Underlying().(*types.Map); ok {
						table = g
					}
				}
			}
		}
	}
	if n == 0 {
		c.und("codec-table", "codecs/all", "no table")
		return
	}
	for _, f := range []string{"toml", "yaml", "gob", "json", "hjson", "hcl", "yml", "tf", "nestedtext", "txt", "conf", ""} {
		if want := f; formats[want] || formats[alias[want]] {
			if !have[f] {
				c.bad("codec-table", "codecs/all", ini.Pos(), "suffix %q is served by no codec", f)
			}
		}
	}
	if table == nil {
		return
	}
	if f := sp.Func("ExtCodecMap"); f != nil && f.Signature.Results().Len() == 1 {
		c.saw(f)
		e := w.viewEngine()
		for _, o := range e.Analyze(f) {
			if o.panic {
				continue
			}
			if strip(o.rets[0]).isNil() {
				c.bad("codec-table", w.fname(f), f.Pos(), "the table is not given out")
			} else {
				c.ok("codec-table")
			}
		}
	}
	for _, nm := range []string{"Register", "Deregister", "Codec", "MustCodec"} {
		f := sp.Func(nm)
		if f == nil {
			continue
		}
		c.saw(f)
		e := w.viewEngine()
		name := w.fname(f)
		ps := e.params(f)
		for _, o := range e.Analyze(f) {
			if o.panic {
				continue
			}
			okk := false
			switch nm {
			case "Register":
				for _, ev := range flatten(o.st.events) {
					if ev.kind == "mapupdate" && ev.key == ps[0] && ev.Event.val == ps[1] {
						okk = true
					}
				}
			case "Deregister":
				for _, ev := range flatten(o.st.events) {
					if ev.kind == "delete" && (ev.key == ps[0] || mentionsAny2(ev.args, ps[0])) {
						okk = true
					}
				}
			default:
				r := o.rets[0]
				okk = walkTerm(r, func(x *Term) bool { return x == ps[0] })
				if okk && len(o.rets) > 1 && !mentionsT(o.rets[1], ps[0]) {
					if v, k := e.decide(o.st.facts, o.rets[1]); !k || !v {
						okk = false
					}
				}
				if !okk && isZeroTerm(r) {
					okk = true // absent
					if len(o.rets) > 1 {
						v, k := e.decide(o.st.facts, o.rets[1])
						okk = k && !v
					} else {
						okk = walkTermFacts(o.st.facts, func(x *Term) bool { return x == ps[0] })
					}
				}
			}
			if okk {
				c.ok("codec-table")
			} else {
				c.bad("codec-table", name, f.Pos(), "the suffix given is not what the table is asked for or told")
			}
		}
	}
}
