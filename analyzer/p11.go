package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P11: merging a map into the tree.

func init() { register("P11", p11) }

// jpart is one piece of a path: a source term, or the delimiter.
type jpart struct {
	t     *Term
	delim bool
}

type jpath struct {
	parts []jpart
	known bool
}

// jpaths takes a path expression apart, keeping where delimiters stand. Each
// result is one possibility.
func (e *Engine) jpaths(t *Term) []jpath {
	w := e.w
	tr := w.trieRoles()
	catJ := func(a, b []jpath, j bool) (out []jpath) {
		for _, x := range a {
			for _, y := range b {
				p := append([]jpart{}, x.parts...)
				if j && len(x.parts) > 0 && len(y.parts) > 0 {
					p = append(p, jpart{delim: true})
				}
				p = append(p, y.parts...)
				out = append(out, jpath{p, x.known && y.known})
				if len(out) > 64 {
					return
				}
			}
		}
		return
	}
	unit := func() []jpath { return []jpath{{nil, true}} }
	one := func(t *Term) []jpath { return []jpath{{[]jpart{{t: t}}, true}} }
	unk := func(t *Term) []jpath { return []jpath{{[]jpart{{t: t}}, false}} }
	isDelim := func(t *Term) bool {
		for t.op == "conv" || t.op == "chtype" {
			t = t.args[0]
		}
		if _, f, ok := fieldLoad(t); ok && f == tr.delim {
			return true
		}
		return t.op == "call" && t.fn != nil && t.fn.Name() == "Delimiter"
	}
	number := func(t *Term) []jpath {
		for t.op == "conv" || t.op == "iface" || t.op == "chtype" {
			t = t.args[0]
		}
		return one(t)
	}
	var rec func(t *Term, d int, busy map[int]bool) []jpath
	joined := func(args []*Term, d int, busy map[int]bool) []jpath {
		out := unit()
		for _, a := range args {
			if a.op == "vec" {
				for _, b := range a.args {
					out = catJ(out, rec(b, d+1, busy), true)
				}
				continue
			}
			if isNilT(a) {
				continue
			}
			if _, sl := a.typ.Underlying().(*types.Slice); sl {
				out = catJ(out, unk(a), true)
				continue
			}
			out = catJ(out, rec(a, d+1, busy), true)
		}
		return out
	}
	rec = func(t *Term, d int, busy map[int]bool) []jpath {
		if d > 60 {
			return unk(t)
		}
		if s, ok := t.constStr(); ok && s == "" {
			return unit()
		}
		if isDelim(t) {
			return []jpath{{[]jpart{{delim: true}}, true}}
		}
		switch t.op {
		case "nil":
			return unit()
		case "makeslice":
			if len(t.args) > 0 {
				if k, ok := t.args[0].constInt(); ok && k == 0 {
					return unit()
				} else if ok {
					return one(t)
				}
			}
			return unk(t)
		case "conv", "chtype", "iface":
			return rec(t.args[0], d+1, busy)
		case "slice":
			if len(t.args) >= 3 {
				if k, ok := t.args[2].constInt(); ok && k == 0 {
					return unit()
				} else if ok {
					return one(t)
				}
			}
			return unk(t)
		case "concat":
			out := unit()
			for _, a := range t.args {
				out = catJ(out, rec(a, d+1, busy), false)
			}
			return out
		case "append":
			out := rec(t.args[0], d+1, busy)
			for _, a := range t.args[1:] {
				if a.op == "spread" {
					a = a.args[0]
				}
				if a.op == "vec" {
					for _, b := range a.args {
						out = catJ(out, rec(b, d+1, busy), false)
					}
					continue
				}
				out = catJ(out, rec(a, d+1, busy), false)
			}
			return out
		case "loopvar":
			if busy[t.id] {
				return one(t) // grows from round to round
			}
			ins := e.loopIn[t.id]
			if len(ins) == 0 {
				return unk(t)
			}
			busy[t.id] = true
			var out []jpath
			for _, x := range ins {
				for _, j := range rec(x, d+1, busy) {
					if len(j.parts) == 1 && j.parts[0].t == t {
						continue
					}
					out = append(out, j)
				}
			}
			delete(busy, t.id)
			if len(out) == 0 {
				return unk(t)
			}
			return out
		case "call":
			if t.fn == nil {
				return one(t)
			}
			if w.joinLike(t.fn) {
				i := 0
				if t.fn.Signature.Recv() != nil {
					i = 1
				}
				return joined(t.args[i:], d, busy)
			}
			p := ""
			if q := pkgOf(t.fn); q != nil {
				p = q.Path()
			}
			switch p + "." + t.fn.Name() {
			case "strings.ReplaceAll", "strings.Replace", "strings.Clone":
				return rec(t.args[0], d+1, busy)
			case "unicode/utf8.AppendRune":
				return catJ(rec(t.args[0], d+1, busy), rec(t.args[1], d+1, busy), false)
			case "strconv.AppendInt", "strconv.AppendUint":
				if k, ok := t.args[2].constInt(); !ok || k != 10 {
					return one(t)
				}
				return catJ(rec(t.args[0], d+1, busy), number(t.args[1]), false)
			case "strconv.Itoa":
				return number(t.args[0])
			case "strconv.FormatInt", "strconv.FormatUint":
				if k, ok := t.args[1].constInt(); !ok || k != 10 {
					return one(t)
				}
				return number(t.args[0])
			case "fmt.Sprint":
				if len(t.args) == 1 && t.args[0].op == "vec" && len(t.args[0].args) == 1 {
					return number(t.args[0].args[0])
				}
				return unk(t)
			case "fmt.Sprintf", "strings.Join", "fmt.Append", "fmt.Appendf":
				return unk(t)
			}
			return one(t)
		}
		return one(t)
	}
	return rec(t, 0, map[int]bool{})
}

// payloadKind of a parameter type: "map", "slice", "any" or "".
func (w *World) payloadKind(t types.Type) string {
	isAny := func(t types.Type) bool {
		i, ok := t.Underlying().(*types.Interface)
		return ok && i.NumMethods() == 0
	}
	isPkg := func(t types.Type) bool {
		n, ok := types.Unalias(t).(*types.Named)
		if !ok {
			return false
		}
		st, ok := n.Underlying().(*types.Struct)
		return ok && st.NumFields() > 0 && st.Field(0).Name() == "Value"
	}
	isMap := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && (isStrT(m.Key()) || isAny(m.Key())) && (isAny(m.Elem()) || isPkg(m.Elem()))
	}
	switch {
	case isAny(t):
		return "any"
	case isMap(t):
		return "map"
	}
	if s, ok := t.Underlying().(*types.Slice); ok && (isAny(s.Elem()) || isMap(s.Elem())) {
		return "slice"
	}
	return ""
}

// payloadArg: which parameter (index into SSA parameters) carries the data.
func (w *World) payloadArg(f *ssa.Function) (int, string) {
	best, kind := -1, ""
	for i, p := range f.Params {
		if i == 0 && f.Signature.Recv() != nil {
			continue
		}
		k := w.payloadKind(p.Type())
		if k == "" {
			continue
		}
		if best < 0 || k == "any" {
			best, kind = i, k
		}
	}
	return best, kind
}

// mergeFn: a function of the tree or store that puts a given map, list or
// value into the tree and is part of (or enters) the recursive merge.
func (w *World) mergeFns() (out []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	for _, n := range []*types.Named{w.trieT, w.storeT} {
		for _, f := range w.ownMethods(n) {
			if !declared(f) || seen[f] || !w.writesTree(f) {
				continue
			}
			if i, _ := w.payloadArg(f); i < 0 {
				continue
			}
			in := w.mergeRec(f)
			if !in {
				for _, b := range f.Blocks {
					for _, x := range b.Instrs {
						if ci, ok := x.(ssa.CallInstruction); ok {
							for _, g := range w.callees(ci) {
								in = in || w.mergeRec(g)
							}
						}
					}
				}
			}
			if in {
				seen[f] = true
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return w.fname(out[i]) < w.fname(out[j]) })
	return
}

// mergeRec: a recursive function that carries payload into the tree.
func (w *World) mergeRec(f *ssa.Function) bool {
	if f == nil || !w.scc[f] || !w.writesTree(f) || w.isInsertOp(f) || !(isRecvOf(f, w.trieT) || isRecvOf(f, w.storeT)) {
		return false
	}
	i, _ := w.payloadArg(f)
	return i >= 0
}

type consumption struct {
	ev      flatEv
	payload *Term
	at      []jpath
	insert  bool
}

func p11(c *Ctx) {
	w := c.w
	c.rule("merge-all", "every entry of a merged map, and every element of a list that is taken apart, is passed on exactly once; no entry is skipped and none stops the others")
	c.rule("merge-where", "an entry lands at the merge point followed by its key, a list element at the list's key followed by its index, with the tree's own delimiter between them")
	c.rule("merge-value", "nested maps become subtrees, lists are taken apart only as configured, and any other value is stored as it is")
	c.rule("merge-source", "merging changes nothing in the document that is merged")
	c.rule("merge-error", "the error of every part of a merge comes out of the merge")
	c.rule("merge-onset", "what is to be done for each set node is done for every node exactly once; loaded entries keep their description, comment and tag")
	fns := w.mergeFns()
	if len(fns) == 0 {
		c.und("merge-all", "store", "no recursive merge recognised")
		return
	}
	for _, f := range fns {
		c.mergeFn(f)
	}
}

func (c *Ctx) mergeFn(f *ssa.Function) {
	w := c.w
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	e.noteMake = func(x *ssa.MakeSlice, ln, cp *Term, facts *Fact) {
		for _, t := range []*Term{ln, cp} {
			lf := e.ts.toLin(t)
			neg := lf.c < 0 && len(lf.co) > 0
			for id, k := range lf.co {
				neg = neg && k > 0 && e.ts.all[id].op == "len"
			}
			if v, ok := e.decide(facts, e.ts.lt(t, e.ts.intc(0))); neg && !(ok && !v) {
				c.bad("merge-all", name, x.Pos(), "the merge may fail on a short key: a list of %s elements is made", brief(t))
			}
		}
	}
	outs := e.Analyze(f)
	if e.over {
		c.und("merge-all", name, "analysis gave up")
		return
	}
	pi, kind := w.payloadArg(f)
	par := func(i int) *Term { return e.ts.mk("param", pname(f.Params[i], i), f.Params[i].Type()) }
	p := par(pi)
	s := par(0)
	var strs, funcs []*Term
	for i, q := range f.Params {
		if i == 0 {
			continue
		}
		if isStrT(q.Type()) {
			strs = append(strs, par(i))
		}
		if _, ok := q.Type().Underlying().(*types.Signature); ok {
			funcs = append(funcs, par(i))
		}
	}
	exported := f.Object() != nil && f.Object().Exported() || w.bodyOfExported(f)
	for _, o := range outs {
		if o.panic {
			continue
		}
		m := &mergeCtx{c: c, e: e, f: f, name: name, s: s, p: p, strs: strs, funcs: funcs, o: o, place: !exported}
		m.evs = flatten(o.st.events)
		m.cons = m.consumptions()
		switch kind {
		case "map":
			m.checkMap()
		case "slice":
			m.checkSlice(p, m.base())
		case "any":
			m.checkAny()
		}
		m.errors()
		m.onset()
		m.source()
	}
}

type mergeCtx struct {
	c     *Ctx
	e     *Engine
	f     *ssa.Function
	name  string
	s, p  *Term
	strs  []*Term
	funcs []*Term
	o     *Outcome
	evs   []flatEv
	cons  []consumption
	place bool
}

// base: the path a function is given: the string parameters in order, after
// the prefix for functions of the tree (they run on a view).
func (m *mergeCtx) base() []jpart {
	var out []jpart
	if isRecvOf(m.f, m.c.w.trieT) {
		out = append(out, jpart{t: nil}) // the prefix
	}
	for _, s := range m.strs {
		if len(out) > 0 {
			out = append(out, jpart{delim: true})
		}
		out = append(out, jpart{t: s})
	}
	return out
}

func (m *mergeCtx) consumptions() (out []consumption) {
	w, e := m.c.w, m.e
	tr := w.trieRoles()
	for _, ev := range m.evs {
		if ev.kind != "call" || ev.fn == nil || !w.inWorkspace(ev.fn) {
			continue
		}
		if w.isInsertOp(ev.fn) {
			// data: the argument of the tree's element type after the words
			wi := w.wordParam(ev.fn)
			cn := consumption{ev: ev, insert: true}
			for i := wi + 1; i < len(ev.args) && i < len(ev.fn.Params); i++ {
				pt := ev.fn.Params[i].Type()
				if isStrT(pt) || isSliceOfBasic(pt) {
					continue
				}
				if _, ok := pt.Underlying().(*types.Pointer); ok {
					continue
				}
				if _, ok := pt.Underlying().(*types.Signature); ok {
					continue
				}
				if isMethodIface(pt) {
					continue
				}
				cn.payload = ev.args[i]
				break
			}
			if wi < len(ev.args) {
				cn.at = e.jpaths(ev.args[wi])
			}
			out = append(out, cn)
			continue
		}
		if !w.mergeRec(ev.fn) {
			continue
		}
		pi, _ := w.payloadArg(ev.fn)
		if pi < 0 || pi >= len(ev.args) {
			continue
		}
		cn := consumption{ev: ev, payload: ev.args[pi], at: []jpath{{nil, true}}}
		cat := func(ps []jpath) {
			var nx []jpath
			for _, a := range cn.at {
				for _, b := range ps {
					x := append([]jpart{}, a.parts...)
					if len(x) > 0 && len(b.parts) > 0 {
						x = append(x, jpart{delim: true})
					}
					nx = append(nx, jpath{append(x, b.parts...), a.known && b.known})
				}
			}
			cn.at = nx
		}
		if isRecvOf(ev.fn, w.trieT) {
			r := ev.args[0]
			switch {
			case e.isSame(r, m.s):
				cat([]jpath{{[]jpart{{t: nil}}, true}})
			case isAllocOf(r, w.trieT):
				fa := e.ts.mk("fieldaddr", tr.prefix, nil, r)
				var v *Term
				for _, x := range m.evs {
					if x.kind == "store" && x.addr == fa && x.n < ev.n {
						v = x.val
					}
				}
				if v == nil {
					cat([]jpath{{nil, false}})
				} else {
					cat(e.jpaths(v))
				}
			default:
				cat([]jpath{{nil, false}})
			}
		}
		for i, q := range ev.fn.Params {
			if i > 0 && isStrT(q.Type()) && i < len(ev.args) {
				cat(e.jpaths(ev.args[i]))
			}
		}
		out = append(out, cn)
	}
	return
}

func isSliceOfBasic(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = s.Elem().Underlying().(*types.Basic)
	return ok
}

func isMethodIface(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() > 0
}

// at compares the place of a consumption with what it should be.
func (m *mergeCtx) at(cn consumption, want []jpart, what string) bool {
	if !m.place {
		return true
	}
	c, e := m.c, m.e
	tr := c.w.trieRoles()
	facts := cn.ev.facts
	same := func(a, b jpart) bool {
		if a.delim || b.delim {
			return a.delim && b.delim
		}
		if a.t == nil || b.t == nil {
			x := a.t
			if x == nil {
				x = b.t
			}
			return x == nil || e.isLoadOf(x, m.s, tr.prefix)
		}
		return a.t == b.t || e.ts.noEpoch(a.t) == e.ts.noEpoch(b.t)
	}
	// parts of want that the path knows to be empty may be missing
	empty := func(t *Term) bool {
		if t == nil {
			return e.knownZeroOf(facts, m.s, tr.prefix)
		}
		for x := facts; x != nil; x = x.up {
			if x.pol && x.atom.op == "eq" && isZeroTerm(x.atom.args[1]) {
				y := x.atom.args[0]
				if y.op == "len" {
					y = y.args[0]
				}
				if y == t {
					return true
				}
				if y.typ != nil && isStrT(y.typ) {
					for _, j := range e.jpaths(y) {
						if j.known && len(j.parts) == 1 && j.parts[0].t == t {
							return true
						}
					}
				}
			}
		}
		return false
	}
	var alts [][]jpart
	alts = append(alts, want)
	for i, x := range want {
		if !x.delim && (x.t == nil || x.t.op == "param") && empty(x.t) {
			var y []jpart
			y = append(y, want[:i]...)
			rest := want[i+1:]
			if len(rest) > 0 && rest[0].delim && len(y) == 0 {
				rest = rest[1:]
			}
			alts = append(alts, append(y, rest...))
		}
	}
	for _, j := range cn.at {
		hit := false
		for _, a := range alts {
			if len(a) != len(j.parts) {
				continue
			}
			eq := true
			for i := range a {
				eq = eq && same(a[i], j.parts[i])
			}
			hit = hit || eq
		}
		if hit {
			continue
		}
		if !j.known {
			c.und("merge-where", m.name, "%s lands at %s", what, e.showParts(j))
			return false
		}
		for _, x := range j.parts {
			if x.t != nil && x.t.op == "call" && !(x.t.fn != nil && (strings.Contains(x.t.fn.Name(), "String") || pkgOf(x.t.fn) != nil && pkgOf(x.t.fn).Path() == "strconv")) {
				c.und("merge-where", m.name, "%s lands at %s", what, e.showParts(j))
				return false
			}
		}
		c.bad("merge-where", m.name, cn.ev.pos, "%s lands at %s, not at %s", what, e.showParts(j), e.showParts(jpath{want, true}))
		return false
	}
	c.ok("merge-where")
	return true
}

func (e *Engine) showParts(j jpath) string {
	var sb []string
	for _, x := range j.parts {
		switch {
		case x.delim:
			sb = append(sb, "<delimiter>")
		case x.t == nil:
			sb = append(sb, "<prefix>")
		default:
			sb = append(sb, brief(x.t))
		}
	}
	if len(sb) == 0 {
		return "<nothing>"
	}
	return strings.Join(sb, " ")
}

// unwrap: conversions, and the Value of a package.
func unwrapPayload(t *Term) *Term {
	for t != nil && (t.op == "iface" || t.op == "conv" || t.op == "chtype") {
		t = t.args[0]
	}
	return t
}

func (m *mergeCtx) emptyPayload(t *Term) bool {
	if m.e.nilState(m.o.st.facts, t) == 1 {
		return true
	}
	if v, ok := m.e.decide(m.o.st.facts, m.e.ts.eq(m.e.ts.length(t), m.e.ts.intc(0))); ok && v {
		return true
	}
	return false
}

func (m *mergeCtx) whole(t *Term) (out []consumption) {
	for _, cn := range m.cons {
		x := unwrapPayload(cn.payload)
		if x == t && cn.ev.loop == nil {
			out = append(out, cn)
		}
	}
	return
}

func (m *mergeCtx) checkMap() {
	c := m.c
	if w := m.whole(m.p); len(w) > 0 {
		if len(w) > 1 {
			c.bad("merge-all", m.name, m.f.Pos(), "the map is merged %d times", len(w))
			return
		}
		m.at(w[0], m.base(), "the map")
		c.ok("merge-all")
		return
	}
	l, full := mapLoop(m.o.st.events, m.p)
	if l == nil {
		if m.emptyPayload(m.p) {
			c.ok("merge-all")
			return
		}
		if len(m.cons) == 0 && !anyLoop(m.o.st.events) {
			c.bad("merge-all", m.name, m.f.Pos(), "on some path the map is not merged")
			return
		}
		c.und("merge-all", m.name, "no loop over the map recognised")
		return
	}
	if !full {
		c.bad("merge-all", m.name, m.f.Pos(), "the loop over the map may end before its last entry")
		return
	}
	for i := range l.bodies {
		b := &l.bodies[i]
		var hit []consumption
		for _, cn := range m.cons {
			if cn.ev.loop == l && cn.ev.body == i {
				hit = append(hit, cn)
			}
		}
		if len(hit) == 0 {
			if m.nested(b.events) {
				c.und("merge-all", m.name, "an entry is merged in an inner loop")
				return
			}
			for _, cn := range m.cons {
				if x := unwrapPayload(cn.payload); cn.ev.loop != nil && cn.ev.loop != l && (x.op == "lookup" || x.op == "field" || x.op == "res") {
					c.und("merge-all", m.name, "the entries are merged by a list of the keys")
					return
				}
			}
			c.bad("merge-all", m.name, m.f.Pos(), "an entry of the map may be skipped")
			return
		}
		if len(hit) > 1 {
			c.bad("merge-all", m.name, m.f.Pos(), "an entry of the map is merged %d times", len(hit))
			return
		}
		cn := hit[0]
		x := unwrapPayload(cn.payload)
		isPkg := false
		if x.op == "field" && x.aux == "Value" {
			x = unwrapPayload(x.args[0])
			isPkg = true
		}
		if x.op != "rangeval" {
			if mentionsOp(x, "rangeval") && x.op == "call" {
				c.und("merge-value", m.name, "an entry is merged as %s", brief(x))
			} else {
				c.bad("merge-value", m.name, cn.ev.pos, "an entry is merged with %s instead of its value", brief(cn.payload))
			}
			return
		}
		c.ok("merge-value")
		if mt, ok := m.p.typ.Underlying().(*types.Map); ok {
			if _, ok := mt.Elem().Underlying().(*types.Struct); ok {
				m.dedicated(cn, b, x, isPkg)
			}
		}
		// the key: the range key, or its text
		var key *Term
		for _, j := range cn.at {
			for _, q := range j.parts {
				if q.t != nil && mentionsOp(q.t, "rangekey") {
					key = q.t
				}
			}
		}
		if key == nil {
			c.bad("merge-where", m.name, cn.ev.pos, "an entry is merged without its own key")
			return
		}
		if k := key; k.op == "call" {
			if !(k.fn != nil && (k.fn.Name() == "String" || strings.HasPrefix(k.fn.Name(), "Sprint"))) {
				c.und("merge-where", m.name, "an entry is merged at %s", brief(key))
				return
			}
		} else if k.op != "rangekey" && !(k.op == "assert" && k.args[0].op == "rangekey") {
			c.und("merge-where", m.name, "an entry is merged at %s", brief(key))
			return
		}
		base := m.base()
		if len(base) > 0 {
			base = append(base, jpart{delim: true})
		}
		m.at(cn, append(base, jpart{t: key}), "an entry")
	}
	if len(l.bodies) == 0 {
		c.bad("merge-all", m.name, m.f.Pos(), "the loop over the map does nothing")
		return
	}
	c.ok("merge-all")
}

func anyLoop(evs []*Event) (ok bool) {
	allLoops(evs, func(*LoopEv) { ok = true })
	return
}

func (m *mergeCtx) nested(evs []*Event) bool { return anyLoop(evs) }

// checkSlice: every element of slice t lands at base + index.
func (m *mergeCtx) checkSlice(t *Term, base []jpart) {
	c, e := m.c, m.e
	if w := m.whole(t); len(w) == 1 && !w[0].insert {
		m.at(w[0], base, "the list")
		c.ok("merge-all")
		return
	}
	var loop *LoopEv
	var cons []consumption
	var idx *Term
	for _, cn := range m.cons {
		x := unwrapPayload(cn.payload)
		if x.op == "load" && x.args[0].op == "idxaddr" && x.args[0].args[0] == t && cn.ev.loop != nil {
			if loop != nil && loop != cn.ev.loop {
				c.und("merge-all", m.name, "several loops over the list")
				return
			}
			loop = cn.ev.loop
			cons = append(cons, cn)
			idx = x.args[0].args[1]
		} else {
			c.bad("merge-value", m.name, cn.ev.pos, "a list that is taken apart is merged with %s instead of its elements", brief(cn.payload))
			return
		}
	}
	if loop == nil {
		if m.emptyPayload(t) {
			c.ok("merge-all")
			return
		}
		if len(m.cons) == 0 {
			// a loop whose body was never entered on this path?
			found := false
			allLoops(m.o.st.events, func(l *LoopEv) { found = true })
			if !found {
				c.bad("merge-all", m.name, m.f.Pos(), "a list is dropped")
				return
			}
		}
		c.und("merge-all", m.name, "no loop over the list recognised")
		return
	}
	cv := e.loopCoverIdx(loop, t, idx)
	if !cv.known {
		c.und("merge-all", m.name, "loop over the list not recognised")
		return
	}
	if !cv.full {
		c.bad("merge-all", m.name, m.f.Pos(), "not every element of the list is merged: %s", cv.why)
		return
	}
	per := map[int]int{}
	for _, cn := range cons {
		per[cn.ev.body]++
	}
	for i := range loop.bodies {
		if per[i] == 0 {
			c.bad("merge-all", m.name, m.f.Pos(), "an element of the list may be skipped")
			return
		}
		if per[i] > 1 {
			c.bad("merge-all", m.name, m.f.Pos(), "an element of the list is merged %d times", per[i])
			return
		}
	}
	c.ok("merge-all")
	for _, cn := range cons {
		x := unwrapPayload(cn.payload)
		want := append(append([]jpart{}, base...), jpart{delim: true}, jpart{t: x.args[0].args[1]})
		m.at(cn, want, "an element of a list")
	}
}

func (m *mergeCtx) checkAny() {
	c, e := m.c, m.e
	v := m.p
	var is types.Type
	var isT *Term
	not := map[string]bool{}
	tests := 0
	for f := m.o.st.facts; f != nil; f = f.up {
		a := f.atom
		if a.op == "istype" && len(a.args) == 1 && a.args[0] == v {
			tests++
			if f.pol {
				isT = a
			} else {
				not[a.aux] = true
			}
		}
	}
	// the asserted form of v on this path
	var av *Term
	find := func(t *Term) {
		if t == nil {
			return
		}
		walkTerm(t, func(x *Term) bool {
			if x.op == "assert" && x.args[0] == v && isT != nil && typeKey(x.typ) == isT.aux {
				if _, ok := x.typ.Underlying().(*types.Interface); !ok {
					av = x
					is = x.typ
				}
			}
			return false
		})
	}
	for _, ev := range m.evs {
		find(ev.Event.val)
		for _, a := range ev.args {
			find(a)
		}
	}
	if isT != nil && is == nil {
		is = m.typeOfTest(isT)
		if is != nil {
			av = e.ts.mk("assert", isT.aux, is, v)
		}
	}
	base := m.base()
	if isT != nil && is != nil {
		switch k := m.kindOf(is); k {
		case "pkg":
			n := 0
			for _, cn := range m.cons {
				x := unwrapPayload(cn.payload)
				if x.op == "field" && x.aux == "Value" && unwrapPayload(x.args[0]) == av {
					n++
					if cn.insert {
						for _, want := range m.mapTypes() {
							no := false
							for f := m.o.st.facts; f != nil; f = f.up {
								if f.atom.op == "istype" && !f.pol && f.atom.aux == want && unwrapPayload(f.atom.args[0]) == x {
									no = true
								}
							}
							if !no {
								c.bad("merge-value", m.name, cn.ev.pos, "a packaged map (%s) may be stored as one value", want)
								return
							}
						}
					}
					m.at(cn, base, "a packaged value")
					continue
				}
				c.bad("merge-value", m.name, cn.ev.pos, "a packaged value is merged with %s instead of its value", brief(cn.payload))
				return
			}
			if n != 1 {
				c.bad("merge-all", m.name, m.f.Pos(), "a packaged value is merged %d times", n)
				return
			}
			c.ok("merge-value")
			return
		case "map":
			ws := m.whole(av)
			for _, cn := range m.cons {
				if cn.insert && (unwrapPayload(cn.payload) == v || unwrapPayload(cn.payload) == av) {
					c.bad("merge-value", m.name, cn.ev.pos, "a nested map is stored as one value")
					return
				}
			}
			if len(ws) == 0 {
				l, _ := mapLoop(m.o.st.events, av)
				if l != nil {
					m2 := *m
					m2.p = av
					m2.checkMap()
					return
				}
			}
			if len(ws) != 1 || len(m.cons) != 1 {
				if len(m.cons) == 0 && m.emptyPayload(av) {
					c.ok("merge-value")
					return
				}
				c.bad("merge-all", m.name, m.f.Pos(), "a nested map is merged %d times", len(ws))
				return
			}
			c.ok("merge-value")
			m.at(ws[0], base, "a nested map")
			return
		case "slice":
			flat := m.flattened()
			ws := m.whole(v)
			ws = append(ws, m.whole(av)...)
			ins := len(ws) == 1 && ws[0].insert && len(m.cons) == 1
			switch {
			case flat == -1:
				if !ins {
					c.bad("merge-value", m.name, m.f.Pos(), "a list is not stored as one value although lists are not to be taken apart")
					return
				}
				c.ok("merge-value")
				m.at(ws[0], base, "a list")
				return
			case flat == 0 && m.hasFlattenField():
				if ins {
					c.bad("merge-value", m.name, m.f.Pos(), "a list is stored as one value without regard to whether lists are to be taken apart")
				} else {
					c.bad("merge-value", m.name, m.f.Pos(), "a list is taken apart without regard to whether lists are to be")
				}
				return
			case ins:
				c.bad("merge-value", m.name, m.f.Pos(), "a list is stored as one value although lists are to be taken apart")
				return
			}
			c.ok("merge-value")
			m.checkSlice(av, base)
			return
		}
	}
	// anything else: stored as it is
	if tests == 0 && len(m.cons) == 0 {
		c.und("merge-value", m.name, "no test of the value's type recognised")
		return
	}
	var hit []consumption
	for _, cn := range m.cons {
		x := unwrapPayload(cn.payload)
		if x == v || x.op == "assert" && x.args[0] == v || isNilT(x) && e.nilState(m.o.st.facts, v) == 1 || isZeroTerm(x) && e.nilState(m.o.st.facts, v) == 1 {
			hit = append(hit, cn)
			continue
		}
		c.bad("merge-value", m.name, cn.ev.pos, "a plain value is stored as %s", brief(cn.payload))
		return
	}
	if len(hit) == 0 {
		if m.attached() || m.strEmpty() {
			dead := false
			for g := m.o.st.facts; g != nil; g = g.up {
				if a := g.atom; !g.pol && a.op == "istype" && a.args[0] == v && (a.aux == "any" || a.aux == "interface {}") && e.nilState(m.o.st.facts, v) == -1 {
					dead = true // every value but nil is one
				}
			}
			if !dead && e.nilState(m.o.st.facts, v) != -1 {
				c.bad("merge-all", m.name, m.f.Pos(), "an entry that is nil may be refused instead of stored")
				return
			}
			c.ok("merge-all")
			return
		}
		c.bad("merge-all", m.name, m.f.Pos(), "on some path a plain value is neither stored nor reported as an error")
		return
	}
	if len(hit) > 1 {
		c.bad("merge-all", m.name, m.f.Pos(), "a plain value is stored %d times", len(hit))
		return
	}
	if hit[0].insert && tests > 0 {
		for _, want := range m.mapTypes() {
			if !not[want] && isT == nil {
				c.bad("merge-value", m.name, m.f.Pos(), "a nested map (%s) may be stored as one value", want)
				return
			}
		}
	}
	c.ok("merge-all")
	m.at(hit[0], base, "a plain value")
}

// mapTypes: the map types for which the function's family has a merge.
func (m *mergeCtx) mapTypes() (out []string) {
	w := m.c.w
	seen := map[string]bool{}
	for _, f := range w.mergeFns() {
		if !w.mergeRec(f) || isRecvOf(f, w.trieT) != isRecvOf(m.f, w.trieT) {
			continue
		}
		for i, p := range f.Params {
			if i == 0 || w.payloadKind(p.Type()) != "map" {
				continue
			}
			k := typeKey(p.Type())
			if !seen[k] {
				seen[k] = true
				out = append(out, k)
			}
		}
	}
	return
}

func (m *mergeCtx) strEmpty() bool { return false }

// attached: an error is attached or returned on this path.
func (m *mergeCtx) attached() bool {
	for _, ev := range m.evs {
		if isCall(ev.Event, "errors.Error).Attach") {
			return true
		}
	}
	for _, r := range m.o.rets {
		if types.TypeString(r.typ, nil) == "error" && !isNilT(r) {
			return true
		}
	}
	return false
}

func (m *mergeCtx) typeOfTest(t *Term) (out types.Type) {
	for _, b := range m.f.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.TypeAssert); ok && typeKey(x.AssertedType) == t.aux {
				return x.AssertedType
			}
		}
	}
	return nil
}

func (m *mergeCtx) kindOf(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if st, ok := n.Underlying().(*types.Struct); ok && st.NumFields() > 0 && st.Field(0).Name() == "Value" {
			return "pkg"
		}
	}
	switch k := m.c.w.payloadKind(t); k {
	case "map", "slice":
		return k
	}
	return "other"
}

// hasFlattenField: does the receiver have the setting at all?
func (m *mergeCtx) hasFlattenField() bool { return isRecvOf(m.f, m.c.w.storeT) }

// flattened: what the path knows about the setting.
func (m *mergeCtx) flattened() int {
	if !m.hasFlattenField() {
		return 1
	}
	for f := m.o.st.facts; f != nil; f = f.up {
		if _, fl, ok := fieldLoad(f.atom); ok && strings.Contains(strings.ToLower(fl), "flatten") {
			if f.pol {
				return 1
			}
			return -1
		}
	}
	return 0
}

// source: no map or list of the document is written to.
func (m *mergeCtx) source() {
	c := m.c
	of := func(t *Term) bool {
		for t != nil {
			if t == m.p || t.op == "param" && c.w.payloadKind(t.typ) == "map" {
				return true
			}
			switch t.op {
			case "assert", "rangeval", "conv", "iface", "chtype", "field", "load", "idxaddr", "slice", "lookup", "mapget", "res":
				t = t.args[0]
			default:
				return false
			}
		}
		return false
	}
	for _, ev := range m.evs {
		switch ev.kind {
		case "mapupdate", "delete":
			if of(ev.addr) {
				c.bad("merge-source", m.name, ev.pos, "a map of the merged document is changed")
				return
			}
		case "store":
			if ev.addr.op == "idxaddr" && of(ev.addr.args[0]) {
				c.bad("merge-source", m.name, ev.pos, "a list of the merged document is changed")
				return
			}
		case "call":
			if strings.HasPrefix(ev.name, "builtin.clear") && of(ev.args[0]) {
				c.bad("merge-source", m.name, ev.pos, "a map of the merged document is emptied")
				return
			}
		}
	}
	c.ok("merge-source")
}

// errors: each merge's error is attached or returned.
func (m *mergeCtx) errors() {
	c, e := m.c, m.e
	w := c.w
	for _, cn := range m.cons {
		if cn.insert {
			continue
		}
		rs := cn.ev.fn.Signature.Results()
		if rs.Len() == 0 {
			// errors go to the collector it is given
			m.collector(cn)
			continue
		}
		if types.TypeString(rs.At(rs.Len()-1).Type(), nil) != "error" {
			continue
		}
		er := e.resOf(cn.ev.Event, rs.Len()-1)
		used := false
		for _, ev := range m.evs {
			if isCall(ev.Event, "errors.Error).Attach", "Attach") {
				for _, a := range ev.args[1:] {
					used = used || mentionsT(a, er)
				}
			}
			if ev.kind == "append" {
				for _, a := range ev.args {
					used = used || mentionsT(a, er)
				}
			}
			if ev.kind == "call" && ev.fn != nil && !w.inWorkspace(ev.fn) && ev.Event != cn.ev.Event {
				for _, a := range ev.args {
					used = used || mentionsT(a, er)
				}
			}
		}
		for _, r := range m.o.rets {
			used = used || mentionsT(r, er)
		}
		if cn.ev.loop != nil && !used {
			for _, x := range e.loopVarsOf(m.o.rets) {
				used = used || mentionsT(x, er)
			}
		}
		if !used && e.nilState(cn.ev.loopFacts(m.o), er) == 1 {
			used = true
		}
		if !used {
			c.bad("merge-error", m.name, cn.ev.pos, "the error of a merge is dropped")
			continue
		}
		c.ok("merge-error")
	}
	// a collector made here must end up in the result
	for _, ev := range m.evs {
		if !isCall(ev.Event, "errors.v3.New") || len(m.o.rets) == 0 {
			continue
		}
		ec := ev.res
		used := false
		lastUse := -1
		for _, cn := range m.cons {
			for _, a := range cn.ev.args {
				if a == ec {
					used = true
					for i, x := range m.evs {
						if x.Event == cn.ev.Event {
							lastUse = max(lastUse, i)
						}
					}
				}
			}
		}
		if !used {
			continue
		}
		out := false
		for i, x := range m.evs {
			if isCall(x.Event, "errors.Error).Defer") && x.args[0] == ec {
				if i < lastUse {
					continue // read before everything was collected
				}
				cell := x.args[1]
				for _, r := range m.o.rets {
					if r.op == "out" && len(r.args) > 0 && r.args[0] == cell {
						out = true
					}
				}
			}
		}
		for _, r := range m.o.rets {
			out = out || mentionsT(r, ec)
		}
		if !out {
			c.bad("merge-error", m.name, m.f.Pos(), "the collected errors are not returned")
		} else {
			c.ok("merge-error")
		}
	}
}

// collector: a merge that returns nothing is given the collector.
func (m *mergeCtx) collector(cn consumption) {
	c := m.c
	for i, q := range cn.ev.fn.Params {
		if i >= len(cn.ev.args) || !strings.Contains(types.TypeString(q.Type(), nil), "errors.v3.Error") {
			continue
		}
		a := cn.ev.args[i]
		own := a.op == "param"
		if a.op == "call" && len(m.o.rets) > 0 {
			own = true // checked where it is made
		}
		if !own {
			if isNilT(a) || a.op == "call" {
				c.bad("merge-error", m.name, cn.ev.pos, "a merge is given an error collector that nobody reads")
				return
			}
			c.und("merge-error", m.name, "collector %s", brief(a))
			return
		}
		c.ok("merge-error")
	}
}

func (x flatEv) loopFacts(o *Outcome) *Fact {
	if x.loop != nil && x.body < len(x.loop.bodies) {
		return x.loop.bodies[x.body].facts
	}
	return o.st.facts
}

func (e *Engine) loopVarsOf(ts []*Term) (out []*Term) {
	for _, t := range ts {
		walkTerm(t, func(x *Term) bool {
			if x.op == "loopvar" {
				out = append(out, e.loopIn[x.id]...)
			}
			return false
		})
	}
	return
}

// onset: the per-node action is handed on, or run once for each node set.
func (m *mergeCtx) onset() {
	c, e := m.c, m.e
	if len(m.funcs) != 1 {
		return
	}
	cb := m.funcs[0]
	for _, cn := range m.cons {
		if !cn.insert {
			got := false
			has := false
			for i, q := range cn.ev.fn.Params {
				if _, ok := q.Type().Underlying().(*types.Signature); ok && i < len(cn.ev.args) {
					has = true
					a := unwrapPayload(cn.ev.args[i])
					got = got || a == cb || a.op == "closure" && mentionsT(a, cb)
					if a.op == "closure" && !got {
						c.und("merge-onset", m.name, "a closure is handed on")
						return
					}
				}
			}
			if has && !got {
				c.bad("merge-onset", m.name, cn.ev.pos, "the action for each set node is not handed on")
				return
			}
			c.ok("merge-onset")
			continue
		}
		node := e.resOf(cn.ev.Event, 0)
		n := 0
		for _, ev := range m.evs {
			if ev.kind == "call" && ev.Event.val == cb && ev.n > cn.ev.n {
				if len(ev.args) > 0 && unwrapPayload(ev.args[len(ev.args)-1]) == node {
					n++
				} else {
					c.bad("merge-onset", m.name, ev.pos, "the action for each set node gets %s", brief(ev.args[len(ev.args)-1]))
					return
				}
			}
		}
		want := 1
		if e.nilState(m.o.st.facts, cb) == 1 || e.nilState(m.o.st.facts, node) == 1 {
			want = 0
		}
		if n != want {
			c.bad("merge-onset", m.name, cn.ev.pos, "the action for each set node runs %d time(s) for a node", n)
			return
		}
		c.ok("merge-onset")
	}
}

// dedicated: entries with description, comment and tag keep them.
func (m *mergeCtx) dedicated(cn consumption, b *LoopBody, entry *Term, isPkg bool) {
	c, e := m.c, m.e
	var cl *Term
	for _, a := range cn.ev.args {
		if x := unwrapPayload(a); x != nil && x.op == "closure" {
			cl = x
		}
	}
	if cl == nil || cl.fn == nil {
		for _, a := range cn.ev.args {
			if _, ok := a.typ.Underlying().(*types.Signature); ok && isNilT(a) {
				c.bad("merge-onset", m.name, cn.ev.pos, "description, comment and tag of a loaded entry are dropped")
				return
			}
		}
		c.und("merge-onset", m.name, "what keeps an entry's description, comment and tag is not recognised")
		return
	}
	g := cl.fn
	r := c.w.roles()
	if len(g.Params) != 1 {
		c.und("merge-onset", m.name, "closure not recognised")
		return
	}
	st := e.newState()
	for k, v := range b.heap {
		st.heap[k] = v
	}
	node := e.ts.mk("param", "node", g.Params[0].Type())
	for _, o := range e.AnalyzeFrom(g, []*Term{node}, cl.args, st) {
		if o.panic {
			continue
		}
		want := map[string]string{}
		odd := false
		for _, ev := range flatten(o.st.events) {
			if ev.kind == "store" && ev.addr.op == "fieldaddr" && ev.addr.args[0] == node {
				src := "?"
				x := unwrapPayload(ev.Event.val)
				if x.op == "field" && unwrapPayload(x.args[0]) == entry {
					src = x.aux
				}
				switch ev.addr.aux {
				case r.desc:
					want["Desc"] = src
				case r.comment:
					want["Comment"] = src
				case r.tag:
					want["Tag"] = src
				}
				continue
			}
			if ev.kind != "call" || len(ev.args) == 0 || ev.args[0] != node {
				continue
			}
			for i, a := range ev.args[1:] {
				x := unwrapPayload(a)
				src := "?"
				if x.op == "field" && unwrapPayload(x.args[0]) == entry {
					src = x.aux
				}
				switch {
				case strings.HasSuffix(ev.name, ").SetComment"):
					want[[]string{"Desc", "Comment"}[i%2]] = src
				case strings.HasSuffix(ev.name, ").SetTag"):
					want["Tag"] = src
				default:
					odd = true
				}
			}
		}
		for _, k := range []string{"Desc", "Comment", "Tag"} {
			switch got, ok := want[k]; {
			case !ok && odd:
				c.und("merge-onset", m.name, "closure not recognised")
			case !ok:
				c.bad("merge-onset", m.name, cn.ev.pos, "the %s of a loaded entry is dropped", strings.ToLower(k))
			case got != k && got != "?":
				c.bad("merge-onset", m.name, cn.ev.pos, "the %s of a loaded entry becomes its %s", strings.ToLower(got), strings.ToLower(k))
			case got == "?":
				c.und("merge-onset", m.name, "%s not recognised", k)
			default:
				c.ok("merge-onset")
			}
		}
	}
}

// bodyOfExported: the function is a part of an exported one, which gives it its
// own parameters and which alone calls it.
func (w *World) bodyOfExported(f *ssa.Function) bool {
	cs := w.callsTo(f)
	if len(cs) != 1 {
		return false
	}
	by := cs[0].Parent()
	for _, a := range cs[0].Common().Args {
		if _, ok := a.(*ssa.Parameter); !ok {
			return false
		}
	}
	return by.Object() != nil && by.Object().Exported()
}

// callsTo: the static calls of the function in the workspace, promotion
// wrappers left out.
func (w *World) callsTo(f *ssa.Function) (out []ssa.CallInstruction) {
	for _, g := range w.fns {
		if g.Synthetic != "" && g.Origin() == nil {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && sameFn(c.Common().StaticCallee(), f) {
					out = append(out, c)
				}
			}
		}
	}
	return
}

// partOf: an unexported method all of whose calls come from other methods of
// its type; it is looked into where it is called.
func (w *World) partOf(f *ssa.Function) bool {
	if f.Object() == nil || f.Object().Exported() {
		return false
	}
	cs := w.callsTo(f)
	for _, c := range cs {
		g := c.Parent()
		for g.Parent() != nil {
			g = g.Parent()
		}
		r1, r2 := f.Signature.Recv(), g.Signature.Recv()
		if r1 == nil || r2 == nil || g == f || namedOf(r1.Type()) == nil || namedOf(r2.Type()) == nil || namedOf(r1.Type()).Obj() != namedOf(r2.Type()).Obj() {
			return false
		}
	}
	return len(cs) > 0
}

func sameFn(a, b *ssa.Function) bool {
	return a != nil && b != nil && (a == b || a.Origin() != nil && a.Origin() == b.Origin() || a.Origin() == b || b.Origin() == a)
}
