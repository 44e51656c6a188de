package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The value-flow engine: a path-sensitive forward dataflow analysis over SSA.
// Abstract states map SSA values and memory cells to provenance terms; branch
// conditions are kept as facts; loops are widened at their header (every phi
// and cell that changes around the loop becomes an opaque loop value, iterated
// to a fixpoint), so each loop body is analysed for an arbitrary iteration;
// workspace callees are analysed in the caller's context unless recursive.

type Fact struct {
	atom *Term
	pol  bool
	up   *Fact
}

func (f *Fact) get(a *Term) (pol, ok bool) {
	for x := f; x != nil; x = x.up {
		if x.atom == a {
			return x.pol, true
		}
	}
	return
}
func (f *Fact) list() (out []*Fact) {
	for x := f; x != nil; x = x.up {
		out = append(out, x)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return
}
func (f *Fact) String() string {
	var o []string
	for _, x := range f.list() {
		if x.pol {
			o = append(o, x.atom.short())
		} else {
			o = append(o, "!"+x.atom.short())
		}
	}
	return strings.Join(o, " && ")
}

type Event struct {
	kind  string // call store mapupdate delete send recv close go loop panic lookup
	name  string
	fn    *ssa.Function // static or resolved callee when known
	args  []*Term
	res   *Term
	addr  *Term
	val   *Term
	key   *Term
	old   *Term // previous content of a stored cell
	pos   token.Pos
	in    *ssa.Function
	facts *Fact
	loop  *LoopEv
	defrd bool // executed from a deferred call
	invk  bool
	instr ssa.Instruction
	depth int
	heap  map[int]*Term // snapshot kept only for opaque workspace calls (fresh objects)
	tag   string        // mark of the values the call left in its out-arguments
}

type LoopEv struct {
	id     string
	fn     *ssa.Function
	header *ssa.BasicBlock
	bodies []LoopBody
	exits  []*ssa.BasicBlock // blocks (in the loop) from which control leaves
	vars   []*Term
	n0     int
	entry  *Fact
	start  map[int]*Term // loop value -> what it is when the loop is entered
}
type LoopBody struct {
	next   map[int]*Term // loop value -> what it is after this iteration
	events []*Event
	facts  *Fact
	heap   map[int]*Term
}

type State struct {
	heap    map[int]*Term
	facts   *Fact
	events  []*Event
	epoch   map[string]int
	allocs  map[int]bool
	escaped map[int]bool
	havoced map[int]bool // allocs whose unseen fields are unknown (not zero)
	seq     map[string]int
}

func (s *State) clone() *State {
	n := &State{facts: s.facts, heap: make(map[int]*Term, len(s.heap)), epoch: make(map[string]int, len(s.epoch)), allocs: make(map[int]bool, len(s.allocs)), escaped: make(map[int]bool, len(s.escaped)), havoced: make(map[int]bool, len(s.havoced)), seq: make(map[string]int, len(s.seq))}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.epoch {
		n.epoch[k] = v
	}
	for k, v := range s.allocs {
		n.allocs[k] = v
	}
	for k, v := range s.escaped {
		n.escaped[k] = v
	}
	for k, v := range s.havoced {
		n.havoced[k] = v
	}
	for k, v := range s.seq {
		n.seq[k] = v
	}
	n.events = s.events[:len(s.events):len(s.events)]
	return n
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	defers []dcall
	parent *Frame
	id     string
	depth  int
	loops  []*loopCtx
	iters  map[ssa.Value]*Term
	defrd  bool // runs inside a deferred call
}

type dcall struct {
	in   *ssa.Defer
	fn   *Term
	args []*Term
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.loops = f.loops[:len(f.loops):len(f.loops)]
	return &n
}

type loopCtx struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	dry    bool
	backs  []backEdge
	ev     *LoopEv
}
type backEdge struct {
	from *ssa.BasicBlock
	fr   *Frame
	st   *State
}

type Outcome struct {
	st    *State
	rets  []*Term
	panic bool
}

type Engine struct {
	w        *World
	ts       *Terms
	opaque   func(*ssa.Function) bool
	noteMake func(x *ssa.MakeSlice, ln, cp *Term, facts *Fact)
	endless  []*LoopEv                // loops no path leaves
	inline   func(*ssa.Function) bool // force inline
	noteLoad func(addr *Term) bool    // loads to be recorded as events
	maxDepth int
	steps    int
	maxSteps int
	over     bool
	out      []*Outcome
	loopIn   map[int][]*Term // loop value -> [entry, back...]
	loopsOf  map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	cw       map[*ssa.Function]map[int]bool
	inlined  map[*ssa.Function]bool
	nfork    int
	quiet    int
	roots    map[*ssa.Function]bool

	quietGo   bool // a started goroutine does not make what it is given escape
	nextDefrd bool
}

func newEngine(w *World) *Engine {
	return &Engine{w: w, ts: newTerms(), maxDepth: 14, maxSteps: stepBound, loopIn: map[int][]*Term{}, loopsOf: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, cw: map[*ssa.Function]map[int]bool{}, inlined: map[*ssa.Function]bool{}}
}

type cont func(fr *Frame, st *State, rets []*Term)

// Analyze computes the abstract outcomes of fn on unconstrained parameters.
func (e *Engine) Analyze(fn *ssa.Function) []*Outcome {
	var args []*Term
	for i, p := range fn.Params {
		args = append(args, e.ts.mk("param", fmt.Sprintf("%s", pname(p, i)), p.Type()))
	}
	var fv []*Term
	for i, v := range fn.FreeVars {
		fv = append(fv, e.ts.mk("param", fmt.Sprintf("free%d:%s", i, v.Name()), v.Type()))
	}
	return e.AnalyzeWith(fn, args, fv)
}

func pname(p *ssa.Parameter, i int) string {
	return fmt.Sprintf("p%d:%s", i, p.Name())
}

func (e *Engine) newState() *State {
	return &State{heap: map[int]*Term{}, epoch: map[string]int{}, allocs: map[int]bool{}, escaped: map[int]bool{}, havoced: map[int]bool{}, seq: map[string]int{}}
}

func (e *Engine) AnalyzeWith(fn *ssa.Function, args, fv []*Term) []*Outcome {
	return e.AnalyzeFrom(fn, args, fv, e.newState())
}

func (e *Engine) AnalyzeFrom(fn *ssa.Function, args, fv []*Term, st *State) []*Outcome {
	e.out = nil
	e.endless = nil
	e.steps = 0
	e.over = false
	e.inlined[fn] = true
	if fn == nil || fn.Blocks == nil {
		return nil
	}
	e.enter(fn, args, fv, nil, "", 0, st, func(fr *Frame, st *State, rets []*Term) {
		e.out = append(e.out, &Outcome{st: st, rets: rets})
	})
	return e.out
}

func (e *Engine) enter(fn *ssa.Function, args, fv []*Term, parent *Frame, id string, depth int, st *State, k cont) {
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, parent: parent, id: id, depth: depth, defrd: e.nextDefrd || parent != nil && parent.defrd}
	e.nextDefrd = false
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(fv) {
			fr.env[p] = fv[i]
		}
	}
	e.inlined[fn] = true
	e.block(fr, st, fn.Blocks[0], nil, k)
}

func (e *Engine) loops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := e.loopsOf[fn]; ok {
		return l
	}
	l := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				set := l[s]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{s: true}
					l[s] = set
				}
				var stack []*ssa.BasicBlock
				if !set[b] {
					set[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !set[p] {
							set[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	e.loopsOf[fn] = l
	return l
}

// goTo transfers control along the edge from -> to.
func (e *Engine) goTo(fr *Frame, st *State, to, from *ssa.BasicBlock, k cont) {
	// leaving loops
	for len(fr.loops) > 0 {
		l := fr.loops[len(fr.loops)-1]
		if l.blocks[to] {
			break
		}
		if l.dry {
			return
		}
		addBlock(&l.ev.exits, from)
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	ls := e.loops(fr.fn)
	if set, ok := ls[to]; ok {
		if len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].header == to {
			l := fr.loops[len(fr.loops)-1]
			l.backs = append(l.backs, backEdge{from, fr, st})
			if !l.dry {
				l.ev.bodies = append(l.ev.bodies, LoopBody{events: st.events[l.ev.n0:], facts: st.facts, heap: st.heap})
			}
			return
		}
		e.loop(fr, st, to, from, set, k)
		return
	}
	e.block(fr, st, to, from, k)
}

func addBlock(v *[]*ssa.BasicBlock, b *ssa.BasicBlock) {
	for _, x := range *v {
		if x == b {
			return
		}
	}
	*v = append(*v, b)
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	return -1
}

func (e *Engine) phis(b *ssa.BasicBlock) (out []*ssa.Phi) {
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return
}

// loop analyses a natural loop to a fixpoint, then its exits.
func (e *Engine) loop(fr *Frame, st *State, h, from *ssa.BasicBlock, set map[*ssa.BasicBlock]bool, k cont) {
	lid := fmt.Sprintf("%s/%s#%d", fr.id, fr.fn.Name(), h.Index)
	phis := e.phis(h)
	entry := make([]*Term, len(phis))
	pi := predIndex(h, from)
	for i, p := range phis {
		entry[i] = e.val(fr, p.Edges[pi])
	}
	// loop values are told apart by the values they start from, so that what
	// one path brings in does not blur another
	for _, t := range entry {
		lid += fmt.Sprintf(",%d", t.id)
	}
	varPhi := make([]bool, len(phis))
	havoc := map[int]bool{}
	havocEp := map[string]bool{}
	havAlloc := map[int]bool{}
	prepare := func() (*Frame, *State) {
		f2, s2 := fr.clone(), st.clone()
		for i, p := range phis {
			if varPhi[i] {
				f2.env[p] = e.ts.mk("loopvar", lid+":"+p.Name(), p.Type())
			} else {
				f2.env[p] = entry[i]
			}
		}
		for a := range havoc {
			s2.heap[a] = e.ts.mk("loopvar", lid+":@", derefT(e.ts.all[a].typ), e.ts.all[a])
		}
		for k := range havocEp {
			s2.epoch[k] = s2.epoch[k] + 1000 + h.Index
		}
		for a := range havAlloc {
			s2.havoced[a] = true
		}
		return f2, s2
	}
	run := func(dry bool, ev *LoopEv) *loopCtx {
		f2, s2 := prepare()
		ctx := &loopCtx{header: h, blocks: set, dry: dry, ev: ev}
		if ev != nil {
			s2.events = append(s2.events, &Event{kind: "loop", loop: ev, in: fr.fn, facts: s2.facts, pos: firstPos(h), depth: fr.depth})
			ev.n0 = len(s2.events)
			ev.entry = s2.facts
			for i, p := range phis {
				if varPhi[i] {
					ev.vars = append(ev.vars, f2.env[p])
				}
			}
		}
		f2.loops = append(f2.loops, ctx)
		e.blockBody(f2, s2, h, len(phis), k)
		return ctx
	}
	for it := 0; it < 12; it++ {
		e.quiet++
		ctx := run(true, nil)
		e.quiet--
		if e.over {
			return
		}
		_, s0 := prepare()
		changed := false
		for _, b := range ctx.backs {
			bi := predIndex(h, b.from)
			for i, p := range phis {
				v := e.val(b.fr, p.Edges[bi])
				cur := entry[i]
				if varPhi[i] {
					cur = e.ts.mk("loopvar", lid+":"+p.Name(), p.Type())
				}
				if v != cur && !varPhi[i] {
					varPhi[i] = true
					changed = true
				}
			}
			for a, v := range b.st.heap {
				at := e.ts.all[a]
				root := rootOf(at)
				if root.op == "alloc" && !st.allocs[root.id] {
					continue // created inside the iteration
				}
				old, ok := s0.heap[a]
				if ok && old == v {
					continue
				}
				if !ok && v.op == "load" && v.args[0] == at {
					continue // merely read
				}
				if !ok && root.op == "alloc" && !s0.havoced[root.id] && v == e.ts.zero(derefT(at.typ)) {
					continue
				}
				if !havoc[a] {
					havoc[a] = true
					changed = true
				}
			}
			for a := range s0.heap {
				if _, ok := b.st.heap[a]; !ok && !havoc[a] {
					havoc[a] = true
					changed = true
				}
			}
			for kx, n := range b.st.epoch {
				if s0.epoch[kx] != n && !havocEp[kx] && !strings.HasPrefix(kx, "#next") {
					havocEp[kx] = true
					changed = true
				}
			}
			for a := range b.st.havoced {
				if st.allocs[a] && !s0.havoced[a] && !havAlloc[a] {
					havAlloc[a] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	ev := &LoopEv{id: lid, fn: fr.fn, header: h}
	if e.quiet > 0 {
		// still inside an outer dry run: one pass with exits enabled
	}
	ctx := run(false, ev)
	if len(ev.exits) == 0 && len(ev.bodies) > 0 && e.quiet == 0 && !e.over {
		e.endless = append(e.endless, ev)
	}
	ev.start = map[int]*Term{}
	for i, p := range phis {
		if varPhi[i] {
			ev.start[e.ts.mk("loopvar", lid+":"+p.Name(), p.Type()).id] = entry[i]
		}
	}
	for a := range havoc {
		lv := e.ts.mk("loopvar", lid+":@", derefT(e.ts.all[a].typ), e.ts.all[a])
		if v, ok := st.heap[a]; ok {
			ev.start[lv.id] = v
		} else if r := rootOf(e.ts.all[a]); r.op == "alloc" && !st.havoced[r.id] {
			ev.start[lv.id] = e.ts.zero(derefT(e.ts.all[a].typ))
		}
	}
	if len(ctx.backs) == len(ev.bodies) {
		for n, b := range ctx.backs {
			bi := predIndex(h, b.from)
			nx := map[int]*Term{}
			for i, p := range phis {
				if varPhi[i] {
					nx[e.ts.mk("loopvar", lid+":"+p.Name(), p.Type()).id] = e.val(b.fr, p.Edges[bi])
				}
			}
			for a := range havoc {
				if v, ok := b.st.heap[a]; ok {
					nx[e.ts.mk("loopvar", lid+":@", derefT(e.ts.all[a].typ), e.ts.all[a]).id] = v
				}
			}
			ev.bodies[n].next = nx
		}
	}
	for _, b := range ctx.backs {
		bi := predIndex(h, b.from)
		for i, p := range phis {
			if varPhi[i] {
				lv := e.ts.mk("loopvar", lid+":"+p.Name(), p.Type())
				e.addLoopIn(lv, entry[i])
				e.addLoopIn(lv, e.val(b.fr, p.Edges[bi]))
			}
		}
		for a := range havoc {
			lv := e.ts.mk("loopvar", lid+":@", derefT(e.ts.all[a].typ), e.ts.all[a])
			if v, ok := st.heap[a]; ok {
				e.addLoopIn(lv, v)
			} else if r := rootOf(e.ts.all[a]); r.op == "alloc" {
				e.addLoopIn(lv, e.ts.zero(derefT(e.ts.all[a].typ)))
			} else {
				e.addLoopIn(lv, e.ts.mk("load", "", derefT(e.ts.all[a].typ), e.ts.all[a]))
			}
			if v, ok := b.st.heap[a]; ok {
				e.addLoopIn(lv, v)
			}
		}
	}
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (e *Engine) addLoopIn(lv, v *Term) {
	for _, x := range e.loopIn[lv.id] {
		if x == v {
			return
		}
	}
	e.loopIn[lv.id] = append(e.loopIn[lv.id], v)
}

// expand resolves loop values to the set of non-loop terms that may flow in.
func (e *Engine) expand(t *Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var rec func(*Term)
	rec = func(x *Term) {
		if seen[x.id] {
			return
		}
		seen[x.id] = true
		if x.op == "loopvar" {
			ins := e.loopIn[x.id]
			if len(ins) == 0 {
				out = append(out, x)
			}
			for _, i := range ins {
				rec(i)
			}
			return
		}
		out = append(out, x)
	}
	rec(t)
	return out
}

func rootOf(a *Term) *Term {
	for {
		switch a.op {
		case "fieldaddr", "idxaddr":
			a = a.args[0]
		case "load", "slice", "chtype":
			return a
		default:
			return a
		}
	}
}

func (e *Engine) block(fr *Frame, st *State, b, from *ssa.BasicBlock, k cont) {
	phis := e.phis(b)
	if len(phis) > 0 {
		pi := predIndex(b, from)
		vals := make([]*Term, len(phis))
		for i, p := range phis {
			vals[i] = e.val(fr, p.Edges[pi])
		}
		for i, p := range phis {
			fr.env[p] = vals[i]
		}
	}
	e.blockBody(fr, st, b, len(phis), k)
}

func (e *Engine) val(fr *Frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.ts.zero(x.Type())
		}
		return e.ts.konst(x.Value, x.Type())
	case *ssa.Function:
		t := e.ts.mk("func", x.String(), x.Type())
		t.fn = x
		return t
	case *ssa.Global:
		return e.ts.mk("global", x.Pkg.Pkg.Path()+"."+x.Name(), x.Type())
	case *ssa.Builtin:
		return e.ts.mk("builtin", x.Name(), x.Type())
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	return e.ts.mk("undef", fr.id+v.Name(), v.Type())
}

func (e *Engine) blockBody(fr *Frame, st *State, b *ssa.BasicBlock, i int, k cont) {
	for ; i < len(b.Instrs); i++ {
		if e.over {
			return
		}
		e.steps++
		if e.steps > e.maxSteps {
			e.over = true
			return
		}
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			t := e.ts.mk("alloc", fmt.Sprintf("new%s.%s/%s", fr.id, fr.fn.Name(), x.Name()), x.Type())
			// a re-executed allocation site denotes a new object
			for a := range st.heap {
				if rootOf(e.ts.all[a]) == t {
					delete(st.heap, a)
				}
			}
			delete(st.havoced, t.id)
			delete(st.escaped, t.id)
			st.allocs[t.id] = true
			fr.env[x] = t
		case *ssa.BinOp:
			a, c := e.val(fr, x.X), e.val(fr, x.Y)
			fr.env[x] = e.ts.bin(x.Op, a, c, x.Type())
		case *ssa.UnOp:
			a := e.val(fr, x.X)
			switch x.Op {
			case token.MUL:
				fr.env[x] = e.load(st, a, x.Type())
				if e.noteLoad != nil && e.noteLoad(a) {
					st.events = append(st.events, &Event{kind: "load", addr: a, res: fr.env[x], pos: x.Pos(), in: fr.fn, facts: st.facts, instr: in, depth: fr.depth})
				}
			case token.NOT:
				fr.env[x] = e.ts.not(a)
			case token.ARROW:
				n := e.seq(st, "recv")
				r := e.ts.mk("recv", n, x.Type(), a)
				st.events = append(st.events, &Event{kind: "recv", args: []*Term{a}, res: r, pos: x.Pos(), in: fr.fn, facts: st.facts, instr: in, depth: fr.depth})
				if x.CommaOk {
					fr.env[x] = e.ts.mk("tuple", "", x.Type(), r, e.ts.mk("recvok", n, types.Typ[types.Bool], a))
				} else {
					fr.env[x] = r
				}
			case token.SUB:
				if isIntT(x.Type()) {
					fr.env[x] = e.ts.linAdd(e.ts.intc(0), a, -1, x.Type())
				} else {
					fr.env[x] = e.ts.mk("neg", "", x.Type(), a)
				}
			default:
				if a.isConst() && isIntT(x.Type()) {
					if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned == 0 {
						fr.env[x] = e.ts.konst(constant.UnaryOp(x.Op, a.cv, 0), x.Type())
						break
					}
				}
				fr.env[x] = e.ts.mk("un", x.Op.String(), x.Type(), a)
			}
		case *ssa.ChangeType:
			fr.env[x] = e.val(fr, x.X)
		case *ssa.ChangeInterface:
			fr.env[x] = e.val(fr, x.X)
		case *ssa.Convert:
			fr.env[x] = e.conv(e.val(fr, x.X), x.X.Type(), x.Type())
		case *ssa.MultiConvert:
			fr.env[x] = e.ts.mk("conv", types.TypeString(x.Type(), nil), x.Type(), e.val(fr, x.X))
		case *ssa.SliceToArrayPointer:
			fr.env[x] = e.ts.mk("conv", types.TypeString(x.Type(), nil), x.Type(), e.val(fr, x.X))
		case *ssa.MakeInterface:
			a := e.val(fr, x.X)
			t := e.ts.mk("iface", types.TypeString(x.X.Type(), nil), x.X.Type(), a)
			fr.env[x] = t
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			var bs []*Term
			for _, bv := range x.Bindings {
				bs = append(bs, e.val(fr, bv))
			}
			t := e.ts.mk("closure", f.String()+"@"+fr.id, x.Type(), bs...)
			t.fn = f
			fr.env[x] = t
		case *ssa.MakeMap:
			t := e.ts.mk("makemap", fmt.Sprintf("map%s.%s/%s", fr.id, fr.fn.Name(), x.Name()), x.Type())
			fr.env[x] = t
		case *ssa.MakeSlice:
			ln, cp := e.val(fr, x.Len), e.val(fr, x.Cap)
			t := e.ts.mk("makeslice", fmt.Sprintf("mk%s.%s/%s", fr.id, fr.fn.Name(), x.Name()), x.Type(), ln)
			if e.noteMake != nil {
				e.noteMake(x, ln, cp, st.facts)
			}
			fr.env[x] = t
		case *ssa.MakeChan:
			fr.env[x] = e.ts.mk("makechan", fmt.Sprintf("ch%s.%s/%s", fr.id, fr.fn.Name(), x.Name()), x.Type(), e.val(fr, x.Size))
		case *ssa.FieldAddr:
			fr.env[x] = e.fieldAddr(e.val(fr, x.X), x.X.Type(), x.Field, x.Type())
		case *ssa.Field:
			fr.env[x] = e.fieldOf(e.val(fr, x.X), x.X.Type(), x.Field, x.Type())
		case *ssa.IndexAddr:
			fr.env[x] = e.ts.mk("idxaddr", "", x.Type(), e.val(fr, x.X), e.val(fr, x.Index))
		case *ssa.Index:
			fr.env[x] = e.index(e.val(fr, x.X), e.val(fr, x.Index), x.Type())
		case *ssa.Lookup:
			m, ky := e.val(fr, x.X), e.val(fr, x.Index)
			if isStrT(x.X.Type()) {
				fr.env[x] = e.index(m, ky, x.Type())
				break
			}
			epo := fmt.Sprint(st.epoch["#map"])
			vt := x.Type()
			if x.CommaOk {
				vt = x.Type().(*types.Tuple).At(0).Type()
			}
			v := e.ts.mk("lookup", epo, vt, m, ky)
			if ep, ok := st.epoch["#next"+ky.aux]; ky.op == "rangekey" && ky.args[0] == m && ok && ep == st.epoch["#map"] {
				// the entry the loop is at, looked up instead of taken from the loop
				v = e.ts.mk("rangeval", ky.aux, vt, m)
				if x.CommaOk {
					fr.env[x] = e.ts.mk("tuple", "", x.Type(), v, e.ts.boolc(true))
				} else {
					fr.env[x] = v
				}
				break
			}
			if x.CommaOk {
				fr.env[x] = e.ts.mk("tuple", "", x.Type(), v, e.ts.mk("haskey", epo, types.Typ[types.Bool], m, ky))
			} else {
				fr.env[x] = v
			}
		case *ssa.Slice:
			fr.env[x] = e.slice(fr, st, x)
		case *ssa.Store:
			e.store(fr, st, e.val(fr, x.Addr), e.val(fr, x.Val), x.Val.Type(), x)
		case *ssa.MapUpdate:
			m, ky, v := e.val(fr, x.Map), e.val(fr, x.Key), e.val(fr, x.Value)
			st.events = append(st.events, &Event{kind: "mapupdate", addr: m, key: ky, val: v, pos: x.Pos(), in: fr.fn, facts: st.facts, instr: in, depth: fr.depth})
			st.epoch["#map"]++
			e.markEscaped(st, v)
		case *ssa.Range:
			fr.env[x] = e.ts.mk("range", "", x.Type(), e.val(fr, x.X))
		case *ssa.Next:
			rg := e.val(fr, x.Iter)
			src := rg
			if rg.op == "range" {
				src = rg.args[0]
			}
			n := fmt.Sprintf("%s#%d", fr.id, b.Index)
			st.epoch["#next"+n] = st.epoch["#map"]
			tt := x.Type().(*types.Tuple)
			fr.env[x] = e.ts.mk("tuple", "", x.Type(),
				e.ts.mk("rangeok", n, types.Typ[types.Bool], src),
				e.ts.mk("rangekey", n, tt.At(1).Type(), src),
				e.ts.mk("rangeval", n, tt.At(2).Type(), src))
		case *ssa.Extract:
			tp := e.val(fr, x.Tuple)
			if tp.op == "tuple" && x.Index < len(tp.args) {
				fr.env[x] = tp.args[x.Index]
			} else {
				fr.env[x] = e.ts.mk("extract", fmt.Sprint(x.Index), x.Type(), tp)
			}
		case *ssa.TypeAssert:
			fr.env[x] = e.typeAssert(st, e.val(fr, x.X), x)
		case *ssa.Send:
			st.events = append(st.events, &Event{kind: "send", args: []*Term{e.val(fr, x.Chan), e.val(fr, x.X)}, pos: x.Pos(), in: fr.fn, facts: st.facts, instr: in, depth: fr.depth})
		case *ssa.Go:
			fnT, args, name, f := e.callParts(fr, st, &x.Call)
			st.events = append(st.events, &Event{kind: "go", name: name, fn: f, args: args, val: fnT, pos: x.Pos(), in: fr.fn, facts: st.facts, instr: in, depth: fr.depth})
			if e.quietGo {
				continue // the caller goes on with the goroutine's body itself
			}
			for _, a := range args {
				e.markEscaped(st, a)
			}
			if fnT != nil {
				e.markEscaped(st, fnT)
			}
		case *ssa.Defer:
			fnT, args, _, _ := e.callParts(fr, st, &x.Call)
			fr.defers = append(fr.defers, dcall{in: x, fn: fnT, args: args})
		case *ssa.RunDefers:
			e.runDefers(fr, st, func(fr *Frame, st *State, _ []*Term) {
				e.blockBody(fr, st, b, i+1, k)
			})
			return
		case *ssa.Call:
			e.call(fr, st, &x.Call, nil, nil, x, false, func(fr2 *Frame, st2 *State, rets []*Term) {
				var r *Term
				switch len(rets) {
				case 0:
					r = e.ts.mk("unit", "", nil)
				case 1:
					r = rets[0]
				default:
					r = e.ts.mk("tuple", "", x.Type(), rets...)
				}
				fr2.env[x] = r
				e.blockBody(fr2, st2, b, i+1, k)
			})
			return
		case *ssa.Select:
			e.sel(fr, st, x, b, i, k)
			return
		case *ssa.If:
			c := e.val(fr, x.Cond)
			e.branch(fr, st, c, func(fr *Frame, st *State) { e.goTo(fr, st, b.Succs[0], b, k) },
				func(fr *Frame, st *State) { e.goTo(fr, st, b.Succs[1], b, k) })
			return
		case *ssa.Jump:
			e.goTo(fr, st, b.Succs[0], b, k)
			return
		case *ssa.Return:
			var rets []*Term
			for _, r := range x.Results {
				rets = append(rets, e.val(fr, r))
			}
			// leaving through return: loops of this frame are exited
			for len(fr.loops) > 0 {
				l := fr.loops[len(fr.loops)-1]
				if l.dry {
					return
				}
				addBlock(&l.ev.exits, b)
				fr.loops = fr.loops[:len(fr.loops)-1]
			}
			k(fr, st, rets)
			return
		case *ssa.Panic:
			st.events = append(st.events, &Event{kind: "panic", args: []*Term{e.val(fr, x.X)}, pos: x.Pos(), in: fr.fn, facts: st.facts, instr: in, depth: fr.depth})
			if e.quiet == 0 && !e.anyDry(fr) {
				e.out = append(e.out, &Outcome{st: st, panic: true})
			}
			return
		default:
			if v, ok := in.(ssa.Value); ok {
				fr.env[v] = e.ts.mk("other", fmt.Sprintf("%T%s%s", in, fr.id, v.Name()), v.Type())
			}
		}
	}
}

func (e *Engine) anyDry(fr *Frame) bool {
	for f := fr; f != nil; f = f.parent {
		for _, l := range f.loops {
			if l.dry {
				return true
			}
		}
	}
	return false
}

func (e *Engine) seq(st *State, k string) string {
	st.seq[k]++
	return fmt.Sprint(st.seq[k])
}

// atomOf normalises a boolean term to (atom, polarity).
func atomOf(t *Term) (*Term, bool) {
	pol := true
	for t.op == "not" {
		t = t.args[0]
		pol = !pol
	}
	return t, pol
}

// decide evaluates a boolean term under facts with a few sound implications.
func (e *Engine) decide(f *Fact, c *Term) (val, known bool) {
	if v, ok := c.constBool(); ok {
		return v, true
	}
	a, pol := atomOf(c)
	if p, ok := f.get(a); ok {
		return p == pol, true
	}
	if a.op == "eq" {
		// x == c2 is false when x == c1 holds
		x, y := a.args[0], a.args[1]
		if y.isConst() || y.isNil() {
			for g := f; g != nil; g = g.up {
				if g.pol && g.atom.op == "eq" && g.atom.args[0] == x && (g.atom.args[1].isConst() || g.atom.args[1].isNil()) && g.atom.args[1] != y {
					return !pol, true
				}
			}
		}
		// x == nil is false when a type assertion on x holds
		if y.isNil() {
			for g := f; g != nil; g = g.up {
				if g.pol && g.atom.op == "istype" && g.atom.args[0] == x {
					return !pol, true
				}
			}
		}
	}
	if a.op == "istype" {
		for g := f; g != nil; g = g.up {
			if g.pol && g.atom.op == "istype" && g.atom.args[0] == a.args[0] && g.atom.aux != a.aux && concreteT(g.atom.typ) && concreteT(a.typ) {
				return !pol, true
			}
			if g.pol && g.atom.op == "eq" && g.atom.args[0] == a.args[0] && g.atom.args[1].isNil() {
				return !pol, true
			}
		}
	}
	if a.op == "lt" {
		x, y := a.args[0], a.args[1]
		// x < y known false when y < x or x == y
		for g := f; g != nil; g = g.up {
			if g.pol && g.atom.op == "lt" && g.atom.args[0] == y && g.atom.args[1] == x {
				return !pol, true
			}
		}
		// an index that was used is not negative
		if cy, ok := y.constInt(); ok && cy <= 0 && x.op != "len" {
			for g := f; g != nil; g = g.up {
				if walkTerm(g.atom, func(t *Term) bool { return t.op == "idxaddr" && t.args[1] == x }) {
					return !pol, true
				}
			}
		}
		// const bounds on the same term: eq(x, c)
		if cy, ok := y.constInt(); ok {
			for g := f; g != nil; g = g.up {
				if g.pol && g.atom.op == "eq" && g.atom.args[0] == x {
					if cx, ok := g.atom.args[1].constInt(); ok {
						return (cx < cy) == pol, true
					}
				}
			}
		}
		if cx, ok := x.constInt(); ok {
			for g := f; g != nil; g = g.up {
				if g.pol && g.atom.op == "eq" && g.atom.args[0] == y {
					if cy, ok := g.atom.args[1].constInt(); ok {
						return (cx < cy) == pol, true
					}
				}
			}
		}
	}
	return false, false
}

func concreteT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, isI := t.Underlying().(*types.Interface)
	return !isI
}

func (e *Engine) branch(fr *Frame, st *State, c *Term, yes, no func(*Frame, *State)) {
	if v, ok := e.decide(st.facts, c); ok {
		if v {
			yes(fr, st)
		} else {
			no(fr, st)
		}
		return
	}
	a, pol := atomOf(c)
	e.nfork++
	f1, s1 := fr.clone(), st.clone()
	s1.facts = &Fact{a, pol, st.facts}
	yes(f1, s1)
	if e.over {
		return
	}
	f2, s2 := fr.clone(), st.clone()
	s2.facts = &Fact{a, !pol, st.facts}
	no(f2, s2)
}

func (e *Engine) conv(a *Term, from, to types.Type) *Term {
	if a.isConst() {
		fb, ok1 := from.Underlying().(*types.Basic)
		tb, ok2 := to.Underlying().(*types.Basic)
		if ok1 && ok2 {
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
				return e.ts.konst(a.cv, to)
			}
			if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
				if v, ok := a.constInt(); ok {
					return e.ts.strc(string(rune(v)))
				}
			}
			if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
				return a
			}
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return a
	}
	return e.ts.mk("conv", typeKey(to), to, a)
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func (e *Engine) index(m, ky *Term, t types.Type) *Term {
	if m.op == "vec" {
		if v, ok := ky.constInt(); ok && v >= 0 && int(v) < len(m.args) {
			return m.args[v]
		}
	}
	return e.ts.mk("index", "", t, m, ky)
}

func (e *Engine) fieldAddr(base *Term, bt types.Type, idx int, t types.Type) *Term {
	st := derefT(bt).Underlying().(*types.Struct)
	r := e.ts.mk("fieldaddr", st.Field(idx).Name(), t, base)
	r.fld = idx
	return r
}

func (e *Engine) fieldOf(v *Term, bt types.Type, idx int, t types.Type) *Term {
	if v.op == "struct" && idx < len(v.args) {
		return v.args[idx]
	}
	st := bt.Underlying().(*types.Struct)
	for v.op == "upd" {
		if v.aux == st.Field(idx).Name() {
			return v.args[1]
		}
		v = v.args[0]
	}
	if v.op == "zero" {
		return e.ts.zero(t)
	}
	return e.ts.mk("field", st.Field(idx).Name(), t, v)
}

// key of a memory location for versioning
func locKey(a *Term) string {
	switch a.op {
	case "fieldaddr":
		if n := namedOf(a.args[0].typ); n != nil {
			return n.Obj().Name() + "." + a.aux
		}
		return "." + a.aux
	case "global":
		i := strings.LastIndex(a.aux, ".")
		return "global." + a.aux[i+1:]
	case "idxaddr":
		return "#elem"
	}
	return "#cell"
}

func (e *Engine) load(st *State, a *Term, t types.Type) *Term {
	if sT, ok := t.Underlying().(*types.Struct); ok && decomposable(t) {
		if _, whole := st.heap[a.id]; !whole {
			args := make([]*Term, sT.NumFields())
			for i := range args {
				ft := sT.Field(i).Type()
				fa := e.ts.mk("fieldaddr", sT.Field(i).Name(), types.NewPointer(ft), a)
				fa.fld = i
				args[i] = e.load(st, fa, ft)
			}
			return e.ts.mk("struct", typeKey(t), t, args...)
		}
	}
	if v, ok := st.heap[a.id]; ok {
		return v
	}
	if a.op == "idxaddr" && a.args[0].op == "vec" {
		if i, ok := a.args[1].constInt(); ok && int(i) < len(a.args[0].args) && i >= 0 {
			return a.args[0].args[i]
		}
	}
	if a.op == "fieldaddr" {
		if whole, ok := st.heap[a.args[0].id]; ok {
			if bt := derefT(a.args[0].typ); bt != nil {
				if sT, ok := bt.Underlying().(*types.Struct); ok && !decomposable(bt) {
					for i := 0; i < sT.NumFields(); i++ {
						if sT.Field(i).Name() == a.aux {
							return e.fieldOf(whole, bt, i, t)
						}
					}
				}
			}
		}
	}
	r := rootOf(a)
	if r.op == "alloc" && !st.havoced[r.id] {
		return e.ts.zero(t)
	}
	ep := 0
	if r.op == "alloc" {
		ep = st.epoch["#havoc"] // conservative version for havoced locals
	}
	ep += st.epoch[locKey(a)] + st.epoch["*"]
	x := ""
	if ep > 0 {
		x = fmt.Sprint(ep)
	}
	v := e.ts.mk("load", x, t, a)
	st.heap[a.id] = v
	return v
}

func (e *Engine) store(fr *Frame, st *State, a, v *Term, t types.Type, in *ssa.Store) {
	var old *Term
	if _, isS := t.Underlying().(*types.Struct); !(isS && decomposable(t)) {
		old = e.peek(st, a, t)
	}
	st.events = append(st.events, &Event{kind: "store", addr: a, val: v, old: old, pos: in.Pos(), in: fr.fn, facts: st.facts, defrd: fr.defrd, instr: in, depth: fr.depth})
	if sT, ok := t.Underlying().(*types.Struct); ok && decomposable(t) && (v.op == "struct" || v.op == "zero") {
		// assigning a whole struct assigns each of its fields
		for i := 0; i < sT.NumFields(); i++ {
			ft := sT.Field(i).Type()
			fa := e.ts.mk("fieldaddr", sT.Field(i).Name(), types.NewPointer(ft), a)
			fa.fld = i
			st.events = append(st.events, &Event{kind: "store", addr: fa, val: e.fieldOf(v, t, i, ft), pos: in.Pos(), in: fr.fn, facts: st.facts, defrd: fr.defrd, instr: in, depth: fr.depth})
		}
	}
	e.write(st, a, v, t)
	if r := rootOf(a); r.op != "alloc" || st.escaped[r.id] {
		e.markEscaped(st, v)
	}
}

func (e *Engine) peek(st *State, a *Term, t types.Type) *Term {
	if v, ok := st.heap[a.id]; ok {
		return v
	}
	r := rootOf(a)
	if r.op == "alloc" && !st.havoced[r.id] {
		return e.ts.zero(t)
	}
	ep := st.epoch[locKey(a)] + st.epoch["*"]
	x := ""
	if ep > 0 {
		x = fmt.Sprint(ep)
	}
	return e.ts.mk("load", x, t, a)
}

func (e *Engine) write(st *State, a, v *Term, t types.Type) {
	if sT, ok := t.Underlying().(*types.Struct); ok && decomposable(t) {
		for i := 0; i < sT.NumFields(); i++ {
			ft := sT.Field(i).Type()
			fa := e.ts.mk("fieldaddr", sT.Field(i).Name(), types.NewPointer(ft), a)
			fa.fld = i
			e.write(st, fa, e.fieldOf(v, t, i, ft), ft)
		}
		return
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		for id := range st.heap {
			if b := e.ts.all[id]; b.op == "fieldaddr" && b.args[0] == a {
				delete(st.heap, id)
			}
		}
	}
	if a.op == "fieldaddr" {
		if whole, ok := st.heap[a.args[0].id]; ok {
			st.heap[a.args[0].id] = e.ts.mk("upd", a.aux, derefT(a.args[0].typ), whole, v)
		}
	}
	// weak update of possible aliases
	r := rootOf(a)
	lk := locKey(a)
	if r.op != "alloc" {
		for id := range st.heap {
			if id == a.id {
				continue
			}
			b := e.ts.all[id]
			if b.op != a.op || locKey(b) != lk {
				continue
			}
			if rootOf(b).op == "alloc" && !st.escaped[rootOf(b).id] {
				continue
			}
			if a.op == "fieldaddr" && b.op == "fieldaddr" && a.aux != b.aux {
				continue
			}
			if a.op == "global" {
				continue
			}
			delete(st.heap, id)
			if a.op == "fieldaddr" || a.op == "idxaddr" {
				st.epoch[lk]++
			}
		}
	} else if a.op == "idxaddr" {
		for id := range st.heap {
			b := e.ts.all[id]
			if id != a.id && b.op == "idxaddr" && b.args[0] == a.args[0] {
				if b.args[1].isConst() && a.args[1].isConst() {
					continue
				}
				delete(st.heap, id)
				st.havoced[r.id] = true
			}
		}
	}
	st.heap[a.id] = v
}

func (e *Engine) markEscaped(st *State, v *Term) {
	walkTerm(v, func(x *Term) bool {
		if x.op == "alloc" && st.allocs[x.id] && !st.escaped[x.id] {
			st.escaped[x.id] = true
			// objects referenced by its fields escape as well
			for id, val := range st.heap {
				if rootOf(e.ts.all[id]) == x {
					e.markEscaped(st, val)
				}
			}
		}
		return false
	})
}

func (e *Engine) slice(fr *Frame, st *State, x *ssa.Slice) *Term {
	a := e.val(fr, x.X)
	none := e.ts.mk("none", "", types.Typ[types.Int])
	lo, hi := none, none
	if x.Low != nil {
		lo = e.val(fr, x.Low)
		if v, ok := lo.constInt(); ok && v == 0 {
			lo = none
		}
	}
	if x.High != nil {
		hi = e.val(fr, x.High)
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if at, ok := pt.Elem().Underlying().(*types.Array); ok && a.op == "alloc" && lo.op == "none" && hi.op == "none" && at.Len() <= 64 {
			var el []*Term
			for i := int64(0); i < at.Len(); i++ {
				ia := e.ts.mk("idxaddr", "", types.NewPointer(at.Elem()), a, e.ts.intc(i))
				el = append(el, e.load(st, ia, at.Elem()))
			}
			return e.ts.mk("vec", a.aux, x.Type(), el...)
		}
	}
	if lo.op == "none" && hi.op == "none" {
		return a
	}
	// x[0:len(x)]
	if hi.op != "none" && hi == e.ts.length(a) {
		hi = none
	}
	if lo.op == "none" && hi.op == "none" {
		return a
	}
	return e.ts.mk("slice", "", x.Type(), a, lo, hi)
}

func (e *Engine) typeAssert(st *State, v *Term, x *ssa.TypeAssert) *Term {
	at := x.AssertedType
	mk := func(val, ok *Term) *Term {
		if x.CommaOk {
			return e.ts.mk("tuple", "", x.Type(), val, ok)
		}
		return val
	}
	if v.isNil() {
		return mk(e.ts.zero(at), e.ts.boolc(false))
	}
	if v.op == "iface" {
		dt := v.typ
		if ifc, ok := at.Underlying().(*types.Interface); ok {
			if types.Implements(dt, ifc) {
				return mk(v, e.ts.boolc(true))
			}
			return mk(e.ts.zero(at), e.ts.boolc(false))
		}
		if types.Identical(dt, at) {
			return mk(v.args[0], e.ts.boolc(true))
		}
		return mk(e.ts.zero(at), e.ts.boolc(false))
	}
	ok := e.ts.mk("istype", typeKey(at), at, v)
	if p, known := e.decide(st.facts, ok); known && !p {
		return mk(e.ts.zero(at), e.ts.boolc(false))
	}
	var val *Term
	if _, isI := at.Underlying().(*types.Interface); isI {
		val = v
	} else {
		// single implementation of a workspace interface: the value itself
		val = e.ts.mk("assert", typeKey(at), at, v)
		if n := namedOf(at); n != nil && (n == e.w.nodeT || n == e.w.trieT || types.Identical(n, e.w.nodeT) || types.Identical(n, e.w.trieT)) {
			val = v
		}
	}
	return mk(val, ok)
}

func (e *Engine) sel(fr *Frame, st *State, x *ssa.Select, b *ssa.BasicBlock, i int, k cont) {
	n := len(x.States)
	total := n
	if !x.Blocking {
		total++
	}
	for c := 0; c < total; c++ {
		f2, s2 := fr.clone(), st.clone()
		idx := int64(c)
		if c == n {
			idx = -1
		}
		vals := []*Term{e.ts.intc(idx)}
		sq := e.seq(s2, "select")
		var okT *Term = e.ts.mk("recvok", "sel"+sq, types.Typ[types.Bool])
		var recvs []*Term
		for j, s := range x.States {
			ch := e.val(f2, s.Chan)
			if s.Dir == types.RecvOnly {
				et := s.Chan.Type().Underlying().(*types.Chan).Elem()
				r := e.ts.mk("recv", "sel"+sq+"."+fmt.Sprint(j), et, ch)
				recvs = append(recvs, r)
			}
			if j == c {
				ev := &Event{kind: "recv", args: []*Term{ch}, pos: x.Pos(), in: fr.fn, facts: s2.facts, instr: x, name: "select", depth: fr.depth}
				if s.Dir == types.SendOnly {
					ev.kind = "send"
					ev.args = append(ev.args, e.val(f2, s.Send))
				} else {
					okT = e.ts.mk("recvok", "sel"+sq, types.Typ[types.Bool], ch)
				}
				s2.events = append(s2.events, ev)
			}
		}
		vals = append(vals, okT)
		vals = append(vals, recvs...)
		f2.env[x] = e.ts.mk("tuple", "", x.Type(), vals...)
		e.blockBody(f2, s2, b, i+1, k)
		if e.over {
			return
		}
	}
}

func (e *Engine) runDefers(fr *Frame, st *State, k cont) {
	if len(fr.defers) == 0 {
		k(fr, st, nil)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	e.call(fr, st, &d.in.Call, d.fn, d.args, d.in, true, func(fr *Frame, st *State, _ []*Term) {
		e.runDefers(fr, st, k)
	})
}

// callParts evaluates callee and arguments of a call.
func (e *Engine) callParts(fr *Frame, st *State, c *ssa.CallCommon) (fnT *Term, args []*Term, name string, f *ssa.Function) {
	if c.IsInvoke() {
		recv := e.val(fr, c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, e.val(fr, a))
		}
		fnT = recv
		name = "(" + typeName(c.Value.Type()) + ")." + c.Method.Name()
		f = e.resolveInvoke(recv, c)
		if f != nil && recv.op == "iface" {
			args[0] = recv.args[0]
		}
		return
	}
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	fnT = e.val(fr, c.Value)
	switch fnT.op {
	case "func":
		f = fnT.fn
		name = funcName(f)
	case "closure":
		f = fnT.fn
		name = funcName(f)
	case "builtin":
		name = "builtin." + fnT.aux
	default:
		name = "dynamic"
	}
	return
}

func typeName(t types.Type) string {
	if n := namedOf(t); n != nil {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func funcName(f *ssa.Function) string {
	s := f.String()
	return s
}

func (e *Engine) resolveInvoke(recv *Term, c *ssa.CallCommon) *ssa.Function {
	if recv.op == "iface" && recv.typ != nil {
		ms := e.w.prog.MethodSets.MethodSet(recv.typ)
		if sel := ms.Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
			return e.w.prog.MethodValue(sel)
		}
		return nil
	}
	im := e.w.implsOf(c.Value.Type(), c.Method)
	if len(im) == 1 {
		return im[0]
	}
	return nil
}

func (e *Engine) canInline(fr *Frame, f *ssa.Function) bool {
	if f == nil || f.Blocks == nil || !e.w.inWorkspace(f) {
		return false
	}
	if e.opaque != nil && e.opaque(f) {
		return false
	}
	for g := fr; g != nil; g = g.parent {
		if g.fn == f {
			return false
		}
	}
	if e.inline != nil && e.inline(f) {
		return true
	}
	if e.w.scc[f] || fr.depth >= e.maxDepth {
		return false
	}
	return true
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "errors": true, "unicode": true, "unicode/utf8": true, "path": true, "path/filepath": true, "math": true, "github.com/hedzr/evendeep": true, "gopkg.in/hedzr/errors.v3": true, "fmt": true}

func pureExt(f *ssa.Function) bool {
	p := pkgOf(f)
	if p == nil || !purePkgs[p.Path()] {
		return false
	}
	if p.Path() == "fmt" {
		return strings.HasPrefix(f.Name(), "Sprint") || f.Name() == "Errorf"
	}
	if p.Path() == "gopkg.in/hedzr/errors.v3" {
		return f.Name() == "Is" || f.Name() == "As"
	}
	if f.Signature.Recv() != nil {
		_, isPtr := f.Signature.Recv().Type().(*types.Pointer)
		return !isPtr
	}
	return true
}

func (e *Engine) call(fr *Frame, st *State, c *ssa.CallCommon, dfn *Term, dargs []*Term, in ssa.CallInstruction, deferred bool, k cont) {
	var fnT *Term
	var args []*Term
	var name string
	var f *ssa.Function
	if deferred {
		// callee and arguments were evaluated at the defer statement
		args = dargs
		fnT = dfn
		if c.IsInvoke() {
			name = "(" + typeName(c.Value.Type()) + ")." + c.Method.Name()
			f = e.resolveInvoke(dargs[0], c)
		} else {
			switch fnT.op {
			case "func", "closure":
				f = fnT.fn
				name = funcName(f)
			case "builtin":
				name = "builtin." + fnT.aux
			default:
				name = "dynamic"
			}
		}
	} else {
		fnT, args, name, f = e.callParts(fr, st, c)
	}
	if fnT != nil && fnT.op == "builtin" {
		e.builtin(fr, st, fnT.aux, args, in, deferred, k)
		return
	}
	if f != nil && e.canInline(fr, f) {
		var fv []*Term
		if fnT.op == "closure" && fnT.fn == f {
			fv = fnT.args
		}
		id := fr.id + "/" + callID(fr.fn, in)
		caller := fr
		e.nextDefrd = deferred
		e.enter(f, args, fv, fr, id, fr.depth+1, st, func(_ *Frame, st2 *State, rets []*Term) {
			k(caller.clone(), st2, rets)
		})
		return
	}
	// opaque
	ev := &Event{kind: "call", name: name, fn: f, args: args, val: fnT, pos: in.Pos(), in: fr.fn, facts: st.facts, defrd: deferred || fr.defrd, invk: c.IsInvoke(), instr: in, depth: fr.depth}
	ws := f != nil && e.w.inWorkspace(f)
	var res *types.Tuple = c.Signature().Results()
	var aux string
	if f != nil && pureExt(f) {
		aux = name
	} else if ws && !e.w.impure(f) {
		aux = name + "@" + e.readVersion(st)
	} else {
		aux = name + "#" + e.seq(st, name)
	}
	rets := make([]*Term, res.Len())
	base := e.ts.mk("call", aux, nil, args...)
	base.fn = f
	if res.Len() == 1 {
		base.typ = res.At(0).Type()
		rets[0] = base
	} else {
		for i := range rets {
			rets[i] = e.ts.mk("res", fmt.Sprint(i), res.At(i).Type(), base)
		}
	}
	ev.res = base
	st.events = append(st.events, ev)
	e.clobber(fr, st, f, ws, fnT, args, name, ev)
	k(fr, st, rets)
}

func (e *Engine) readVersion(st *State) string {
	var ks []string
	for k, v := range st.epoch {
		if v != 0 && !strings.HasPrefix(k, "#next") {
			ks = append(ks, fmt.Sprintf("%s%d", k, v))
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// impure: may write anything or call unknown code.
func (w *World) impure(f *ssa.Function) bool {
	m := w.mods[f]
	return m == nil || m.unknown || m.maps || m.elems || len(m.fields) > 0 || len(m.params) > 0
}

func callID(f *ssa.Function, in ssa.CallInstruction) string {
	b := in.Block()
	for i, x := range b.Instrs {
		if x == in.(ssa.Instruction) {
			return fmt.Sprintf("%d.%d", b.Index, i)
		}
	}
	return "?"
}

// clobber applies the memory effect of an opaque call.
func (e *Engine) clobber(fr *Frame, st *State, f *ssa.Function, ws bool, fnT *Term, args []*Term, name string, ev *Event) {
	tag := fmt.Sprintf("%s@%d", ev.name, len(st.events))
	ev.tag = tag
	all := append([]*Term{}, args...)
	if fnT != nil {
		all = append(all, fnT)
	}
	// closures handed over may run: cells they write become unknown
	for _, a := range all {
		walkTerm(a, func(x *Term) bool {
			if x.op == "closure" && x.fn != nil {
				for i := range e.closureWrites(x.fn) {
					if i < len(x.args) {
						e.havocCell(st, x.args[i], tag)
					}
				}
			}
			return false
		})
	}
	if ws || f == nil && (name == "dynamic" || ev.invk) {
		var m *modSum
		if ws {
			m = e.w.mods[f]
		} else if ev.invk {
			// unresolved interface: effects of every workspace implementation
			m = &modSum{fields: map[string]bool{}}
			if ci, ok := ev.instr.(ssa.CallInstruction); ok {
				for _, g := range e.w.callees(ci) {
					m.join(e.w.mods[g])
				}
			}
			m.unknown = false
		}
		if m == nil {
			m = &modSum{unknown: true, fields: map[string]bool{}}
		}
		if len(m.params) > 0 && !m.unknown {
			m2 := &modSum{fields: map[string]bool{}, params: map[int]bool{}}
			m2.join(m)
			for i := range m.params {
				if i >= len(args) {
					continue
				}
				switch a := strip(args[i]); a.op {
				case "nil":
				case "closure", "func":
					if x := e.w.mods[a.fn]; x != nil {
						m2.join(x)
					} else {
						m2.unknown = true
					}
				default:
					m2.unknown = true
				}
			}
			m = m2
		}
		for _, a := range args {
			s := strip(a)
			if s.op == "alloc" {
				if _, isStruct := derefT(s.typ).Underlying().(*types.Struct); !isStruct {
					e.havocCell(st, s, tag)
				}
				e.markEscaped(st, s)
			}
		}
		for id := range st.heap {
			b := e.ts.all[id]
			r := rootOf(b)
			if r.op == "alloc" && !st.escaped[r.id] {
				continue
			}
			lk := locKey(b)
			if m.unknown && (r.op != "alloc" || b.op == "fieldaddr") || m.fields[lk] || (lk == "#elem" && m.elems) {
				delete(st.heap, id)
				if r.op == "alloc" {
					st.havoced[r.id] = true
				}
			}
		}
		if m.unknown {
			for id := range st.escaped {
				if a := e.ts.all[id]; a.op == "alloc" {
					if _, isStruct := derefT(a.typ).Underlying().(*types.Struct); isStruct {
						st.havoced[id] = true
					}
				}
			}
			st.epoch["*"]++
			st.epoch["#map"]++
		} else {
			for k := range m.fields {
				st.epoch[k]++
			}
			if m.maps {
				st.epoch["#map"]++
			}
			if m.elems {
				st.epoch["#elem"]++
			}
		}
		return
	}
	// external: writes only through addresses it is handed directly
	for _, a := range args {
		s := a
		boxed := false
		for s.op == "iface" {
			s = s.args[0]
			boxed = true
		}
		switch s.op {
		case "alloc", "fieldaddr", "global":
			pt, ok := s.typ.Underlying().(*types.Pointer)
			if !ok {
				continue
			}
			if n := namedOf(pt.Elem()); boxed && n != nil && n.Obj().Pkg() != nil && isWs(n.Obj().Pkg().Path()) {
				continue
			}
			if strings.HasPrefix(name, "sync/atomic.Load") {
				continue
			}
			e.havocCell(st, s, tag)
		case "vec":
			for _, x := range s.args {
				y := strip(x)
				if (y.op == "alloc" || y.op == "fieldaddr") && x.op == "iface" {
					if n := namedOf(y.typ); n != nil && n.Obj().Pkg() != nil && isWs(n.Obj().Pkg().Path()) {
						continue
					}
					e.havocCell(st, y, tag)
				}
			}
		}
	}
}

func (e *Engine) havocCell(st *State, a *Term, tag string) {
	pt, ok := a.typ.Underlying().(*types.Pointer)
	if !ok {
		return
	}
	if sT, ok := pt.Elem().Underlying().(*types.Struct); ok && decomposable(pt.Elem()) {
		for i := 0; i < sT.NumFields(); i++ {
			fa := e.ts.mk("fieldaddr", sT.Field(i).Name(), types.NewPointer(sT.Field(i).Type()), a)
			fa.fld = i
			st.heap[fa.id] = e.ts.mk("out", tag, sT.Field(i).Type(), fa)
		}
		return
	}
	st.heap[a.id] = e.ts.mk("out", tag, pt.Elem(), a)
}

// closureWrites: indexes of free variables a closure may write.
func (e *Engine) closureWrites(f *ssa.Function) map[int]bool {
	if r, ok := e.cw[f]; ok {
		return r
	}
	r := map[int]bool{}
	e.cw[f] = r
	idx := map[ssa.Value]int{}
	for i, v := range f.FreeVars {
		idx[v] = i
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				a := x.Addr
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
						continue
					}
					if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
						continue
					}
					break
				}
				if i, ok := idx[a]; ok {
					r[i] = true
				}
			case *ssa.MakeClosure:
				sub := e.closureWrites(x.Fn.(*ssa.Function))
				for j, bv := range x.Bindings {
					if i, ok := idx[bv]; ok && sub[j] {
						r[i] = true
					}
				}
			case ssa.CallInstruction:
				for _, a := range x.Common().Args {
					if i, ok := idx[a]; ok {
						if _, isPP := a.Type().Underlying().(*types.Pointer); isPP {
							r[i] = true
						}
					}
				}
			}
		}
	}
	return r
}

func (e *Engine) builtin(fr *Frame, st *State, name string, args []*Term, in ssa.CallInstruction, deferred bool, k cont) {
	one := func(t *Term) { k(fr, st, []*Term{t}) }
	var rt types.Type
	if v, ok := in.(ssa.Value); ok {
		rt = v.Type()
	}
	switch name {
	case "len":
		one(e.ts.length(args[0]))
	case "cap":
		one(e.ts.mk("cap", "", rt, args[0]))
	case "append":
		x := args[0]
		var extra []*Term
		if len(args) > 1 {
			y := args[1]
			if y.op == "vec" {
				extra = y.args
			} else {
				extra = []*Term{e.ts.mk("spread", "", y.typ, y)}
			}
		}
		st.events = append(st.events, &Event{kind: "append", addr: x, args: extra, pos: in.Pos(), in: fr.fn, facts: st.facts, instr: in, depth: fr.depth})
		one(e.ts.mk("append", "", rt, append([]*Term{x}, extra...)...))
	case "min", "max":
		one(e.ts.mk(name, "", rt, args...))
	case "delete", "clear":
		st.events = append(st.events, &Event{kind: "delete", addr: args[0], args: args, name: name, pos: in.Pos(), in: fr.fn, facts: st.facts, instr: in, depth: fr.depth})
		st.epoch["#map"]++
		k(fr, st, nil)
	case "copy":
		st.events = append(st.events, &Event{kind: "copy", addr: args[0], args: args, name: name, pos: in.Pos(), in: fr.fn, facts: st.facts, instr: in, depth: fr.depth})
		st.epoch["#elem"]++
		for id := range st.heap {
			if e.ts.all[id].op == "idxaddr" {
				delete(st.heap, id)
			}
		}
		one(e.ts.mk("copyn", "", rt, args...))
	case "close":
		st.events = append(st.events, &Event{kind: "close", args: args, pos: in.Pos(), in: fr.fn, facts: st.facts, instr: in, depth: fr.depth})
		k(fr, st, nil)
	case "ssa:wrapnilchk":
		one(args[0])
	case "recover":
		one(e.ts.mk("recover", e.seq(st, "recover"), rt))
	case "print", "println":
		st.events = append(st.events, &Event{kind: "call", name: "builtin." + name, args: args, pos: in.Pos(), in: fr.fn, facts: st.facts, instr: in, depth: fr.depth})
		k(fr, st, nil)
	default:
		one(e.ts.mk("builtin."+name, "", rt, args...))
	}
}
