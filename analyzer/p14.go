package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P14: joining path pieces, views on one tree, pooled objects.

func init() { register("P14", p14) }

func p14(c *Ctx) {
	w := c.w
	c.rule("join-pieces", "joining yields every non-empty piece, unchanged, in order, with exactly one delimiter of the tree between neighbours and none at the ends")
	c.rule("pool-clean", "a pooled object is handed out clean - emptied after it is taken, or before it is given back, on every path - and not used after it was given back")
	c.rule("view-shares", "a view has the very root, delimiter and settings of what it was made from, and only the prefix or the mode it is named for differs")
	n := 0
	for _, t := range []*types.Named{w.trieT, w.storeT} {
		for _, f := range w.ownMethods(t) {
			if declared(f) && w.joinLike(f) {
				n++
				c.joinFn(f)
			}
		}
	}
	if n == 0 {
		c.und("join-pieces", "tree", "no function that joins path pieces recognised")
	}
	c.views()
	c.pools()
}

func (w *World) isDelimT(t *Term) bool {
	tr := w.trieRoles()
	for t.op == "conv" || t.op == "chtype" {
		t = t.args[0]
	}
	if _, f, ok := fieldLoad(t); ok && f == tr.delim {
		return true
	}
	return t.op == "call" && t.fn != nil && t.fn.Name() == "Delimiter"
}

type joiner struct {
	c    *Ctx
	e    *Engine
	f    *ssa.Function
	name string
	s    *Term
	pres []*Term
	a    *Term // the variadic pieces
	o    *Outcome
}

func (c *Ctx) joinFn(f *ssa.Function) {
	w := c.w
	c.saw(f)
	name := w.fname(f)
	e := newEngine(w)
	e.opaque = func(g *ssa.Function) bool { return g != f && w.joinLike(g) }
	outs := e.Analyze(f)
	if e.over {
		c.und("join-pieces", name, "analysis gave up")
		return
	}
	par := func(i int) *Term { return e.ts.mk("param", pname(f.Params[i], i), f.Params[i].Type()) }
	j := &joiner{c: c, e: e, f: f, name: name, s: par(0)}
	for i := 1; i < len(f.Params)-1; i++ {
		j.pres = append(j.pres, par(i))
	}
	j.a = par(len(f.Params) - 1)
	for _, o := range outs {
		if o.panic {
			continue
		}
		j.o = o
		j.path()
	}
}

func (j *joiner) elem(i int64) *Term {
	return j.e.ts.mk("idxaddr", "", nil, j.a, j.e.ts.intc(i))
}

// elemIdx: t is element i of the pieces.
func (j *joiner) elemIdx(t *Term) (idx *Term, ok bool) {
	if t.op == "load" && t.args[0].op == "idxaddr" && t.args[0].args[0] == j.a {
		return t.args[0].args[1], true
	}
	return nil, false
}

// empty: +1 the piece is known to be empty, -1 known not to be.
func (j *joiner) empty(facts *Fact, t *Term) int {
	if s, ok := t.constStr(); ok {
		if s == "" {
			return 1
		}
		return -1
	}
	e := j.e
	nt := e.ts.noEpoch(t)
	for f := facts; f != nil; f = f.up {
		a := f.atom
		var x *Term
		pol := f.pol
		switch {
		case a.op == "eq" && isZeroTerm(a.args[1]):
			x = a.args[0]
		case a.op == "eq" && isZeroTerm(a.args[0]):
			x = a.args[1]
		case a.op == "lt" && isZeroTerm(a.args[0]):
			x, pol = a.args[1], !f.pol
		}
		if x == nil {
			continue
		}
		if x.op == "len" {
			x = x.args[0]
		}
		if e.ts.noEpoch(x) == nt {
			if pol {
				return 1
			}
			return -1
		}
	}
	return 0
}

// count: the number of pieces, when known exactly.
func (j *joiner) count(facts *Fact) (int64, bool) {
	n := j.e.ts.length(j.a)
	for k := int64(0); k < 6; k++ {
		if v, ok := j.e.decide(facts, j.e.ts.eq(n, j.e.ts.intc(k))); ok && v {
			return k, true
		}
	}
	return 0, false
}

// restEmpty: the pieces from index k on are known to be empty or absent.
func (j *joiner) restEmpty(k int64) bool {
	n, ok := j.count(j.o.st.facts)
	if !ok {
		if k == 0 {
			return j.empty(j.o.st.facts, j.a) == 1
		}
		return false
	}
	for i := k; i < n; i++ {
		found := false
		for f := j.o.st.facts; f != nil; f = f.up {
			walkTerm(f.atom, func(x *Term) bool {
				if idx, ok := j.elemIdx(x); ok {
					if v, ok := idx.constInt(); ok && v == i && j.empty(j.o.st.facts, x) == 1 {
						found = true
					}
				}
				return false
			})
		}
		if !found {
			return false
		}
	}
	return true
}

func (j *joiner) path() {
	c, e := j.c, j.e
	ret := strip(j.o.rets[0])
	facts := j.o.st.facts
	bad := func(f string, a ...any) { c.bad("join-pieces", j.name, j.f.Pos(), f, a...) }
	presEmpty := func(but *Term) bool {
		for _, p := range j.pres {
			if p != but && j.empty(facts, p) != 1 {
				return false
			}
		}
		return true
	}
	if s, ok := ret.constStr(); ok {
		switch {
		case s != "":
			bad("the result is the constant %q", s)
		case !presEmpty(nil) || !j.restEmpty(0):
			bad("the result is empty although there are pieces")
		default:
			c.ok("join-pieces")
		}
		return
	}
	for _, p := range j.pres {
		if ret == p {
			if !presEmpty(p) || !j.restEmpty(0) {
				bad("only %s is returned although there are further pieces", brief(p))
			} else {
				c.ok("join-pieces")
			}
			return
		}
	}
	if idx, ok := j.elemIdx(ret); ok {
		k, isK := idx.constInt()
		if !isK {
			c.und("join-pieces", j.name, "returns %s", brief(ret))
			return
		}
		lead := presEmpty(nil)
		for i := int64(0); i < k; i++ {
			lead = lead && j.knownEmptyElem(i)
		}
		if !lead || !j.restEmpty(k+1) {
			bad("only one piece is returned although there may be others")
		} else {
			c.ok("join-pieces")
		}
		return
	}
	if ret.op == "call" && ret.fn != nil && c.w.joinLike(ret.fn) {
		j.handedOn(ret)
		return
	}
	if ret.op == "call" && strings.HasSuffix(ret.aux, "strings.Join") || ret.op == "call" && ret.fn != nil && ret.fn.Name() == "Join" && pkgOf(ret.fn) != nil && pkgOf(ret.fn).Path() == "strings" {
		if ret.args[0] == j.a {
			bad("the pieces are joined without leaving out the empty ones")
			return
		}
		if !c.w.isDelimT(ret.args[1]) {
			if ret.args[1].isConst() {
				bad("the pieces are joined with %s instead of the tree's delimiter", brief(ret.args[1]))
				return
			}
		}
		c.und("join-pieces", j.name, "returns %s", brief(ret))
		return
	}
	b := ret
	for b.op == "conv" {
		b = b.args[0]
	}
	if b.op == "call" && len(b.args) == 1 && (strings.Contains(b.aux, "Buffer).String") || strings.Contains(b.aux, "Builder).String") || strings.Contains(b.aux, "Buffer).Bytes")) {
		j.written(b.args[0])
		return
	}
	{
		// the memory of a buffer that has been given back
		var back *Term
		allEvents(j.o.st.events, func(ev *Event, _ *LoopEv) {
			if isCall(ev, "Pool).Put") && len(ev.args) > 1 {
				back = unwrapPayload(ev.args[1])
			}
		})
		pooled := back != nil && walkTerm(b, func(x *Term) bool { return x == back }) && walkTerm(b, func(x *Term) bool { return x.op == "builtin.String" })
		if pooled && !walkTerm(b, func(x *Term) bool { return strings.Contains(x.aux, ").String") || strings.Contains(x.aux, "Clone") }) {
			bad("the result refers to the memory of a buffer that is given back to its pool")
			return
		}
	}
	_ = e
	c.und("join-pieces", j.name, "returns %s", brief(ret))
}

func (j *joiner) knownEmptyElem(i int64) bool {
	hit := false
	for f := j.o.st.facts; f != nil; f = f.up {
		walkTerm(f.atom, func(x *Term) bool {
			if idx, ok := j.elemIdx(x); ok {
				if v, ok := idx.constInt(); ok && v == i && j.empty(j.o.st.facts, x) == 1 {
					hit = true
				}
			}
			return false
		})
	}
	return hit
}

func (j *joiner) knownNonEmptyElem(facts *Fact, i int64) bool {
	hit := false
	for f := facts; f != nil; f = f.up {
		walkTerm(f.atom, func(x *Term) bool {
			if idx, ok := j.elemIdx(x); ok {
				if v, ok := idx.constInt(); ok && v == i && j.empty(facts, x) == -1 {
					hit = true
				}
			}
			return false
		})
	}
	return hit
}

// handedOn: the pieces are given to another join.
func (j *joiner) handedOn(t *Term) {
	c := j.c
	facts := j.o.st.facts
	bad := func(f string, a ...any) { c.bad("join-pieces", j.name, j.f.Pos(), f, a...) }
	if t.args[0] != j.s && !walkTerm(t.args[0], func(x *Term) bool { return x == j.s }) {
		bad("the pieces are joined by another tree")
		return
	}
	want := append([]*Term{}, j.pres...)
	from := int64(0) // the rest of want: a[from:]
	var got []*Term
	gotFrom := int64(-1)
	args := t.args[1:]
	for i, x := range args {
		if i < len(args)-1 {
			got = append(got, x)
			continue
		}
		add := func(x *Term) bool {
			switch {
			case x == j.a:
				gotFrom = 0
			case x.op == "slice" && x.args[0] == j.a:
				k, ok := x.args[1].constInt()
				if x.args[1].op == "none" {
					k, ok = 0, true
				}
				if !ok || x.args[2].op != "none" {
					if ok && x.args[2].op != "none" {
						return false
					}
					return false
				}
				gotFrom = k
			case x.op == "vec":
				got = append(got, x.args...)
			case isNilT(x):
			default:
				return false
			}
			return true
		}
		ok := true
		if x.op == "append" {
			for _, y := range x.args {
				if y.op == "spread" {
					y = y.args[0]
				}
				if gotFrom >= 0 {
					ok = false
				}
				if _, sl := y.typ.Underlying().(*types.Slice); sl || y.op == "vec" {
					ok = ok && add(y)
				} else {
					got = append(got, y)
				}
			}
		} else {
			ok = add(x)
		}
		if !ok {
			if x.op == "slice" && x.args[0] == j.a && x.args[2].op != "none" {
				bad("only a part of the pieces is joined")
				return
			}
			c.und("join-pieces", j.name, "hands on %s", brief(x))
			return
		}
	}
	// walk both
	gi := 0
	skip := func(x *Term, what string) bool {
		if j.empty(facts, x) == 1 {
			return true
		}
		bad("%s is left out although it is not known to be empty", what)
		return false
	}
	for _, p := range want {
		if gi < len(got) && got[gi] == p {
			gi++
			continue
		}
		if !skip(p, brief(p)) {
			return
		}
	}
	for gi < len(got) {
		idx, ok := j.elemIdx(got[gi])
		if !ok {
			bad("%s is joined in addition to the pieces", brief(got[gi]))
			return
		}
		k, isK := idx.constInt()
		if !isK {
			c.und("join-pieces", j.name, "hands on %s", brief(got[gi]))
			return
		}
		for from < k {
			if !j.knownEmptyElem(from) {
				bad("a piece is left out although it is not known to be empty")
				return
			}
			from++
		}
		if k < from {
			bad("a piece is joined twice or out of order")
			return
		}
		from = k + 1
		gi++
	}
	if gotFrom < 0 {
		if !j.restEmpty(from) {
			bad("not all pieces are handed on")
			return
		}
		c.ok("join-pieces")
		return
	}
	for from < gotFrom {
		if !j.knownEmptyElem(from) {
			bad("a piece is left out although it is not known to be empty")
			return
		}
		from++
	}
	if gotFrom < from {
		bad("a piece is joined twice")
		return
	}
	c.ok("join-pieces")
}

// bufOp: what a call does to buffer b: "w" writes its term, "r" empties it,
// "q" merely asks, "?" anything else; "" does not concern it.
func bufOp(ev *Event, b *Term) (op string, x *Term) {
	if ev.kind != "call" || len(ev.args) == 0 {
		return "", nil
	}
	if unwrapPayload(ev.args[0]) != b {
		for _, a := range ev.args {
			if unwrapPayload(a) == b || a.op == "vec" && mentionsT(a, b) && strings.HasPrefix(ev.name, "fmt.") {
				if strings.Contains(ev.name, "Pool).Put") {
					return "p", nil
				}
				return "?", nil
			}
		}
		return "", nil
	}
	nm := ev.name[strings.LastIndex(ev.name, ".")+1:]
	switch nm {
	case "WriteString", "WriteRune", "WriteByte", "Write":
		return "w", ev.args[1]
	case "Reset":
		return "r", nil
	case "Len", "Cap", "String", "Bytes", "Grow", "Available", "AvailableBuffer":
		return "q", nil
	case "Truncate":
		if k, ok := ev.args[1].constInt(); ok && k == 0 {
			return "r", nil
		}
	}
	return "?", nil
}

func (j *joiner) written(b *Term) {
	c, e := j.c, j.e
	bad := func(f string, a ...any) { c.bad("join-pieces", j.name, j.f.Pos(), f, a...) }
	some := 0 // +1 something is written, -1 nothing yet
	some = -1
	pi := 0 // next of pres
	next := int64(0)
	looped := false
	pend := false // a delimiter waits for its piece
	for _, ev := range j.o.st.events {
		if ev.kind == "loop" {
			mentions := false
			for _, bd := range ev.loop.bodies {
				for _, x := range bd.events {
					if op, _ := bufOp(x, b); op != "" && op != "q" {
						mentions = true
					}
					if x.kind == "loop" {
						mentions = true
					}
				}
			}
			if !mentions {
				continue
			}
			if looped {
				c.und("join-pieces", j.name, "several loops")
				return
			}
			looped = true
			for pi < len(j.pres) {
				if j.empty(j.o.st.facts, j.pres[pi]) != 1 {
					bad("%s is left out although it is not known to be empty", brief(j.pres[pi]))
					return
				}
				pi++
			}
			if !j.loop(ev.loop, b, some, next, pend) {
				return
			}
			pend = false
			continue
		}
		op, x := bufOp(ev, b)
		switch op {
		case "", "q", "p":
			continue
		case "r":
			if strings.Contains(ev.name, "Reset") && some == -1 && !looped {
				continue
			}
			// after the result was taken?
			continue
		case "?":
			c.und("join-pieces", j.name, "the buffer is used in %s", ev.name)
			return
		}
		if c.w.isDelimT(x) {
			if strings.HasSuffix(ev.name, "WriteByte") {
				bad("the delimiter is written as one byte")
				return
			}
			if some == -1 || pend {
				bad("a delimiter is written before the first piece, or twice")
				return
			}
			pend = true
			continue
		}
		y := x
		for y.op == "conv" {
			y = y.args[0]
		}
		if looped {
			bad("%s is written after the pieces", brief(x))
			return
		}
		piece := false
		for pi < len(j.pres) {
			p := j.pres[pi]
			pi++
			if p == y {
				piece = true
				break
			}
			if j.empty(j.o.st.facts, p) != 1 {
				bad("%s is left out although it is not known to be empty", brief(p))
				return
			}
		}
		if !piece {
			if idx, ok := j.elemIdx(y); ok {
				if k, ok := idx.constInt(); ok && k == next {
					next++
					piece = true
				}
			}
		}
		if !piece {
			if x.isConst() || y.op == "param" {
				bad("%s is written, which is not the next piece", brief(x))
			} else {
				c.und("join-pieces", j.name, "writes %s", brief(x))
			}
			return
		}
		em := j.empty(j.o.st.facts, y)
		if some == 1 && !pend {
			if em != 1 {
				bad("no delimiter is written before %s", brief(y))
				return
			}
		}
		if pend && em != -1 {
			bad("a delimiter is written although the piece after it may be empty")
			return
		}
		pend = false
		if em == -1 {
			some = 1
		} else if em == 0 && some == -1 {
			some = 0
		}
	}
	if !looped && !j.restEmpty(next) {
		bad("not all pieces are written")
		return
	}
	if pend {
		bad("a delimiter is written after the last piece")
		return
	}
	_ = e
	c.ok("join-pieces")
}

// loop: the pieces from index next on are written in a loop.
func (j *joiner) loop(l *LoopEv, b *Term, some int, next int64, pend bool) bool {
	c, e := j.c, j.e
	bad := func(f string, a ...any) bool { c.bad("join-pieces", j.name, j.f.Pos(), f, a...); return false }
	und := func(f string, a ...any) bool { c.und("join-pieces", j.name, f, a...); return false }
	cv := e.loopCover(l)
	if !cv.known {
		return und("loop over the pieces not recognised")
	}
	if cv.down {
		return bad("the pieces are joined last first")
	}
	base, off := cv.slice, int64(0)
	if base.op == "slice" && base.args[0] == j.a && base.args[2].op == "none" {
		if k, ok := base.args[1].constInt(); ok {
			off, base = k, j.a
		}
	}
	if base != j.a {
		if cv.slice.op == "slice" && cv.slice.args[0] == j.a {
			return bad("only a part of the pieces is joined")
		}
		return und("the loop runs over %s", brief(cv.slice))
	}
	for off > next {
		if !j.knownEmptyElem(next) {
			return bad("a piece is left out although it is not known to be empty")
		}
		next++
	}
	if off < next {
		return bad("a piece is joined twice")
	}
	if !cv.full {
		return bad("the loop over the pieces %s", cv.why)
	}
	if len(cv.at) == 0 {
		return und("pieces not recognised")
	}
	at := cv.at[0]
	isElem := func(t *Term) bool {
		for t.op == "conv" {
			t = t.args[0]
		}
		return t.op == "load" && t.args[0] == at
	}
	if pend {
		return und("a delimiter is written before the loop")
	}
	wrote := make([]bool, len(l.bodies))
	type test struct {
		v   *Term
		set bool // on this path it says that something was written
		n   int
	}
	var tests []test
	for i := range l.bodies {
		bd := &l.bodies[i]
		var el *Term
		emp := 0
		for f := bd.facts; f != nil && f != l.entry; f = f.up {
			walkTerm(f.atom, func(x *Term) bool {
				if x.op == "load" && x.args[0] == at {
					el = x
				}
				return false
			})
		}
		if el != nil {
			emp = j.empty(bd.facts, el)
		}
		nd, ne := 0, 0
		for _, ev := range bd.events {
			if ev.kind == "loop" {
				return und("an inner loop")
			}
			op, x := bufOp(ev, b)
			switch op {
			case "w":
				switch {
				case c.w.isDelimT(x):
					if strings.HasSuffix(ev.name, "WriteByte") {
						return bad("the delimiter is written as one byte")
					}
					if ne > 0 {
						return bad("a delimiter is written after a piece")
					}
					nd++
				case isElem(x):
					ne++
				default:
					if x.isConst() || mentionsT(x, b) {
						return bad("%s is written instead of a piece or the tree's delimiter", brief(x))
					}
					if x.op == "call" && len(x.args) > 0 && walkTerm(x, isElem) || x.op == "slice" {
						return bad("a piece is written as %s", brief(x))
					}
					return und("writes %s", brief(x))
				}
			case "", "q":
			default:
				return und("the buffer is used in %s", ev.name)
			}
		}
		if ne > 1 {
			return bad("a piece is written %d times", ne)
		}
		if nd > 1 {
			return bad("%d delimiters are written before a piece", nd)
		}
		wrote[i] = ne == 1
		if ne == 0 {
			if nd > 0 {
				return bad("a delimiter is written without a piece")
			}
			if emp != 1 {
				return bad("a piece may be left out although it is not empty")
			}
			continue
		}
		if emp == 0 {
			return bad("empty pieces are not left out")
		}
		if emp == 1 {
			continue
		}
		// is the delimiter in order?
		if some == 1 {
			if nd != 1 {
				return bad("no delimiter is written before a piece although one was written before it")
			}
			continue
		}
		known := false
		for f := bd.facts; f != nil && f != l.entry; f = f.up {
			a := f.atom
			pol := f.pol
			// written: v > 0, v != 0, v >= 1
			var v *Term
			switch {
			case a.op == "lt" && isZeroTerm(a.args[0]):
				v = a.args[1]
			case a.op == "eq" && isZeroTerm(a.args[1]) && !isStrT(a.args[0].typ):
				v, pol = a.args[0], !pol
			case a.op == "lt":
				if k, ok := a.args[1].constInt(); ok && k == 1 {
					v, pol = a.args[0], !pol
				}
			case a.op == "loopvar":
				v = a
			}
			if v == nil {
				continue
			}
			if v.op == "len" {
				if !(isElem(v.args[0])) {
					continue
				}
				continue
			}
			switch {
			case v.op == "call" && len(v.args) > 0 && unwrapPayload(v.args[0]) == b && strings.Contains(v.aux, ").Len"):
				known = true
				if pol != (nd == 1) {
					return bad("the delimiter is written exactly when nothing was written before")
				}
			case e.ts.noEpoch(v) == e.ts.noEpoch(at.args[1]):
				// the index of the piece
				if some == 0 || !j.knownNonEmptyElem(l.entry, 0) || off > 0 {
					return bad("whether a delimiter is due is decided by a piece's index, although pieces before it may be empty")
				}
				known = true
				if pol != (nd == 1) {
					return bad("the delimiter is written exactly before the first piece")
				}
			case v.op == "loopvar":
				known = true
				tests = append(tests, test{v, pol == (nd == 1), i})
			}
		}
		if !known {
			if nd == 0 {
				return bad("no delimiter is written between pieces")
			}
			if some == -1 {
				return bad("a delimiter is written before the first piece")
			}
			return und("when a delimiter is due is not recognised")
		}
	}
	// the counters or flags that say whether something was written
	for _, t := range tests {
		if !j.marker(l, t.v, t.set, some, wrote) {
			return false
		}
	}
	c.ok("join-pieces")
	return true
}

// marker: loop value v is zero (false) exactly as long as nothing was written
// (or the other way round, when pos is unset).
func (j *joiner) marker(l *LoopEv, v *Term, pos bool, some int, wrote []bool) bool {
	c, e := j.c, j.e
	bad := func(f string, a ...any) bool { c.bad("join-pieces", j.name, j.f.Pos(), f, a...); return false }
	und := func(f string, a ...any) bool { c.und("join-pieces", j.name, f, a...); return false }
	isBool := false
	if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		isBool = true
	}
	if !isBool && !pos {
		return bad("the delimiter is written exactly when nothing was written before")
	}
	start := l.start[v.id]
	if start == nil {
		return und("what tells whether a delimiter is due starts unknown")
	}
	// truth value of "something written" in x; nil when not decided
	says := func(x *Term) (bool, bool) {
		if isBool {
			if b, ok := x.constBool(); ok {
				return b == pos, true
			}
			return false, false
		}
		if k, ok := x.constInt(); ok {
			return k > 0, true
		}
		d := e.ts.linAdd(x, v, -1, v.typ)
		if k, ok := d.constInt(); ok && k > 0 {
			return true, true
		}
		return false, false
	}
	if s, ok := says(start); !ok {
		return und("what tells whether a delimiter is due starts as %s", brief(start))
	} else if s != (some == 1) {
		return bad("what tells whether a delimiter is due starts wrong")
	}
	for i := range l.bodies {
		nx := l.bodies[i].next[v.id]
		if nx == nil {
			return und("what tells whether a delimiter is due is not followed")
		}
		s, ok := says(nx)
		if wrote[i] {
			if ok && s {
				continue
			}
			// unchanged, where it is known to be set already
			if nx == v {
				already := false
				for f := l.bodies[i].facts; f != nil && f != l.entry; f = f.up {
					if isBool && f.atom == v && f.pol == pos || f.atom.op == "lt" && isZeroTerm(f.atom.args[0]) && f.atom.args[1] == v && f.pol {
						already = true
					}
				}
				if already {
					continue
				}
				return bad("a piece is written without noting that the next one needs a delimiter")
			}
			if ok && !s {
				return bad("a piece is written without noting that the next one needs a delimiter")
			}
			return und("what tells whether a delimiter is due becomes %s", brief(nx))
		}
		if nx == v {
			continue
		}
		if ok && s || isBool && ok {
			return bad("an empty piece counts as written")
		}
		return und("what tells whether a delimiter is due becomes %s", brief(nx))
	}
	return true
}

// views: functions that make a view.
func (c *Ctx) views() {
	w := c.w
	tr := w.trieRoles()
	emb := w.storeTrie()
	modes := map[string]string{"N": "RecusiveNone", "R": "RecusiveDown", "BR": "RecusiveUp"}
	n := 0
	for _, nt := range []*types.Named{w.trieT, w.storeT} {
		for _, nm := range []string{"WithPrefix", "WithPrefixReplaced", "N", "R", "BR"} {
			f := w.method(nt, nm)
			if f == nil || !declared(f) {
				continue
			}
			n++
			c.saw(f)
			name := w.fname(f)
			e := w.viewEngine()
			outs := e.Analyze(f)
			if e.over {
				c.und("view-shares", name, "analysis gave up")
				continue
			}
			p0 := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
			for _, o := range outs {
				if o.panic || len(o.rets) == 0 {
					continue
				}
				base := p0
				r := strip(o.rets[0])
				if isNilT(r) {
					c.bad("view-shares", name, f.Pos(), "no view is returned on some path")
					continue
				}
				if nt == w.storeT {
					base = e.ts.noEpoch(e.finalField(&Outcome{st: e.newState()}, p0, w.storeT, emb))
					if isAllocOf(r, w.storeT) {
						st := structOf(w.storeT)
						for i := 0; i < st.NumFields(); i++ {
							fl := st.Field(i)
							if b, ok := fl.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
								continue
							}
							v := e.finalField(o, r, w.storeT, fl.Name())
							if e.isLoadOf(v, p0, fl.Name()) {
								c.ok("view-shares")
							} else if v.op == "call" || v.op == "loopvar" {
								c.und("view-shares", name, "%s is %s", fl.Name(), brief(v))
							} else {
								c.bad("view-shares", name, f.Pos(), "the view's setting %s is %s, not that of the store", fl.Name(), brief(v))
							}
						}
						r = strip(e.finalField(o, r, w.storeT, emb))
					} else if r != p0 {
						c.und("view-shares", name, "returns %s", brief(r))
						continue
					}
				}
				if e.isSame(r, base) || r == p0 {
					if m, ok := modes[nm]; ok {
						if v, k := e.decide(o.st.facts, e.ts.eq(e.finalField(o, base, w.trieT, tr.mode), e.ts.intc(w.constOf(w.radix, m)))); !k || !v {
							c.bad("view-shares", name, f.Pos(), "the tree itself is returned although its mode may be another")
							continue
						}
					}
					c.ok("view-shares")
					continue
				}
				if !isAllocOf(r, w.trieT) {
					c.und("view-shares", name, "returned view %s not recognised", brief(r))
					continue
				}
				same := func(fl string) {
					v := e.finalField(o, r, w.trieT, fl)
					switch {
					case e.isLoadOf(v, base, fl), e.knownZeroOf(o.st.facts, base, fl) && isZeroTerm(v):
						c.ok("view-shares")
					case fl == tr.prefix && (changesText(v) || v.op == "call" && strings.Contains(v.aux, "strings.Trim")) && e.mentions(v, base, fl):
						c.bad("view-shares", name, f.Pos(), "the view's %s is %s, not that of what it was made from", fl, brief(v))
					case fl != tr.root && (v.op == "call" || v.op == "loopvar"):
						c.und("view-shares", name, "%s is %s", fl, brief(v))
					default:
						c.bad("view-shares", name, f.Pos(), "the view's %s is %s, not that of what it was made from", fl, brief(v))
					}
				}
				same(tr.root)
				same(tr.delim)
				if m, ok := modes[nm]; ok {
					same(tr.prefix)
					v := e.finalField(o, r, w.trieT, tr.mode)
					want := w.constOf(w.radix, m)
					if k, ok := v.constInt(); ok && k == want || isZeroTerm(v) && want == 0 {
						c.ok("view-shares")
					} else {
						c.bad("view-shares", name, f.Pos(), "the view's mode is %s, not %s", brief(v), m)
					}
				} else {
					same(tr.mode)
				}
			}
		}
	}
	if n == 0 {
		c.und("view-shares", "tree", "no view constructor recognised")
	}
}

// pools: objects that are used again.
func (c *Ctx) pools() {
	w := c.w
	type pool struct {
		g    *ssa.Global
		fns  []*ssa.Function
		newF *ssa.Function
	}
	by := map[*ssa.Global]*pool{}
	var order []*pool
	get := func(g *ssa.Global) *pool {
		if by[g] == nil {
			by[g] = &pool{g: g}
			order = append(order, by[g])
		}
		return by[g]
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	direct := map[*ssa.Function]*pool{}
	for _, f := range w.fns {
		if !w.library(f) || pkgOf(f) != w.radix && pkgOf(f) != w.store {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, g := range w.callees(ci) {
					if w.inWorkspace(g) {
						callers[g] = append(callers[g], f)
					}
				}
				cc := ci.Common()
				if sc := cc.StaticCallee(); sc != nil && (sc.String() == "(*sync.Pool).Get" || sc.String() == "(*sync.Pool).Put") && len(cc.Args) > 0 {
					if g, ok := cc.Args[0].(*ssa.Global); ok {
						p := get(g)
						direct[f] = p
					}
				}
			}
		}
	}
	for f, p := range direct {
		seen := map[*ssa.Function]bool{}
		var up func(f *ssa.Function, d int)
		up = func(f *ssa.Function, d int) {
			if seen[f] || d > 2 {
				return
			}
			seen[f] = true
			has := false
			for _, x := range p.fns {
				has = has || x == f
			}
			if !has && f.Parent() == nil {
				p.fns = append(p.fns, f)
			}
			if w.joinLike(f) {
				return
			}
			for _, g := range callers[f] {
				up(g, d+1)
			}
		}
		up(f, 0)
	}
	sortFns := func(fs []*ssa.Function) {
		for i := range fs {
			for k := i + 1; k < len(fs); k++ {
				if w.fname(fs[k]) < w.fname(fs[i]) {
					fs[i], fs[k] = fs[k], fs[i]
				}
			}
		}
	}
	for _, p := range order {
		sortFns(p.fns)
		c.pool(p.g, p.fns)
	}
}

func (c *Ctx) pool(g *ssa.Global, fns []*ssa.Function) {
	w := c.w
	nm := g.Name()
	if g.Pkg != nil {
		nm = g.Pkg.Pkg.Name() + "." + nm
	}
	okPut, okGet := true, true
	var dirtyAt *Event
	var dirtyIn string
	seen := 0
	for _, f := range fns {
		e := newEngine(w)
		e.maxSteps = 400_000
		e.opaque = func(x *ssa.Function) bool { return x != f && (w.joinLike(x) || w.isLookupOp(x) || w.isInsertOp(x)) }
		outs := e.Analyze(f)
		if e.over {
			continue
		}
		c.saw(f)
		for _, o := range outs {
			if o.panic {
				continue
			}
			evs := flatten(o.st.events)
			for _, ev := range evs {
				if !isCall(ev.Event, "sync.Pool).Get") || !isGlobal(ev.args[0], g) {
					continue
				}
				obj := func(t *Term) bool {
					x := unwrapPayload(t)
					for x != nil && (x.op == "assert" || x.op == "res") {
						x = unwrapPayload(x.args[0])
					}
					return x == ev.res
				}
				put := -1
				clean := false    // now
				cleanGot := false // made clean before its first use
				used := false
				set := map[string]bool{}
				var st *types.Struct
				for _, x := range evs {
					if x.n <= ev.n {
						continue
					}
					about := false
					for _, a := range x.args {
						about = about || obj(a)
					}
					if x.kind == "store" && x.addr.op == "fieldaddr" && obj(x.addr.args[0]) {
						set[x.addr.aux] = true
						if nt := namedOf(derefT(x.addr.args[0].typ)); nt != nil {
							st, _ = nt.Underlying().(*types.Struct)
						}
						if put >= 0 {
							c.bad("pool-clean", w.fname(f), x.pos, "an object of %s is written after it was given back", nm)
							return
						}
						if st != nil && len(set) == st.NumFields() && !used {
							cleanGot = true
						}
						clean = st != nil && allZeroStores(evs, x, obj, st)
						continue
					}
					if !about {
						continue
					}
					if isCall(x.Event, "sync.Pool).Put") {
						if put >= 0 {
							c.bad("pool-clean", w.fname(f), x.pos, "an object of %s is given back twice", nm)
							return
						}
						put = x.n
						if !clean {
							okPut = false
							if dirtyAt == nil {
								dirtyAt, dirtyIn = x.Event, w.fname(f)
							}
						}
						continue
					}
					if put >= 0 {
						c.bad("pool-clean", w.fname(f), x.pos, "an object of %s is used after it was given back", nm)
						return
					}
					var self *Term
					for _, a := range x.args {
						if obj(a) {
							self = unwrapPayload(a)
						}
					}
					switch op, _ := bufOp(x.Event, self); op {
					case "r":
						clean = true
						if !used {
							cleanGot = true
						}
					case "q":
						used = true
					default:
						used, clean = true, false
					}
				}
				// handed out by a helper: judged where it is used
				out := false
				for _, r := range o.rets {
					if r != nil && obj(r) {
						out = true
					}
					if rr := strip(r); put >= 0 && rr != nil && rr.op == "call" && strings.HasSuffix(strings.TrimRight(rr.aux, "#0123456789"), "Buffer).Bytes") && len(rr.args) > 0 && obj(rr.args[0]) {
						c.bad("pool-clean", w.fname(f), f.Pos(), "the bytes of a pooled buffer are returned although it is given back")
						return
					}
				}
				if out {
					continue
				}
				seen++
				if !cleanGot && used {
					okGet = false
				}
			}
		}
	}
	if seen == 0 {
		c.und("pool-clean", nm, "no use of the pool recognised")
		return
	}
	if !okPut && !okGet {
		c.bad("pool-clean", dirtyIn, dirtyAt.pos, "an object of %s is given back as it was used, and it is not cleaned when it is taken", nm)
		return
	}
	for i := 0; i < seen; i++ {
		c.ok("pool-clean")
	}
	c.poolNew(g, nm)
}

func isGlobal(t *Term, g *ssa.Global) bool {
	return t != nil && strings.HasSuffix(brief(t), g.Name())
}

// allZeroStores: at x all fields of the object were last stored with zero.
func allZeroStores(evs []flatEv, x flatEv, obj func(*Term) bool, st *types.Struct) bool {
	last := map[string]*Term{}
	for _, y := range evs {
		if y.n > x.n {
			break
		}
		if y.kind == "store" && y.addr.op == "fieldaddr" && obj(y.addr.args[0]) {
			last[y.addr.aux] = y.Event.val
		}
	}
	if len(last) < st.NumFields() {
		return false
	}
	for _, v := range last {
		if !isZeroTerm(v) {
			return false
		}
	}
	return true
}

// poolNew: what the pool makes itself is clean too.
func (c *Ctx) poolNew(g *ssa.Global, nm string) {
	w := c.w
	in := g.Pkg.Func("init")
	if in == nil {
		return
	}
	var lit ssa.Value // the literal the pool is initialised with
	for _, b := range in.Blocks {
		for _, x := range b.Instrs {
			if st, ok := x.(*ssa.Store); ok && st.Addr == g {
				if u, ok := st.Val.(*ssa.UnOp); ok {
					lit = u.X
				}
			}
		}
	}
	for _, b := range in.Blocks {
		for _, x := range b.Instrs {
			st, ok := x.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fa.X != g && fa.X != lit {
				continue
			}
			var f *ssa.Function
			switch v := st.Val.(type) {
			case *ssa.Function:
				f = v
			case *ssa.MakeClosure:
				f, _ = v.Fn.(*ssa.Function)
			}
			if f == nil {
				continue
			}
			e := newEngine(w)
			for _, o := range e.Analyze(f) {
				if o.panic || len(o.rets) != 1 {
					continue
				}
				r := unwrapPayload(o.rets[0])
				if r.op == "call" && strings.Contains(r.aux, "bytes.NewBuffer") && len(r.args) == 1 {
					a := unwrapPayload(r.args[0])
					n := (*Term)(nil)
					switch {
					case a.op == "makeslice":
						n = a.args[0]
					case a.op == "slice" && len(a.args) > 2 && a.args[2].op != "none":
						n = a.args[2]
					}
					if n != nil {
						if k, ok := n.constInt(); !ok || k != 0 {
							c.bad("pool-clean", nm, f.Pos(), "a new buffer is not empty")
							continue
						}
					}
				}
				c.ok("pool-clean")
			}
		}
	}
}
