package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P08: typed getters.

func init() { register("P08", p08) }

// getterShape: (path string, defaults ...X) (R [, error]) with R == X or []X.
func getterShape(f *ssa.Function) (slice, ok bool) {
	sg := f.Signature
	if !sg.Variadic() || sg.Params().Len() != 2 || !isStrT(sg.Params().At(0).Type()) {
		return
	}
	rs := sg.Results()
	if rs.Len() < 1 || rs.Len() > 2 || rs.Len() == 2 && !isErrT(rs.At(1).Type()) {
		return
	}
	vt := sg.Params().At(1).Type().Underlying().(*types.Slice)
	r := rs.At(0).Type()
	if m, isM := r.Underlying().(*types.Map); isM {
		if it, isI := m.Elem().Underlying().(*types.Interface); isI && it.Empty() {
			return false, false // whole-subtree export, another property
		}
	}
	if types.Identical(vt.Elem(), r) {
		return false, true
	}
	if types.Identical(vt, r) {
		return true, true
	}
	return
}

func (e *Engine) lenZero(f *Fact, t *Term) (zero, known bool) {
	n := e.ts.length(t)
	if v, ok := e.decide(f, e.ts.eq(n, e.ts.intc(0))); ok {
		return v, true
	}
	if v, ok := e.decide(f, e.ts.lt(e.ts.intc(0), n)); ok {
		return !v, true
	}
	return
}

// lastDefault: is t the last of the given defaults (the zero value when there
// are none)? 1 yes, -1 no, 0 unknown.
func (e *Engine) lastDefault(o *Outcome, def, t *Term, slice bool) (int, string) {
	if slice {
		if t == def {
			return 1, ""
		}
		if isZeroTerm(t) {
			if z, ok := e.lenZero(o.st.facts, def); ok && z {
				return 1, ""
			}
			return -1, "nothing"
		}
		if t.op == "slice" && t.args[0] == def {
			return -1, "only a part of the given defaults"
		}
		if t.op == "append" && len(t.args) == 2 && t.args[1].op == "spread" && t.args[1].args[0] == def && (isZeroTerm(t.args[0]) || t.args[0].op == "vec" && len(t.args[0].args) == 0) {
			return 1, ""
		}
		return 0, ""
	}
	n := e.ts.length(def)
	if isZeroTerm(t) {
		if z, ok := e.lenZero(o.st.facts, def); ok && z {
			return 1, ""
		}
		return -1, "the zero value although a default may have been given"
	}
	elem := func(x *Term) (*Term, bool) {
		if x.op == "load" && x.args[0].op == "idxaddr" && x.args[0].args[0] == def {
			return x.args[0].args[1], true
		}
		if x.op == "index" && len(x.args) == 2 && x.args[0] == def {
			return x.args[1], true
		}
		return nil, false
	}
	if ix, ok := elem(t); ok {
		if ix == e.ts.linAdd(n, e.ts.intc(1), -1, ix.typ) {
			return 1, ""
		}
		if ix.isConst() {
			if k, ok := ix.constInt(); ok {
				if v, ok := e.decide(o.st.facts, e.ts.eq(n, e.ts.intc(k+1))); ok && v {
					return 1, ""
				}
			}
			return -1, "a default other than the last"
		}
		return 0, ""
	}
	if t.op == "loopvar" {
		var lp *LoopEv
		allLoops(o.st.events, func(l *LoopEv) {
			for _, v := range l.vars {
				if v == t {
					lp = l
				}
			}
		})
		if lp == nil {
			return 0, ""
		}
		// entry value zero, back values elements of the list
		var ix *Term
		for _, x := range e.loopIn[t.id] {
			if isZeroTerm(x) || x == t {
				continue
			}
			i, ok := elem(x)
			if !ok {
				return 0, ""
			}
			ix = i
		}
		if ix == nil {
			return -1, "never a default"
		}
		for _, x := range e.loopIn[t.id] {
			if x == t {
				return 0, "" // conditionally assigned
			}
		}
		cv := e.loopCoverIdx(lp, def, ix)
		if !cv.known {
			return 0, ""
		}
		if !cv.full {
			return -1, "not the last default: the loop over the defaults " + cv.why
		}
		return 1, ""
	}
	return 0, ""
}

// loopCoverIdx: coverage of slice s by idx in loop l (the element need not
// occur in an event of the body).
func (e *Engine) loopCoverIdx(l *LoopEv, s, idx *Term) cover {
	l2 := *l
	l2.bodies = append([]LoopBody{}, l.bodies...)
	if len(l2.bodies) > 0 {
		b := l2.bodies[0]
		b.events = append([]*Event{{kind: "note", val: e.ts.mk("idxaddr", "", s.typ, s, idx)}}, b.events...)
		l2.bodies[0] = b
	}
	return e.loopCover(&l2)
}

func allLoops(evs []*Event, f func(*LoopEv)) {
	for _, ev := range evs {
		if ev.kind == "loop" {
			f(ev.loop)
			for _, b := range ev.loop.bodies {
				allLoops(b.events, f)
			}
		}
	}
}

func numKind(t types.Type) (fam string, size int64, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return
	}
	sizes := types.SizesFor("gc", "amd64")
	switch {
	case b.Info()&types.IsUnsigned != 0:
		return "unsigned", sizes.Sizeof(t), true
	case b.Info()&types.IsInteger != 0:
		return "signed", sizes.Sizeof(t), true
	case b.Info()&types.IsFloat != 0:
		return "float", sizes.Sizeof(t), true
	case b.Info()&types.IsComplex != 0:
		return "complex", sizes.Sizeof(t), true
	}
	return
}

// converted: is t the converter's image of the data in type rt, through
// conversions that never lose more than rt itself does? 1 yes, -1 no, 0 ?.
func (e *Engine) converted(o *Outcome, t *Term, rt types.Type, isData func(*Term) bool) (int, string) {
	x := t
	fam, size, num := numKind(rt)
	named, _ := rt.(*types.Named)
	chk := func(y types.Type) string {
		if types.Identical(y, rt) {
			return ""
		}
		if named != nil {
			return "goes through " + y.String() + " instead of " + rt.String()
		}
		f2, s2, ok := numKind(y)
		if num && ok && (f2 != fam || s2 < size) {
			return "goes through " + y.String() + ", which cannot hold every " + rt.String()
		}
		return ""
	}
	for x.op == "conv" {
		if why := chk(x.typ); why != "" {
			return -1, why
		}
		x = x.args[0]
	}
	if x.op == "assert" && isData(x.args[0]) && types.Identical(x.typ, rt) {
		return 1, ""
	}
	if x.op == "res" && len(x.args) == 1 && x.args[0].op == "assert" {
		y := x.args[0]
		if isData(y.args[0]) && types.Identical(x.typ, rt) {
			return 1, ""
		}
	}
	if x.op != "call" {
		if x.op == "bin" && walkTerm(x, func(y *Term) bool { return y.op == "call" && cvtCall(y) }) {
			return -1, "is computed from the converted value instead of being it"
		}
		return 0, ""
	}
	if !cvtCall(x) {
		return 0, ""
	}
	if why := chk(x.typ); why != "" {
		return -1, why
	}
	if fam == "" && !types.Identical(x.typ, rt) {
		return 0, ""
	}
	a := x.args[len(x.args)-1]
	if isData(a) {
		return 1, ""
	}
	return -1, "converts " + brief(a) + " instead of the stored value"
}

func cvtCall(t *Term) bool { return strings.Contains(t.aux, "evendeep.Cvt") && len(t.args) == 2 }

func p08(c *Ctx) {
	w := c.w
	c.rule("getter-value", "for a key that is found, a typed getter returns the converter's image of the located node's own value, in the result's own type, through no narrower or differently signed type")
	c.rule("getter-default", "for a key that is not found, a typed getter returns the last given default (a list getter: the given list), and the zero value without one")
	c.rule("getter-error", "the error of a typed getter is nil exactly when the key is found")
	c.rule("size-unit", "a size suffix multiplies by the power of 1024 (kibi) or 1000 (kilo) it stands for; without suffix the number is taken as it is")
	c.rule("size-default", "a size getter parses the found text and falls back to the last default only when the key is not found or the text is empty")
	c.assume = append(c.assume, "a lookup that reports matched or partially matched returns a node", "the conversion functions of the evendeep package convert correctly")
	r := w.roles()
	for _, n := range []*types.Named{w.trieT, w.storeT} {
		for _, f := range w.exportedMethods(n) {
			slice, ok := getterShape(f)
			if !ok || !declared(f) {
				continue
			}
			name := w.fname(f)
			if strings.HasSuffix(f.Name(), "KibiBytes") || strings.HasSuffix(f.Name(), "KiloBytes") {
				c.sizeGetter(f)
				continue
			}
			c.saw(f)
			e := w.viewEngine()
			outs := e.Analyze(f)
			if e.over {
				c.und("getter-value", name, "analysis gave up")
				continue
			}
			rt := f.Signature.Results().At(0).Type()
			for _, o := range outs {
				if o.panic {
					continue
				}
				l, sure := w.located(e, o)
				if !sure {
					c.und("getter-value", name, "lookup result not tested")
					continue
				}
				rd := e.readable(w, o, l)
				def := e.ts.mk("param", pname(f.Params[2], 2), f.Params[2].Type())
				ret := o.rets[0]
				if e.unconvertedNil(ret) {
					continue
				}
				if len(o.rets) == 2 {
					t := o.rets[1]
					switch {
					case rd == 0:
						c.und("getter-error", name, "match state not settled")
					case isNilT(t) && rd == 1, t.op == "iface" && !isNilT(t) && rd == -1:
						c.ok("getter-error")
					case isNilT(t):
						c.bad("getter-error", name, f.Pos(), "returns no error for a key that is not found")
					case t.op == "iface":
						c.bad("getter-error", name, f.Pos(), "returns an error for a key that is found")
					default:
						bad := false
						for _, x := range e.expand(t) {
							bad = bad || isNilT(x) && rd == -1
						}
						if bad {
							c.bad("getter-error", name, f.Pos(), "may return no error for a key that is not found")
						} else {
							c.und("getter-error", name, "error is %s", brief(t))
						}
					}
				}
				switch rd {
				case 1:
					isData := func(t *Term) bool {
						for t.op == "iface" || t.op == "conv" {
							t = t.args[0]
						}
						if isFieldLoad(e.ts.noEpoch(t), e.ts.noEpoch(l.child), r.data) {
							return true
						}
						return isZeroTerm(t) && e.noData(w, o, l)
					}
					v, why := e.converted(o, ret, rt, isData)
					switch {
					case v == 1:
						c.ok("getter-value")
					case v == -1:
						c.bad("getter-value", name, f.Pos(), "the value returned for a found key %s", why)
					case isZeroTerm(ret):
						if e.noData(w, o, l) {
							c.ok("getter-value")
						} else {
							c.bad("getter-value", name, f.Pos(), "returns the zero value for a found key")
						}
					case mentionsT(ret, def) || ret.op == "loopvar" && e.isDefaultLoop(o, ret, def):
						c.bad("getter-value", name, f.Pos(), "returns a default for a key that is found")
					default:
						c.und("getter-value", name, "returns %s", brief(ret))
					}
				case -1:
					v, why := e.lastDefault(o, def, ret, slice)
					switch {
					case v == 1:
						c.ok("getter-default")
					case v == -1:
						c.bad("getter-default", name, f.Pos(), "for a key that is not found it returns %s", why)
					default:
						if walkTerm(ret, func(x *Term) bool { return x.op == "call" && cvtCall(x) }) {
							c.bad("getter-default", name, f.Pos(), "for a key that is not found it converts a value instead of returning the default")
						} else {
							c.und("getter-default", name, "returns %s", brief(ret))
						}
					}
				default:
					if ex := e.exact(o, l); ex == 1 && !e.looksAtEnd(w, o.st.facts, l) {
						c.bad("getter-value", name, f.Pos(), "answers for a located node without looking at whether the key is found")
					} else {
						c.und("getter-value", name, "match state not settled")
					}
				}
			}
		}
	}
	for _, f := range w.exportedMethods(w.trieT) {
		switch f.Name() {
		case "FromKibiBytes":
			c.sizeTable(f, 1024)
		case "FromKiloBytes":
			c.sizeTable(f, 1000)
		}
	}
}

func (e *Engine) unconvertedNil(t *Term) bool { return t == nil }

func mentionsT(t, x *Term) bool { return walkTerm(t, func(y *Term) bool { return y == x }) }

func (e *Engine) isDefaultLoop(o *Outcome, t, def *Term) bool {
	for _, x := range e.loopIn[t.id] {
		if mentionsT(x, def) {
			return true
		}
	}
	return false
}

// noData: the path knows that the located node carries no value.
func (e *Engine) noData(w *World, o *Outcome, l *loc) bool {
	set, known := e.flagFact(o.st.facts, l.child, w.roles().flags, w.flagBitC("HasData"))
	return known && !set
}

var sizeSuffix = "kmgtpe"

// unitOf: which unit letter does the path know the size text to end with?
// idx -1: none of them; ok false: not settled.
func (e *Engine) unitOf(facts *Fact) (idx int, ok bool, missing string) {
	not := map[rune]bool{}
	low := false
	seen := false
	for f := facts; f != nil; f = f.up {
		a := f.atom
		if a.op != "eq" {
			continue
		}
		var x *Term
		var k int64
		if l := a.args[0]; l.op != "lin" {
			kk, isK := a.args[1].constInt()
			if !isK {
				continue
			}
			x, k = l, kk
		} else {
			continue
		}
		if !isRuneT(x.typ) && !(x.typ != nil && types.Identical(x.typ.Underlying(), types.Typ[types.Uint8])) {
			continue
		}
		seen = true
		if x.op == "call" && (strings.Contains(x.aux, "ToLower") || strings.Contains(x.aux, "ToUpper")) {
			low = true
		}
		ch := rune(k)
		if f.pol {
			i := strings.IndexRune(sizeSuffix, toLower(ch))
			return i, true, ""
		}
		not[ch] = true
	}
	if !seen {
		return 0, false, ""
	}
	for _, ch := range sizeSuffix {
		up := ch - 'a' + 'A'
		if low {
			if !not[ch] && !not[up] {
				missing += string(ch)
			}
			continue
		}
		if !not[ch] {
			missing += string(ch)
		}
		if !not[up] {
			missing += string(up)
		}
	}
	return -1, true, missing
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func toLower(r rune) rune {
	if r >= 'A' && r <= 'Z' {
		return r - 'A' + 'a'
	}
	return r
}

func (c *Ctx) sizeTable(f *ssa.Function, base int64) {
	w := c.w
	name := w.fname(f)
	c.saw(f)
	e := w.viewEngine()
	outs := e.Analyze(f)
	if e.over {
		c.und("size-unit", name, "analysis gave up")
		return
	}
	pow := func(i int) int64 {
		v := int64(1)
		for ; i >= 0; i-- {
			v *= base
		}
		return v
	}
	isNum := func(t *Term) bool {
		for t.op == "conv" {
			t = t.args[0]
		}
		return t.op == "res" && t.aux == "0" && strings.HasPrefix(t.args[0].aux, "strconv.Parse")
	}
	kOf := func(t *Term) (int64, bool) {
		for t.op == "conv" {
			t = t.args[0]
		}
		if v, ok := t.constInt(); ok {
			return v, true
		}
		if t.isConst() && t.cv != nil && (t.cv.Kind() == constant.Float || t.cv.Kind() == constant.Int) {
			if v, ok := constant.Int64Val(constant.ToInt(t.cv)); ok {
				return v, true
			}
		}
		return 0, false
	}
	whole, frac, other := false, false, false
	for _, o := range outs {
		if o.panic {
			continue
		}
		var ints, floats *Event
		allEvents(o.st.events, func(ev *Event, _ *LoopEv) {
			if ev.kind != "call" {
				return
			}
			switch ev.name {
			case "strconv.ParseUint", "strconv.ParseInt":
				whole, ints = true, ev
			case "strconv.ParseFloat":
				frac, floats = true, ev
			default:
				if strings.HasPrefix(ev.name, "fmt.Ss") || strings.Contains(ev.name, "math/big") || ev.fn == nil {
					other = true
				}
			}
		})
		if ints != nil {
			if k, ok := ints.args[2].constInt(); ok && k != 64 && k != 0 {
				c.bad("size-unit", name, ints.pos, "sizes are read with %d bits", k)
			}
			if k, ok := ints.args[1].constInt(); ok && k != 0 {
				c.bad("size-unit", name, ints.pos, "sizes are read in base %d only, not in the notations of Go", k)
			}
		}
		if (ints == nil) != (floats == nil) {
			dot, unk := false, false
			for g := o.st.facts; g != nil; g = g.up {
				y := g.atom
				if (y.op == "eq" || y.op == "lt") && len(y.args) == 2 {
					y = y.args[0]
					if y.isConst() {
						y = g.atom.args[1]
					}
				}
				if y.op == "loopvar" {
					unk = true
				}
				if y.op != "call" || !strings.HasPrefix(y.aux, "strings.") && !strings.HasPrefix(y.aux, "bytes.") && !strings.HasPrefix(y.aux, "slices.") {
					continue
				}
				for _, a := range y.args[1:] {
					if k, ok := a.constInt(); ok && k == '.' {
						dot = true
					}
					if t, ok := a.constStr(); ok && strings.Contains(t, ".") {
						dot = true
					}
					unk = unk || !a.isConst()
				}
			}
			switch {
			case dot:
				c.ok("size-unit")
			case unk:
				c.und("size-unit", name, "how fractions are told")
			case ints != nil:
				c.bad("size-unit", name, ints.pos, "a number with a fraction is read as a whole number")
			default:
				c.bad("size-unit", name, floats.pos, "whole numbers are read as floating-point numbers")
			}
		}
	}
	if !other && (whole || frac) {
		if !whole {
			c.bad("size-unit", name, f.Pos(), "whole numbers are read as floating-point numbers")
		}
		if !frac {
			c.bad("size-unit", name, f.Pos(), "numbers with a fraction are not read")
		}
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		t := o.rets[0]
		for t.op == "conv" {
			t = t.args[0]
		}
		if t.op == "bin" && t.aux == "*" && t.typ != nil && !isFloatT(t.typ) {
			for _, a := range t.args {
				if a.op == "conv" && isNum(a) && a.args[0].typ != nil && isFloatT(a.args[0].typ) {
					c.bad("size-unit", name, f.Pos(), "the fraction is cut off before it is multiplied")
				}
			}
		}
		var mul int64
		switch {
		case isNum(t):
			mul = 1
		case t.op == "bin" && t.aux == "*" && (isNum(t.args[0]) || isNum(t.args[1])):
			a, b := t.args[0], t.args[1]
			if isNum(a) {
				a, b = b, a
			}
			k, ok := kOf(a)
			if !ok {
				c.und("size-unit", name, "factor %s", brief(a))
				continue
			}
			mul = k
		case t.op == "lin" && len(t.args) == 1 && isNum(t.args[0]):
			c.und("size-unit", name, "linear form")
			continue
		case isZeroTerm(t):
			continue // not a number
		default:
			c.und("size-unit", name, "result %s", brief(t))
			continue
		}
		idx, ok, missing := e.unitOf(o.st.facts)
		if (!ok || mul == 1) && parseFailed(o.st.facts) {
			c.ok("size-unit")
			continue
		}
		if !ok {
			c.und("size-unit", name, "unit not settled")
			continue
		}
		// paths on which parsing failed have no unit
		if idx >= 0 && mul != pow(idx) {
			c.bad("size-unit", name, f.Pos(), "the suffix %q multiplies by %d instead of %d", sizeSuffix[idx:idx+1], mul, pow(idx))
			continue
		}
		if idx < 0 && mul != 1 {
			c.bad("size-unit", name, f.Pos(), "a number without a known suffix is multiplied by %d", mul)
			continue
		}
		if idx < 0 && missing != "" {
			c.bad("size-unit", name, f.Pos(), "the suffix %q is not recognised", missing[:1])
			continue
		}
		c.ok("size-unit")
	}
}

// parseFailed: the path knows that the number did not parse.
func parseFailed(facts *Fact) bool {
	for f := facts; f != nil; f = f.up {
		if f.atom.op == "eq" && !f.pol {
			for i, x := range f.atom.args {
				if x.op == "res" && x.aux == "1" && strings.HasPrefix(x.args[0].aux, "strconv.Parse") && isNilT(f.atom.args[1-i]) {
					return true
				}
			}
		}
	}
	return false
}

func (c *Ctx) sizeGetter(f *ssa.Function) {
	w := c.w
	r := w.roles()
	name := w.fname(f)
	c.saw(f)
	e := w.viewEngine()
	old := e.opaque
	e.opaque = func(g *ssa.Function) bool {
		return old(g) || isRecvOf(g, w.trieT) && (g.Name() == "FromKibiBytes" || g.Name() == "FromKiloBytes")
	}
	outs := e.Analyze(f)
	if e.over {
		c.und("size-default", name, "analysis gave up")
		return
	}
	want := "From" + f.Name()[len(f.Name())-len("KibiBytes"):]
	def := e.ts.mk("param", pname(f.Params[2], 2), f.Params[2].Type())
	for _, o := range outs {
		if o.panic {
			continue
		}
		l, sure := w.located(e, o)
		if !sure {
			c.und("size-default", name, "lookup result not tested")
			continue
		}
		rd := e.readable(w, o, l)
		if rd == 0 {
			c.und("size-default", name, "match state not settled")
			continue
		}
		ret := o.rets[0]
		if ret.op == "call" && strings.Contains(ret.aux, "From") && strings.Contains(ret.aux, "Bytes") {
			if !strings.Contains(ret.aux, want) {
				c.bad("size-default", name, f.Pos(), "parses with %s", brief(ret))
				continue
			}
			a := ret.args[len(ret.args)-1]
			if rd == 1 && a.op == "call" && cvtCall(a) {
				d := a.args[1]
				for d.op == "iface" {
					d = d.args[0]
				}
				if isFieldLoad(e.ts.noEpoch(d), e.ts.noEpoch(l.child), r.data) || isZeroTerm(d) && e.noData(w, o, l) {
					c.ok("size-default")
					continue
				}
			}
			if rd == -1 {
				c.bad("size-default", name, f.Pos(), "parses a text although the key is not found")
				continue
			}
			c.und("size-default", name, "parses %s", brief(a))
			continue
		}
		v, why := e.lastDefault(o, def, ret, false)
		empty := false
		for fc := o.st.facts; fc != nil; fc = fc.up {
			if fc.pol && fc.atom.op == "eq" {
				x, y := fc.atom.args[0], fc.atom.args[1]
				if x.op == "len" {
					x = x.args[0]
				}
				if x.op == "call" && cvtCall(x) && (isZeroTerm(y) || y.isConst()) {
					empty = true
				}
			}
		}
		switch {
		case v == 1 && (rd == -1 || empty):
			c.ok("size-default")
		case v == 1:
			c.bad("size-default", name, f.Pos(), "returns the default for a key that is found and not empty")
		case v == -1 && rd == -1:
			c.bad("size-default", name, f.Pos(), "for a key that is not found it returns %s", why)
		default:
			c.und("size-default", name, "returns %s", brief(ret))
		}
	}
}
