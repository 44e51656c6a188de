package main

import (
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P21: options - every option given is applied, to the thing being set up,
// and sets exactly what it stands for.

func init() { register("P21", p21) }

// optTarget: t is an option (a named function type taking one pointer to a
// struct of the workspace and returning nothing); the struct's type.
func (w *World) optTarget(t types.Type) *types.Named {
	if _, ok := types.Unalias(t).(*types.Named); !ok {
		return nil
	}
	sg, ok := t.Underlying().(*types.Signature)
	if !ok || sg.Params().Len() != 1 || sg.Results().Len() != 0 {
		return nil
	}
	p, ok := sg.Params().At(0).Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n := namedOf(p.Elem())
	if n == nil || structOf(n) == nil || n.Obj().Pkg() == nil {
		return nil
	}
	if pp := n.Obj().Pkg(); pp != w.store && pp != w.radix {
		return nil
	}
	return n
}

// takesOpts: f's last parameter is a list of options.
func (w *World) takesOpts(f *ssa.Function) *types.Named {
	n := f.Signature.Params().Len()
	if n == 0 || !f.Signature.Variadic() {
		return nil
	}
	sl, ok := f.Signature.Params().At(n - 1).Type().(*types.Slice)
	if !ok {
		return nil
	}
	return w.optTarget(sl.Elem())
}

func p21(c *Ctx) {
	w := c.w
	c.rule("option-applied", "whatever takes options applies every one of them (nil ones apart), in the order given, to the very thing it sets up, before that thing is used, or hands them all on")
	c.rule("option-set", "an option sets exactly one setting, of its own, to exactly the value it was given, and nothing else")
	c.rule("option-codec", "a load or save without a codec (position) of its own takes the source's, and one with a codec (position) hands it to the source")
	var fns []*ssa.Function
	all := append([]*ssa.Function{}, w.fns...)
	for _, p := range []*types.Package{w.store, w.radix} { // generic options no one uses here
		if sp := w.prog.Package(p); sp != nil {
			for _, m := range sp.Members {
				if f, ok := m.(*ssa.Function); ok && f.TypeParams().Len() > 0 && !slices.Contains(all, f) {
					all = append(all, f)
				}
			}
		}
	}
	for _, f := range all {
		if f.Parent() != nil || f.Blocks == nil || f.Object() == nil || !declared(f) {
			continue
		}
		if p := f.Object().Pkg(); p != w.store && p != w.radix {
			continue
		}
		if rv := f.Signature.Recv(); rv != nil {
			if n := namedOf(rv.Type()); n == nil || strings.HasPrefix(n.Obj().Name(), "dummy") {
				continue
			}
		}
		fns = append(fns, f)
	}
	sort.SliceStable(fns, func(i, j int) bool { return w.fname(fns[i]) < w.fname(fns[j]) })
	sets := map[string][2]string{}
	if a, b := w.optField(w.store, "WithFlattenSlice"), w.optField(w.store, "WithStoreFlattenSlice"); a != "" && b != "" {
		if a == b {
			c.ok("option-set")
		} else {
			c.bad("option-set", "store.WithStoreFlattenSlice", w.pkgFunc(w.store.Path(), "WithStoreFlattenSlice").Pos(), "sets %s, the same option of the store sets %s", b, a)
		}
	}
	for _, f := range fns {
		if n := w.takesOpts(f); n != nil {
			c.optsApplied(f, n)
			continue
		}
		if f.Signature.Recv() == nil && f.Signature.Results().Len() == 1 && f.Object().Exported() && !f.Signature.Variadic() {
			if n := w.optTarget(f.Signature.Results().At(0).Type()); n != nil {
				c.optSets(f, n, sets)
			}
		}
	}
}

// isOptCall: an option is being called.
func (w *World) isOptCall(ev *Event) bool {
	return ev.fn == nil && ev.val != nil && ev.val.typ != nil && w.optTarget(ev.val.typ) != nil
}

func (c *Ctx) optsApplied(f *ssa.Function, n *types.Named) {
	w := c.w
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	old := e.opaque
	e.opaque = func(g *ssa.Function) bool {
		if g == f || g.Parent() != nil {
			return old(g)
		}
		if w.takesOpts(g) != nil {
			return true
		}
		// a helper that is given the options or the thing they are for is looked into
		for i := 0; i < g.Signature.Params().Len(); i++ {
			t := g.Signature.Params().At(i).Type()
			if sl, ok := t.Underlying().(*types.Slice); ok && w.optTarget(sl.Elem()) != nil {
				return false
			}
			if m := namedOf(t); m != nil && m.Obj() == n.Obj() {
				return false
			}
			if w.optTarget(t) != nil && w.inWorkspace(g) {
				return false
			}
		}
		if rv := g.Signature.Recv(); rv != nil {
			if m := namedOf(rv.Type()); m != nil && m.Obj() == n.Obj() && m.Obj() != w.storeT.Obj() && token0(g) {
				return false
			}
		}
		return true
	}
	outs := e.Analyze(f)
	if e.over {
		c.und("option-applied", name, "analysis gave up")
		return
	}
	ps := e.params(f)
	opts := ps[len(ps)-1]
	isOpts := func(t *Term) bool {
		for t.op == "spread" || t.op == "slice" && len(t.args) > 0 && t.args[0] == opts && wholeSlice(t) {
			t = t.args[0]
		}
		return t == opts
	}
	any := false
	for _, o := range outs {
		if o.panic {
			continue
		}
		for _, ev := range flatten(o.st.events) {
			if (ev.kind == "call" || ev.kind == "go" || ev.kind == "defer") && !w.isOptCall(ev.Event) {
				for _, a := range ev.args {
					any = any || isOpts(a)
				}
			}
			if ev.kind == "loop" {
				if cv := e.loopCover(ev.Event.loop); cv.known && wholeOf(&cv) == opts {
					any = true
				}
			}
		}
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		// the thing set up on this path
		var thing *Term
		several, made := false, map[*Term]bool{}
		var lp *LoopEv
		var cov cover
		at, used := -1, -1
		handed, part := false, (*Term)(nil)
		for i, ev := range o.st.events {
			if ev.kind == "store" && ev.addr.op == "fieldaddr" && ev.addr.args[0].op == "alloc" {
				if m := namedOf(ev.addr.args[0].typ); m != nil && m.Obj() == n.Obj() {
					thing = ev.addr.args[0]
					if lp == nil {
						made[thing] = true
					}
				}
			}
			if ev.kind == "store" && ev.addr.op == "alloc" && lp == nil {
				if m := namedOf(ev.addr.typ); m != nil && m.Obj() == n.Obj() {
					made[ev.addr] = true
				}
			}
			switch ev.kind {
			case "loop":
				if cv := e.loopCover(ev.loop); cv.known && wholeOf(&cv) == opts {
					if lp != nil {
						several = true
					}
					lp, cov, at = ev.loop, cv, i
				}
			case "call", "go", "defer":
				if !w.isOptCall(ev) {
					for _, a := range ev.args {
						if isOpts(a) {
							handed = true
						} else if mentionsT(a, opts) {
							part = a
						}
					}
				}
			}
		}
		switch {
		case several:
			c.und("option-applied", name, "options applied in several places")
			continue
		case lp == nil && handed:
			c.ok("option-applied")
			continue
		case lp == nil && part != nil:
			c.bad("option-applied", name, f.Pos(), "only %s is handed on", brief(part))
			continue
		case lp == nil:
			if v, k := e.decide(o.st.facts, e.ts.eq(e.ts.length(opts), e.ts.intc(0))); k && v {
				c.ok("option-applied")
				continue
			}
			loops := false
			for _, ev := range flatten(o.st.events) {
				loops = loops || ev.kind == "loop"
			}
			switch {
			case !any && !loops, thing != nil && !loops:
				c.bad("option-applied", name, f.Pos(), "the options given are not applied")
			case thing != nil || !any:
				c.und("option-applied", name, "the loop over the options is not recognised")
			default:
				c.ok("option-applied")
			}
			continue
		}
		if !cov.full {
			c.bad("option-applied", name, f.Pos(), "not every option given is applied: %s", cov.why)
			continue
		}
		if cov.down {
			c.bad("option-applied", name, f.Pos(), "the options are applied last first: of two that set the same thing, the earlier wins")
			continue
		}
		good := true
		thing = nil
		for _, b := range lp.bodies {
			calls := 0
			var tgt *Term
			for _, ev := range b.events {
				if ev.kind == "go" && ev.val != nil && mentionsT(ev.val, opts) {
					c.bad("option-applied", name, ev.pos, "an option is applied in the background")
					good = false
				}
				if ev.kind == "call" && ev.val != nil && mentionsT(ev.val, opts) && len(ev.args) == 1 {
					calls++
					tgt = ev.args[0]
				}
			}
			nilOpt := false
			for fc := b.facts; fc != nil && fc != lp.entry; fc = fc.up {
				if fc.pol && fc.atom.op == "eq" && (fc.atom.args[0].isNil() || fc.atom.args[1].isNil()) && mentionsT(fc.atom, opts) {
					nilOpt = true
				}
			}
			switch {
			case !good:
			case calls == 0 && !nilOpt:
				c.bad("option-applied", name, f.Pos(), "an option given is passed over")
				good = false
			case calls > 1:
				c.bad("option-applied", name, f.Pos(), "an option is applied %d times", calls)
				good = false
			case calls == 1 && thing == nil && (len(made) == 0 || made[tgt]):
				thing = tgt
			case calls == 1 && tgt != thing:
				c.bad("option-applied", name, f.Pos(), "the options are applied to %s, not to what is being set up", brief(tgt))
				good = false
			}
			if !good {
				break
			}
		}
		if !good {
			continue
		}
		// nothing is done with the thing before
		if thing != nil {
			for i, ev := range o.st.events {
				if i < at && ev.kind == "call" && ev.fn != nil && ev.fn.Name() != "New" {
					for _, a := range ev.args {
						if a == thing && n.Obj() != w.storeT.Obj() {
							used = i
						}
					}
				}
			}
			// a setting overwritten after the options were applied
			if used < 0 {
				for i, ev := range o.st.events {
					if i > at && ev.kind == "store" && ev.addr.op == "fieldaddr" && ev.addr.args[0] == thing && isZeroTerm(ev.val) {
						c.bad("option-applied", name, ev.pos, "%s is reset after the options were applied", ev.addr.aux)
						good = false
					}
				}
			}
		}
		if used >= 0 {
			c.bad("option-applied", name, o.st.events[used].pos, "%s is called before the options are applied", shortName(o.st.events[used].name))
			continue
		}
		if !good {
			continue
		}
		c.ok("option-applied")
		c.optCodec(e, f, name, n, o, thing)
	}
}

// last: the bare name of a function.
func last(s string) string {
	s, _, _ = strings.Cut(s, "[")
	return s[strings.LastIndexByte(s, '.')+1:]
}

func token0(g *ssa.Function) bool { return g.Object() != nil && !g.Object().Exported() }

func wholeSlice(t *Term) bool {
	for i, a := range t.args[1:] {
		if k, ok := a.constInt(); a.op == "none" || i == 0 && ok && k == 0 || i == 1 && a.op == "len" && a.args[0] == t.args[0] {
			continue
		}
		return false
	}
	return true
}

// optCodec: codec and position of a load or save and of its source.
func (c *Ctx) optCodec(e *Engine, f *ssa.Function, name string, n *types.Named, o *Outcome, thing *Term) {
	w := c.w
	st := structOf(n)
	prov := ""
	for i := 0; i < st.NumFields(); i++ {
		if m := namedOf(st.Field(i).Type()); m != nil && m.Obj().Pkg() == w.store && m.Obj().Name() == "Provider" {
			prov = st.Field(i).Name()
		}
	}
	if prov == "" || thing == nil {
		return
	}
	// does this function deal with the source at all?
	deals := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if fa, ok := in.(*ssa.FieldAddr); ok {
				if s := structOf(namedOf(derefT(fa.X.Type()))); s != nil && s == st && s.Field(fa.Field).Name() == prov {
					for _, r := range *fa.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok && u.X == fa {
							deals = true
						}
					}
				}
			}
		}
	}
	if !deals {
		return
	}
	val := func(fl string) func(*Term) bool {
		return func(t *Term) bool {
			if b, g, ok := fieldLoad(t); ok {
				return g == fl && b == thing
			}
			return (t.op == "loopvar" || t.op == "out") && len(t.args) == 1 && t.args[0].op == "fieldaddr" && t.args[0].aux == fl && t.args[0].args[0] == thing
		}
	}
	nilF := func(fl string) int { // 1 nil/empty, -1 not, 0 unknown
		is := val(fl)
		for fc := o.st.facts; fc != nil; fc = fc.up {
			if fc.atom.op != "eq" {
				continue
			}
			for i, x := range fc.atom.args {
				y := fc.atom.args[1-i]
				if is(y) && (x.isNil() || isZeroTerm(x)) {
					return sgn(fc.pol)
				}
				if k, ok := x.constInt(); ok && k == 0 && y.op == "len" && is(y.args[0]) {
					return sgn(fc.pol)
				}
			}
		}
		return 0
	}
	switch nilF(prov) {
	case 1:
		c.ok("option-codec")
		return
	case 0:
		c.und("option-codec", name, "whether there is a source is not tested")
		return
	}
	isP := val(prov)
	for i := 0; i < st.NumFields(); i++ {
		fl, what := st.Field(i).Name(), ""
		switch m := namedOf(st.Field(i).Type()); {
		case m != nil && m.Obj().Pkg() == w.store && m.Obj().Name() == "Codec":
			what = "Codec"
		case types.Identical(st.Field(i).Type(), types.Typ[types.String]) && w.optField(w.store, "WithPosition") == fl:
			what = "Position"
		default:
			continue
		}
		is := val(fl)
		s := nilF(fl)
		var got, gave *Event
		var final *Term
		for _, ev := range flatten(o.st.events) {
			switch {
			case ev.kind == "call" && strings.HasSuffix(ev.name, "Provider).Get"+what) && len(ev.args) > 0 && isP(ev.args[0]):
				got = ev.Event
			case ev.kind == "call" && strings.HasSuffix(ev.name, "Provider).With"+what) && len(ev.args) > 1 && isP(ev.args[0]):
				gave = ev.Event
			case ev.kind == "store" && ev.addr.op == "fieldaddr" && ev.addr.aux == fl && ev.addr.args[0] == thing:
				if !isZeroTerm(ev.Event.val) {
					final = ev.Event.val
				}
			}
		}
		lw := strings.ToLower(what)
		switch {
		case s == 0:
			switch {
			case got == nil && gave == nil:
				c.bad("option-codec", name, f.Pos(), "the %s is neither taken from the source nor handed to it", lw)
			case got != nil && final != nil && final == got.res:
				c.bad("option-codec", name, got.pos, "the source's %s is taken without looking at whether one was given", lw)
			default:
				c.und("option-codec", name, "whether a %s was given is not tested", lw)
			}
		case s == 1 && got == nil:
			c.bad("option-codec", name, f.Pos(), "no %s was given, and the source's is not asked for", lw)
		case s == 1 && final != got.res:
			c.bad("option-codec", name, got.pos, "the source's %s is asked for but not used", lw)
		case s == -1 && final != nil && !is(final):
			c.bad("option-codec", name, f.Pos(), "the %s given is replaced by %s", lw, brief(final))
		case s == -1 && gave == nil:
			c.bad("option-codec", name, f.Pos(), "the %s given is not handed to the source", lw)
		case s == -1 && !is(gave.args[1]):
			c.bad("option-codec", name, gave.pos, "the source is handed %s", brief(gave.args[1]))
		default:
			c.ok("option-codec")
		}
	}
}

// optSets: what an option does when it is applied.
func (c *Ctx) optSets(f *ssa.Function, n *types.Named, sets map[string][2]string) {
	w := c.w
	c.saw(f)
	name := w.fname(f)
	e := w.viewEngine()
	outs := e.Analyze(f)
	ps := e.params(f)
	if len(ps) != 1 {
		return
	}
	old := e.opaque
	e.opaque = func(g *ssa.Function) bool { return old(g) || strings.EqualFold(g.Name(), "join") }
	for _, o := range outs {
		if o.panic || len(o.rets) != 1 {
			continue
		}
		cl := strip(o.rets[0])
		switch {
		case cl.isNil():
			c.bad("option-set", name, f.Pos(), "no option is returned")
			continue
		case cl.op == "func" && cl.fn != nil:
			c.bad("option-set", name, f.Pos(), "the option does not use %s", ps[0].aux)
			continue
		case cl.op != "closure" || cl.fn == nil:
			c.und("option-set", name, "returns %s", brief(cl))
			continue
		}
		self := e.ts.mk("param", "self", cl.fn.Params[0].Type())
		qs := e.AnalyzeFrom(cl.fn, []*Term{self}, cl.args, o.st.clone())
		if e.over {
			c.und("option-set", name, "analysis gave up")
			continue
		}
		for _, q := range qs {
			if q.panic {
				continue
			}
			var fields []string
			var v *Term
			var at *Event
			fresh := map[string]*Term{}
			weird := false
			elems := map[*Term][]*Term{}
			whole := func(t *Term) bool {
				if t = strip(t); t == ps[0] {
					return true
				}
				if t.op != "call" || !strings.HasSuffix(strings.ToLower(callName(t)), "join") {
					return false
				}
				// the join of nothing but the given value is that value (P14)
				n := 0
				for _, a := range t.args[1:] {
					for x, l := range elems {
						if mentionsT(a, x) {
							if len(l) != 1 || l[0] != ps[0] {
								return false
							}
							n++
						}
					}
					if a == ps[0] || (a.op == "list" || a.op == "vec") && len(a.args) == 1 && a.args[0] == ps[0] {
						n++
					}
				}
				return n == 1 && len(t.args) == 2
			}
			for _, ev := range flatten(q.st.events) {
				switch {
				case ev.kind == "loop":
					weird = true
				case ev.kind == "mapset":
					weird = true
				case ev.kind == "store" && ev.addr.op == "idxaddr" && ev.addr.args[0].op == "alloc":
					elems[ev.addr.args[0]] = append(elems[ev.addr.args[0]], ev.Event.val)
				case ev.kind == "store" && ev.addr.op == "fieldaddr" && ev.addr.args[0].op == "alloc":
					if whole(ev.Event.val) {
						fresh[ev.addr.aux] = ev.Event.val
					}
				case ev.kind == "store" && ev.addr.op == "alloc":
				case ev.kind == "store" && ev.addr.op == "fieldaddr":
					at = ev.Event
					v = ev.Event.val
					k := ev.addr.aux
					dup := false
					for _, x := range fields {
						dup = dup || x == k
					}
					if !dup {
						fields = append(fields, k)
					}
				case ev.kind == "store":
					weird = true
				}
			}
			switch {
			case weird:
				c.und("option-set", name, "the option does more than set a field")
			case len(fields) == 0 && setAlready(q.st.facts, whole):
				c.ok("option-set")
			case len(fields) == 0:
				c.bad("option-set", name, f.Pos(), "the option sets nothing on some path")
			case len(fields) > 1:
				c.bad("option-set", name, at.pos, "the option sets %s", strings.Join(fields, " and "))
			default:
				sv := strip(v)
				good := whole(sv)
				if !good && sv.op == "alloc" {
					// a view made for the value
					good = len(fresh) > 0
					if !good {
						c.bad("option-set", name, at.pos, "%s is set to something made without exactly the given value", fields[0])
						continue
					}
				}
				switch {
				case good:
					key := n.Obj().Name() + "." + fields[0]
					own := f.Prog.Fset.Position(cl.fn.Pos()).String()
					if prev, ok := sets[key]; ok && (prev[0] != own || last(prev[1]) != last(name)) {
						c.bad("option-set", name, f.Pos(), "sets %s, which %s is for", fields[0], prev[1])
						continue
					}
					sets[key] = [2]string{own, name}
					if !w.everRead(fields[0], cl.fn) {
						c.bad("option-set", name, f.Pos(), "nothing looks at %s: the option has no effect", fields[0])
						continue
					}
					c.ok("option-set")
				case sv.isConst() || sv.isNil() || sv.op == "not" || sv.op == "call" || sv.op == "bin" || sv.op == "lin" || sv.op == "concat" || isZeroTerm(sv):
					c.bad("option-set", name, at.pos, "%s is set to %s instead of the given value", fields[0], brief(v))
				default:
					c.und("option-set", name, "%s is set to %s", fields[0], brief(v))
				}
			}
		}
	}
}

// everRead: some code other than options looks at a field of that name.
func (w *World) everRead(fl string, but *ssa.Function) bool {
	for _, f := range w.fns {
		if f == but || f.Pkg == nil && f.Origin() == nil {
			continue
		}
		if p := f.Parent(); p != nil && p.Signature.Results().Len() == 1 && w.optTarget(p.Signature.Results().At(0).Type()) != nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					st, ok := derefT(x.X.Type()).Underlying().(*types.Struct)
					if !ok || st.Field(x.Field).Name() != fl {
						continue
					}
					for _, r := range *x.Referrers() {
						if s, ok := r.(*ssa.Store); !ok || s.Addr != x {
							return true
						}
					}
				case *ssa.Field:
					if st, ok := x.X.Type().Underlying().(*types.Struct); ok && st.Field(x.Field).Name() == fl {
						return true
					}
				}
			}
		}
	}
	return false
}

// setAlready: the path knows that a field equals the given value already.
func setAlready(facts *Fact, whole func(*Term) bool) bool {
	for f := facts; f != nil; f = f.up {
		if !f.pol || f.atom.op != "eq" {
			continue
		}
		for i, x := range f.atom.args {
			if x.op == "load" && x.args[0].op == "fieldaddr" && whole(f.atom.args[1-i]) {
				return true
			}
		}
	}
	return false
}
