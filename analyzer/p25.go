package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P05", p05)
	register("P06", p06)
	register("P07", p07)
}

// loc is what a lookup yields on one path: the call whose result says
// "matched" or "partially matched", or nothing.
type loc struct {
	call                       *Term
	ev                         *Event
	matched, pm, child, parent *Term
	inLoop                     bool
}

// lookups on a path, in order (loop bodies included).
func (w *World) lookups(e *Engine, o *Outcome) (all []*loc) {
	allEvents(o.st.events, func(ev *Event, lp *LoopEv) {
		if ev.kind == "call" && ev.fn != nil && w.isLookupOp(ev.fn) {
			rs := ev.fn.Signature.Results()
			g := func(i int) *Term {
				return e.ts.mk("res", []string{"0", "1", "2", "3"}[i], rs.At(i).Type(), ev.res)
			}
			all = append(all, &loc{ev.res, ev, g(0), g(1), g(2), g(3), lp != nil})
		}
	})
	return
}

// located: the lookup that produced a node on this path (nil: none did);
// sure is false when the path does not settle it.
func (w *World) located(e *Engine, o *Outcome) (l *loc, sure bool) {
	sure = true
	for _, x := range w.lookups(e, o) {
		m, mk := e.decide(o.st.facts, x.matched)
		p, pk := e.decide(o.st.facts, x.pm)
		if mk && m || pk && p {
			l = x
			sure = true
			continue
		}
		if !(mk && pk) && l == nil && !x.inLoop {
			// some operation used the result without testing it
			l, sure = x, false
		}
	}
	return
}

// exact: +1 the path found the very node, -1 it did not, 0 not settled.
func (e *Engine) exact(o *Outcome, l *loc) int {
	if l == nil {
		return -1
	}
	n, nk := e.decide(o.st.facts, e.ts.eq(l.child, e.ts.mk("nil", "", l.child.typ)))
	p, pk := e.decide(o.st.facts, l.pm)
	m, mk := e.decide(o.st.facts, l.matched)
	if nk && n || pk && p {
		return -1
	}
	if mk && !m && pk && !p {
		return -1
	}
	// matched or partially matched implies a node
	if pk && !p && (nk && !n || mk && m) {
		return 1
	}
	return 0
}

// truth of a boolean result under the facts plus an assumption about the
// lookup: exact (found) or not.
func (e *Engine) truth(o *Outcome, l *loc, t *Term, found bool) (val, known bool) {
	f := o.st.facts
	if l != nil {
		nilT := e.ts.eq(l.child, e.ts.mk("nil", "", l.child.typ))
		add := func(a *Term, p bool) {
			if _, ok := e.decide(f, a); !ok {
				a, pp := atomOf(a)
				f = &Fact{a, p == pp, f}
			}
		}
		if found {
			add(nilT, false)
			add(l.pm, false)
			add(l.matched, true)
		}
	}
	return e.decide(f, t)
}

// agree checks ret <=> found on one path; when the path does not settle the
// lookup, both cases are tried.
func (c *Ctx) agree(rule string, e *Engine, o *Outcome, l *loc, name string, ret *Term, pos token.Pos, what string) {
	ex := e.exact(o, l)
	try := func(found bool, extra func(add func(*Term, bool))) {
		f := o.st.facts
		clash := false
		add := func(a *Term, p bool) {
			if v, ok := e.decide(f, a); ok {
				clash = clash || v != p
				return
			}
			at, pp := atomOf(a)
			f = &Fact{at, p == pp, f}
		}
		extra(add)
		if clash {
			return
		}
		v, ok := e.decide(f, ret)
		switch {
		case !ok:
			c.und(rule, name, "%s is %s", what, brief(ret))
		case v != found:
			if found {
				c.bad(rule, name, pos, "%s is false although the key was located exactly", what)
			} else {
				c.bad(rule, name, pos, "%s is true although the key was not located exactly", what)
			}
		default:
			c.ok(rule)
		}
	}
	none := func(add func(*Term, bool)) {}
	switch {
	case l == nil:
		try(false, none)
	case ex == 1:
		try(true, none)
	case ex == -1:
		try(false, none)
	default:
		nilT := e.ts.eq(l.child, e.ts.mk("nil", "", l.child.typ))
		try(true, func(add func(*Term, bool)) { add(l.matched, true); add(nilT, false); add(l.pm, false) })
		try(false, func(add func(*Term, bool)) { add(nilT, false); add(l.pm, true) })
		try(false, func(add func(*Term, bool)) { add(l.matched, false); add(l.pm, false); add(nilT, true) })
	}
}

// branchFact: does the path know whether the located node is a branch?
func (e *Engine) flagFact(facts *Fact, base *Term, flags string, bit int64) (set, known bool) {
	for f := facts; f != nil; f = f.up {
		a := f.atom
		if a.op != "eq" {
			continue
		}
		x, y := a.args[0], a.args[1]
		k, ok := y.constInt()
		if !ok || x.op != "bin" || x.aux != "&" {
			continue
		}
		var m int64
		var v *Term
		for i, q := range x.args {
			if cv, ok := q.constInt(); ok {
				m, v = cv, x.args[1-i]
			}
		}
		if v == nil || m != bit || !isFieldLoad(e.ts.noEpoch(v), e.ts.noEpoch(base), flags) {
			continue
		}
		if k == 0 {
			return !f.pol, true
		}
		if k == bit {
			return f.pol, true
		}
	}
	return
}

// delimEnd: the path's knowledge about "the node's fragment ends with the
// delimiter".
func (e *Engine) delimEnd(w *World, facts *Fact, base *Term) (ends, known bool) {
	r, tr := w.roles(), w.trieRoles()
	nb := e.ts.noEpoch(base)
	for f := facts; f != nil; f = f.up {
		a := e.ts.noEpoch(f.atom)
		if a.op == "eq" {
			var x, y *Term
			if l := a.args[0]; l.op == "lin" && len(l.args) == 2 {
				if k, ok := a.args[1].constInt(); !ok || k != 0 {
					continue
				}
				x, y = l.args[0], l.args[1]
			} else {
				x, y = a.args[0], a.args[1]
			}
			if x.op == "len" && isFieldLoad(x.args[0], nb, r.piece) {
				if k, ok := y.constInt(); ok && k == 0 && f.pol {
					return false, true
				}
			}
			for q := 0; q < 2; q++ {
				x, y = y, x
				_, fl, ok := fieldLoad(y)
				if !ok || fl != tr.delim || x.op != "load" || x.args[0].op != "idxaddr" {
					continue
				}
				sl, ix := x.args[0].args[0], x.args[0].args[1]
				if isFieldLoad(sl, nb, r.piece) && ix == e.ts.linAdd(e.ts.length(sl), e.ts.intc(1), -1, ix.typ) {
					return f.pol, true
				}
			}
		}
		if a.op == "call" && strings.Contains(a.aux, "HasSuffix") {
			return f.pol, true
		}
	}
	return
}

// delimWrong: a rune of the fragment other than the last is compared with the
// delimiter.
func (e *Engine) delimWrong(w *World, facts *Fact, base *Term) bool {
	r, tr := w.roles(), w.trieRoles()
	nb := e.ts.noEpoch(base)
	for f := facts; f != nil; f = f.up {
		a := e.ts.noEpoch(f.atom)
		if a.op != "eq" {
			continue
		}
		d, p := false, false
		walkTerm(a, func(x *Term) bool {
			if _, fl, ok := fieldLoad(x); ok && fl == tr.delim {
				d = true
			}
			if x.op == "load" && x.args[0].op == "idxaddr" && isFieldLoad(x.args[0].args[0], nb, r.piece) {
				sl, ix := x.args[0].args[0], x.args[0].args[1]
				p = p || ix.isConst() || ix.op == "lin" && ix != e.ts.linAdd(e.ts.length(sl), e.ts.intc(1), -1, ix.typ)
			}
			return false
		})
		if d && p {
			return true
		}
	}
	return false
}

// looksAtEnd: some fact of the path depends on the fragment or the key of the
// located node (or on an opaque call that is given the node).
func (e *Engine) looksAtEnd(w *World, facts *Fact, l *loc) bool {
	r := w.roles()
	nb := e.ts.noEpoch(l.child)
	for f := facts; f != nil; f = f.up {
		a := e.ts.noEpoch(f.atom)
		if walkTerm(a, func(x *Term) bool {
			if b, fl, ok := fieldLoad(x); ok && (fl == r.piece || fl == r.key || strings.HasPrefix(fl, r.piece)) && b == nb {
				return true
			}
			if x.op == "call" {
				for _, y := range x.args {
					if y == nb {
						return true
					}
				}
			}
			return false
		}) {
			return true
		}
	}
	return false
}

// readable: is the located node one that a query reports as found?
// +1 yes, -1 no, 0 the path does not say.
func (e *Engine) readable(w *World, o *Outcome, l *loc) int {
	ex := e.exact(o, l)
	if ex != 1 {
		return ex
	}
	leaf, ok := e.flagFact(o.st.facts, l.child, w.roles().flags, w.flagBitC("IsLeaf"))
	if !ok {
		return 0
	}
	if leaf {
		return 1
	}
	ends, ok := e.delimEnd(w, o.st.facts, l.child)
	if !ok {
		return 0
	}
	if ends {
		return 1
	}
	return -1
}

var flagCache = map[*World]map[string]int64{}

func (w *World) flagBitC(m string) int64 {
	if flagCache[w] == nil {
		flagCache[w] = map[string]int64{}
	}
	if v, ok := flagCache[w][m]; ok {
		return v
	}
	v := w.flagBit(m)
	flagCache[w][m] = v
	return v
}

func isNilT(t *Term) bool { return t != nil && (t.isNil() || t.op == "iface" && t.args[0].isNil()) }

func p05(c *Ctx) {
	w := c.w
	r := w.roles()
	c.rule("found-exact", "an existence test answers true exactly when the lookup located the node and the match is not partial")
	c.rule("query-found", "a query reports found exactly for an exactly located node that is a leaf, or a branch whose fragment ends with the delimiter; its error is nil exactly then")
	c.rule("query-value", "the value, description, comment or tag returned is the located node's own field, and the zero value when nothing was located")
	c.rule("query-branch", "the branch result is the located node's own kind")
	c.rule("lookup-root", "lookups start at the tree's root with the tree's delimiter; the caller's pattern-variable map is the one filled")
	c.rule("mode-up", "a second lookup with a shortened key happens only in upward recursive mode")
	c.rule("pattern-vars", "every pattern variable matched is stored in the caller's map, its name taken from the pattern, its value from the key asked for, whenever there is a map")
	c.rule("match-pair", "the recursive match returns a node together with that node's own parent, and descends into children of the node with the same map, context and itself as the parent")
	c.assume = append(c.assume, "a lookup that reports matched or partially matched returns a node")
	c.patternVars()
	c.matchPairs()
	leaf := w.flagBitC("IsLeaf")
	data := w.flagBitC("HasData")
	for _, n := range []*types.Named{w.trieT, w.storeT} {
		for _, nm := range []string{"Has", "Search", "HasPart", "Locate", "Query", "Get", "MustGet", "GetEx", "GetDesc", "GetTag", "GetComment", "MustGetDesc", "MustGetTag", "MustGetComment"} {
			f := w.method(n, nm)
			if f == nil || !declared(f) {
				continue
			}
			c.saw(f)
			name := w.fname(f)
			e := w.viewEngine()
			outs := e.Analyze(f)
			if e.over {
				c.und("found-exact", name, "analysis gave up")
				continue
			}
			never := true
			for _, o := range outs {
				never = never && len(w.lookups(e, o)) == 0
				for _, x := range o.rets {
					if !isZeroTerm(x) && !isNilT(x) {
						if _, ok := x.constBool(); !ok {
							never = false // something not followed answers
						}
					}
				}
				allEvents(o.st.events, func(ev *Event, _ *LoopEv) { never = never && ev.kind != "call" })
			}
			for _, o := range outs {
				if o.panic {
					continue
				}
				all := w.lookups(e, o)
				if len(all) == 0 {
					if kept := w.keptNode(o); kept != nil {
						c.bad("found-exact", name, f.Pos(), "answers from %s instead of looking the key up", brief(kept))
					} else if never {
						c.bad("found-exact", name, f.Pos(), "answers without looking the key up")
					} else {
						c.und("found-exact", name, "no lookup on a path")
					}
					continue
				}
				l, sure := w.located(e, o)
				_ = sure
				c.lookupRoot(e, f, o, all)
				c.upKeys(e, f, o, all, l)
				ret := func(i int) *Term {
					if i < len(o.rets) {
						return o.rets[i]
					}
					return nil
				}
				field := func(fl string) func(*Term) bool {
					return func(t *Term) bool {
						return l != nil && isFieldLoad(e.ts.noEpoch(strip(t)), e.ts.noEpoch(l.child), fl)
					}
				}
				value := func(i int, fl string, rd int) {
					t := ret(i)
					switch {
					case rd == -1 && e.exact(o, l) != 1:
						if isZeroTerm(t) || isNilT(t) {
							c.ok("query-value")
						} else if walkTerm(t, func(x *Term) bool {
							return x.op == "load" && x.args[0].op == "fieldaddr" && isNodePtr(w, x.args[0].args[0].typ)
						}) {
							c.bad("query-value", name, f.Pos(), "returns %s although the key was not located", brief(t))
						} else {
							c.und("query-value", name, "returns %s", brief(t))
						}
					case rd == 1:
						has, ok := e.flagFact(o.st.facts, l.child, r.flags, data)
						z := isZeroTerm(t) || isNilT(t)
						switch {
						case field(fl)(t):
							c.ok("query-value")
						case z && fl == r.data && ok && !has:
							c.ok("query-value")
						case z && fl == r.data && !ok:
							c.bad("query-value", name, f.Pos(), "returns no value for a located node without looking at whether it has one")
						case z:
							c.bad("query-value", name, f.Pos(), "returns the zero value although the located node has its own")
						default:
							if walkTerm(t, func(x *Term) bool {
								return x.op == "load" && x.args[0].op == "fieldaddr" && isNodePtr(w, x.args[0].args[0].typ)
							}) {
								c.bad("query-value", name, f.Pos(), "returns %s instead of the located node's %s", brief(t), fl)
							} else {
								c.und("query-value", name, "returns %s", brief(t))
							}
						}
					}
				}
				foundQ := func(t *Term, isErr bool) {
					rd := e.readable(w, o, l)
					v, ok := false, false
					if isErr {
						if isNilT(t) {
							v, ok = true, true
						} else if t.op == "iface" || t.op == "global" || t.op == "load" && t.args[0].op == "global" {
							v, ok = false, true
						}
					} else {
						v, ok = e.decide(o.st.facts, t)
					}
					if rd == 0 || !ok {
						if rd == -1 || rd == 1 || !ok {
							c.und("query-found", name, "result is %s", brief(t))
							return
						}
						// the path does not look at the node's kind
						if ex := e.exact(o, l); ex == 1 {
							if lf, k := e.flagFact(o.st.facts, l.child, r.flags, leaf); !k || lf {
								c.bad("query-found", name, f.Pos(), "decides found=%v for a located node without looking at its kind", v)
								return
							}
							if e.delimWrong(w, o.st.facts, l.child) {
								c.bad("query-found", name, f.Pos(), "a branch is judged by a rune that is not the last of its fragment")
								return
							}
							if !e.looksAtEnd(w, o.st.facts, l) {
								c.bad("query-found", name, f.Pos(), "decides found=%v for a branch without looking at whether it ends with the delimiter", v)
								return
							}
							c.und("query-found", name, "branch case not recognised")
							return
						}
						c.und("query-found", name, "match state not settled")
						return
					}
					if v != (rd == 1) {
						w2 := "found"
						if isErr {
							w2 = "err == nil"
						}
						c.bad("query-found", name, f.Pos(), "%s is %v on a path where the node is %s", w2, v, map[int]string{1: "located and readable", -1: "not located exactly, or a mere split point"}[rd])
						return
					}
					c.ok("query-found")
				}
				branch := func(t *Term) {
					v, ok := e.decide(o.st.facts, t)
					want := false
					if l != nil && !e.isNilFact(o.st.facts, l.child) {
						if e.exact(o, l) == 1 || nm == "Locate" {
							lf, k := e.flagFact(o.st.facts, l.child, r.flags, leaf)
							if !k {
								// maybe returned as the test itself
								if !ok && walkTerm(t, func(x *Term) bool { return isFieldLoad(e.ts.noEpoch(x), e.ts.noEpoch(l.child), r.flags) }) {
									at, pol := atomOf(t)
									if s, kk := e.flagFact(&Fact{at, true, nil}, l.child, r.flags, leaf); kk {
										if s != pol {
											c.ok("query-branch")
										} else {
											c.bad("query-branch", name, f.Pos(), "the branch result is inverted")
										}
										return
									}
								}
								if e.exact(o, l) == 1 && (ok || !walkTerm(t, func(x *Term) bool {
									_, fl, isf := fieldLoad(x)
									return x.op == "call" && !mentionsT(l.child, x) || x.op == "loopvar" || isf && fl == r.flags
								})) {
									c.bad("query-branch", name, f.Pos(), "the branch result does not depend on the kind of the located node")
									return
								}
								c.und("query-branch", name, "kind not tested")
								return
							}
							want = !lf
						}
					}
					if !ok {
						c.und("query-branch", name, "branch is %s", brief(t))
						return
					}
					if v != want {
						c.bad("query-branch", name, f.Pos(), "branch is %v for a node whose kind says %v", v, want)
						return
					}
					c.ok("query-branch")
				}
				rd := e.readable(w, o, l)
				switch nm {
				case "Has", "Search":
					c.agree("found-exact", e, o, l, name, ret(0), f.Pos(), "the result")
				case "HasPart":
					if l == nil || e.exact(o, l) == 1 {
						c.agree("found-exact", e, o, l, name, ret(0), f.Pos(), "the result")
					} else {
						c.ok("found-exact")
					}
				case "Locate":
					c.agree("found-exact", e, o, l, name, ret(3), f.Pos(), "found")
					t := strip(ret(0))
					switch {
					case l == nil && !isNilT(ret(0)):
						c.bad("query-value", name, f.Pos(), "returns a node although nothing was located")
					case l != nil && e.isNilFact(o.st.facts, l.child) && !isNilT(ret(0)) && ret(0).op == "iface":
						c.bad("query-value", name, f.Pos(), "wraps a nil node into a non-nil interface")
					case l != nil && !e.isNilFact(o.st.facts, l.child) && !isNilT(t) && t != l.child && isNodePtr(w, t.typ):
						c.bad("query-value", name, f.Pos(), "returns %s instead of the located node", brief(t))
					case l != nil && e.exact(o, l) == 1 && isNilT(ret(0)):
						c.bad("query-value", name, f.Pos(), "returns no node although one was located")
					default:
						c.ok("query-value")
					}
					branch(ret(1))
					if l == nil {
						if v, ok := ret(2).constBool(); ok && v {
							c.bad("found-exact", name, f.Pos(), "partial match reported although nothing was located")
						}
					} else if v, ok := e.decide(o.st.facts, ret(2)); ok {
						if p, k := e.decide(o.st.facts, l.pm); k && p != v {
							c.bad("found-exact", name, f.Pos(), "the partial-match result contradicts the lookup")
						} else if !k {
							c.bad("found-exact", name, f.Pos(), "the partial-match result does not come from the lookup")
						} else {
							c.ok("found-exact")
						}
					} else if ret(2) == l.pm {
						c.ok("found-exact")
					}
				case "Query":
					foundQ(ret(2), false)
					foundQ(ret(3), true)
					branch(ret(1))
					value(0, r.data, rd)
				case "Get":
					foundQ(ret(1), false)
					value(0, r.data, rd)
				case "MustGet":
					value(0, r.data, rd)
				case "GetDesc", "GetTag", "GetComment":
					foundQ(ret(1), true)
					fl := map[string]string{"GetDesc": r.desc, "GetTag": r.tag, "GetComment": r.comment}[nm]
					value(0, fl, rd)
				case "MustGetDesc", "MustGetTag", "MustGetComment":
					fl := map[string]string{"MustGetDesc": r.desc, "MustGetTag": r.tag, "MustGetComment": r.comment}[nm]
					value(0, fl, rd)
				case "GetEx":
					c.getEx(e, f, o, l, rd)
				}
			}
		}
	}
}

func (e *Engine) isNilFact(f *Fact, t *Term) bool {
	v, ok := e.decide(f, e.ts.eq(t, e.ts.mk("nil", "", t.typ)))
	return ok && v
}

// getEx: the callback runs exactly for a readable node, with that node, its
// value, kind and pattern variables.
func (c *Ctx) getEx(e *Engine, f *ssa.Function, o *Outcome, l *loc, rd int) {
	w := c.w
	name := w.fname(f)
	r := w.roles()
	var cbs []*Event
	cb := e.ts.mk("param", pname(f.Params[2], 2), f.Params[2].Type())
	allEvents(o.st.events, func(ev *Event, _ *LoopEv) {
		if ev.kind == "call" && ev.val == cb {
			cbs = append(cbs, ev)
		}
	})
	if e.isNilFact(o.st.facts, cb) {
		return
	}
	switch {
	case rd == 0:
		c.und("query-found", name, "match state not settled")
	case rd == -1 && len(cbs) > 0:
		c.bad("query-found", name, cbs[0].pos, "the callback runs although the key was not found")
	case rd == 1 && len(cbs) != 1:
		c.bad("query-found", name, f.Pos(), "the callback runs %d times for a found key", len(cbs))
	case rd == 1:
		ev := cbs[0]
		if strip(ev.args[0]) != l.child {
			c.bad("query-value", name, ev.pos, "the callback gets %s instead of the located node", brief(ev.args[0]))
			return
		}
		c.ok("query-found")
		d := strip(ev.args[1])
		has, ok := e.flagFact(o.st.facts, l.child, r.flags, w.flagBitC("HasData"))
		if !isFieldLoad(e.ts.noEpoch(d), e.ts.noEpoch(l.child), r.data) && !(isZeroTerm(ev.args[1]) && ok && !has) {
			c.bad("query-value", name, ev.pos, "the callback gets the value %s", brief(d))
		} else {
			c.ok("query-value")
		}
		if v, k := e.decide(o.st.facts, ev.args[2]); k {
			lf, kk := e.flagFact(o.st.facts, l.child, r.flags, w.flagBitC("IsLeaf"))
			if kk && v == lf {
				c.bad("query-branch", name, ev.pos, "the callback gets branch=%v", v)
			} else {
				c.ok("query-branch")
			}
		}
		kv := l.ev.args[len(l.ev.args)-1]
		if isNilT(kv) {
			c.bad("lookup-root", name, ev.pos, "the lookup is not given the map of pattern variables the callback gets")
		} else if ev.args[3] != kv && !isNilT(ev.args[3]) {
			c.und("lookup-root", name, "callback variables %s", brief(ev.args[3]))
		} else if ev.args[3] != kv {
			c.bad("lookup-root", name, ev.pos, "the callback does not get the pattern variables")
		} else {
			c.ok("lookup-root")
		}
	default:
		c.ok("query-found")
	}
}

// keptNode: a node the tree keeps besides its root, on which the answer depends.
func (w *World) keptNode(o *Outcome) (kept *Term) {
	tr := w.trieRoles()
	see := func(t *Term) {
		if t == nil {
			return
		}
		walkTerm(t, func(x *Term) bool {
			if b, fl, ok := fieldLoad(x); ok && fl != tr.root && x.typ != nil && isNodePtr(w, x.typ) && isRecvOfT(b.typ, w.trieT) {
				kept = x
			}
			return kept != nil
		})
	}
	for x := o.st.facts; x != nil; x = x.up {
		see(x.atom)
	}
	for _, t := range o.rets {
		see(t)
	}
	return
}

// lookupRoot: lookups start at the root, with the tree's delimiter in the
// match context and the caller's variable map; a retry needs upward mode.
func (c *Ctx) lookupRoot(e *Engine, f *ssa.Function, o *Outcome, all []*loc) {
	w := c.w
	name := w.fname(f)
	tr := w.trieRoles()
	for i, l := range all {
		a0 := e.ts.noEpoch(l.ev.args[0])
		if b, fl, ok := fieldLoad(a0); !ok || fl != tr.root || !isRecvOfT(b.typ, w.trieT) && !isTrieIface(w, b) {
			c.und("lookup-root", name, "lookup on %s", brief(l.ev.args[0]))
			continue
		}
		c.ok("lookup-root")
		// the delimiter of the match context
		for _, a := range l.ev.args[1:] {
			n := namedOf(a.typ)
			if a.isNil() || a.typ == nil || n == nil || !isWs(pkgPathOf(n)) || isNodePtr(w, a.typ) {
				continue
			}
			if _, ok := n.Underlying().(*types.Struct); !ok {
				continue
			}
			var last *Event
			done, other := false, false
			allEvents(o.st.events, func(ev *Event, _ *LoopEv) {
				done = done || ev == l.ev
				if !done && ev.kind == "store" && ev.addr.op == "fieldaddr" && ev.addr.args[0] != a && isRuneT(derefT(ev.addr.typ)) && namedOf(ev.addr.args[0].typ) == n {
					if _, fl, ok := fieldLoad(ev.val); ok && fl == tr.delim {
						other = true // set under another name
					}
				}
				if !done && ev.kind == "store" && ev.addr.op == "fieldaddr" && ev.addr.args[0] == a && isRuneT(derefT(ev.addr.typ)) {
					last = ev
				}
			})
			if last == nil && other {
				c.und("lookup-root", name, "the match context is not recognised")
			} else if last == nil {
				c.bad("lookup-root", name, l.ev.pos, "the lookup runs without the tree's delimiter")
			} else if _, fl, ok := fieldLoad(last.val); ok && fl == tr.delim {
				c.ok("lookup-root")
			} else if last.val.isConst() {
				c.bad("lookup-root", name, last.pos, "the lookup uses the delimiter %s instead of the tree's", brief(last.val))
			} else {
				c.und("lookup-root", name, "delimiter %s", brief(last.val))
			}
		}
		// pattern variables
		for pi, p := range f.Params {
			if _, ok := p.Type().Underlying().(*types.Map); ok {
				kv := e.ts.mk("param", pname(p, pi), p.Type())
				allEvents(o.st.events, func(ev *Event, _ *LoopEv) {
					if ev.kind == "delete" && ev.addr == kv {
						c.bad("lookup-root", name, ev.pos, "pattern variables are taken out of the caller's map")
					}
				})
				got := l.ev.args[len(l.ev.args)-1]
				if got == kv {
					c.ok("lookup-root")
				} else if isNilT(got) {
					c.bad("lookup-root", name, l.ev.pos, "the caller's pattern-variable map is not handed to the lookup")
				} else if got.op == "makemap" && e.nilState(l.ev.facts, kv) != 1 {
					c.bad("lookup-root", name, l.ev.pos, "the pattern variables go to a map of the lookup's own although the caller may have given one")
				} else {
					c.und("lookup-root", name, "pattern variables go to %s", brief(got))
				}
			}
		}
		if i > 0 && l.ev.in != all[0].ev.in {
			continue
		}
		if i > 0 {
			up := w.constOf(w.radix, "RecusiveUp")
			okm := false
			for g := l.ev.facts; g != nil; g = g.up {
				if g.pol && g.atom.op == "eq" {
					if _, fl, k := fieldLoad(e.ts.noEpoch(g.atom.args[0])); k && fl == tr.mode {
						if v, isC := g.atom.args[1].constInt(); isC {
							okm = v == up
						}
					}
				}
			}
			if okm {
				c.ok("mode-up")
			} else {
				c.bad("mode-up", name, l.ev.pos, "a second lookup runs without the upward recursive mode being on")
			}
		}
	}
}

// upKeys: in upward mode a key that is not found is asked for again without
// the part before its last, as long as more than two parts are left.
func (c *Ctx) upKeys(e *Engine, f *ssa.Function, o *Outcome, all []*loc, l *loc) {
	w := c.w
	name := w.fname(f)
	tr := w.trieRoles()
	up := w.constOf(w.radix, "RecusiveUp")
	on := false
	for g := o.st.facts; g != nil; g = g.up {
		if g.pol && g.atom.op == "eq" {
			if _, fl, k := fieldLoad(e.ts.noEpoch(g.atom.args[0])); k && fl == tr.mode {
				if v, isC := g.atom.args[1].constInt(); isC && v == up {
					on = true
				}
			}
		}
	}
	if !on || len(all) < 2 {
		return
	}
	allLoops(o.st.events, func(lp *LoopEv) {
		for _, b := range lp.bodies {
			allEvents(b.events, func(ev *Event, _ *LoopEv) {
				for _, x := range all {
					if x.ev.res != ev.res || ev.res == nil {
						continue
					}
					m, mk := e.decide(b.facts, x.matched)
					p, pk := e.decide(b.facts, x.pm)
					if !mk || !pk || m || p {
						c.bad("mode-up", name, ev.pos, "a shortened key that matches, or matches in part, may be passed over")
					} else {
						c.ok("mode-up")
					}
				}
			})
		}
	})
	isDelim := func(t *Term) bool {
		return walkTerm(e.ts.noEpoch(t), func(y *Term) bool { _, fl, k := fieldLoad(y); return k && fl == tr.delim })
	}
	var parts *Term
	for i, x := range all {
		if i == 0 || x.ev.in != all[0].ev.in {
			continue
		}
		var key *Term
		for _, a := range x.ev.args[1:] {
			if a.op == "conv" && walkTerm(a, func(y *Term) bool { return y.op == "call" && strings.HasPrefix(y.aux, "strings.Join") }) {
				key = e.ts.noEpoch(a.args[0])
			}
		}
		if key == nil || key.op != "call" || len(key.args) != 2 {
			c.und("mode-up", name, "shortened key not recognised")
			return
		}
		lst := key.args[0]
		isSplit := func(t *Term) bool {
			return t.op == "call" && strings.HasPrefix(t.aux, "strings.Split") && len(t.args) == 2
		}
		switch {
		case !isDelim(key.args[1]):
			c.bad("mode-up", name, x.ev.pos, "the shortened key is not joined with the tree's delimiter")
			return
		case lst.op == "append" && len(lst.args) == 2 && lst.args[0].op == "slice" && isSplit(lst.args[0].args[0]):
			S := lst.args[0].args[0]
			parts = S
			n := e.ts.length(S)
			lo, hi, last := lst.args[0].args[1], lst.args[0].args[2], lst.args[1]
			if last.op == "vec" && len(last.args) == 1 {
				last = last.args[0]
			}
			okLast := last.op == "load" && last.args[0].op == "idxaddr" && last.args[0].args[0] == S && last.args[0].args[1] == e.ts.linAdd(n, e.ts.intc(1), -1, n.typ)
			okHi := hi == e.ts.linAdd(n, e.ts.intc(2), -1, n.typ)
			if (lo.op == "none" || isZeroTerm(lo)) && okHi && okLast && isDelim(S.args[1]) {
				c.ok("mode-up")
			} else {
				c.bad("mode-up", name, x.ev.pos, "the shortened key is %s, not the key without the part before its last", brief(key))
				return
			}
		case lst.op == "slice" && isSplit(lst.args[0]):
			c.bad("mode-up", name, x.ev.pos, "the shortened key is %s, not the key without the part before its last", brief(key))
			return
		default:
			c.und("mode-up", name, "shortened key is %s", brief(key))
			return
		}
	}
	if l != nil || parts == nil {
		return
	}
	// given up: no more than two parts may be left
	var seen, more bool
	for g := o.st.facts; g != nil; g = g.up {
		walkTerm(e.ts.noEpoch(g.atom), func(y *Term) bool {
			if y.op == "len" && y.args[0].op == "call" && strings.HasPrefix(y.args[0].aux, "strings.Split") {
				seen = true
				if v, ok := e.decide(o.st.facts, e.ts.lt(e.ts.intc(2), y)); !ok || v {
					if f2 := g; f2.atom.op == "lt" || f2.atom.op == "eq" {
						more = true
					}
				}
			}
			return false
		})
	}
	switch {
	case !seen:
		c.und("mode-up", name, "end of the shortening not recognised")
	case more:
		c.bad("mode-up", name, f.Pos(), "the search is given up although the key has more parts to leave out")
	default:
		c.ok("mode-up")
	}
}

func pkgPathOf(n *types.Named) string {
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path()
}

func isRuneT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func isRecvOfT(t types.Type, n *types.Named) bool {
	m := namedOf(t)
	return m != nil && m.Obj() == n.Obj()
}

// isTrieIface: the embedded tree of a store.
func isTrieIface(w *World, b *Term) bool {
	_, fl, ok := fieldLoad(b)
	return ok && fl == w.storeTrie()
}

func (w *World) constOf(p *types.Package, name string) int64 {
	if cst, ok := p.Scope().Lookup(name).(*types.Const); ok {
		if v, ok := constInt64(cst); ok {
			return v
		}
	}
	return -1
}

// ---- removal ----

func p06(c *Ctx) {
	w := c.w
	r := w.roles()
	c.rule("removes-it", "removal takes exactly the located node out of its parent's children, and writes no other node")
	c.rule("removed-flag", "the result says removed exactly when a child was taken out, and names that node and its parent")
	c.rule("not-found", "nothing is removed unless the key was located exactly")
	for _, n := range []*types.Named{w.trieT, w.storeT} {
		for _, nm := range []string{"Remove", "RemoveEx"} {
			f := w.method(n, nm)
			if f == nil || !declared(f) {
				continue
			}
			c.saw(f)
			name := w.fname(f)
			e := w.viewEngine()
			outs := e.Analyze(f)
			if e.over {
				c.und("removes-it", name, "analysis gave up")
				continue
			}
			for _, o := range outs {
				if o.panic {
					continue
				}
				l, _ := w.located(e, o)
				ex := e.exact(o, l)
				removed, rk := e.decide(o.st.facts, o.rets[len(o.rets)-1])
				var cuts []*Event
				stop := false
				allEvents(o.st.events, func(ev *Event, lp *LoopEv) {
					if ev.kind == "call" && ev.fn != nil && w.isInsertOp(ev.fn) {
						c.bad("removes-it", name, ev.pos, "removal inserts")
					}
					if ev.kind != "store" || ev.addr.op != "fieldaddr" || !isNodePtr(w, ev.addr.args[0].typ) {
						return
					}
					if ev.addr.aux == r.lock {
						return
					}
					if ev.addr.aux != r.children {
						if l == nil || ev.addr.args[0] != l.child {
							c.bad("removes-it", name, ev.pos, "removal writes %s of %s", ev.addr.aux, brief(ev.addr.args[0]))
						}
						return
					}
					if lp != nil {
						// a write in the loop body of the search for the child
						stop = true
					}
					cuts = append(cuts, ev)
				})
				if stop {
					c.und("removes-it", name, "children rewritten inside a loop")
					continue
				}
				if len(cuts) > 0 && ex != 1 {
					if ex == -1 {
						c.bad("not-found", name, cuts[0].pos, "a node is removed although the key was not located exactly")
					} else {
						c.bad("not-found", name, cuts[0].pos, "a node is removed without testing that the match is exact")
					}
					continue
				}
				c.ok("not-found")
				did := false
				und := false
				for _, ev := range cuts {
					if ev.addr.args[0] != l.parent {
						if ev.addr.args[0] == l.child && isZeroTerm(ev.val) {
							continue
						}
						c.bad("removes-it", name, ev.pos, "children of %s are rewritten, not those of the located node's parent", brief(ev.addr.args[0]))
						continue
					}
					did = true
					switch c.cutOut(e, o, ev, l.child) {
					case 1:
						c.ok("removes-it")
					case -1:
						c.bad("removes-it", name, ev.pos, "the parent's children become %s, which is not the list without the located node", brief(ev.val))
					default:
						und = true
						c.und("removes-it", name, "children become %s", brief(ev.val))
					}
				}
				// a path that saw the child among the parent's children must cut it
				if !did && ex == 1 && !e.isNilFact(o.st.facts, l.parent) && e.sawChild(o.st.facts, l, r.children) {
					c.bad("removes-it", name, f.Pos(), "the located node is seen among its parent's children and left there")
				}
				if !did && !und && ex == 1 && !e.isNilFact(o.st.facts, l.parent) && !e.isNilFact(o.st.facts, l.child) {
					looks := false
					kids := func(t *Term) bool {
						return t != nil && walkTerm(t, func(y *Term) bool {
							return isFieldLoad(e.ts.noEpoch(y), e.ts.noEpoch(l.parent), r.children)
						})
					}
					for g := o.st.facts; g != nil; g = g.up {
						looks = looks || kids(g.atom)
					}
					allEvents(o.st.events, func(ev *Event, _ *LoopEv) {
						for _, a := range ev.args {
							looks = looks || ev.kind == "call" && !ev.sureFn(w) && (kids(a) || strip(a) == l.parent)
						}
					})
					allLoops(o.st.events, func(lp *LoopEv) {
						if cv := e.loopCoverX(lp, true); cv.known && kids(cv.slice) {
							looks = true
						}
					})
					if !looks {
						c.bad("removes-it", name, f.Pos(), "the located node is left in the tree without its parent's children being looked at (%s)", brief(o.st.facts.atom))
					}
				}
				if !rk {
					c.und("removed-flag", name, "removed is %s", brief(o.rets[len(o.rets)-1]))
					continue
				}
				if removed != did {
					if !und {
						c.bad("removed-flag", name, f.Pos(), "removed is %v on a path where the tree was %s", removed, map[bool]string{true: "cut", false: "not cut"}[did])
					}
					continue
				}
				c.ok("removed-flag")
				if nm == "RemoveEx" {
					a, b := strip(o.rets[0]), strip(o.rets[1])
					if removed {
						if a != l.child || b != l.parent {
							c.bad("removed-flag", name, f.Pos(), "returns %s and %s instead of the removed node and its parent", brief(a), brief(b))
						} else {
							c.ok("removed-flag")
						}
					} else if !isNilT(o.rets[0]) {
						c.bad("removed-flag", name, f.Pos(), "returns a node although nothing was removed")
					}
				}
				// the loop looking for the child must reach every child
				if ex == 1 && !did && !e.isNilFact(o.st.facts, l.parent) {
					for _, ev := range o.st.events {
						if ev.kind != "loop" {
							continue
						}
						cv := e.loopCoverX(ev.loop, true)
						if cv.known && e.isSame(cv.slice, e.ts.mk("load", "", nil, e.ts.mk("fieldaddr", r.children, nil, l.parent))) || cv.known && isFieldLoad(e.ts.noEpoch(cv.slice), e.ts.noEpoch(l.parent), r.children) {
							if skip := e.skipsMatch(ev.loop, l, r.children); skip {
								c.bad("removes-it", name, ev.pos, "the search goes on although the located node was met")
							} else if cv.full {
								c.ok("removes-it")
							} else {
								c.bad("removes-it", name, ev.pos, "the search for the child %s", cv.why)
							}
						}
					}
				}
			}
		}
	}
}

// sureFn: a call that only locks or logs.
func (ev *Event) sureFn(w *World) bool {
	if ev.fn == nil || pkgOf(ev.fn) == nil {
		return false
	}
	p := pkgOf(ev.fn).Path()
	return strings.HasPrefix(p, "sync") || strings.Contains(p, "logg") || strings.Contains(p, "logz") || strings.Contains(p, "slog")
}

func (e *Engine) sawChild(facts *Fact, l *loc, children string) bool {
	for f := facts; f != nil; f = f.up {
		if f.pol && f.atom.op == "eq" {
			for i := range f.atom.args {
				if f.atom.args[i] == l.child {
					x := e.ts.noEpoch(f.atom.args[1-i])
					if x.op == "load" && x.args[0].op == "idxaddr" && isFieldLoad(x.args[0].args[0], e.ts.noEpoch(l.parent), children) {
						return true
					}
				}
			}
		}
	}
	return false
}

// skipsMatch: an iteration that met the child continues without recording
// where.
func (e *Engine) skipsMatch(lp *LoopEv, l *loc, children string) bool {
	for _, b := range lp.bodies {
		if !e.sawChild(b.facts, l, children) || len(b.events) > 0 {
			continue
		}
		rec := 0
		for _, v := range lp.vars {
			for _, x := range e.loopIn[v.id] {
				if !x.isConst() && !contains(x, v) && x != v {
					rec++
				}
				if x.isConst() {
					if t, ok := x.constBool(); ok && t {
						rec++
					}
				}
			}
		}
		if rec == 0 {
			return true
		}
	}
	return false
}

// cutOut: is the stored list the old one minus item? 1 yes, -1 no, 0 unknown.
func (c *Ctx) cutOut(e *Engine, o *Outcome, ev *Event, item *Term) int {
	r := c.w.roles()
	v := e.ts.noEpoch(ev.val)
	parent := e.ts.noEpoch(ev.addr.args[0])
	isS := func(t *Term) bool { return isFieldLoad(t, parent, r.children) }
	var idx *Term
	matchAt := func(i *Term) bool {
		for f := o.st.facts; f != nil; f = f.up {
			if f.pol && f.atom.op == "eq" {
				for k := range f.atom.args {
					x := e.ts.noEpoch(f.atom.args[1-k])
					if e.ts.noEpoch(f.atom.args[k]) == e.ts.noEpoch(item) && x.op == "load" && x.args[0].op == "idxaddr" && isS(x.args[0].args[0]) && x.args[0].args[1] == i {
						return true
					}
				}
			}
		}
		// i := slices.Index(children, item)
		if i.op == "call" && strings.Contains(i.aux, "slices.Index") && len(i.args) == 2 && isS(i.args[0]) && e.ts.noEpoch(i.args[1]) == e.ts.noEpoch(item) {
			return true
		}
		return false
	}
	zero := func(t *Term) bool {
		if t.op == "none" {
			return true
		}
		k, ok := t.constInt()
		return ok && k == 0
	}
	switch {
	case v.op == "append" && len(v.args) == 2 && v.args[0].op == "slice" && v.args[1].op == "spread" && v.args[1].args[0].op == "slice":
		a, b := v.args[0], v.args[1].args[0]
		if !isS(a.args[0]) || !isS(b.args[0]) {
			return 0
		}
		if !zero(a.args[1]) || a.args[2].op == "none" {
			return -1
		}
		if !(b.args[2].op == "none" || b.args[2] == e.ts.length(b.args[0])) {
			return -1
		}
		idx = a.args[2]
		if e.ts.linAdd(b.args[1], idx, -1, idx.typ) != e.ts.intc(1) {
			return -1
		}
		if !matchAt(idx) {
			if idx.op == "call" || idx.op == "res" || idx.op == "loopvar" {
				return 0
			}
			return -1
		}
		return 1
	case v.op == "call" && strings.Contains(v.aux, "slices.Delete") && !strings.Contains(v.aux, "Func") && len(v.args) == 3:
		if !isS(v.args[0]) {
			return 0
		}
		if e.ts.linAdd(v.args[2], v.args[1], -1, v.args[1].typ) != e.ts.intc(1) {
			return -1
		}
		if !matchAt(v.args[1]) {
			return 0
		}
		return 1
	case isZeroTerm(v), v.op == "nil":
		// dropping the whole list is right only when it had one element
		return -1
	case v.op == "slice" && isS(v.args[0]):
		moved, bad := false, false
		allEvents(o.st.events, func(x *Event, lp *LoopEv) {
			switch {
			case x.kind == "copy", x.kind == "loop":
				moved = true
			case x.kind == "store" && x.addr.op == "idxaddr":
				moved = true
				a := e.ts.noEpoch(x.addr)
				if lp != nil || !isS(a.args[0]) {
					return
				}
				y := e.ts.noEpoch(x.val)
				// another child put in the place of the removed one: the
				// siblings do not stay in order
				if matchAt(a.args[1]) && y.op == "load" && y.args[0].op == "idxaddr" && isS(y.args[0].args[0]) {
					bad = true
				}
			}
		})
		if bad {
			return -1
		}
		if moved {
			return 0
		}
		return -1
	}
	return 0
}

// ---- metadata ----

// bitEffect describes what v does to one bit of old: "0" "1" "keep" "flip" or
// "" (unknown).
func (e *Engine) bitEffect(v *Term, isOld func(*Term) bool, bit int64) string {
	v = e.ts.noEpoch(v)
	if isOld(v) {
		return "keep"
	}
	if k, ok := v.constInt(); ok {
		if k&bit != 0 {
			return "1"
		}
		return "0"
	}
	if v.op == "conv" || v.op == "chtype" {
		return e.bitEffect(v.args[0], isOld, bit)
	}
	if v.op == "un" && v.aux == "^" || v.op == "bin" {
		var x []string
		for _, a := range v.args {
			x = append(x, e.bitEffect(a, isOld, bit))
		}
		return bitOp(v.aux, x)
	}
	return ""
}

func bitOp(op string, x []string) string {
	if len(x) == 1 {
		return map[string]string{"0": "1", "1": "0", "keep": "flip", "flip": "keep"}[x[0]]
	}
	a, b := x[0], x[1]
	if a == "" || b == "" {
		return ""
	}
	inv := map[string]string{"0": "1", "1": "0", "keep": "flip", "flip": "keep"}
	if op == "&^" {
		b, op = inv[b], "&"
	}
	switch op {
	case "&":
		switch {
		case a == "0" || b == "0":
			return "0"
		case a == "1":
			return b
		case b == "1":
			return a
		case a == b:
			return a
		default:
			return "0"
		}
	case "|":
		switch {
		case a == "1" || b == "1":
			return "1"
		case a == "0":
			return b
		case b == "0":
			return a
		case a == b:
			return a
		default:
			return "1"
		}
	case "^":
		switch {
		case a == "0":
			return b
		case b == "0":
			return a
		case a == "1":
			return inv[b]
		case b == "1":
			return inv[a]
		case a == b:
			return "0"
		default:
			return "1"
		}
	}
	return ""
}

func p07(c *Ctx) {
	w := c.w
	r := w.roles()
	c.rule("fields-distinct", "the accessors of value, description, comment, tag and key read five different fields")
	c.rule("setter-exact", "a node's setter writes exactly the fields it is named for, with the given values, and leaves every other flag and field alone")
	c.rule("meta-exact", "setting description/comment/tag through the tree writes those fields of the exactly located node, nothing otherwise, and reports success exactly then")
	c.rule("setnode-all", "setting a node at once stores the given value, tag, description and comment into the node it inserted")
	fs := map[string]string{}
	for k, v := range map[string]string{"Data": r.data, "Description": r.desc, "Comment": r.comment, "Tag": r.tag, "Key": r.key} {
		if v == "" {
			c.und("fields-distinct", k, "field not recognised")
			continue
		}
		if o, dup := fs[v]; dup {
			c.bad("fields-distinct", "accessors", w.method(w.nodeT, k).Pos(), "%s and %s read the same field %s", k, o, v)
		}
		fs[v] = k
		c.ok("fields-distinct")
	}
	bits := map[string]int64{"leaf": w.flagBitC("IsLeaf"), "data": w.flagBitC("HasData"), "modified": w.flagBitC("Modified")}
	type spec struct {
		fields map[string]int // field -> parameter index, -1 zero
		bit    string         // flag touched
		eff    func(o *Outcome, e *Engine, f *ssa.Function) string
		opt    map[string]string // further allowed flag effects
	}
	konst := func(s string) func(*Outcome, *Engine, *ssa.Function) string {
		return func(*Outcome, *Engine, *ssa.Function) string { return s }
	}
	specs := map[string]spec{
		"SetComment":     {fields: map[string]int{r.desc: 1, r.comment: 2}},
		"SetTag":         {fields: map[string]int{r.tag: 1}},
		"SetData":        {fields: map[string]int{r.data: 1}, bit: "data", eff: konst("1")},
		"SetEmpty":       {fields: map[string]int{r.data: -1, r.tag: -1}},
		"ToggleModified": {bit: "modified", eff: konst("flip")},
		"ResetModified":  {bit: "modified", eff: konst("0")},
		"SetModified": {bit: "modified", eff: func(o *Outcome, e *Engine, f *ssa.Function) string {
			p := e.ts.mk("param", pname(f.Params[1], 1), f.Params[1].Type())
			v, ok := e.decide(o.st.facts, p)
			if !ok {
				return "?"
			}
			if v {
				return "1"
			}
			return "0"
		}},
	}
	for _, nm := range []string{"SetComment", "SetTag", "SetData", "SetEmpty", "SetModified", "ToggleModified", "ResetModified"} {
		sp := specs[nm]
		f := w.method(w.nodeT, nm)
		if f == nil {
			continue
		}
		c.saw(f)
		name := w.fname(f)
		e := w.radixEngine()
		outs := e.Analyze(f)
		recv := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
		for _, o := range outs {
			if o.panic {
				continue
			}
			ws, elems := w.nodeStores(e, o)
			if len(elems) > 0 {
				c.bad("setter-exact", name, elems[0].pos, "a setter rewrites children")
			}
			var R *nodeW
			for _, x := range ws {
				if e.isSame(x.base, recv) {
					R = x
				} else if x.base.op != "alloc" {
					for _, ev := range x.ev {
						c.bad("setter-exact", name, ev.pos, "writes another node: %s", brief(ev.addr))
					}
				}
			}
			if R == nil {
				R = &nodeW{f: map[string]*Term{}, ev: map[string]*Event{}}
			}
			for fl, pi := range sp.fields {
				v := R.f[fl]
				want := "the zero value"
				good := false
				if pi > 0 {
					p := e.ts.mk("param", pname(f.Params[pi], pi), f.Params[pi].Type())
					want = f.Params[pi].Name()
					good = v != nil && strip(v) == p
					// writing only when it differs is fine
					if v == nil {
						for g := o.st.facts; g != nil; g = g.up {
							if g.pol && g.atom.op == "eq" && contains(g.atom, p) && e.mentions(g.atom, recv, fl) {
								good = true
							}
						}
					}
				} else {
					good = v != nil && (isZeroTerm(v) || isNilT(v)) || v == nil && e.knownZeroOf(o.st.facts, recv, fl)
				}
				if good {
					c.ok("setter-exact")
				} else if v == nil {
					c.bad("setter-exact", name, f.Pos(), "a path does not set %s to %s", fl, want)
				} else if v.op == "call" && altersText(callName(v)) {
					c.bad("setter-exact", name, R.ev[fl].pos, "%s becomes %s, not %s", fl, brief(v), want)
				} else if v.op == "loopvar" || v.op == "call" {
					c.und("setter-exact", name, "%s becomes %s", fl, brief(v))
				} else {
					c.bad("setter-exact", name, R.ev[fl].pos, "%s becomes %s, not %s", fl, brief(v), want)
				}
			}
			for fl, ev := range R.ev {
				if _, ok := sp.fields[fl]; ok || fl == r.lock || fl == r.flags {
					continue
				}
				if isFieldLoad(e.ts.noEpoch(ev.val), e.ts.noEpoch(recv), fl) {
					continue
				}
				c.bad("setter-exact", name, ev.pos, "also writes %s", fl)
			}
			isOld := func(t *Term) bool { return isFieldLoad(t, e.ts.noEpoch(recv), r.flags) }
			for bn, bit := range bits {
				got := "keep"
				pos := f.Pos()
				if v := R.f[r.flags]; v != nil {
					got = e.bitEffect(v, isOld, bit)
					pos = R.ev[r.flags].pos
				}
				want := "keep"
				if bn == sp.bit {
					want = sp.eff(o, e, f)
				}
				switch {
				case got == "" || want == "?":
					c.und("setter-exact", name, "flags become %s", brief(R.f[r.flags]))
				case got == want:
					c.ok("setter-exact")
				case nm == "SetEmpty" && bn == "data" && got == "0":
					c.ok("setter-exact")
				default:
					// already in the wanted state on this path
					if st, k := e.flagFact(o.st.facts, recv, r.flags, bit); k && want == "flip" && (got == "1" && !st || got == "0" && st) {
						c.ok("setter-exact")
						break
					}
					if st, k := e.flagFact(o.st.facts, recv, r.flags, bit); k && got == "keep" && (want == "1" && st || want == "0" && !st) {
						c.ok("setter-exact")
						break
					}
					c.bad("setter-exact", name, pos, "the %s flag is %s, should be %s", bn, effWord(got), effWord(want))
				}
			}
		}
	}
	c.flagReads(bits)
	// through the tree
	for nm, flds := range map[string]map[string]int{"SetComment": {r.desc: 2, r.comment: 3}, "SetTag": {r.tag: 2}} {
		for _, n := range []*types.Named{w.trieT, w.storeT} {
			f := w.method(n, nm)
			if f == nil || !declared(f) {
				continue
			}
			c.saw(f)
			name := w.fname(f)
			e := w.viewEngine()
			for _, o := range e.Analyze(f) {
				if o.panic {
					continue
				}
				l, _ := w.located(e, o)
				ex := e.exact(o, l)
				ws, _ := w.nodeStores(e, o)
				if len(o.rets) == 1 {
					c.agree("meta-exact", e, o, l, name, o.rets[0], f.Pos(), "ok")
				}
				done := false
				for _, x := range ws {
					if x.base.op == "alloc" {
						continue
					}
					if l == nil || x.base != l.child {
						for _, ev := range x.ev {
							c.bad("meta-exact", name, ev.pos, "writes %s, which is not the located node", brief(ev.addr))
						}
						continue
					}
					if ex != 1 {
						for _, ev := range x.ev {
							c.bad("meta-exact", name, ev.pos, "writes the node although the match may be partial")
						}
						continue
					}
					done = true
					for fl, pi := range flds {
						v := x.f[fl]
						p := e.ts.mk("param", pname(f.Params[pi], pi), f.Params[pi].Type())
						if v == nil {
							c.bad("meta-exact", name, f.Pos(), "a path does not set %s", fl)
						} else if strip(v) != p {
							c.bad("meta-exact", name, x.ev[fl].pos, "%s becomes %s instead of %s", fl, brief(v), f.Params[pi].Name())
						} else {
							c.ok("meta-exact")
						}
					}
					for fl, ev := range x.ev {
						if _, ok := flds[fl]; !ok && fl != r.lock && !isFieldLoad(e.ts.noEpoch(ev.val), e.ts.noEpoch(l.child), fl) {
							c.bad("meta-exact", name, ev.pos, "also writes %s", fl)
						}
					}
				}
				if ex == 1 && !done {
					c.bad("meta-exact", name, f.Pos(), "the located node is not written")
				}
			}
		}
	}
	if f := w.method(w.trieT, "SetNode"); f != nil {
		c.saw(f)
		c.setNode(f)
	}
}

// flagReads: what a node says about itself is what its flags say.
func (c *Ctx) flagReads(bits map[string]int64) {
	w := c.w
	r := w.roles()
	c.rule("flag-read", "what a node reports about itself (has a value, is empty, leaf, branch, modified) is its own mark, read the right way round")
	for _, x := range []struct {
		nm, bit string
		pol     bool
	}{{"HasData", "data", true}, {"Empty", "data", false}, {"IsLeaf", "leaf", true}, {"IsBranch", "leaf", false}, {"Modified", "modified", true}} {
		f := w.method(w.nodeT, x.nm)
		if f == nil || f.Signature.Results().Len() != 1 {
			continue
		}
		c.saw(f)
		name := w.fname(f)
		e := w.radixEngine()
		recv := e.ts.mk("param", pname(f.Params[0], 0), f.Params[0].Type())
		for _, o := range e.Analyze(f) {
			if o.panic || len(o.rets) != 1 {
				continue
			}
			t := o.rets[0]
			set, known := e.flagFact(o.st.facts, recv, r.flags, bits[x.bit])
			if v, ok := e.decide(o.st.facts, t); ok {
				if !known {
					c.bad("flag-read", name, f.Pos(), "answers %v without looking at the %s mark", v, x.bit)
				} else if v != (set == x.pol) {
					c.bad("flag-read", name, f.Pos(), "answers %v when the %s mark is %v", v, x.bit, set)
				} else {
					c.ok("flag-read")
				}
				continue
			}
			at, pol := atomOf(t)
			if s, k := e.flagFact(&Fact{at, true, nil}, recv, r.flags, bits[x.bit]); k {
				// t is true exactly when the mark is (s == pol)
				if (s == pol) == x.pol {
					c.ok("flag-read")
				} else {
					c.bad("flag-read", name, f.Pos(), "the %s mark is read the wrong way round", x.bit)
				}
				continue
			}
			if walkTerm(t, func(y *Term) bool { return y.op == "call" || y.op == "loopvar" }) {
				c.und("flag-read", name, "answers %s", brief(t))
			} else {
				c.bad("flag-read", name, f.Pos(), "answers %s, which is not the %s mark", brief(t), x.bit)
			}
		}
	}
}

func effWord(s string) string {
	return map[string]string{"0": "cleared", "1": "set", "keep": "left alone", "flip": "flipped", "": "unknown"}[s]
}

func (c *Ctx) setNode(f *ssa.Function) {
	w := c.w
	r := w.roles()
	name := w.fname(f)
	e := w.viewEngine()
	par := func(i int) *Term { return e.ts.mk("param", pname(f.Params[i], i), f.Params[i].Type()) }
	if len(f.Params) != 5 {
		c.und("setnode-all", name, "parameters")
		return
	}
	tag, dc := par(3), par(4)
	n := e.ts.length(dc)
	for _, o := range e.Analyze(f) {
		if o.panic {
			continue
		}
		var ins *Event
		allEvents(o.st.events, func(ev *Event, _ *LoopEv) {
			if ev.kind == "call" && ev.fn != nil && w.isInsertOp(ev.fn) {
				ins = ev
			}
		})
		if ins == nil {
			c.und("setnode-all", name, "no insertion")
			continue
		}
		ws, _ := w.nodeStores(e, o)
		node := e.ts.mk("res", "0", ins.fn.Signature.Results().At(0).Type(), ins.res)
		var R *nodeW
		for _, x := range ws {
			if contains(x.base, node) {
				R = x
			} else if x.base.op != "alloc" {
				for _, ev := range x.ev {
					c.bad("setnode-all", name, ev.pos, "writes %s, not the inserted node", brief(ev.addr))
				}
			}
		}
		if R == nil {
			if e.isNilFact(o.st.facts, node) {
				continue
			}
			c.bad("setnode-all", name, f.Pos(), "a path does not write the inserted node")
			continue
		}
		chk := func(fl string, good func(*Term) bool, want string) {
			v := R.f[fl]
			switch {
			case v == nil:
				c.bad("setnode-all", name, f.Pos(), "a path leaves %s unset", fl)
			case good(strip(v)):
				c.ok("setnode-all")
			case v.op == "loopvar":
				c.und("setnode-all", name, "%s becomes %s", fl, brief(v))
			default:
				c.bad("setnode-all", name, R.ev[fl].pos, "%s becomes %s instead of %s", fl, brief(v), want)
			}
		}
		elem := func(i int64) func(*Term) bool {
			return func(t *Term) bool {
				t = e.ts.noEpoch(t)
				if t.op == "load" && t.args[0].op == "idxaddr" && t.args[0].args[0] == dc {
					k, ok := t.args[0].args[1].constInt()
					return ok && k == i
				}
				return false
			}
		}
		chk(r.tag, func(t *Term) bool { return t == tag }, "the given tag")
		// how many texts were given on this path
		lo, hi := int64(0), int64(1<<30)
		for k := int64(0); k <= 3; k++ {
			if v, ok := e.decide(o.st.facts, e.ts.eq(n, e.ts.intc(k))); ok {
				if v {
					lo, hi = k, k
				} else if lo == k {
					lo = k + 1
				}
			}
			if v, ok := e.decide(o.st.facts, e.ts.lt(n, e.ts.intc(k))); ok {
				if v && hi > k-1 {
					hi = k - 1
				}
				if !v && lo < k {
					lo = k
				}
			}
			if v, ok := e.decide(o.st.facts, e.ts.lt(e.ts.intc(k), n)); ok {
				if v && lo < k+1 {
					lo = k + 1
				}
				if !v && hi > k {
					hi = k
				}
			}
		}
		if lo >= 1 {
			chk(r.desc, elem(0), "the first text")
		}
		if lo >= 2 {
			chk(r.comment, func(t *Term) bool {
				if elem(1)(t) {
					return hi == 2 || lo == 2 && hi == 2
				}
				return t.op == "call" && strings.HasPrefix(t.aux, "strings.Join") && len(t.args) > 0 && t.args[0].op == "slice" && t.args[0].args[0] == dc && t.args[0].args[1] == e.ts.intc(1) && t.args[0].args[2].op == "none"
			}, "the remaining texts")
		}
		if hi == 0 {
			if v := R.f[r.desc]; v != nil && !isZeroTerm(v) {
				c.bad("setnode-all", name, R.ev[r.desc].pos, "a description is written although none was given")
			}
		}
		for fl, ev := range R.ev {
			switch fl {
			case r.tag, r.desc, r.comment, r.lock, r.flags:
			default:
				c.bad("setnode-all", name, ev.pos, "also writes %s", fl)
			}
		}
	}
}
