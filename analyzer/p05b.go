package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Pattern variables: what a matcher puts into the caller's map.

// binding is a place where a pattern variable is stored: a map update, or a
// call of a function that does just that with its parameters.
type binding struct {
	at       ssa.Instruction
	key, val ssa.Value
}

func isVarMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isStrT(m.Key()) && isStrT(m.Elem())
}

func (w *World) bindings(f *ssa.Function, kv ssa.Value, depth int) (out []binding) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if x.Map == kv {
					out = append(out, binding{in, x.Key, x.Value})
				}
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil || depth > 2 || !w.inWorkspace(g) || w.scc[g] || g.Blocks == nil {
					continue
				}
				for i, a := range x.Call.Args {
					if a != kv || i >= len(g.Params) {
						continue
					}
					for _, y := range w.bindings(g, g.Params[i], depth+1) {
						k, v := argOf(x, g, y.key), argOf(x, g, y.val)
						if k != nil && v != nil {
							out = append(out, binding{in, k, v})
						}
					}
				}
			}
		}
	}
	return
}

func argOf(call *ssa.Call, g *ssa.Function, v ssa.Value) ssa.Value {
	for i, p := range g.Params {
		if v == p {
			return call.Call.Args[i]
		}
	}
	return nil
}

// textFrom: does the text v come from the node's piece, from the word searched?
// Only texts and rune lists are followed, never positions.
func (w *World) textFrom(f *ssa.Function, v ssa.Value, word *ssa.Parameter, seen map[ssa.Value]bool) (piece, wrd bool, src []ssa.Instruction) {
	if seen[v] {
		return
	}
	seen[v] = true
	add := func(x ssa.Value) {
		p, q, s := w.textFrom(f, x, word, seen)
		piece, wrd, src = piece || p, wrd || q, append(src, s...)
	}
	isText := func(t types.Type) bool {
		if isStrT(t) {
			return true
		}
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		wrd = x == word
	case *ssa.Phi:
		for _, y := range x.Edges {
			add(y)
		}
	case *ssa.Slice:
		add(x.X)
	case *ssa.Convert:
		add(x.X)
	case *ssa.ChangeType:
		add(x.X)
	case *ssa.Extract:
		add(x.Tuple)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if n := namedOf(derefT(fa.X.Type())); n != nil && n.Obj() == w.nodeT.Obj() {
				st := structOf(n)
				if st.Field(fa.Field).Name() == w.roles().piece {
					piece = true
				}
			}
		} else {
			add(x.X)
		}
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == x {
				add(s.Val)
			}
		}
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if isText(a.Type()) {
				add(a)
			}
		}
	}
	if in, ok := v.(ssa.Instruction); ok && (piece || wrd) {
		if _, isPhi := v.(*ssa.Phi); !isPhi {
			src = append(src, in)
		}
	}
	return
}

func (c *Ctx) patternVars() {
	w := c.w
	n := 0
	for _, f := range w.fns {
		if !isRecvOf(f, w.nodeT) || f.Blocks == nil || !declared(f) {
			continue
		}
		var kv, word *ssa.Parameter
		for _, p := range f.Params[1:] {
			if isVarMap(p.Type()) {
				kv = p
			}
			if s, ok := p.Type().Underlying().(*types.Slice); ok {
				if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
					word = p
				}
			}
		}
		if kv == nil || word == nil {
			continue
		}
		name := w.fname(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Call); ok {
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && x.Call.Args[0] == kv {
						c.bad("pattern-vars", name, in.Pos(), "pattern variables are taken out of the caller's map")
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
					continue
				}
				for _, y := range []ssa.Value{bo.X, bo.Y} {
					k, ok := y.(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
						continue
					}
					if b, ok := k.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int32 && b.Kind() != types.UntypedRune {
						continue
					}
					if r, ok := constant.Int64Val(k.Value); ok && (r == '.' || r == '/') {
						c.bad("pattern-vars", name, in.Pos(), "a fixed rune %q is taken for the delimiter of the tree", rune(r))
					}
				}
			}
		}
		bs := w.bindings(f, kv, 0)
		for _, b := range bs {
			n++
			c.saw(f)
			kp, kw, ksrc := w.textFrom(f, b.key, word, map[ssa.Value]bool{})
			vp, vw, _ := w.textFrom(f, b.val, word, map[ssa.Value]bool{})
			switch {
			case kp && !kw && vw && !vp:
				if at := alteredText(b.val, map[ssa.Value]bool{}); at != nil {
					c.bad("pattern-vars", name, b.at.Pos(), "the value of a pattern variable is changed by %s before it is stored", callee(at))
					continue
				}
				if at := alteredText(b.key, map[ssa.Value]bool{}); at != nil {
					c.bad("pattern-vars", name, b.at.Pos(), "the name of a pattern variable is changed by %s before it is stored", callee(at))
					continue
				}
				c.ok("pattern-vars")
			case kw && !kp || vp && !vw:
				c.bad("pattern-vars", name, b.at.Pos(), "a pattern variable is stored the wrong way round: its name comes from the key asked for, or its value from the pattern")
				continue
			default:
				c.und("pattern-vars", name, "origin of a pattern variable not recognised")
				continue
			}
			// nothing but the map being absent keeps the variable from being stored
			for _, d := range ksrc {
				if bad := condBetween(d.Block(), b.at.Block(), kv); bad != nil && isNamePiece(d) {
					c.bad("pattern-vars", name, b.at.Pos(), "a pattern variable that was matched is stored only under a further condition")
					break
				}
			}
		}
	}
	if n == 0 {
		c.und("pattern-vars", "node", "no place where pattern variables are stored")
	}
}

// isNamePiece: the instruction computes the variable's name out of the piece.
func isNamePiece(in ssa.Instruction) bool {
	switch in.(type) {
	case *ssa.Extract, *ssa.Convert, *ssa.Call:
		return true
	}
	return false
}

// condBetween: the test, other than of the map itself, on the dominator chain
// between two blocks.
func condBetween(from, to *ssa.BasicBlock, kv ssa.Value) *ssa.If {
	if from == to || !from.Dominates(to) {
		return nil
	}
	for b := to.Idom(); b != nil; b = b.Idom() {
		if in, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			onMap := false
			if bo, ok := in.Cond.(*ssa.BinOp); ok && (bo.X == kv || bo.Y == kv) {
				onMap = true
			}
			if cl, ok := in.Cond.(*ssa.Call); ok { // a helper that asks about the map
				if g := cl.Call.StaticCallee(); g != nil && len(g.Blocks) == 1 {
					for _, a := range cl.Call.Args {
						onMap = onMap || a == kv
					}
				}
			}
			// both ways lead there: no condition
			both := reaches(b.Succs[0], to, b) && reaches(b.Succs[1], to, b)
			if !onMap && !both {
				return in
			}
		}
		if b == from {
			return nil
		}
	}
	return nil
}

// reaches without passing through stop.
func reaches(from, to, stop *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{stop: true}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	return rec(from)
}

// matchPairs: results of the recursive match belong together.
func (c *Ctx) matchPairs() {
	w := c.w
	n := 0
	for _, f := range w.fns {
		if !isRecvOf(f, w.nodeT) || f.Blocks == nil || !declared(f) || !w.scc[f] || f.Signature.Results().Len() != 4 {
			continue
		}
		rs := f.Signature.Results()
		if !isNodePtr(w, rs.At(2).Type()) || !isNodePtr(w, rs.At(3).Type()) {
			continue
		}
		var kv, par *ssa.Parameter
		for _, p := range f.Params[1:] {
			if isVarMap(p.Type()) {
				kv = p
			}
			if isNodePtr(w, p.Type()) {
				par = p
			}
		}
		if kv == nil || par == nil {
			continue
		}
		n++
		c.saw(f)
		name := w.fname(f)
		recv := f.Params[0]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.Call)
				if !ok || x.Call.StaticCallee() == nil || !w.scc[x.Call.StaticCallee()] || !isRecvOf(x.Call.StaticCallee(), w.nodeT) {
					continue
				}
				g := x.Call.StaticCallee()
				if g.Signature.Results().Len() != 4 {
					continue
				}
				for i, p := range g.Params {
					a := x.Call.Args[i]
					switch {
					case i == 0 && a == recv:
						c.und("match-pair", name, "the match goes on at the same node")
					case i > 0 && isVarMap(p.Type()):
						if a == kv {
							c.ok("match-pair")
						} else if k, isC := a.(*ssa.Const); isC && k.IsNil() {
							c.bad("match-pair", name, in.Pos(), "the map of pattern variables is not handed down")
						} else {
							c.und("match-pair", name, "another map of pattern variables is handed down")
						}
					case i > 0 && isNodePtr(w, p.Type()):
						if a == recv {
							c.ok("match-pair")
						} else if a == par {
							c.bad("match-pair", name, in.Pos(), "the children are matched with the node's own parent as their parent")
						} else if k, isC := a.(*ssa.Const); isC && k.IsNil() {
							c.bad("match-pair", name, in.Pos(), "the children are matched without their parent")
						} else {
							c.und("match-pair", name, "parent handed down not recognised")
						}
					}
				}
			}
		}
		type st struct{ a, b, m ssa.Value }
		seen := map[st]bool{}
		var rec func(a, b, m ssa.Value, ret *ssa.Return)
		rec = func(a, b, m ssa.Value, ret *ssa.Return) {
			k := st{a, b, m}
			if seen[k] || len(seen) > 4000 {
				return
			}
			seen[k] = true
			pa, ok1 := a.(*ssa.Phi)
			pb, ok2 := b.(*ssa.Phi)
			pm, ok3 := m.(*ssa.Phi)
			// expand the phi of the latest block, together with those of the same block
			var blk *ssa.BasicBlock
			for _, p := range []*ssa.Phi{pa, pb, pm} {
				if p != nil && (blk == nil || blk.Dominates(p.Block())) {
					blk = p.Block()
				}
			}
			if blk != nil {
				for i := range blk.Preds {
					x, y, z := a, b, m
					if ok1 && pa.Block() == blk {
						x = pa.Edges[i]
					}
					if ok2 && pb.Block() == blk {
						y = pb.Edges[i]
					}
					if ok3 && pm.Block() == blk {
						z = pm.Edges[i]
					}
					rec(x, y, z, ret)
				}
				return
			}
			isNil := func(v ssa.Value) bool { k, ok := v.(*ssa.Const); return ok && k.IsNil() }
			tr := false
			if k, ok := m.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "true" {
				tr = true
			}
			ca, ok4 := a.(*ssa.Extract)
			cb, ok5 := b.(*ssa.Extract)
			switch {
			case a == recv && b == par:
				c.ok("match-pair")
			case ok4 && ok5 && ca.Tuple == cb.Tuple && ca.Index == 2 && cb.Index == 3:
				c.ok("match-pair")
			case isNil(a) && tr:
				c.bad("match-pair", name, ret.Pos(), "a match is reported without a node")
			case isNil(a):
				c.ok("match-pair")
			case a == recv && (b == recv || isNil(b)):
				c.bad("match-pair", name, ret.Pos(), "the node is returned with a wrong parent")
			case a == par:
				c.bad("match-pair", name, ret.Pos(), "the parent is returned as the match")
			default:
				if tr {
					c.bad("match-pair", name, ret.Pos(), "the node and the parent returned do not belong together")
				} else {
					c.und("match-pair", name, "pair %s %s", a.Name(), b.Name())
				}
			}
		}
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 4 {
				rec(ret.Results[2], ret.Results[3], ret.Results[0], ret)
			}
		}
	}
	if n == 0 {
		c.und("match-pair", "node", "no recursive match recognised")
	}
}

// altersText: functions of the library whose result differs from the text given.
func altersText(name string) bool {
	i := strings.LastIndex(name, ".")
	if i < 0 || !strings.HasSuffix(name[:i], "strings") {
		return false
	}
	switch name[i+1:] {
	case "ReplaceAll", "Replace", "TrimSuffix", "TrimPrefix", "Trim", "TrimRight", "TrimLeft", "TrimFunc", "ToLower", "ToUpper", "ToTitle", "TrimSpace", "Title", "Map", "Repeat", "ToValidUTF8":
		return true
	}
	return false
}

func callee(c *ssa.Call) string {
	if f := c.Call.StaticCallee(); f != nil {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Name() + "." + f.Name()
		}
		return f.Name()
	}
	return c.Call.Value.Name()
}

// alteredText: the call that changes the text on its way to v, if there is one.
func alteredText(v ssa.Value, seen map[ssa.Value]bool) *ssa.Call {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, y := range x.Edges {
			if c := alteredText(y, seen); c != nil {
				return c
			}
		}
	case *ssa.Convert:
		return alteredText(x.X, seen)
	case *ssa.ChangeType:
		return alteredText(x.X, seen)
	case *ssa.Slice:
		return alteredText(x.X, seen)
	case *ssa.Call:
		if altersText(callee(x)) {
			return x
		}
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					if c := alteredText(s.Val, seen); c != nil {
						return c
					}
				}
			}
		}
	}
	return nil
}
