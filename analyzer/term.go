package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed value-provenance expression: where a value comes from,
// not what it is at run time.
type Term struct {
	id   int
	op   string
	aux  string
	args []*Term
	typ  types.Type
	fn   *ssa.Function
	cv   constant.Value
	fld  int
}

type Terms struct {
	tab map[string]*Term
	all []*Term
}

func newTerms() *Terms { return &Terms{tab: map[string]*Term{}} }

func (ts *Terms) mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := ts.tab[k]; ok {
		return t
	}
	t := &Term{id: len(ts.all), op: op, aux: aux, args: args, typ: typ}
	ts.all = append(ts.all, t)
	ts.tab[k] = t
	return t
}

func (ts *Terms) konst(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return ts.mk("nil", "", typ)
	}
	t := ts.mk("const", v.Kind().String()+":"+v.ExactString(), typ)
	t.cv = v
	return t
}
func (ts *Terms) boolc(b bool) *Term { return ts.konst(constant.MakeBool(b), types.Typ[types.Bool]) }
func (ts *Terms) intc(i int64) *Term { return ts.konst(constant.MakeInt64(i), types.Typ[types.Int]) }
func (ts *Terms) strc(s string) *Term {
	return ts.konst(constant.MakeString(s), types.Typ[types.String])
}

func (ts *Terms) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ts.boolc(false)
		case u.Info()&types.IsString != 0:
			return ts.strc("")
		case u.Info()&types.IsInteger != 0:
			return ts.intc(0)
		case u.Info()&types.IsNumeric != 0:
			return ts.intc(0)
		}
		return ts.mk("nil", "", t)
	case *types.Struct:
		if !decomposable(t) {
			return ts.mk("zero", types.TypeString(t, nil), t)
		}
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = ts.zero(u.Field(i).Type())
		}
		return ts.mk("struct", types.TypeString(t, nil), t, args...)
	case *types.Array:
		return ts.mk("zero", types.TypeString(t, nil), t)
	}
	return ts.mk("nil", "", t)
}

// decomposable: struct types of the workspace are tracked field by field.
func decomposable(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	n := namedOf(t)
	if n == nil {
		return true
	}
	if n.Obj().Pkg() == nil {
		return true
	}
	if !isWs(n.Obj().Pkg().Path()) {
		return false
	}
	return st.NumFields() < 40
}

func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) isNil() bool   { return t.op == "nil" }
func (t *Term) constBool() (v, ok bool) {
	if t.op == "const" && t.cv.Kind() == constant.Bool {
		return constant.BoolVal(t.cv), true
	}
	return false, false
}
func (t *Term) constInt() (int64, bool) {
	if t.op == "const" && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}
func (t *Term) constStr() (string, bool) {
	if t.op == "const" && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	as := func(sep string) string {
		var o []string
		for _, a := range t.args {
			o = append(o, a.str(d+1))
		}
		return strings.Join(o, sep)
	}
	switch t.op {
	case "const":
		return t.cv.ExactString()
	case "nil":
		return "nil"
	case "param", "global", "alloc":
		return t.aux
	case "fieldaddr":
		return "&" + t.args[0].str(d+1) + "." + t.aux
	case "load":
		a := t.args[0]
		if a.op == "fieldaddr" {
			return a.args[0].str(d+1) + "." + a.aux + ep(t.aux)
		}
		if a.op == "idxaddr" {
			return a.args[0].str(d+1) + "[" + a.args[1].str(d+1) + "]" + ep(t.aux)
		}
		return "*" + a.str(d+1) + ep(t.aux)
	case "iface":
		return "iface(" + as(",") + ")"
	case "lin":
		return "lin(" + t.aux + ";" + as(",") + ")"
	}
	return t.op + ":" + t.aux + "(" + as(", ") + ")"
}
func ep(s string) string {
	if s == "" || s == "0" {
		return ""
	}
	return "'" + s
}

// strip removes interface boxing and type-preserving wrappers.
func strip(t *Term) *Term {
	for t != nil && (t.op == "iface" || t.op == "chtype") {
		t = t.args[0]
	}
	return t
}

// noEpoch rebuilds t with all memory versions erased.
func (ts *Terms) noEpoch(t *Term) *Term {
	return ts.rewrite(t, func(x *Term) *Term {
		if x.op == "load" && x.aux != "" {
			return ts.mk("load", "", x.typ, x.args...)
		}
		return x
	})
}

func (ts *Terms) rewrite(t *Term, f func(*Term) *Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if v, ok := memo[t.id]; ok {
			return v
		}
		if d > 200 {
			return t
		}
		n := t
		if len(t.args) > 0 {
			args := make([]*Term, len(t.args))
			diff := false
			for i, a := range t.args {
				args[i] = rec(a, d+1)
				diff = diff || args[i] != a
			}
			if diff {
				n = ts.mk(t.op, t.aux, t.typ, args...)
				n.fn, n.cv, n.fld = t.fn, t.cv, t.fld
			}
		}
		n = f(n)
		memo[t.id] = n
		return n
	}
	return rec(t, 0)
}

// contains reports whether sub-term s occurs in t.
func contains(t, s *Term) bool {
	return walkTerm(t, func(x *Term) bool { return x == s })
}

// walkTerm visits sub-terms until f returns true.
func walkTerm(t *Term, f func(*Term) bool) bool {
	seen := map[int]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if seen[x.id] {
			return false
		}
		seen[x.id] = true
		if f(x) {
			return true
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// ---- linear integer forms ----

type linf struct {
	c  int64
	co map[int]int64
}

func (ts *Terms) toLin(t *Term) linf {
	if v, ok := t.constInt(); ok {
		return linf{c: v, co: map[int]int64{}}
	}
	if t.op == "lin" {
		parts := strings.Split(t.aux, ",")
		c, _ := strconv.ParseInt(parts[0], 10, 64)
		l := linf{c: c, co: map[int]int64{}}
		for i, a := range t.args {
			k, _ := strconv.ParseInt(parts[i+1], 10, 64)
			l.co[a.id] = k
		}
		return l
	}
	return linf{co: map[int]int64{t.id: 1}}
}

func (ts *Terms) fromLin(l linf, typ types.Type) *Term {
	var ids []int
	for k, v := range l.co {
		if v != 0 {
			ids = append(ids, k)
		}
	}
	sort.Ints(ids)
	if len(ids) == 0 {
		return ts.intc(l.c)
	}
	if len(ids) == 1 && l.c == 0 && l.co[ids[0]] == 1 {
		return ts.all[ids[0]]
	}
	aux := strconv.FormatInt(l.c, 10)
	var args []*Term
	for _, k := range ids {
		aux += "," + strconv.FormatInt(l.co[k], 10)
		args = append(args, ts.all[k])
	}
	return ts.mk("lin", aux, typ, args...)
}

func (ts *Terms) linAdd(a, b *Term, sign int64, typ types.Type) *Term {
	la, lb := ts.toLin(a), ts.toLin(b)
	r := linf{c: la.c + sign*lb.c, co: map[int]int64{}}
	for k, v := range la.co {
		r.co[k] += v
	}
	for k, v := range lb.co {
		r.co[k] += sign * v
	}
	return ts.fromLin(r, typ)
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStrT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (ts *Terms) not(t *Term) *Term {
	if v, ok := t.constBool(); ok {
		return ts.boolc(!v)
	}
	if t.op == "not" {
		return t.args[0]
	}
	return ts.mk("not", "", types.Typ[types.Bool], t)
}

func nonNil(t *Term) bool {
	switch t.op {
	case "alloc", "iface", "closure", "func", "makemap", "makeslice", "makechan", "fieldaddr", "idxaddr", "global", "vec", "append":
		return true
	case "chtype":
		return nonNil(t.args[0])
	case "call":
		return strings.HasPrefix(t.aux, "fmt.Errorf") || strings.HasPrefix(t.aux, "errors.New") || strings.HasPrefix(t.aux, "gopkg.in/hedzr/errors.v3.New")
	}
	return false
}

func (ts *Terms) eq(a, b *Term) *Term {
	if a == b {
		if b.op != "call" || true {
			return ts.boolc(true)
		}
	}
	if a.isConst() && b.isConst() && a.cv.Kind() == b.cv.Kind() {
		return ts.boolc(constant.Compare(a.cv, token.EQL, b.cv))
	}
	if a.isNil() && nonNil(b) || b.isNil() && nonNil(a) {
		return ts.boolc(false)
	}
	if a.op == "alloc" && b.op == "alloc" {
		return ts.boolc(false)
	}
	if v, ok := b.constBool(); ok {
		if v {
			return a
		}
		return ts.not(a)
	}
	if v, ok := a.constBool(); ok {
		if v {
			return b
		}
		return ts.not(b)
	}
	// s == "" <=> len(s) == 0
	if v, ok := b.constStr(); ok && v == "" {
		return ts.eq(ts.length(a), ts.intc(0))
	}
	if v, ok := a.constStr(); ok && v == "" {
		return ts.eq(ts.length(b), ts.intc(0))
	}
	// integers: difference form
	if a.typ != nil && b.typ != nil && isIntT(a.typ) && isIntT(b.typ) {
		d := ts.toLin(ts.linAdd(a, b, -1, a.typ))
		if len(d.co) == 0 {
			return ts.boolc(d.c == 0)
		}
		nz := 0
		for _, v := range d.co {
			if v != 0 {
				nz++
			}
		}
		if nz > 1 || d.c != 0 {
			// canonical sign: smallest id positive
			min := -1
			for k, v := range d.co {
				if v != 0 && (min < 0 || k < min) {
					min = k
				}
			}
			if min >= 0 && d.co[min] < 0 {
				d.c = -d.c
				for k := range d.co {
					d.co[k] = -d.co[k]
				}
			}
			if nz == 1 {
				for k, v := range d.co {
					if v == 1 {
						return ts.mk("eq", "", types.Typ[types.Bool], ts.all[k], ts.intc(-d.c))
					}
				}
			}
			return ts.mk("eq", "", types.Typ[types.Bool], ts.fromLin(d, a.typ), ts.intc(0))
		}
	}
	if a.isConst() || a.isNil() || (!b.isConst() && !b.isNil() && a.id > b.id) {
		a, b = b, a
	}
	return ts.mk("eq", "", types.Typ[types.Bool], a, b)
}

func (ts *Terms) lt(a, b *Term) *Term {
	if a.isConst() && b.isConst() && a.cv.Kind() == b.cv.Kind() {
		return ts.boolc(constant.Compare(a.cv, token.LSS, b.cv))
	}
	// len(x) comparisons with small constants
	if v, ok := a.constInt(); ok && b.op == "len" {
		if v < 0 {
			return ts.boolc(true)
		}
		if v == 0 {
			return ts.not(ts.eq(b, ts.intc(0)))
		}
	}
	if v, ok := b.constInt(); ok && a.op == "len" {
		if v <= 0 {
			return ts.boolc(false)
		}
		if v == 1 {
			return ts.eq(a, ts.intc(0))
		}
	}
	if a.typ != nil && isIntT(a.typ) && !(a.isConst() || b.isConst()) {
		d := ts.toLin(ts.linAdd(a, b, -1, a.typ))
		if len(d.co) == 0 {
			return ts.boolc(d.c < 0)
		}
	}
	return ts.mk("lt", "", types.Typ[types.Bool], a, b)
}

func (ts *Terms) length(x *Term) *Term {
	if s, ok := x.constStr(); ok {
		return ts.intc(int64(len(s)))
	}
	switch x.op {
	case "nil":
		return ts.intc(0)
	case "vec":
		return ts.intc(int64(len(x.args)))
	case "slice":
		// len(x[lo:hi]) = hi - lo
		lo, hi := x.args[1], x.args[2]
		if lo.op == "none" {
			lo = ts.intc(0)
		}
		if hi.op == "none" {
			hi = ts.length(x.args[0])
		}
		return ts.linAdd(hi, lo, -1, types.Typ[types.Int])
	}
	return ts.mk("len", "", types.Typ[types.Int], x)
}

func (ts *Terms) bin(op token.Token, a, b *Term, typ types.Type) *Term {
	switch op {
	case token.EQL:
		return ts.eq(a, b)
	case token.NEQ:
		return ts.not(ts.eq(a, b))
	case token.LSS:
		return ts.lt(a, b)
	case token.GTR:
		return ts.lt(b, a)
	case token.LEQ:
		return ts.not(ts.lt(b, a))
	case token.GEQ:
		return ts.not(ts.lt(a, b))
	}
	if typ != nil && isStrT(typ) && op == token.ADD {
		var parts []*Term
		for _, x := range []*Term{a, b} {
			if s, ok := x.constStr(); ok && s == "" {
				continue
			}
			if x.op == "concat" {
				parts = append(parts, x.args...)
			} else {
				parts = append(parts, x)
			}
		}
		if len(parts) == 0 {
			return ts.strc("")
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return ts.mk("concat", "", typ, parts...)
	}
	if a.isConst() && b.isConst() {
		switch op {
		case token.SHL, token.SHR:
			if n, ok := b.constInt(); ok {
				return ts.konst(constant.Shift(a.cv, op, uint(n)), typ)
			}
		case token.QUO:
			if v, ok := b.constInt(); ok && v != 0 && isIntT(typ) {
				return ts.konst(constant.BinaryOp(a.cv, token.QUO_ASSIGN, b.cv), typ)
			}
		case token.REM:
			if v, ok := b.constInt(); ok && v != 0 {
				return ts.konst(constant.BinaryOp(a.cv, token.REM, b.cv), typ)
			}
		default:
			if a.cv.Kind() == b.cv.Kind() && a.cv.Kind() != constant.Bool {
				return ts.konst(constant.BinaryOp(a.cv, op, b.cv), typ)
			}
		}
	}
	if typ != nil && isIntT(typ) {
		switch op {
		case token.ADD:
			return ts.linAdd(a, b, 1, typ)
		case token.SUB:
			return ts.linAdd(a, b, -1, typ)
		}
	}
	switch op {
	case token.AND, token.OR, token.XOR, token.MUL:
		if a.id > b.id {
			a, b = b, a
		}
	}
	return ts.mk("bin", op.String(), typ, a, b)
}

func (t *Term) short() string {
	s := t.String()
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

var _ = fmt.Sprint
