package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"maps"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modRoot = "github.com/hedzr/store"

// World is the resolved program under analysis: every package of every module
// named by /repo/go.work, type checked and translated to SSA. Dependencies
// outside the repository are known by their types only.
type World struct {
	lookupReach map[*ssa.Function]bool
	repo        string
	prog        *ssa.Program
	pkgs        []*packages.Package
	byPth       map[string]*packages.Package
	fset        *token.FileSet
	fns         []*ssa.Function // every workspace function with a body, instances included

	store, radix *types.Package
	trieT, nodeT *types.Named // instantiated with any
	ttlTrees     int
	ttlT         *types.Named
	storeT       *types.Named
	dummyT       *types.Named
	loaderT      *types.Named

	scc   map[*ssa.Function]bool // member of a recursive cycle
	mods  map[*ssa.Function]*modSum
	impls map[string][]*ssa.Function
}

func die(code int, f string, a ...any) {
	fmt.Fprintf(os.Stderr, "analyzer: "+f+"\n", a...)
	os.Exit(code)
}

// buildTags selects the build configuration that is loaded.
var buildTags string

func loadWorld(repo string) *World {
	w := &World{repo: repo, byPth: map[string]*packages.Package{}, impls: map[string][]*ssa.Function{}}
	cmd := exec.Command("go", "list", "-m")
	cmd.Dir = repo
	out, err := cmd.Output()
	if err != nil {
		die(2, "go list -m: %v", err)
	}
	var pats []string
	for _, l := range strings.Fields(string(out)) {
		pats = append(pats, l+"/...")
	}
	w.fset = token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Fset: w.fset, Tests: false, Env: os.Environ()}
	if buildTags != "" {
		cfg.BuildFlags = []string{"-tags=" + buildTags}
	}
	if ov := os.Getenv("VERIF_OVERLAY"); ov != "" { // development aid: {"rel/path.go": "replacement file"}
		cfg.Overlay = map[string][]byte{}
		var m map[string]string
		b, err := os.ReadFile(ov)
		if err == nil {
			err = json.Unmarshal(b, &m)
		}
		if err != nil {
			die(2, "overlay: %v", err)
		}
		for k, v := range m {
			if cfg.Overlay[filepath.Join(repo, k)], err = os.ReadFile(v); err != nil {
				die(2, "overlay: %v", err)
			}
		}
	}
	normalise(repo, cfg)
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		die(2, "load: %v", err)
	}
	if saved := maps.Clone(cfg.Overlay); typed(ps) && roleNames(ps, cfg) {
		w.fset = token.NewFileSet()
		cfg.Fset = w.fset
		if qs, err := packages.Load(cfg, pats...); err == nil && typed(qs) {
			ps = qs
		} else {
			cfg.Overlay = saved
			w.fset = token.NewFileSet()
			cfg.Fset = w.fset
			if ps, err = packages.Load(cfg, pats...); err != nil {
				die(2, "load: %v", err)
			}
		}
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			die(2, "package %s does not type check: %v", p.PkgPath, e)
		}
		if strings.Contains(p.PkgPath, "/examples/") || strings.HasSuffix(p.PkgPath, "/ci") {
			// sample programs: loaded, but no part of the library's behaviour
		}
		w.byPth[p.PkgPath] = p
	}
	w.pkgs = ps
	prog, _ := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	w.resolveRoles()
	// make sure every method of the instantiated role types exists
	for _, n := range []*types.Named{w.trieT, w.nodeT, w.ttlT, w.storeT, w.dummyT, w.loaderT} {
		if n == nil {
			continue
		}
		ms := prog.MethodSets.MethodSet(types.NewPointer(n))
		for i := 0; i < ms.Len(); i++ {
			prog.MethodValue(ms.At(i))
		}
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Blocks == nil || !w.inWorkspace(f) {
			return
		}
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			return // uninstantiated generic body
		}
		w.fns = append(w.fns, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range w.callees(c) {
						add(g)
					}
				}
			}
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		add(f)
	}
	sort.Slice(w.fns, func(i, j int) bool { return w.fns[i].String() < w.fns[j].String() })
	w.computeSCC()
	w.computeMods()
	return w
}

func (w *World) inWorkspace(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if p := pkgOf(g); p != nil {
			return isWs(p.Path())
		}
	}
	return false
}

func isWs(path string) bool {
	return path == modRoot || strings.HasPrefix(path, modRoot+"/")
}

func pkgOf(f *ssa.Function) *types.Package {
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg()
	}
	return nil
}

// library reports whether f belongs to the library proper (not to the sample
// programs or CI helper packages of the workspace).
func (w *World) library(f *ssa.Function) bool {
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	p := pkgOf(g)
	if p == nil || !isWs(p.Path()) {
		return false
	}
	return !strings.Contains(p.Path(), "/examples/") && !strings.HasSuffix(p.Path(), "/ci")
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.fset.Position(p)
	r, err := filepath.Rel(w.repo, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

func (w *World) fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.String()
	s = strings.ReplaceAll(s, modRoot+"/", "")
	s = strings.ReplaceAll(s, modRoot, "store")
	s = strings.ReplaceAll(s, "[any]", "")
	s = strings.ReplaceAll(s, "[interface{}]", "")
	return s
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func (w *World) resolveRoles() {
	sp, rp := w.byPth[modRoot], w.byPth[modRoot+"/radix"]
	if sp == nil || rp == nil {
		die(2, "packages store / store/radix not found")
	}
	w.store, w.radix = sp.Types, rp.Types
	anyT := types.Universe.Lookup("any").Type()
	// trie: the result type of radix.NewTrie[any]
	if o, ok := w.radix.Scope().Lookup("NewTrie").(*types.Func); ok {
		sig := o.Type().(*types.Signature)
		inst, err := types.Instantiate(types.NewContext(), sig, []types.Type{anyT}, false)
		if err == nil {
			w.trieT = namedOf(inst.(*types.Signature).Results().At(0).Type())
		}
	}
	if w.trieT == nil {
		die(2, "cannot resolve the trie type")
	}
	// canonical instances come from the program itself
	canon := func(origin *types.TypeName) *types.Named {
		for _, t := range w.prog.RuntimeTypes() {
			if n := namedOf(t); n != nil && n.Obj() == origin && n.TypeArgs().Len() == 1 && types.Identical(n.TypeArgs().At(0), anyT) {
				return n
			}
		}
		n, err := types.Instantiate(types.NewContext(), origin.Type(), []types.Type{anyT}, false)
		if err != nil {
			return nil
		}
		return n.(*types.Named)
	}
	w.trieT = canon(w.trieT.Obj())
	// node: the trie struct's field whose type points to a struct that has a slice of itself
	if st, ok := w.trieT.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if n := namedOf(st.Field(i).Type()); n != nil {
				if ns, ok := n.Underlying().(*types.Struct); ok {
					for j := 0; j < ns.NumFields(); j++ {
						if sl, ok := ns.Field(j).Type().Underlying().(*types.Slice); ok {
							if m := namedOf(sl.Elem()); m != nil && m.Obj() == n.Obj() {
								w.nodeT = canon(n.Obj())
							}
						}
					}
				}
			}
		}
	}
	if o, ok := w.radix.Scope().Lookup("TTL").(*types.TypeName); ok {
		w.ttlT = canon(o)
	}
	if o, ok := w.store.Scope().Lookup("Loader").(*types.TypeName); ok {
		w.loaderT = namedOf(o.Type())
	}
	// store: embedded by Loader / parameter of Opt
	if o, ok := w.store.Scope().Lookup("Opt").(*types.TypeName); ok {
		if sig, ok := o.Type().Underlying().(*types.Signature); ok && sig.Params().Len() == 1 {
			w.storeT = namedOf(sig.Params().At(0).Type())
		}
	}
	if o, ok := w.store.Scope().Lookup("dummyS").(*types.TypeName); ok {
		w.dummyT = namedOf(o.Type())
	}
	if w.nodeT == nil || w.storeT == nil || w.loaderT == nil {
		die(2, "cannot resolve role types node=%v store=%v loader=%v", w.nodeT, w.storeT, w.loaderT)
	}
}

// method returns the SSA function of method name on *T (nil when absent).
func (w *World) method(n *types.Named, name string) *ssa.Function {
	if n == nil {
		return nil
	}
	ms := w.prog.MethodSets.MethodSet(types.NewPointer(n))
	sel := ms.Lookup(n.Obj().Pkg(), name)
	if sel == nil {
		return nil
	}
	return w.prog.MethodValue(sel)
}

// declared reports whether f (or what it wraps) is declared in source, as
// opposed to a compiler generated promotion wrapper.
func declared(f *ssa.Function) bool {
	return f != nil && f.Synthetic == "" || f != nil && strings.HasPrefix(f.Synthetic, "instance")
}

// ownMethods lists the source-declared methods of *T.
func (w *World) ownMethods(n *types.Named) (out []*ssa.Function) {
	if n == nil {
		return
	}
	ms := w.prog.MethodSets.MethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if len(sel.Index()) != 1 {
			continue
		}
		f := w.prog.MethodValue(sel)
		if f != nil {
			out = append(out, f)
		}
	}
	return
}

func (w *World) pkgFunc(path, name string) *ssa.Function {
	p := w.byPth[path]
	if p == nil {
		return nil
	}
	sp := w.prog.Package(p.Types)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// callees resolves a call site to workspace functions: static callees, and for
// invocations of workspace interfaces every workspace implementation (CHA).
func (w *World) callees(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if cc.IsInvoke() {
		return w.implsOf(cc.Value.Type(), cc.Method)
	}
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	return nil
}

func (w *World) implsOf(it types.Type, m *types.Func) []*ssa.Function {
	key := types.TypeString(it, nil) + "." + m.Name()
	if v, ok := w.impls[key]; ok {
		return v
	}
	w.impls[key] = nil
	var out []*ssa.Function
	ifc, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	n := namedOf(it)
	if n == nil || n.Obj().Pkg() == nil || !isWs(n.Obj().Pkg().Path()) {
		return nil
	}
	cands := []*types.Named{w.trieT, w.nodeT, w.ttlT}
	for _, p := range w.pkgs {
		if strings.Contains(p.PkgPath, "/examples/") {
			continue
		}
		for _, name := range p.Types.Scope().Names() {
			if tn, ok := p.Types.Scope().Lookup(name).(*types.TypeName); ok && !tn.IsAlias() {
				if nn, ok := tn.Type().(*types.Named); ok && nn.TypeParams().Len() == 0 {
					cands = append(cands, nn)
				}
			}
		}
	}
	for _, c := range cands {
		if c == nil {
			continue
		}
		if _, isI := c.Underlying().(*types.Interface); isI {
			continue
		}
		pt := types.NewPointer(c)
		if !types.Implements(pt, ifc) {
			continue
		}
		if c == w.dummyT {
			continue // placeholder store: analysed on its own, never a callee of the real one
		}
		sel := w.prog.MethodSets.MethodSet(pt).Lookup(m.Pkg(), m.Name())
		if sel == nil {
			continue
		}
		if f := w.prog.MethodValue(sel); f != nil {
			out = append(out, f)
		}
	}
	w.impls[key] = out
	return out
}

// computeSCC marks functions on call-graph cycles.
func (w *World) computeSCC() {
	w.scc = map[*ssa.Function]bool{}
	index := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n := 0
	succ := func(f *ssa.Function) (out []*ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch c := in.(type) {
				case ssa.CallInstruction:
					if _, isGo := in.(*ssa.Go); isGo {
						continue
					}
					out = append(out, w.callees(c)...)
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					out = append(out, mc.Fn.(*ssa.Function))
				}
			}
		}
		return
	}
	var comps [][]*ssa.Function
	var strong func(v *ssa.Function)
	strong = func(v *ssa.Function) {
		n++
		index[v], low[v] = n, n
		stack = append(stack, v)
		on[v] = true
		self := false
		for _, u := range succ(v) {
			if u == v {
				self = true
			}
			if index[u] == 0 {
				strong(u)
				if low[u] < low[v] {
					low[v] = low[u]
				}
			} else if on[u] && index[u] < low[v] {
				low[v] = index[u]
			}
		}
		if low[v] == index[v] {
			var comp []*ssa.Function
			for {
				u := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[u] = false
				comp = append(comp, u)
				if u == v {
					break
				}
			}
			if len(comp) > 1 || self {
				for _, u := range comp {
					w.scc[u] = true
				}
				if len(comp) > 1 {
					comps = append(comps, comp)
				}
			}
		}
	}
	for _, f := range w.fns {
		if index[f] == 0 {
			strong(f)
		}
	}
	// A member nobody outside the cycle calls is a part of it that got its own
	// name; as long as the members left still cut every cycle, it is analysed
	// in place.
	for _, comp := range comps {
		in := map[*ssa.Function]bool{}
		for _, f := range comp {
			in[f] = true
		}
		outside := map[*ssa.Function]bool{}
		for _, f := range w.fns {
			if in[f] {
				continue
			}
			for _, u := range succ(f) {
				outside[u] = true
			}
		}
		sort.Slice(comp, func(i, j int) bool { return comp[i].Pos() < comp[j].Pos() })
		for _, f := range comp {
			if outside[f] || f.Object() == nil || f.Object().Exported() || f.Origin() != nil && f.Origin() == f {
				continue
			}
			w.scc[f] = false
			// acyclic?
			state := map[*ssa.Function]int{}
			var cyc func(g *ssa.Function) bool
			cyc = func(g *ssa.Function) bool {
				state[g] = 1
				for _, u := range succ(g) {
					if !in[u] || w.scc[u] {
						continue
					}
					if state[u] == 1 || state[u] == 0 && cyc(u) {
						return true
					}
				}
				state[g] = 2
				return false
			}
			for _, g := range comp {
				if !w.scc[g] && state[g] == 0 && cyc(g) {
					w.scc[f] = true
					break
				}
			}
		}
	}
}

// structFields returns the struct of a named type.
func structOf(n *types.Named) *types.Struct {
	if n == nil {
		return nil
	}
	st, _ := n.Underlying().(*types.Struct)
	return st
}
