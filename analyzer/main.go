package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violated obligation. rule+construct identify it independently
// of line numbers.
type Finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Msg       string `json:"message"`
	Pos       string `json:"pos"`
}

type Ctx struct {
	w         *World
	prop      string
	tier      string
	findings  []Finding
	counts    map[string]int
	undecided []string
	fns       map[string]bool
	rules     map[string]string
	assume    []string
	seenF     map[string]bool
}

func (c *Ctx) rule(id, text string) { c.rules[id] = text }

// ok records a discharged obligation of a rule.
func (c *Ctx) ok(rule string) { c.counts[rule]++ }

func (c *Ctx) bad(rule, construct string, pos token.Pos, f string, a ...any) {
	c.counts[rule]++
	k := rule + "|" + construct
	if c.seenF[k] {
		return
	}
	c.seenF[k] = true
	c.findings = append(c.findings, Finding{rule, construct, fmt.Sprintf(f, a...), c.w.pos(pos)})
}

func (c *Ctx) und(rule, construct, f string, a ...any) {
	s := rule + ": " + construct + ": " + fmt.Sprintf(f, a...)
	for _, x := range c.undecided {
		if x == s {
			return
		}
	}
	c.undecided = append(c.undecided, s)
}

// ends reports loops that no path leaves.
func (c *Ctx) ends(rule, name string, e *Engine, what string) {
	for _, l := range e.endless {
		c.bad(rule, name, firstPos(l.header), "%s", what)
		return
	}
}

func (c *Ctx) saw(f *ssa.Function) {
	if f != nil {
		c.fns[c.w.fname(f)] = true
	}
}

type prop struct {
	id  string
	run func(*Ctx)
}

var props []prop

func register(id string, f func(*Ctx)) { props = append(props, prop{id, f}) }

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		die(2, "usage: analyzer check ID [quick|thorough] | dump FN... | list")
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(check(repo, os.Args[2], tier))
	case "checkall": // development aid: one load, every property, no evidence
		w := loadWorld(repo)
		rc := 0
		only := map[string]bool{}
		for _, a := range os.Args[2:] {
			only[a] = true
		}
		for _, p := range props {
			if len(only) > 0 && !only[p.id] {
				continue
			}
			t := time.Now()
			c := runProp(w, p, "quick")
			known := loadKnown(filepath.Join(verifDir(), "known-findings.txt"), p.id)
			fmt.Printf("%s findings=%d undecided=%d obligations=%d %v\n", p.id, len(c.findings), len(c.undecided), total(c.counts), time.Since(t).Round(time.Millisecond))
			for _, f := range c.findings {
				k := ""
				if known[f.Rule+" "+f.Construct] != "" {
					k = "(known) "
				} else {
					rc = 1
				}
				fmt.Printf("   %sVIOL %s %s: %s [%s]\n", k, f.Rule, f.Construct, f.Msg, f.Pos)
			}
			if os.Getenv("V") != "" {
				for _, u := range c.undecided {
					fmt.Println("   undecided", u)
				}
				var ks []string
				for k := range c.counts {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					fmt.Println("   rule", k, c.counts[k])
				}
			}
		}
		os.Exit(rc)
	case "list":
		for _, p := range props {
			fmt.Println(p.id)
		}
	case "dump":
		w := loadWorld(repo)
		for _, f := range w.fns {
			n := w.fname(f)
			for _, want := range os.Args[2:] {
				if n == want {
					e := newEngine(w)
					switch os.Getenv("ENG") {
					case "view":
						e = w.viewEngine()
					case "trie":
						e = w.trieEngine()
					case "radix":
						e = w.radixEngine()
					}
					e.quietGo = os.Getenv("GO") != ""
					if x := os.Getenv("OPQ"); x != "" {
						op := e.opaque
						e.opaque = func(f *ssa.Function) bool {
							return strings.Contains(w.fname(f), x) || op != nil && op(f)
						}
					}
					outs := e.Analyze(f)
					if e.quietGo {
						var all []*Outcome
						for _, o := range outs {
							if r, s := e.goOn(o); s != nil {
								all = append(all, r...)
							}
						}
						outs = all
					}
					fmt.Println("==", n, "outcomes", len(outs), "steps", e.steps, "over", e.over)
					for i, o := range outs {
						if i > 30 {
							break
						}
						dumpOutcome(w, o)
					}
				}
			}
		}
	case "ssa":
		w := loadWorld(repo)
		for _, f := range w.fns {
			for _, want := range os.Args[2:] {
				if w.fname(f) == want {
					f.WriteTo(os.Stdout)
				}
			}
		}
	case "names":
		w := loadWorld(repo)
		for _, f := range w.fns {
			fmt.Println(w.fname(f), w.scc[f])
		}
	default:
		die(2, "unknown command %s", os.Args[1])
	}
}

func total(m map[string]int) (n int) {
	for _, v := range m {
		n += v
	}
	return
}

func runProp(w *World, p prop, tier string) *Ctx {
	c := &Ctx{w: w, prop: p.id, tier: tier, counts: map[string]int{}, fns: map[string]bool{}, rules: map[string]string{}, seenF: map[string]bool{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("V") != "" {
					debug.PrintStack()
				}
				c.und("analyzer", p.id, "gave up: %v", r)
			}
		}()
		p.run(c)
	}()
	return c
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// loadKnown reads "known: property=P rule=R construct=C :: text" lines.
func loadKnown(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		head, text, _ := strings.Cut(l, " :: ")
		_, rc, ok := strings.Cut(head, " rule=")
		if !ok {
			continue
		}
		r, cst, ok := strings.Cut(rc, " construct=")
		if !ok {
			continue
		}
		out[strings.TrimSpace(r)+" "+strings.TrimSpace(cst)] = text
	}
	return out
}

func check(repo, id, tier string) int {
	t0 := time.Now()
	var p *prop
	for i := range props {
		if props[i].id == id {
			p = &props[i]
		}
	}
	if p == nil {
		die(2, "no such property %s", id)
	}
	if tier == "thorough" {
		stepBound *= 10
	}
	w := loadWorld(repo)
	c := runProp(w, *p, tier)
	builds := []string{"default"}
	if tier == "thorough" { // deeper, and the other build configurations of the repository
		for _, t := range w.tags() {
			buildTags = t
			c2 := runProp(loadWorld(repo), *p, tier)
			builds = append(builds, t)
			c.join(c2, t)
		}
		buildTags = ""
	}
	known := loadKnown(filepath.Join(verifDir(), "known-findings.txt"), id)
	var fresh []Finding
	for _, f := range c.findings {
		if text, ok := known[f.Rule+" "+f.Construct]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s, %s)\n", id, text, f.Construct, f.Pos)
		} else {
			fresh = append(fresh, f)
		}
	}
	evdir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(evdir, 0o755)
	n := total(c.counts)
	var fl []string
	for f := range c.fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":         "static analysis of the type-checked program: every obligation below is a rule applied to one construct of /repo's current source; nothing was executed",
			"functions_in_scope":  len(w.fns),
			"functions_analysed":  len(fl),
			"functions":           fl,
			"obligations":         n,
			"obligations_by_rule": c.counts,
			"rules":               c.rules,
			"undecided":           c.undecided,
			"packages":            len(w.pkgs),
			"builds":              builds,
		},
		"assumptions": c.assume,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(fresh),
	}
	if b, err := json.MarshalIndent(ev, "", " "); err == nil {
		_ = os.WriteFile(filepath.Join(evdir, id+".json"), b, 0o644)
	}
	fmt.Printf("%s [%s] %d functions analysed, %d obligations, %d undecided, %d violations, %.1fs, %s\n", id, tier, len(fl), n, len(c.undecided), len(fresh), time.Since(t0).Seconds(), runtime.Version())
	for _, u := range c.undecided {
		fmt.Println("undecided:", u)
	}
	if n == 0 {
		die(2, "%s: no obligation found: the analysis lost its subject", id)
	}
	if len(fresh) == 0 {
		return 0
	}
	rp := filepath.Join(evdir, id+".violations.json")
	if b, err := json.MarshalIndent(map[string]any{"property": id, "findings": fresh, "rules": c.rules, "rerun": "bash /verif/check.sh " + id}, "", " "); err == nil {
		_ = os.WriteFile(rp, b, 0o644)
	}
	for _, f := range fresh {
		fmt.Printf("%s: %s: %s: %s\n", f.Pos, f.Rule, f.Construct, f.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

// brief prints a term for development dumps: calls without their arguments.
func brief(t *Term) string {
	if t == nil {
		return "-"
	}
	var rec func(t *Term, d int) string
	tail := func(s string) string {
		if i := strings.LastIndexByte(s, '/'); i >= 0 {
			return s[i+1:]
		}
		return s
	}
	rec = func(t *Term, d int) string {
		if d > 8 {
			return "…"
		}
		as := func() string {
			var o []string
			for _, a := range t.args {
				o = append(o, rec(a, d+1))
			}
			return strings.Join(o, ",")
		}
		switch t.op {
		case "call":
			if d > 1 {
				return tail(t.aux)
			}
			return tail(t.aux) + "(" + as() + ")"
		case "res":
			return rec(t.args[0], d+2) + "." + t.aux
		case "fieldaddr":
			return "&" + rec(t.args[0], d+1) + "." + t.aux
		case "load":
			a := t.args[0]
			if a.op == "fieldaddr" {
				return rec(a.args[0], d+1) + "." + a.aux + ep(t.aux)
			}
			if a.op == "idxaddr" {
				return rec(a.args[0], d+1) + "[" + rec(a.args[1], d+1) + "]" + ep(t.aux)
			}
			return "*" + rec(a, d+1)
		case "const", "nil", "param", "alloc":
			return t.String()
		case "global":
			return tail(t.aux)
		case "eq":
			return "(" + rec(t.args[0], d+1) + "==" + rec(t.args[1], d+1) + ")"
		case "lt":
			return "(" + rec(t.args[0], d+1) + "<" + rec(t.args[1], d+1) + ")"
		case "not":
			return "!" + rec(t.args[0], d)
		case "closure", "func":
			return tail(t.aux)
		}
		return t.op + ":" + tail(t.aux) + "(" + as() + ")"
	}
	return rec(t, 0)
}

func dumpOutcome(w *World, o *Outcome) {
	fmt.Println("  --- panic:", o.panic)
	for _, x := range o.st.facts.list() {
		if x.pol {
			fmt.Println("     fact", brief(x.atom))
		} else {
			fmt.Println("     fact NOT", brief(x.atom))
		}
	}
	for _, ev := range o.st.events {
		dumpEvent(w, ev, "     ")
	}
	for i, r := range o.rets {
		fmt.Printf("     ret%d = %s\n", i, brief(r))
	}
}

func dumpEvent(w *World, ev *Event, ind string) {
	var as []string
	for _, a := range ev.args {
		as = append(as, brief(a))
	}
	switch ev.kind {
	case "loop":
		fmt.Println(ind+"loop", ev.loop.id, "exits", len(ev.loop.exits))
		for _, b := range ev.loop.bodies {
			fmt.Println(ind + "  body:")
			for f := b.facts; f != nil && f != ev.loop.entry; f = f.up {
				fmt.Println(ind+"    fact", f.pol, brief(f.atom))
			}
			for _, x := range b.events {
				dumpEvent(w, x, ind+"    ")
			}
		}
	case "store":
		fmt.Println(ind+"store", brief(ev.addr), "=", brief(ev.val))
	case "call":
		n := ev.name
		if i := strings.LastIndexByte(n, '/'); i >= 0 {
			n = n[i+1:]
		}
		fmt.Println(ind+"call", n, strings.Join(as, " | "), w.pos(ev.pos))
	default:
		fmt.Println(ind+ev.kind, ev.name, as, brief(ev.addr), brief(ev.key), brief(ev.val), w.pos(ev.pos))
	}
}
