package main

import (
	"go/build/constraint"
	"os"
	"sort"
	"strings"
)

// tags: the build tags of the repository's own choosing that its files mention.
func (w *World) tags() (out []string) {
	seen := map[string]bool{}
	note := func(file string) {
		if strings.HasSuffix(file, "_test.go") || !strings.HasSuffix(file, ".go") {
			return
		}
		b, err := os.ReadFile(file)
		if err != nil {
			return
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "package ") {
				break
			}
			if !constraint.IsGoBuild(l) {
				continue
			}
			x, err := constraint.Parse(l)
			if err != nil {
				continue
			}
			var walk func(constraint.Expr)
			walk = func(e constraint.Expr) {
				switch y := e.(type) {
				case *constraint.TagExpr:
					seen[y.Tag] = true
				case *constraint.NotExpr:
					walk(y.X)
				case *constraint.AndExpr:
					walk(y.X)
					walk(y.Y)
				case *constraint.OrExpr:
					walk(y.X)
					walk(y.Y)
				}
			}
			walk(x)
		}
	}
	for _, p := range w.pkgs {
		for _, f := range p.GoFiles {
			note(f)
		}
		for _, f := range p.IgnoredFiles {
			note(f)
		}
	}
	sys := " aix android darwin dragonfly freebsd illumos ios js linux netbsd openbsd plan9 solaris wasip1 windows unix 386 amd64 arm arm64 loong64 mips mips64 mips64le mipsle ppc64 ppc64le riscv64 s390x wasm cgo gc gccgo ignore race tools "
	for t := range seen {
		if !strings.HasPrefix(t, "go1.") && !strings.Contains(sys, " "+t+" ") {
			out = append(out, t)
		}
	}
	sort.Strings(out)
	return
}

// join adds what was found in another build configuration.
func (c *Ctx) join(d *Ctx, build string) {
	for r, n := range d.counts {
		c.counts[r] += n
	}
	for f := range d.fns {
		c.fns[f] = true
	}
	for _, u := range d.undecided {
		c.undecided = append(c.undecided, "["+build+"] "+u)
	}
	for _, f := range d.findings {
		if k := f.Rule + "|" + f.Construct; !c.seenF[k] {
			c.seenF[k] = true
			f.Msg += " (build configuration " + build + ")"
			c.findings = append(c.findings, f)
		}
	}
}

// stepBound: how many instructions one analysis may execute before it gives up.
var stepBound = 3_000_000
