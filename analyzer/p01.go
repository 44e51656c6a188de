package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("P01", p01) }

// readMethods: exported operations documented to read. Everything not known to
// write by its exported name is a read.
var writeNames = map[string]bool{"Set": true, "Insert": true, "SetEx": true, "SetNode": true, "SetEmpty": true, "Update": true, "SetComment": true, "SetTag": true, "SetTTL": true, "SetTTLFast": true, "SetData": true, "SetModified": true, "ToggleModified": true, "ResetModified": true, "Merge": true, "Remove": true, "RemoveEx": true, "SetPrefix": true, "SetDelimiter": true, "Load": true, "WithinLoading": true, "Close": true, "Watch": true}

func (w *World) readEntries() (out []*ssa.Function) {
	for _, n := range []*types.Named{w.nodeT, w.trieT, w.storeT, w.loaderT} {
		for _, f := range w.exportedMethods(n) {
			if !writeNames[f.Object().Name()] {
				out = append(out, f)
			}
		}
	}
	return
}

func p01(c *Ctx) {
	c.rule("pure-read", "no read operation, nor anything it calls in the repository, writes a field of an existing node, tree or store, an element of an existing slice or a key of an existing map (objects created during the call, pooled scratch objects and the caller's own key/value output map excepted)")
	c.assume = append(c.assume, "functions outside the repository do not modify what they are given, except sort.*, slices.* and maps.* in-place functions and sync/atomic stores, which are modelled; callbacks supplied by the user are the user's own")
	w := c.w
	ef := w.effects()
	guarded := map[string]bool{}
	for _, n := range []*types.Named{w.nodeT, w.trieT, w.storeT, w.ttlT} {
		if n != nil {
			guarded[n.Obj().Name()] = true
		}
	}
	for _, f := range w.readEntries() {
		c.saw(f)
		bad := false
		for _, x := range ef.of(f) {
			if x.or.kind == "global" && strings.HasPrefix(x.what, "global.") {
				continue
			}
			owner, _, isField := strings.Cut(x.what, ".")
			switch {
			case strings.HasPrefix(x.what, "map:"), strings.HasPrefix(x.what, "elem:"):
				if strings.HasPrefix(x.what, "map:KVPair") {
					continue // the caller's output map
				}
				if (x.or.kind == "param" || x.or.kind == "pcont") && x.or.idx > 0 {
					continue // an argument of the call, not the tree's
				}
			case isField && guarded[owner]:
			default:
				continue
			}
			bad = true
			c.bad("pure-read", w.fname(f)+" -> "+w.fname(x.fn)+" writes "+x.what, x.pos, "the read operation %s reaches a write of %s on an existing object, in %s", w.fname(f), x.what, w.fname(x.fn))
		}
		if !bad {
			c.ok("pure-read")
		}
	}
}
