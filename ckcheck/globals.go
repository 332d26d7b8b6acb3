package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// constGlobals finds the package variables that are written by the package
// initialiser only: their content is known to every function.
func (P *Program) constGlobals() map[*ssa.Global]bool {
	if P.cglobals != nil {
		return P.cglobals
	}
	out := map[*ssa.Global]bool{}
	bad := map[*ssa.Global]bool{}
	for _, sp := range P.ByPath {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !isPtrOrChan(deref(g.Type())) {
				out[g] = true
			}
		}
	}
	var fns []*ssa.Function
	fns = append(fns, P.AllFuncs...)
	for _, sp := range P.ByPath {
		if f := sp.Func("init"); f != nil {
			fns = append(fns, f)
		}
	}
	for _, fn := range fns {
		isInit := fn.Synthetic != "" && fn.Name() == "init"
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := i.(type) {
					case *ssa.UnOp:
						if !isInit && !readOnlyUse(x) {
							bad[g] = true
						}
					case *ssa.Store:
						if !isInit || x.Val == *op && x.Addr != *op {
							bad[g] = true
						}
					default:
						if !isInit {
							bad[g] = true
						}
					}
				}
			}
		}
	}
	for g := range bad {
		delete(out, g)
	}
	P.cglobals = out
	return out
}

func isPtrOrChan(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Chan:
		return true
	}
	return false
}

// readOnlyUse: what was loaded from the variable is only read.
func readOnlyUse(v ssa.Value) bool { return readOnlyDepth(v, 0) }

// readOnlyAddr: the cell (or a part of it) is only loaded.
func readOnlyAddr(v ssa.Value, depth int) bool {
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.UnOp:
			if !readOnlyDepth(u, depth+1) {
				return false
			}
		case *ssa.FieldAddr:
			if depth > 4 || !readOnlyAddr(u, depth+1) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func readOnlyDepth(v ssa.Value, depth int) bool {
	switch v.Type().Underlying().(type) {
	case *types.Map, *types.Slice:
	default:
		return true
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.BinOp, *ssa.DebugRef:
		case *ssa.IndexAddr:
			if depth > 4 || !readOnlyAddr(x, depth+1) {
				return false
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "append" && x.Call.Args[0] != v) {
				continue
			}
			if f := x.Call.StaticCallee(); f != nil {
				if readOnlyCallee(f) {
					continue
				}
				if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) && f.Blocks != nil && depth < 4 {
					ok := true
					for k, a := range x.Call.Args {
						if a == v && !readOnlyDepth(f.Params[k], depth+1) {
							ok = false
						}
					}
					if ok {
						continue
					}
				}
			}
			return false
		default:
			return false
		}
	}
	return true
}

func readOnlyCallee(f *ssa.Function) bool {
	n := funcName(f)
	if f.Origin() != nil {
		n = funcName(f.Origin())
	}
	switch n {
	case "slices.Contains", "slices.Index", "strings.Join", "k8s.io/apimachinery/pkg/util/sets.NewString":
		return true
	}
	return false
}

// loadInits evaluates the package initialisers and keeps what they leave in the
// constant package variables.
func (in *Interp) loadInits() {
	mem := newMem()
	cg := in.P.constGlobals()
	paths := sortedKeys(in.P.ByPath)
	for _, path := range paths {
		sp := in.P.ByPath[path]
		need := false
		for g := range cg {
			if g.Pkg == sp && g.Name() != "init$guard" {
				need = true
			}
		}
		f := sp.Func("init")
		if !need || f == nil || f.Blocks == nil {
			continue
		}
		sub := &Interp{World: in.World, P: in.P, loopSeen: map[string]*Loop{}, Opaque: defaultOpaque, NoLoads: true}
		m := newMem()
		gt := in.mkT("global", path+".init$guard", types.NewPointer(types.Typ[types.Bool]))
		m.m[gt] = in.Bool(false)
		fr := sub.RunMem(f, []*Term{}, m)
		if len(fr.returns) != 1 {
			continue
		}
		rm := fr.returns[0].mem
		seen := map[*Term]bool{}
		// keep follows the value into the cells it is made of
		var keep func(t *Term)
		keep = func(t *Term) {
			if t == nil || seen[t] {
				return
			}
			seen[t] = true
			for k, v := range rm.m {
				if k == t || k.Op == "mapval" && k.Args[0] == t || (k.Op == "fieldaddr" || k.Op == "indexaddr") && underOf(k, t) {
					if !seen[k] {
						seen[k] = true
					}
					mem.m[k] = v
					keep(v)
				}
			}
			for _, a := range t.Args {
				keep(a)
			}
		}
		for g := range cg {
			if g.Pkg != sp {
				continue
			}
			t := in.mkT("global", path+"."+g.Name(), g.Type())
			if v, ok := rm.m[t]; ok {
				mem.m[t] = v
				keep(v)
			}
			// aggregates may live in sub cells
			for k, v := range rm.m {
				if (k.Op == "fieldaddr" || k.Op == "indexaddr") && underOf(k, t) {
					mem.m[k] = v
					keep(v)
				}
			}
		}
	}
	in.initMem = mem
}
