package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A call that fails returns nothing beside its error: what it returns is
// dereferenced only where the error was found to be nil. The same holds of the
// value of a conversion or a look-up that reports whether it found one.

// failable: the tuple whose first component is nothing when the last one says so.
func failable(v ssa.Value) (n int, isErr, ok bool) {
	t, isT := v.Type().(*types.Tuple)
	if !isT || t.Len() < 2 {
		return 0, false, false
	}
	switch v := v.(type) {
	case *ssa.Call:
		last := t.At(t.Len() - 1).Type()
		return t.Len() - 1, true, types.Identical(last, types.Universe.Lookup("error").Type())
	case *ssa.TypeAssert:
		return 1, false, v.CommaOk
	case *ssa.Lookup:
		return 1, false, v.CommaOk
	}
	return 0, false, false
}

// nothing: the type has a value nil that cannot be used.
func hasNil(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// derefs are the instructions that fail if v is nil.
func derefs(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	if v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			if r.X == v {
				out = append(out, r)
			}
		case *ssa.UnOp:
			if r.Op == token.MUL && r.X == v {
				out = append(out, r)
			}
		case *ssa.Store:
			if r.Addr == v {
				out = append(out, r)
			}
		case *ssa.ChangeInterface:
			out = append(out, derefs(r)...)
		case ssa.CallInstruction:
			cc := r.Common()
			if cc.Value == v {
				out = append(out, r)
			} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(cc.Args) > 0 && cc.Args[0] == v && !nilReceiver(f) {
				out = append(out, r)
			}
		}
	}
	return out
}

// nilReceiver: the method of the repository tests its receiver for nil.
func nilReceiver(f *ssa.Function) bool {
	if f.Blocks == nil || len(f.Params) == 0 {
		return false
	}
	for _, i := range f.Blocks[0].Instrs {
		if b, ok := i.(*ssa.BinOp); ok && (b.X == f.Params[0] && isNilConst(b.Y) || b.Y == f.Params[0] && isNilConst(b.X)) {
			return true
		}
	}
	return false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// entryOf: the block all ways into b come from, loops around b aside.
func entryOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	var from *ssa.BasicBlock
	for _, p := range b.Preds {
		if b.Dominates(p) {
			continue
		}
		if from != nil {
			return nil
		}
		from = p
	}
	return from
}

// tested: a branch before the block found the value usable.
func tested(b *ssa.BasicBlock, good func(cond ssa.Value, yes bool) bool) bool {
	for dom := b; dom != nil; dom = dom.Idom() {
		p := entryOf(dom)
		if p == nil {
			continue
		}
		i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if ok && p.Succs[0] != p.Succs[1] && good(i.Cond, p.Succs[0] == dom) {
			return true
		}
	}
	return false
}

// failingRule decides the uses of each result that may be nothing.
func failingRule(c *Ctx, fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			tuple, ok := i.(ssa.Value)
			if !ok {
				continue
			}
			if call, ok := i.(*ssa.Call); ok && mayBeNothing(c.P, call.Call.StaticCallee()) {
				nothingRule(c, fn, call, call, nil, true, "it being there", map[ssa.Value]bool{})
				continue
			}
			n, isErr, ok := failable(tuple)
			if !ok {
				continue
			}
			var flag ssa.Value
			var vals []*ssa.Extract
			for _, r := range *tuple.Referrers() {
				if e, ok := r.(*ssa.Extract); ok {
					if e.Index == n {
						flag = e
					} else if hasNil(e.Type()) {
						vals = append(vals, e)
					}
				}
			}
			what := "its error"
			if !isErr {
				what = "it being there"
			}
			for _, v := range vals {
				nothingRule(c, fn, tuple, v, flag, isErr, what, map[ssa.Value]bool{})
			}
		}
	}
}

// mayBeNothing: the function of the repository returns a pointer, nil among what
// it may be.
func mayBeNothing(P *Program, f *ssa.Function) bool {
	if f == nil || f.Blocks == nil || !P.inRepo(f) || f.Signature.Results().Len() != 1 {
		return false
	}
	if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if isNilConst(r.Results[0]) {
			return true
		}
		e, ok := r.Results[0].(*ssa.Extract)
		if !ok {
			continue
		}
		n, isErr, ok := failable(e.Tuple)
		if !ok || e.Index != 0 {
			continue
		}
		var flag ssa.Value
		for _, x := range *e.Tuple.Referrers() {
			if x, ok := x.(*ssa.Extract); ok && x.Index == n {
				flag = x
			}
		}
		if !tested(b, func(cond ssa.Value, yes bool) bool { return usable(cond, yes, e, flag, isErr) }) {
			return true
		}
	}
	return false
}

// nothingRule decides the uses of v, also where it became one of several values:
// the flag that tells it is the one merged with it, on the same way.
func nothingRule(c *Ctx, fn *ssa.Function, from, v, flag ssa.Value, isErr bool, what string, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	good := func(cond ssa.Value, yes bool) bool { return usable(cond, yes, v, flag, isErr) }
	for _, d := range derefs(v) {
		c.Ob("nothing", d, tested(d.Block(), good), "%s uses what %s returned without %s having been looked at", fn, describe(from), what)
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.MakeInterface:
			nothingRule(c, fn, from, r, flag, isErr, what, seen)
		case *ssa.Phi:
			for k, e := range r.Edges {
				if e != v {
					continue
				}
				p := r.Block().Preds[k]
				if tested(p, good) {
					continue
				}
				if i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] && good(i.Cond, p.Succs[0] == r.Block()) {
					continue
				}
				var merged ssa.Value
				for _, i := range r.Block().Instrs {
					if q, ok := i.(*ssa.Phi); ok && flag != nil && q.Edges[k] == flag {
						merged = q
					}
				}
				if merged == nil {
					merged = flag
				}
				nothingRule(c, fn, from, r, merged, isErr, what, seen)
			}
		}
	}
}

func describe(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			return f.String()
		}
		if v.Call.IsInvoke() {
			return v.Call.Method.Name()
		}
		return "a call"
	case *ssa.TypeAssert:
		return "the conversion to " + v.AssertedType.String()
	}
	return "the look-up"
}

func usable(cond ssa.Value, yes bool, v, flag ssa.Value, isErr bool) bool {
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return usable(x.X, !yes, v, flag, isErr)
		}
	case *ssa.BinOp:
		for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if !isNilConst(p[1]) {
				continue
			}
			if isErr && flag != nil && p[0] == flag && (x.Op == token.EQL) == yes || p[0] == v && (x.Op == token.NEQ) == yes {
				return true
			}
		}
	}
	if c, ok := cond.(*ssa.Call); ok {
		// a helper that looks at what it is given
		res, env, ok := helperBody(c, nil)
		if !ok {
			return false
		}
		var v2, flag2 ssa.Value
		for p, a := range env {
			if a == v {
				v2 = p
			}
			if a == flag {
				flag2 = p
			}
		}
		if v2 == nil && flag2 == nil {
			return false
		}
		var look func(res ssa.Value, yes bool) bool
		look = func(res ssa.Value, yes bool) bool {
			if p, ok := res.(*ssa.Phi); ok {
				e, from, ok := bothOf(p, yes)
				return ok && (look(e, yes) || tested(from, func(cond ssa.Value, yes bool) bool { return usable(cond, yes, v2, flag2, isErr) }))
			}
			return usable(res, yes, v2, flag2, isErr)
		}
		return look(res, yes)
	}
	return !isErr && cond == flag && yes && flag != nil
}
