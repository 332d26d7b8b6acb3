package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Differences of numbers and lengths in the SSA form of one function: a value
// is at most another plus a constant, by the branches taken before the point
// and by induction over the loops (as in the elimination of bound checks).

// quant is a number of the function: a value, a length, or zero.
type quant struct {
	v   ssa.Value
	len bool
}

type diffs struct {
	fn     *ssa.Function
	facts  map[*ssa.BasicBlock][]diff
	active map[[2]quant]int64
	steps  int
	env    map[ssa.Value]ssa.Value // the arguments of the helpers looked into
}

// diff: a <= b + k.
type diff struct {
	a, b quant
	k    int64
}

func newDiffs(fn *ssa.Function) *diffs {
	return &diffs{fn: fn, facts: map[*ssa.BasicBlock][]diff{}}
}

// helperBody: the value a call of a helper of the repository returns, which
// depends on nothing but its arguments.
func helperBody(call *ssa.Call, env map[ssa.Value]ssa.Value) (ssa.Value, map[ssa.Value]ssa.Value, bool) {
	f := call.Call.StaticCallee()
	if f == nil || f.Blocks == nil || len(f.FreeVars) > 0 || len(env) > 20 || f.Pkg == nil || call.Parent() == f || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
		return nil, nil, false
	}
	var res ssa.Value
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Return:
				if res != nil || len(i.Results) != 1 {
					return nil, nil, false
				}
				res = i.Results[0]
			case *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.Call, *ssa.DebugRef:
			case *ssa.UnOp:
				if i.Op != token.NOT && i.Op != token.SUB {
					return nil, nil, false
				}
			default:
				return nil, nil, false
			}
		}
	}
	if res == nil {
		return nil, nil, false
	}
	to := map[ssa.Value]ssa.Value{}
	for k, v := range env {
		to[k] = v
	}
	for i, p := range f.Params {
		a := call.Call.Args[i]
		if v, ok := env[a]; ok {
			a = v
		}
		to[p] = a
	}
	return res, to, true
}

// bothOf: a value put together with && (or ||) is yes only if its last operand
// and the branches before it are.
func bothOf(p *ssa.Phi, yes bool) (ssa.Value, *ssa.BasicBlock, bool) {
	var last ssa.Value
	var from *ssa.BasicBlock
	for i, e := range p.Edges {
		if c, ok := e.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value) != yes {
			continue
		}
		if last != nil {
			return nil, nil, false
		}
		last, from = e, p.Block().Preds[i]
	}
	return last, from, last != nil
}

// norm writes v as a quantity and a constant.
func (d *diffs) norm(q quant) (quant, int64) {
	var k int64
	env := d.env
	var out quant // the call looked into
	var outK int64
	for {
		if v, ok := env[q.v]; ok && q.v != nil {
			q.v = v
		}
		r, rk, more := d.norm1(q)
		k += rk
		if !more {
			if c, ok := r.v.(*ssa.Call); ok && !r.len {
				if v, e, ok := helperBody(c, env); ok {
					if out.v == nil && (r.v.Parent() == d.fn || r.v.Parent() == nil) {
						out, outK = r, k
					}
					q, env = quant{v, false}, e
					continue
				}
			}
			if out.v != nil && r.v != nil && r.v.Parent() != nil && r.v.Parent() != d.fn {
				return out, outK
			}
			return r, k
		}
		q = r
	}
}

// norm1 goes one step, or more.
func (d *diffs) norm1(q quant) (r quant, k int64, more bool) {
	was := q
	defer func() { more = r != was && r.v != nil }()
	r, k = d.norm0(q)
	return
}

func (d *diffs) norm0(q quant) (quant, int64) {
	var k int64
	for {
		if q.v == nil {
			return q, k
		}
		if q.len {
			switch x := q.v.(type) {
			case *ssa.Const:
				if x.Value == nil {
					return quant{}, k
				}
				if x.Value.Kind() == constant.String {
					return quant{}, k + int64(len(constant.StringVal(x.Value)))
				}
			case *ssa.MakeSlice:
				q = quant{x.Len, false}
				continue
			case *ssa.ChangeType:
				q.v = x.X
				continue
			case *ssa.Convert: // []byte(s) and string(b)
				if isBytes(x.X.Type()) && isBytes(x.Type()) {
					q.v = x.X
					continue
				}
			case *ssa.Slice:
				if n, ok := arrayLen(x.X.Type()); ok && x.Low == nil && x.High == nil {
					return quant{}, k + n
				}
				if x.Low == nil && x.High != nil {
					q = quant{x.High, false}
					continue
				}
				if c, ok := intConst(x.Low); ok && x.Low != nil {
					if _, arr := arrayLen(x.X.Type()); !arr {
						k -= c
						if x.High != nil {
							q = quant{x.High, false}
						} else {
							q.v = x.X
						}
						continue
					}
				}
			}
			return q, k
		}
		switch x := q.v.(type) {
		case *ssa.Const:
			if c, ok := intConst(x); ok {
				return quant{}, k + c
			}
		case *ssa.BinOp:
			if x.Op == token.ADD || x.Op == token.SUB {
				if c, ok := intConst(x.Y); ok && small(x.X, map[ssa.Value]bool{}) {
					if x.Op == token.SUB {
						c = -c
					}
					k += c
					q.v = x.X
					continue
				}
				if c, ok := intConst(x.X); ok && x.Op == token.ADD && small(x.Y, map[ssa.Value]bool{}) {
					k += c
					q.v = x.Y
					continue
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if _, m := x.Call.Args[0].Type().Underlying().(*types.Map); !m {
					q = quant{x.Call.Args[0], true}
					continue
				}
			}
		case *ssa.Convert:
			if isInt(x.X.Type()) && isInt(x.Type()) && signedWide(x.X.Type()) && signedWide(x.Type()) {
				q.v = x.X
				continue
			}
		}
		return q, k
	}
}

func signedWide(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64)
}

func isBytes(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := t.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

func intConst(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

// at lists what the branches before the block promise.
func (d *diffs) at(b *ssa.BasicBlock) []diff {
	if f, ok := d.facts[b]; ok {
		return f
	}
	var out []diff
	for dom := b; dom != nil; dom = dom.Idom() {
		p := entryOf(dom)
		if p == nil {
			continue
		}
		i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || p.Succs[0] == p.Succs[1] {
			continue
		}
		out = append(out, d.cond(i.Cond, p.Succs[0] == dom)...)
	}
	if b.Parent() == d.fn {
		d.facts[b] = out
	}
	return out
}

// own: the quantity is one of the function itself.
func (d *diffs) own(q quant) bool {
	return q.v == nil || q.v.Parent() == nil || q.v.Parent() == d.fn
}

func (d *diffs) cond(v ssa.Value, yes bool) []diff {
	if a, ok := d.env[v]; ok {
		v = a
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return d.cond(x.X, !yes)
		}
	case *ssa.Phi:
		if e, from, ok := bothOf(x, yes); ok && x.Parent() != d.fn {
			return append(d.at(from), d.cond(e, yes)...)
		}
	case *ssa.Call:
		if v, env, ok := helperBody(x, d.env); ok {
			was := d.env
			d.env = env
			defer func() { d.env = was }()
			var out []diff
			for _, f := range d.cond(v, yes) {
				if d.own(f.a) && d.own(f.b) {
					out = append(out, f)
				}
			}
			return out
		}
		if f := x.Call.StaticCallee(); f != nil && yes && len(x.Call.Args) == 2 {
			switch f.String() {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains":
				a, ak := d.norm(quant{x.Call.Args[1], true})
				b, bk := d.norm(quant{x.Call.Args[0], true})
				return []diff{{a, b, bk - ak}}
			}
		}
	case *ssa.BinOp:
		if isString(x.X.Type()) {
			a, ak := d.norm(quant{x.X, true})
			b, bk := d.norm(quant{x.Y, true})
			switch {
			case (x.Op == token.EQL) == yes && (x.Op == token.EQL || x.Op == token.NEQ):
				return []diff{{a, b, bk - ak}, {b, a, ak - bk}}
			case (x.Op == token.NEQ) == yes && (x.Op == token.EQL || x.Op == token.NEQ): // not empty
				if (a == quant{}) && ak == 0 {
					return []diff{{a, b, bk - 1}}
				}
				if (b == quant{}) && bk == 0 {
					return []diff{{b, a, ak - 1}}
				}
			}
			return nil
		}
		if !isInt(x.X.Type()) || !isInt(x.Y.Type()) {
			return nil
		}
		a, ak := d.norm(quant{x.X, false})
		b, bk := d.norm(quant{x.Y, false})
		// x.X = a+ak, x.Y = b+bk; X <= Y + c means a <= b + bk - ak + c
		le := diff{a, b, bk - ak}
		ge := diff{b, a, ak - bk}
		op := x.Op
		if !yes {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		switch op {
		case token.LSS:
			le.k--
			return []diff{le}
		case token.LEQ:
			return []diff{le}
		case token.GTR:
			ge.k--
			return []diff{ge}
		case token.GEQ:
			return []diff{ge}
		case token.EQL:
			return []diff{le, ge}
		case token.NEQ:
			// a length that is not 0 is at least 1
			if a.len && (b == quant{}) && bk-ak == 0 {
				return []diff{{b, a, -1}}
			}
			if b.len && (a == quant{}) && ak-bk == 0 {
				return []diff{{a, b, -1}}
			}
		}
	}
	return nil
}

// le: x <= y + k at the block.
func (d *diffs) le(x, y quant, k int64, at *ssa.BasicBlock) bool {
	d.active, d.steps = map[[2]quant]int64{}, 0
	return d.prove(x, y, k, at)
}

func (d *diffs) prove(x, y quant, k int64, at *ssa.BasicBlock) bool {
	if d.steps++; d.steps > 5000 {
		return false
	}
	x, xk := d.norm(x)
	y, yk := d.norm(y)
	k += yk - xk // x <= y + k
	if x == y {
		return k >= 0
	}
	if x.v == nil && y.len && k >= 0 { // 0 <= len + k
		return true
	}
	key := [2]quant{x, y}
	if was, ok := d.active[key]; ok {
		// the induction hypothesis, if the loop did not weaken it
		return was <= k && was != never
	}
	d.active[key] = never
	defer delete(d.active, key)
	for _, f := range d.at(at) {
		switch {
		case f.a == x && d.prove(f.b, y, k-f.k, at):
			return true
		case f.b == y && f.a != x && d.prove(x, f.a, k-f.k, at):
			return true
		}
	}
	xp, ok1 := x.v.(*ssa.Phi)
	yp, ok2 := y.v.(*ssa.Phi)
	if ok1 && ok2 && !x.len && !y.len && xp.Block() == yp.Block() {
		all := true
		d.active[key] = k
		for i := range xp.Edges {
			all = all && d.edge(quant{xp.Edges[i], false}, quant{yp.Edges[i], false}, k, xp.Block().Preds[i], xp.Block())
		}
		if all {
			return true
		}
	}
	if phi, ok := x.v.(*ssa.Phi); ok && !x.len && y.v != x.v && !d.varies(y, phi.Block()) {
		all := true
		d.active[key] = k
		for i, e := range phi.Edges {
			all = all && d.edge(quant{e, false}, y, k, phi.Block().Preds[i], phi.Block())
		}
		if all {
			return true
		}
	}
	if phi, ok := y.v.(*ssa.Phi); ok && !y.len && !d.varies(x, phi.Block()) {
		all := true
		d.active[key] = k
		for i, e := range phi.Edges {
			all = all && d.edge(x, quant{e, false}, k, phi.Block().Preds[i], phi.Block())
		}
		if all {
			return true
		}
	}
	return false
}

// varies: the quantity is another one in each iteration through the block.
func (d *diffs) varies(q quant, b *ssa.BasicBlock) bool {
	if q.v == nil {
		return false
	}
	i, ok := q.v.(ssa.Instruction)
	if !ok || i.Block() == nil {
		return false // a parameter, a constant, a free variable
	}
	return i.Block() == b || !i.Block().Dominates(b)
}

// edge proves with the branch of the edge.
func (d *diffs) edge(x, y quant, k int64, from, to *ssa.BasicBlock) bool {
	return d.prove(x, y, k, from) || d.viaBranch(x, y, k, from, to)
}

func (d *diffs) viaBranch(x, y quant, k int64, from, to *ssa.BasicBlock) bool {
	i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return false
	}
	x, xk := d.norm(x)
	y, yk := d.norm(y)
	k += yk - xk
	for _, f := range d.cond(i.Cond, from.Succs[0] == to) {
		if f.a == x && d.prove(f.b, y, k-f.k, from) || f.b == y && d.prove(x, f.a, k-f.k, from) {
			return true
		}
	}
	return false
}

const never = int64(-1) << 62

// small: the number stays far from the largest, so that adding to it does not
// wrap around.
func small(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !small(e, seen) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		return (v.Op == token.ADD || v.Op == token.SUB) && small(v.X, seen) && small(v.Y, seen)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap" || b.Name() == "copy"
		}
		if res, env, ok := helperBody(v, nil); ok {
			if a, ok := env[res]; ok {
				res = a
			}
			return small(res, seen)
		}
		f := v.Call.StaticCallee()
		return f != nil && f.Pkg != nil && (f.Pkg.Pkg.Path() == "strings" || f.Pkg.Pkg.Path() == "bytes")
	}
	return false
}

// inRange decides an index or a slice by the differences of its function.
func (d *diffs) inRange(i ssa.Instruction) bool {
	b := i.Block()
	zero := quant{}
	n := func(x ssa.Value) quant { return quant{x, true} }
	index := func(x, ix ssa.Value) bool {
		if !isInt(ix.Type()) || !d.le(zero, quant{ix, false}, 0, b) {
			return false
		}
		if k, ok := arrayLen(x.Type()); ok {
			return d.le(quant{ix, false}, zero, k-1, b)
		}
		return d.le(quant{ix, false}, n(x), -1, b)
	}
	switch i := i.(type) {
	case *ssa.IndexAddr:
		return index(i.X, i.Index)
	case *ssa.Index:
		return index(i.X, i.Index)
	case *ssa.Lookup:
		if isString(i.X.Type()) {
			return index(i.X, i.Index)
		}
	case *ssa.Slice:
		if i.Max != nil {
			return false
		}
		if _, ok := arrayLen(i.X.Type()); ok {
			return false
		}
		lo, hi := zero, n(i.X)
		if i.Low != nil {
			lo = quant{i.Low, false}
		}
		if i.High != nil {
			hi = quant{i.High, false}
		}
		return d.le(zero, lo, 0, b) && d.le(lo, hi, 0, b) && d.le(hi, n(i.X), 0, b)
	}
	return false
}

// sortCallback: the operation indexes, by a parameter of the comparison, the
// captured slice that the comparison sorts.
func sortCallback(i ssa.Instruction) bool {
	ix, ok := i.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	fn := ix.Parent()
	load, ok := ix.X.(*ssa.UnOp)
	par, isPar := ix.Index.(*ssa.Parameter)
	if !ok || !isPar || par.Parent() != fn || fn.Parent() == nil {
		return false
	}
	k := -1
	for n, fv := range fn.FreeVars {
		if fv == load.X {
			k = n
		}
	}
	if k < 0 {
		return false
	}
	for _, r := range *fn.FreeVars[k].Referrers() {
		if _, ok := r.(*ssa.UnOp); !ok {
			return false
		}
	}
	uses := 0
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			for _, r := range *mc.Referrers() {
				call, ok := r.(*ssa.Call)
				if !ok {
					return false
				}
				f := call.Call.StaticCallee()
				if f == nil || f.String() != "sort.Slice" && f.String() != "sort.SliceStable" && f.String() != "sort.SliceIsSorted" {
					return false
				}
				arg, ok := call.Call.Args[0].(*ssa.MakeInterface)
				if !ok {
					return false
				}
				l, ok := arg.X.(*ssa.UnOp)
				if !ok || l.X != mc.Bindings[k] || l.Block() != call.Block() {
					return false
				}
				// nothing is assigned between the argument and the call
				between := false
				for _, x := range call.Block().Instrs {
					if x == ssa.Instruction(l) {
						between = true
					}
					if st, ok := x.(*ssa.Store); ok && between && st.Addr == l.X {
						return false
					}
					if x == ssa.Instruction(call) {
						break
					}
				}
				uses++
			}
		}
	}
	return uses > 0
}
