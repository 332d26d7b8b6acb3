package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interp is a gated value-flow analysis: it walks the SSA form of one entry
// function once (joining at merges, summarising loops by loop-carried terms,
// inlining repository callees) and records every effect together with the
// Boolean condition under which the code reaches it.
type Interp struct {
	Unroll      int    // loops of up to this many iterations are executed one by one (if more than maxUnroll)
	Rec         int    // how often a function may be entered again
	lastInlined *Frame // the frame of the call inlined last
	*World
	P       *Program
	Opaque  func(fn *ssa.Function) bool // do not look inside
	Fresh   func(fn *ssa.Function) bool // each call gives a new value, whatever the arguments
	NoLoads bool
	CbMem   func(ev *Event, mem *Mem) *Mem // the memory a callback finds when it runs
	Events  []*Event
	Loops   []*Loop
	Notes   []string

	stack     []*ssa.Function
	loopStack []*Loop
	muted     int
	loopSeen  map[string]*Loop
	defLevel  int
	goLevel   int
	cbLevel   int
	steps     int
	Returns   []retState // of the entry
	Entry     *Frame
	initMem   *Mem
	held      map[*Term]bool
	callers   []ssa.Instruction
}

// Event is one effect.
type Event struct {
	ID      int
	Kind    string // call, store, load, append, slice, index, panic, send, recv, close, select, go, lock, unlock, mapset, mapdel, assert, ret
	Name    string
	Args    []*Term
	Vals    []*Term // content of the arguments at the time of the call (pointee, map content)
	Result  *Term
	Guard   B
	Instr   ssa.Instruction
	Fn      *ssa.Function
	Ctx     string
	Loops   []*Loop
	InGo    bool
	InCb    bool
	InDefer bool
	Locks   map[*Term]*Term
	Stack   []ssa.Instruction
	Addr    *Term
	Opaque  bool // a repository function that was not inlined
}

// Loop is one analysed loop instance.
type Loop struct {
	ID       int
	Key      string
	Fn       *ssa.Function
	Header   *ssa.BasicBlock
	Entry    B // absolute guard of entering
	Backs    []*edgeState
	Exits    []*edgeState
	Vars     []*Term
	RangeM   *Term // ranged map/string content
	Parent   *Loop
	AbsEntry B
	Callback bool
	// of a callback: what it was handed, its parameters and its returns
	Call      *Event
	CbArgs    []*Term
	CbReturns []retState // guards are absolute
}

type Mem struct{ m map[*Term]*Term }

func newMem() *Mem { return &Mem{map[*Term]*Term{}} }
func (m *Mem) clone() *Mem {
	n := make(map[*Term]*Term, len(m.m)+4)
	for k, v := range m.m {
		n[k] = v
	}
	return &Mem{n}
}

type State struct {
	g   B // relative to the function entry
	mem *Mem
}

type edgeState struct {
	from, to *ssa.BasicBlock
	g        B
	mem      *Mem
	phis     map[*ssa.Phi]*Term // incoming values of the target's phis
	abs      B
}

type retState struct {
	g     B
	mem   *Mem
	vals  []*Term
	in    ssa.Instruction
	loops []*Loop
}

type deferRec struct {
	g    B
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	in   ssa.Instruction
}

type Frame struct {
	fn      *ssa.Function
	ctx     string
	env     map[ssa.Value]*Term
	abs     B
	defers  []*deferRec
	returns []retState
	info    *fnInfo
	params  []*Term
}

func newInterp(p *Program) *Interp {
	in := &Interp{World: newWorld(), P: p, loopSeen: map[string]*Loop{}, Opaque: defaultOpaque}
	in.loadInits()
	return in
}

func (in *Interp) note(f string, a ...any) {
	if in.muted == 0 {
		in.Notes = append(in.Notes, fmt.Sprintf(f, a...))
	}
}

// ---- CFG structure ----------------------------------------------------------

type loopNode struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopNode
	inner  []*loopNode
}

type fnInfo struct {
	rpo    map[*ssa.BasicBlock]int
	order  []*ssa.BasicBlock
	loopOf map[*ssa.BasicBlock]*loopNode // innermost
	byHead map[*ssa.BasicBlock]*loopNode
	irred  bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func analyseCFG(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loopOf: map[*ssa.BasicBlock]*loopNode{}, byHead: map[*ssa.BasicBlock]*loopNode{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo[post[i]] = len(fi.order)
		fi.order = append(fi.order, post[i])
	}
	for _, b := range fi.order {
		for _, s := range b.Succs {
			if fi.rpo[s] <= fi.rpo[b] { // back edge
				if !s.Dominates(b) {
					fi.irred = true
					continue
				}
				ln := fi.byHead[s]
				if ln == nil {
					ln = &loopNode{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.byHead[s] = ln
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if ln.blocks[x] {
						return
					}
					if _, ok := fi.rpo[x]; !ok {
						return
					}
					ln.blocks[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	var loops []*loopNode
	for _, l := range fi.byHead {
		loops = append(loops, l)
	}
	sort.Slice(loops, func(i, j int) bool {
		if len(loops[i].blocks) != len(loops[j].blocks) {
			return len(loops[i].blocks) > len(loops[j].blocks)
		}
		return loops[i].header.Index < loops[j].header.Index
	})
	for _, l := range loops { // big to small
		l.parent = fi.loopOf[l.header]
		for b := range l.blocks {
			fi.loopOf[b] = l
		}
	}
	fnInfos[fn] = fi
	return fi
}

// ---- running ---------------------------------------------------------------

// Run analyses fn with the given argument terms (nil: opaque parameters).
func (in *Interp) Run(fn *ssa.Function, args []*Term) *Frame {
	mem := newMem()
	if in.initMem != nil {
		mem = in.initMem.clone()
	}
	return in.RunMem(fn, args, mem)
}

func (in *Interp) RunMem(fn *ssa.Function, args []*Term, mem *Mem) *Frame {
	if args == nil {
		for _, p := range fn.Params {
			args = append(args, in.mkT("param", p.Name(), p.Type()))
		}
	}
	fr := &Frame{fn: fn, ctx: fn.Name(), env: map[ssa.Value]*Term{}, abs: bTrue, params: args}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for _, fv := range fn.FreeVars {
		fr.env[fv] = in.mkT("freevar", fv.Name(), fv.Type())
	}
	in.Entry = fr
	in.runFrame(fr, mem)
	in.Returns = fr.returns
	return fr
}

func (in *Interp) runFrame(fr *Frame, mem *Mem) {
	fr.info = analyseCFG(fr.fn)
	if fr.info.irred {
		in.note("irreducible control flow in %s", fr.fn)
	}
	in.stack = append(in.stack, fr.fn)
	st := &edgeState{to: fr.fn.Blocks[0], g: bTrue, mem: mem}
	in.runRegion(fr, nil, fr.fn.Blocks[0], []*edgeState{st})
	in.stack = in.stack[:len(in.stack)-1]
}

func region(fi *fnInfo, l *loopNode) []*ssa.BasicBlock {
	var out []*ssa.BasicBlock
	for _, b := range fi.order {
		if l != nil && !l.blocks[b] {
			continue
		}
		lo := fi.loopOf[b]
		if lo == l || (lo != nil && lo.header == b && lo.parent == l) {
			out = append(out, b)
		}
	}
	return out
}

// runRegion executes the blocks of one loop level; edges leaving the region
// (loop exits and back edges to the region header) are returned.
func (in *Interp) runRegion(fr *Frame, l *loopNode, start *ssa.BasicBlock, init []*edgeState) (out []*edgeState) {
	incoming := map[*ssa.BasicBlock][]*edgeState{start: init}
	fi := fr.info
	inRegion := func(b *ssa.BasicBlock) bool { return l == nil || l.blocks[b] }
	deliver := func(e *edgeState) {
		if e.g == bFalse {
			return
		}
		if !inRegion(e.to) || (l != nil && e.to == l.header) {
			out = append(out, e)
			return
		}
		incoming[e.to] = append(incoming[e.to], e)
	}
	for _, b := range region(fi, l) {
		ins := incoming[b]
		if len(ins) == 0 {
			continue
		}
		if il := fi.byHead[b]; il != nil && il != l {
			for _, e := range in.runLoop(fr, il, ins) {
				deliver(e)
			}
			continue
		}
		st := in.join(fr, b, ins)
		if st.g == bFalse {
			continue
		}
		for _, e := range in.runBlock(fr, b, st) {
			deliver(e)
		}
	}
	return out
}

// join merges incoming edges and binds the phis of b.
func (in *Interp) join(fr *Frame, b *ssa.BasicBlock, ins []*edgeState) *State {
	if len(ins) == 1 {
		for p, t := range ins[0].phis {
			fr.env[p] = t
		}
		return &State{ins[0].g, ins[0].mem}
	}
	g := bFalse
	for _, e := range ins {
		g = in.Or(g, e.g)
	}
	gs := make([]B, len(ins))
	for i, e := range ins {
		gs[i] = in.Simplify(e.g, g)
	}
	for _, instr := range b.Instrs {
		p, ok := instr.(*ssa.Phi)
		if !ok {
			break
		}
		var as []alt
		for i, e := range ins {
			if t := e.phis[p]; t != nil {
				as = append(as, alt{gs[i], t})
			}
		}
		if len(as) > 0 {
			fr.env[p] = in.cap(in.mkIte(as), fr.ctx+"/phi:"+p.Name(), p.Type())
		}
	}
	return &State{g, in.joinMem(fr, b, gs, memsOf(ins))}
}

func memsOf(ins []*edgeState) []*Mem {
	var ms []*Mem
	for _, e := range ins {
		ms = append(ms, e.mem)
	}
	return ms
}

func (in *Interp) joinMem(fr *Frame, b *ssa.BasicBlock, gs []B, ms []*Mem) *Mem {
	same := true
	for _, m := range ms[1:] {
		if m != ms[0] {
			same = false
		}
	}
	if same {
		return ms[0]
	}
	keys := map[*Term]bool{}
	for _, m := range ms {
		for k := range m.m {
			keys[k] = true
		}
	}
	out := newMem()
	for k := range keys {
		var as []alt
		first := in.peek(ms[0], k)
		eq := true
		for i, m := range ms {
			v := in.peek(m, k)
			if v != first {
				eq = false
			}
			as = append(as, alt{gs[i], v})
		}
		if eq {
			out.m[k] = first
			continue
		}
		nm := "?"
		if b != nil {
			nm = fmt.Sprint(b.Index)
		}
		out.m[k] = in.cap(in.mkIte(as), fr.ctx+"/mem:"+nm+":"+strconv.Itoa(k.ID), k.Typ)
	}
	return out
}

const maxAlts = 48

func (in *Interp) cap(t *Term, key string, typ types.Type) *Term {
	if t.Op == "ite" && len(t.Args) > maxAlts {
		in.note("value with %d alternatives abstracted at %s", len(t.Args), key)
		n := in.mkT("phi", key+"#"+strconv.Itoa(t.ID), typ)
		in.phiInfo[n] = t.Obj.([]alt)
		n.deps(t.Args...)
		return n
	}
	return t
}

func (in *Interp) abs(fr *Frame, g B) B { return in.And(fr.abs, g) }

// runLoop summarises one loop: the values carried around it become loopvar /
// loopmem terms; the set of carried cells is found by iteration from the
// optimistic assumption that nothing changes.
func (in *Interp) runLoop(fr *Frame, il *loopNode, ins []*edgeState) []*edgeState {
	key := fmt.Sprintf("%s/L%d", fr.ctx, il.header.Index)
	lp := in.loopSeen[key]
	if lp == nil {
		lp = &Loop{ID: len(in.loopSeen), Key: key, Fn: fr.fn, Header: il.header}
		in.loopSeen[key] = lp
	}
	if len(in.loopStack) > 0 {
		lp.Parent = in.loopStack[len(in.loopStack)-1]
	}
	st0 := in.join(fr, il.header, ins)
	init := map[*ssa.Phi]*Term{}
	var phis []*ssa.Phi
	for _, instr := range il.header.Instrs {
		if p, ok := instr.(*ssa.Phi); ok {
			phis = append(phis, p)
			init[p] = fr.env[p]
		} else {
			break
		}
	}
	if n, ok := in.tripCount(fr, il, init); ok {
		return in.unroll(fr, il, ins, n)
	}
	vary := map[*ssa.Phi]bool{}
	havoc := map[*Term]bool{}
	drop := map[*Term]bool{}
	nd := len(fr.defers)
	nr := len(fr.returns)
	lp.Entry = st0.g
	lp.AbsEntry = in.abs(fr, st0.g)
	var outs []*edgeState
	pass := func() (backs []*edgeState) {
		fr.defers = fr.defers[:nd]
		fr.returns = fr.returns[:nr]
		in.loopStack = append(in.loopStack, lp)
		lp.Vars = nil
		mem := st0.mem.clone()
		for _, p := range phis {
			if vary[p] {
				t := in.loopTerm("loopvar", key+"/"+p.Name(), p.Type(), lp)
				in.loopInfo[t] = &LoopVarInfo{Init: init[p], Loop: lp}
				lp.Vars = append(lp.Vars, t)
				fr.env[p] = t
			} else {
				fr.env[p] = init[p]
			}
		}
		var hk []*Term
		for k := range havoc {
			hk = append(hk, k)
		}
		sort.Slice(hk, func(i, j int) bool { return hk[i].ID < hk[j].ID })
		for _, k := range hk {
			iv := in.peek(st0.mem, k)
			in.purgeSub(mem, k)
			t := in.loopTerm("loopmem", key+"/"+strconv.Itoa(k.ID), cellType(k), lp)
			if k.Op == "lock" || k.Op == "ver" {
				mem.m[k] = t
			} else {
				mem.m[k] = t
			}
			in.loopInfo[t] = &LoopVarInfo{Init: iv, Loop: lp, Cell: k}
			lp.Vars = append(lp.Vars, t)
		}
		for k := range drop {
			delete(mem.m, k)
		}
		hst := &edgeState{to: il.header, g: st0.g, mem: mem}
		outs = nil
		es := in.runRegionFrom(fr, il, hst)
		for _, e := range es {
			if e.to == il.header {
				backs = append(backs, e)
			} else {
				outs = append(outs, e)
			}
		}
		in.loopStack = in.loopStack[:len(in.loopStack)-1]
		return backs
	}
	for iter := 0; ; iter++ {
		in.muted++
		backs := pass()
		in.muted--
		changed := false
		for _, e := range backs {
			if !in.Sat(e.g) {
				continue
			}
			for _, p := range phis {
				if !vary[p] && in.Simp(e.phis[p], e.g) != in.Simp(init[p], e.g) {
					vary[p] = true
					changed = true
				}
			}
			for k, v := range e.mem.m {
				if havoc[k] || drop[k] {
					continue
				}
				if k.hasLoop(lp) {
					drop[k] = true
					changed = true
					continue
				}
				if _, in0 := st0.mem.m[k]; !in0 {
					if rootAllocIn(k, key, st0.mem) {
						continue // created inside the loop
					}
				}
				if in.Simp(v, e.g) != in.Simp(in.peek(st0.mem, k), e.g) {
					havoc[k] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
		if iter > 12 {
			in.note("loop %s did not stabilise", key)
			break
		}
	}
	backs := pass()
	lp.Backs = nil
	for _, e := range backs {
		e.abs = in.abs(fr, e.g)
		lp.Backs = append(lp.Backs, e)
	}
	for _, t := range lp.Vars {
		li := in.loopInfo[t]
		li.Back = nil
		for _, e := range lp.Backs {
			var v *Term
			if li.Cell != nil {
				v = in.peek(e.mem, li.Cell)
			} else {
				for p, pt := range e.phis {
					if fr.env[p] == t || in.loopTerm("loopvar", key+"/"+p.Name(), p.Type(), lp) == t {
						v = pt
					}
				}
			}
			if v != nil {
				li.Back = append(li.Back, alt{in.abs(fr, e.g), v})
			}
		}
	}
	lp.Exits = outs
	for _, e := range outs {
		e.abs = in.abs(fr, e.g)
	}
	if in.muted == 0 {
		in.Loops = append(in.Loops, lp)
	}
	return outs
}

const maxUnroll = 12

// tripCount recognises loops that count from a constant to a constant.
func (in *Interp) tripCount(fr *Frame, il *loopNode, init map[*ssa.Phi]*Term) (int, bool) {
	h := il.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !il.blocks[h.Succs[0]] || il.blocks[h.Succs[1]] {
		return 0, false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS || cmp.Block() != h {
		return 0, false
	}
	x := cmp.X
	off := int64(0)
	one := func(v ssa.Value) (ssa.Value, bool) {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return nil, false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Int64() != 1 {
			return nil, false
		}
		return b.X, true
	}
	next := ssa.Value(nil) // the value the counter takes on the back edges
	if y, ok := one(x); ok {
		off = 1
		next = x
		x = y
	}
	p, ok := x.(*ssa.Phi)
	if !ok || init[p] == nil {
		return 0, false
	}
	for i, e := range p.Edges {
		if !il.blocks[h.Preds[i]] {
			continue
		}
		if next != nil {
			if e != next {
				return 0, false
			}
			continue
		}
		if y, ok := one(e); !ok || y != p {
			return 0, false
		}
	}
	start, ok := init[p].constInt()
	if !ok {
		return 0, false
	}
	var limit *Term
	if yi, ok := cmp.Y.(ssa.Instruction); ok && il.blocks[yi.Block()] {
		// the length, taken anew each time, of something made before
		call, ok := cmp.Y.(*ssa.Call)
		if !ok {
			return 0, false
		}
		b, ok := call.Call.Value.(*ssa.Builtin)
		if _, m := call.Call.Args[0].Type().Underlying().(*types.Map); !ok || m || b.Name() != "len" {
			return 0, false
		}
		ai, ok := call.Call.Args[0].(ssa.Instruction)
		if ok && il.blocks[ai.Block()] {
			return 0, false
		}
		limit = in.Len(in.val(fr, call.Call.Args[0]))
	} else {
		limit = in.val(fr, cmp.Y)
	}
	bound, ok := limit.constInt()
	if !ok {
		return 0, false
	}
	n := bound - (start + off)
	if n < 0 {
		n = 0
	}
	return int(n), n <= int64(max(maxUnroll, in.Unroll))
}

// unroll executes a loop with a known small number of iterations.
func (in *Interp) unroll(fr *Frame, il *loopNode, ins []*edgeState, n int) []*edgeState {
	ctx := fr.ctx
	defer func() { fr.ctx = ctx }()
	var outs []*edgeState
	live := liveOut(il)
	vals := map[ssa.Value][]alt{}
	for k := 0; k <= n+1 && len(ins) > 0; k++ {
		st := in.join(fr, il.header, ins)
		if st.g == bFalse {
			break
		}
		fr.ctx = fmt.Sprintf("%s/#%d", ctx, k)
		es := in.runRegionFrom(fr, il, &edgeState{to: il.header, g: st.g, mem: st.mem})
		ins = nil
		for _, e := range es {
			if e.to == il.header {
				ins = append(ins, e)
			} else {
				outs = append(outs, e)
				for _, v := range live {
					if t := fr.env[v]; t != nil {
						vals[v] = append(vals[v], alt{e.g, t})
					}
				}
			}
		}
	}
	// values of the loop used behind it: those of the iteration that left it
	for v, as := range vals {
		fr.env[v] = in.mkIte(as)
	}
	return outs
}

// liveOut: the values defined in a loop that are used behind it.
func liveOut(il *loopNode) []ssa.Value {
	var out []ssa.Value
	for b := range il.blocks {
		for _, i := range b.Instrs {
			v, ok := i.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !il.blocks[r.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	return out
}

func rootAllocIn(k *Term, loopKey string, entry *Mem) bool {
	r := k
	for len(r.Args) > 0 && (r.Op == "fieldaddr" || r.Op == "indexaddr" || r.Op == "mapval" || r.Op == "ver" || r.Op == "lock") {
		r = r.Args[0]
	}
	switch r.Op {
	case "alloc", "makemap", "emptyslice", "makechan":
		// allocated inside iff it has no cell at loop entry
		if _, ok := entry.m[r]; ok {
			return false
		}
		for c := range entry.m {
			x := c
			for len(x.Args) > 0 && (x.Op == "fieldaddr" || x.Op == "indexaddr" || x.Op == "mapval") {
				x = x.Args[0]
			}
			if x == r {
				return false
			}
		}
		return true
	}
	return false
}

func (in *Interp) loopTerm(op, key string, typ types.Type, lp *Loop) *Term {
	t := in.mkT(op, key, typ)
	t.addLoop(lp)
	return t
}

func (in *Interp) runRegionFrom(fr *Frame, il *loopNode, hst *edgeState) []*edgeState {
	incoming := map[*ssa.BasicBlock][]*edgeState{}
	fi := fr.info
	var out []*edgeState
	deliver := func(e *edgeState) {
		if e.g == bFalse {
			return
		}
		if !il.blocks[e.to] || e.to == il.header {
			out = append(out, e)
			return
		}
		incoming[e.to] = append(incoming[e.to], e)
	}
	for _, b := range region(fi, il) {
		if b == il.header {
			for _, e := range in.runBlock(fr, b, &State{hst.g, hst.mem}) {
				deliver(e)
			}
			continue
		}
		ins := incoming[b]
		if len(ins) == 0 {
			continue
		}
		if inner := fi.byHead[b]; inner != nil && inner != il {
			for _, e := range in.runLoop(fr, inner, ins) {
				deliver(e)
			}
			continue
		}
		st := in.join(fr, b, ins)
		for _, e := range in.runBlock(fr, b, st) {
			deliver(e)
		}
	}
	return out
}

// runBlock executes the instructions of b (phis are bound already).
func (in *Interp) runBlock(fr *Frame, b *ssa.BasicBlock, st *State) []*edgeState {
	st = &State{st.g, st.mem.clone()}
	in.steps++
	if in.P.Visited != nil && in.Sat(in.abs(fr, st.g)) {
		in.P.Visited[b] = true
	}
	for _, instr := range b.Instrs {
		switch i := instr.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			c := in.Truth(in.val(fr, i.Cond))
			gt := in.And(st.g, c)
			gf := in.And(st.g, in.Not(c))
			var out []*edgeState
			if gt != bFalse && in.Sat(in.And(fr.abs, gt)) {
				out = append(out, in.edge(fr, b, 0, gt, st.mem))
			}
			if gf != bFalse && in.Sat(in.And(fr.abs, gf)) {
				out = append(out, in.edge(fr, b, 1, gf, st.mem))
			}
			return out
		case *ssa.Jump:
			return []*edgeState{in.edge(fr, b, 0, st.g, st.mem)}
		case *ssa.Return:
			var vs []*Term
			for _, r := range i.Results {
				vs = append(vs, in.val(fr, r))
			}
			fr.returns = append(fr.returns, retState{st.g, st.mem, vs, i, append([]*Loop(nil), in.loopStack...)})
			return nil
		case *ssa.Panic:
			in.emit(fr, st, &Event{Kind: "panic", Instr: i, Args: []*Term{in.val(fr, i.X)}})
			return nil
		default:
			in.exec(fr, st, instr)
			if st.g == bFalse {
				return nil
			}
		}
	}
	return nil
}

func (in *Interp) edge(fr *Frame, b *ssa.BasicBlock, succ int, g B, mem *Mem) *edgeState {
	to := b.Succs[succ]
	e := &edgeState{from: b, to: to, g: g, mem: mem}
	// which predecessor slot?
	slot := -1
	n := 0
	for k := 0; k < succ; k++ {
		if b.Succs[k] == to {
			n++
		}
	}
	for pi, p := range to.Preds {
		if p == b {
			if n == 0 {
				slot = pi
				break
			}
			n--
		}
	}
	for _, instr := range to.Instrs {
		p, ok := instr.(*ssa.Phi)
		if !ok {
			break
		}
		if e.phis == nil {
			e.phis = map[*ssa.Phi]*Term{}
		}
		e.phis[p] = in.val(fr, p.Edges[slot])
	}
	return e
}

func (in *Interp) emit(fr *Frame, st *State, e *Event) *Event {
	if in.muted > 0 {
		return e
	}
	e.ID = len(in.Events)
	e.Guard = in.abs(fr, st.g)
	e.Fn = fr.fn
	e.Ctx = fr.ctx
	e.Loops = append([]*Loop(nil), in.loopStack...)
	e.InGo = in.goLevel > 0
	e.InCb = in.cbLevel > 0
	e.InDefer = in.defLevel > 0
	e.Stack = append([]ssa.Instruction(nil), in.callers...)
	for k, v := range st.mem.m {
		if k.Op == "lock" {
			if e.Locks == nil {
				e.Locks = map[*Term]*Term{}
			}
			e.Locks[k.Args[0]] = v
		}
	}
	in.Events = append(in.Events, e)
	return e
}

// val is the term of an SSA value.
func (in *Interp) val(fr *Frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constant(x.Value, x.Type())
	case *ssa.Function:
		t := in.mkT("func", funcName(x), x.Type())
		t.Obj = x
		return t
	case *ssa.Global:
		return in.mkT("global", x.Pkg.Pkg.Path()+"."+x.Name(), x.Type())
	case *ssa.Builtin:
		return in.mkT("builtin", x.Name(), nil)
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	// value from a block not (yet) executed
	return in.mkT("undef", fr.ctx+"/"+v.Name(), v.Type())
}

// ---- memory -----------------------------------------------------------------

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// peek reads a cell (or pseudo cell) without effects.
func (in *Interp) peek(m *Mem, k *Term) *Term {
	if v, ok := m.m[k]; ok {
		return v
	}
	switch k.Op {
	case "lock":
		return in.mkT("const", "U", nil)
	case "ver":
		return in.Int(0)
	case "mapval":
		return in.mkT("map0", "", k.Typ, k.Args[0])
	case "fieldaddr":
		base := k.Args[0]
		if pv, ok := in.peekParent(m, base); ok {
			return in.Field(pv, k.Aux, k.Typ)
		}
	case "indexaddr":
		if pv, ok := in.peekParent(m, k.Args[0]); ok {
			return in.Index(pv, k.Args[1], k.Typ)
		}
		if isSliceTerm(k.Args[0]) {
			return in.Index(k.Args[0], k.Args[1], k.Typ)
		}
	}
	return in.mkT("load", "", cellType(k), k)
}

// cellType is the type of what is stored at an address.
func cellType(k *Term) types.Type {
	switch k.Op {
	case "fieldaddr", "indexaddr", "mapval", "ver", "lock":
		return k.Typ
	}
	if k.Typ != nil {
		if p, ok := k.Typ.Underlying().(*types.Pointer); ok {
			return p.Elem()
		}
	}
	return k.Typ
}

func isSliceTerm(t *Term) bool {
	if t.Typ == nil {
		switch t.Op {
		case "slicelit", "append", "slice", "emptyslice":
			return true
		}
		return false
	}
	_, ok := t.Typ.Underlying().(*types.Slice)
	return ok
}

func (in *Interp) peekParent(m *Mem, base *Term) (*Term, bool) {
	if v, ok := m.m[base]; ok {
		return v, true
	}
	switch base.Op {
	case "fieldaddr":
		if pv, ok := in.peekParent(m, base.Args[0]); ok {
			return in.Field(pv, base.Aux, base.Typ), true
		}
	case "indexaddr":
		if pv, ok := in.peekParent(m, base.Args[0]); ok {
			return in.Index(pv, base.Args[1], base.Typ), true
		}
	}
	return nil, false
}

// load reads the value at addr; structs are assembled from their cells.
func (in *Interp) load(m *Mem, addr *Term, typ types.Type) *Term {
	if addr.Op == "ite" {
		var as []alt
		for _, a := range addr.Obj.([]alt) {
			as = append(as, alt{a.G, in.load(m, a.T, typ)})
		}
		return in.mkIte(as)
	}
	if typ != nil && addr.Typ == nil {
		addr.Typ = typ
	}
	v := in.peek(m, addr)
	if v.Op == "load" && v.Typ == nil {
		v.Typ = typ
	}
	if arr, ok := arrayOf(typ); ok {
		written := false
		for k := range m.m {
			if k.Op == "indexaddr" && k.Args[0] == addr || k.Op == "fieldaddr" && k.Args[0].Op == "indexaddr" && k.Args[0].Args[0] == addr {
				written = true
			}
		}
		if written && arr.Len() <= 16 {
			var els []*Term
			for k := int64(0); k < arr.Len(); k++ {
				els = append(els, in.load(m, in.IndexAddr(addr, in.Int(k), arr.Elem()), arr.Elem()))
			}
			return in.mkT("slicelit", "", typ, els...)
		}
		return v
	}
	if isStructLike(typ) {
		// overlay the sub-cells
		var subs []*Term
		for k := range m.m {
			if k.Op == "fieldaddr" && underOf(k, addr) {
				subs = append(subs, k)
			}
		}
		sort.Slice(subs, func(i, j int) bool {
			di, dj := depthTo(subs[i], addr), depthTo(subs[j], addr)
			if di != dj {
				return di < dj
			}
			return subs[i].ID < subs[j].ID
		})
		for _, k := range subs {
			v = in.overlay(v, k, addr, m.m[k])
		}
	}
	return v
}

func arrayOf(t types.Type) (*types.Array, bool) {
	if t == nil {
		return nil, false
	}
	a, ok := t.Underlying().(*types.Array)
	return a, ok
}

func isStructLike(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func underOf(k, addr *Term) bool {
	for k != nil && (k.Op == "fieldaddr") {
		k = k.Args[0]
		if k == addr {
			return true
		}
	}
	return false
}

func depthTo(k, addr *Term) int {
	n := 0
	for k != addr {
		k = k.Args[0]
		n++
	}
	return n
}

func (in *Interp) overlay(v, k, addr, nv *Term) *Term {
	// path from addr to k
	var path []*Term
	for x := k; x != addr; x = x.Args[0] {
		path = append([]*Term{x}, path...)
	}
	var rec func(v *Term, i int) *Term
	rec = func(v *Term, i int) *Term {
		if i == len(path) {
			return nv
		}
		f := in.Field(v, path[i].Aux, path[i].Typ)
		nf := rec(f, i+1)
		if nf == f {
			return v
		}
		return in.Upd(v, path[i].Aux, nf)
	}
	return rec(v, 0)
}

func (in *Interp) purgeSub(m *Mem, addr *Term) {
	for k := range m.m {
		x := k
		for x != nil && (x.Op == "fieldaddr" || x.Op == "indexaddr") {
			x = x.Args[0]
			if x == addr {
				delete(m.m, k)
				break
			}
		}
	}
}

func (in *Interp) store(m *Mem, addr, v *Term) {
	if addr.Op == "ite" {
		for _, a := range addr.Obj.([]alt) {
			old := in.peek(m, a.T)
			if isStructLike(a.T.Typ) {
				old = in.load(m, a.T, a.T.Typ)
			}
			in.store(m, a.T, in.mkIte([]alt{{a.G, v}, {in.Not(a.G), old}}))
		}
		return
	}
	in.purgeSub(m, addr)
	m.m[addr] = v
}

// mapCell is the pseudo cell holding the content of map m.
func (in *Interp) mapCell(m *Term) *Term { return in.mkT("mapval", "", m.Typ, m) }

func (in *Interp) mapContent(mem *Mem, m *Term) *Term {
	if m.Op == "ite" {
		var as []alt
		for _, a := range m.Obj.([]alt) {
			as = append(as, alt{a.G, in.mapContent(mem, a.T)})
		}
		return in.mkIte(as)
	}
	if m.isNil() {
		return in.mkT("emptymap", "", m.Typ)
	}
	return in.peek(mem, in.mapCell(m))
}

// MapGet selects from a map content term.
func (in *Interp) MapGet(c, k *Term, typ types.Type) (val, ok *Term) {
	if c.Op == "ite" || k.Op == "ite" {
		var vs, os []alt
		for _, a := range in.Alts(c) {
			for _, b := range in.Alts(k) {
				g := in.And(a.G, b.G)
				if g == bFalse {
					continue
				}
				v, o := in.MapGet(a.T, b.T, typ)
				vs = append(vs, alt{g, v})
				os = append(os, alt{g, o})
			}
		}
		return in.mkIte(vs), in.mkIte(os)
	}
	switch c.Op {
	case "mapupd":
		e := in.Bin(token.EQL, c.Args[1], k, nil)
		v2, o2 := (*Term)(nil), (*Term)(nil)
		if e.Op == "const" && e.Aux == "true" {
			return c.Args[2], in.Bool(true)
		}
		v2, o2 = in.MapGet(c.Args[0], k, typ)
		if e.Op == "const" {
			return v2, o2
		}
		g := in.Truth(e)
		return in.mkIte([]alt{{g, c.Args[2]}, {in.Not(g), v2}}), in.mkIte([]alt{{g, in.Bool(true)}, {in.Not(g), o2}})
	case "mapdel":
		e := in.Bin(token.EQL, c.Args[1], k, nil)
		if e.Op == "const" && e.Aux == "true" {
			return in.zero(typ), in.Bool(false)
		}
		v2, o2 := in.MapGet(c.Args[0], k, typ)
		if e.Op == "const" {
			return v2, o2
		}
		g := in.Truth(e)
		return in.mkIte([]alt{{g, in.zero(typ)}, {in.Not(g), v2}}), in.mkIte([]alt{{g, in.Bool(false)}, {in.Not(g), o2}})
	case "emptymap":
		return in.zero(typ), in.Bool(false)
	}
	if c.Op == "map0" {
		c = c.Args[0]
	}
	if k.Op == "mapkey" && k.Args[0] == c {
		return in.mkT("lookup", "", typ, c, k), in.Bool(true)
	}
	return in.mkT("lookup", "", typ, c, k), in.mkT("has", "", types.Typ[types.Bool], c, k)
}

func (in *Interp) bumpVer(st *State, x *Term, id string) {
	for _, a := range in.Alts(x) {
		k := in.mkT("ver", "", nil, a.T)
		st.mem.m[k] = in.mkT("const", "v:"+id, nil)
	}
}

// snap describes an argument by its content, so that a pure call on it is a
// function of what it really reads.
func (in *Interp) snap(st *State, t *Term) *Term {
	if t.Op == "ite" {
		var as []alt
		for _, a := range t.Obj.([]alt) {
			as = append(as, alt{a.G, in.snap(st, a.T)})
		}
		return in.mkIte(as)
	}
	if t.Op == "iface" {
		return in.mkT("iface", t.Aux, t.Typ, in.snap(st, t.Args[0]))
	}
	if t.Typ != nil {
		switch u := t.Typ.Underlying().(type) {
		case *types.Map:
			c := in.mapContent(st.mem, t)
			if c.Op == "map0" {
				return c.Args[0]
			}
			return c
		case *types.Pointer:
			v := in.load(st.mem, t, u.Elem())
			maps := in.mapFields(st, v, u.Elem())
			if v.Op != "load" || len(maps) > 0 {
				v = in.mkT("ptrto", "", t.Typ, append([]*Term{v}, maps...)...)
			} else {
				v = t
			}
			if ver, ok := st.mem.m[in.mkT("ver", "", nil, t)]; ok {
				v = in.mkT("ptrver", "", t.Typ, v, ver)
			}
			return v
		}
	}
	if ver, ok := st.mem.m[in.mkT("ver", "", nil, t)]; ok {
		return in.mkT("ptrver", "", t.Typ, t, ver)
	}
	return t
}

// mapFields lists the contents of the maps a struct holds that were changed.
func (in *Interp) mapFields(st *State, v *Term, typ types.Type) []*Term {
	s, ok := typ.Underlying().(*types.Struct)
	if !ok || s.NumFields() > 12 {
		return nil
	}
	var out []*Term
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Map); !ok {
			continue
		}
		m := in.Field(v, s.Field(i).Name(), s.Field(i).Type())
		if m.isNil() {
			continue
		}
		c := in.mapContent(st.mem, m)
		if c.Op != "map0" && c.Op != "emptymap" {
			out = append(out, in.mkT("mapfield", s.Field(i).Name(), nil, c))
		}
	}
	return out
}

// content is what the argument points to (for Event.Vals).
func (in *Interp) content(st *State, t *Term) *Term {
	if t.Op == "iface" {
		return in.content(st, t.Args[0])
	}
	if t.Op == "ite" {
		var as []alt
		for _, a := range t.Obj.([]alt) {
			as = append(as, alt{a.G, in.content(st, a.T)})
		}
		return in.mkIte(as)
	}
	if t.Typ == nil {
		return t
	}
	switch u := t.Typ.Underlying().(type) {
	case *types.Map:
		return in.mapContent(st.mem, t)
	case *types.Pointer:
		return in.load(st.mem, t, u.Elem())
	}
	return t
}

// ---- instructions ---------------------------------------------------------------

func fieldName(t types.Type, i int) (string, types.Type) {
	t = deref(t)
	s := t.Underlying().(*types.Struct)
	return s.Field(i).Name(), s.Field(i).Type()
}

func (in *Interp) exec(fr *Frame, st *State, instr ssa.Instruction) {
	site := func() string {
		if v, ok := instr.(ssa.Value); ok {
			return fr.ctx + "/" + v.Name()
		}
		return fmt.Sprintf("%s/b%d", fr.ctx, instr.Block().Index)
	}
	switch i := instr.(type) {
	case *ssa.Alloc:
		t := in.mkT("alloc", site(), i.Type())
		t.inLoops(in.loopStack)
		in.purgeSub(st.mem, t)
		st.mem.m[t] = in.zero(deref(i.Type()))
		fr.env[i] = t
	case *ssa.UnOp:
		in.unop(fr, st, i)
	case *ssa.BinOp:
		x, y := in.val(fr, i.X), in.val(fr, i.Y)
		if i.Op == token.QUO || i.Op == token.REM {
			in.emit(fr, st, &Event{Kind: "div", Instr: i, Args: []*Term{x, y}})
		}
		fr.env[i] = in.cap(in.Bin(i.Op, x, y, i.X.Type()), site(), i.Type())
	case *ssa.Store:
		addr, v := in.val(fr, i.Addr), in.val(fr, i.Val)
		in.emit(fr, st, &Event{Kind: "store", Instr: i, Addr: addr, Args: []*Term{addr, v}})
		in.store(st.mem, addr, v)
	case *ssa.FieldAddr:
		n, ft := fieldName(i.X.Type(), i.Field)
		fr.env[i] = in.FieldAddr(in.val(fr, i.X), n, ft)
	case *ssa.Field:
		n, ft := fieldName(i.X.Type(), i.Field)
		fr.env[i] = in.Field(in.val(fr, i.X), n, ft)
	case *ssa.IndexAddr:
		x, idx := in.val(fr, i.X), in.val(fr, i.Index)
		in.emit(fr, st, &Event{Kind: "index", Instr: i, Args: []*Term{x, idx}})
		fr.env[i] = in.IndexAddr(x, idx, deref(i.Type()))
	case *ssa.Index:
		x, idx := in.val(fr, i.X), in.val(fr, i.Index)
		in.emit(fr, st, &Event{Kind: "index", Instr: i, Args: []*Term{x, idx}})
		fr.env[i] = in.Index(x, idx, i.Type())
	case *ssa.Lookup:
		x, k := in.val(fr, i.X), in.val(fr, i.Index)
		if isString(i.X.Type()) {
			in.emit(fr, st, &Event{Kind: "index", Instr: i, Args: []*Term{x, k}})
			fr.env[i] = in.Index(x, k, i.Type())
			break
		}
		in.emit(fr, st, &Event{Kind: "mapget", Instr: i, Args: []*Term{x, k}, Addr: x})
		vt := i.X.Type().Underlying().(*types.Map).Elem()
		v, ok := in.MapGet(in.mapContent(st.mem, x), k, vt)
		v = in.cap(v, site(), vt)
		if i.CommaOk {
			fr.env[i] = in.Tuple(v, ok)
		} else {
			fr.env[i] = v
		}
	case *ssa.MapUpdate:
		m, k, v := in.val(fr, i.Map), in.val(fr, i.Key), in.val(fr, i.Value)
		in.emit(fr, st, &Event{Kind: "mapset", Instr: i, Args: []*Term{m, k, v}, Addr: m})
		in.mapWrite(st, m, func(c *Term) *Term { return in.mkT("mapupd", "", nil, c, k, v) })
	case *ssa.MakeMap:
		t := in.mkT("makemap", site(), i.Type())
		t.inLoops(in.loopStack)
		st.mem.m[in.mapCell(t)] = in.mkT("emptymap", "", i.Type())
		fr.env[i] = t
	case *ssa.MakeSlice:
		n := in.val(fr, i.Len)
		if c, ok := n.constInt(); ok && c == 0 {
			fr.env[i] = in.mkT("emptyslice", site(), i.Type())
		} else {
			t := in.mkT("makeslice", site(), i.Type(), n)
			t.inLoops(in.loopStack)
			fr.env[i] = t
		}
	case *ssa.MakeChan:
		t := in.mkT("makechan", site(), i.Type(), in.val(fr, i.Size))
		t.inLoops(in.loopStack)
		fr.env[i] = t
	case *ssa.MakeInterface:
		fr.env[i] = in.lift(in.val(fr, i.X), func(x *Term) *Term {
			if x.isConst() && !isNilable(i.X.Type()) || x.isNil() {
				// keep typed constants distinct
			}
			return in.mkT("iface", typeKey(i.X.Type()), i.Type(), x)
		})
		for _, a := range in.Alts(fr.env[i]) {
			a.T.Obj = i.X.Type()
		}
	case *ssa.MakeClosure:
		fn := i.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range i.Bindings {
			bs = append(bs, in.val(fr, b))
		}
		t := in.mkT("closure", funcName(fn)+"@"+fr.ctx, i.Type(), bs...)
		t.Obj = fn
		fr.env[i] = t
	case *ssa.ChangeType:
		fr.env[i] = in.val(fr, i.X)
	case *ssa.ChangeInterface:
		fr.env[i] = in.val(fr, i.X)
	case *ssa.Convert:
		fr.env[i] = in.convert(in.val(fr, i.X), i.X.Type(), i.Type())
	case *ssa.MultiConvert:
		fr.env[i] = in.convert(in.val(fr, i.X), i.X.Type(), i.Type())
	case *ssa.SliceToArrayPointer:
		fr.env[i] = in.mkT("s2a", "", i.Type(), in.val(fr, i.X))
	case *ssa.Slice:
		in.slice(fr, st, i)
	case *ssa.Extract:
		fr.env[i] = in.Extract(in.val(fr, i.Tuple), i.Index, i.Type())
	case *ssa.TypeAssert:
		in.typeAssert(fr, st, i)
	case *ssa.Range:
		x := in.val(fr, i.X)
		if !isString(i.X.Type()) {
			in.emit(fr, st, &Event{Kind: "range", Instr: i, Args: []*Term{x}, Addr: x})
			x = in.mapContent(st.mem, x)
			if x.Op == "map0" {
				x = x.Args[0]
			}
		}
		fr.env[i] = in.mkT("range", "", i.X.Type(), x)
	case *ssa.Next:
		it := in.val(fr, i.Iter)
		src := it
		if it.Op == "range" {
			src = it.Args[0]
		}
		var lp *Loop
		if len(in.loopStack) > 0 {
			lp = in.loopStack[len(in.loopStack)-1]
			lp.RangeM = src
		}
		lk := ""
		if lp != nil {
			lk = lp.Key
		}
		ok := in.mkT("more", lk, types.Typ[types.Bool], src)
		k := in.mkT("mapkey", lk, nil, src)
		if lp != nil {
			ok.addLoop(lp)
			k.addLoop(lp)
		}
		if i.IsString {
			v := in.mkT("runeat", lk, nil, src, k)
			fr.env[i] = in.Tuple(ok, k, v)
		} else {
			mt := it.Typ.Underlying().(*types.Map)
			k.Typ = mt.Key()
			v := in.lift(src, func(s *Term) *Term { return in.mkT("lookup", "", mt.Elem(), s, k) })
			fr.env[i] = in.Tuple(ok, k, v)
		}
	case *ssa.Call:
		fr.env[i] = in.call(fr, st, i, &i.Call, i.Type())
	case *ssa.Go:
		in.goStmt(fr, st, i)
	case *ssa.Defer:
		d := &deferRec{g: st.g, call: &i.Call, in: i}
		d.fn, d.args = in.callee(fr, &i.Call)
		fr.defers = append(fr.defers, d)
		in.emit(fr, st, &Event{Kind: "defer", Instr: i, Args: append([]*Term{d.fn}, d.args...), Name: in.calleeName(&i.Call, d.fn)})
	case *ssa.RunDefers:
		for k := len(fr.defers) - 1; k >= 0; k-- {
			d := fr.defers[k]
			g := in.And(st.g, d.g)
			if !in.Sat(in.And(fr.abs, g)) {
				continue
			}
			in.defLevel++
			sub := &State{g, st.mem.clone()}
			in.callWith(fr, sub, d.in, d.call, d.fn, d.args, nil)
			in.defLevel--
			rest := in.And(st.g, in.Not(d.g))
			if !in.Sat(in.And(fr.abs, rest)) {
				st.g, st.mem = sub.g, sub.mem
			} else {
				tot := in.Or(sub.g, rest)
				st.mem = in.joinMem(fr, nil, []B{in.Simplify(sub.g, tot), in.Simplify(rest, tot)}, []*Mem{sub.mem, st.mem})
				st.g = tot
			}
		}
	case *ssa.Send:
		in.emit(fr, st, &Event{Kind: "send", Instr: i, Args: []*Term{in.val(fr, i.Chan), in.val(fr, i.X)}})
	case *ssa.Select:
		t := in.mkT("select", site(), nil)
		t.inLoops(in.loopStack)
		var args []*Term
		for _, s := range i.States {
			args = append(args, in.val(fr, s.Chan))
			if s.Send != nil {
				args = append(args, in.val(fr, s.Send))
			}
		}
		in.emit(fr, st, &Event{Kind: "select", Instr: i, Args: args, Result: t})
		// tuple: index, recvOk, recv...
		var cases []alt
		rest := bTrue
		for k := range i.States {
			if i.Blocking && k == len(i.States)-1 {
				cases = append(cases, alt{rest, in.Int(int64(k))})
				rest = bFalse
				break
			}
			b := in.mkT("selcase", strconv.Itoa(k), types.Typ[types.Bool], t)
			b.inLoops(in.loopStack)
			g := in.And(rest, in.Truth(b))
			cases = append(cases, alt{g, in.Int(int64(k))})
			rest = in.And(rest, in.Not(g))
		}
		if rest != bFalse {
			cases = append(cases, alt{rest, in.Int(-1)})
		}
		ts := []*Term{in.mkIte(cases), in.mkT("recvok", "", types.Typ[types.Bool], t)}
		n := 0
		for _, s := range i.States {
			if s.Dir == types.RecvOnly {
				v := in.mkT("recv", strconv.Itoa(n), s.Chan.Type().Underlying().(*types.Chan).Elem(), t, in.val(fr, s.Chan))
				ts = append(ts, v)
				n++
			}
		}
		fr.env[i] = in.Tuple(ts...)
		for si, s := range i.States {
			idx := in.Truth(in.Bin(token.EQL, ts[0], in.Int(int64(si)), nil))
			sub := &State{in.And(st.g, idx), st.mem}
			if s.Dir == types.SendOnly {
				in.emit(fr, sub, &Event{Kind: "send", Name: "select", Instr: i, Args: []*Term{in.val(fr, s.Chan), in.val(fr, s.Send)}})
			} else {
				in.emit(fr, sub, &Event{Kind: "recv", Name: "select", Instr: i, Args: []*Term{in.val(fr, s.Chan)}, Result: t})
			}
		}
	default:
		if v, ok := instr.(ssa.Value); ok {
			in.note("unmodelled instruction %T in %s", instr, fr.fn)
			t := in.mkT("unknown", site(), v.Type())
			t.inLoops(in.loopStack)
			fr.env[v] = t
		} else {
			in.note("unmodelled instruction %T in %s", instr, fr.fn)
		}
	}
}

func isNilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface, *types.Signature:
		return true
	}
	return false
}

func (in *Interp) mapWrite(st *State, m *Term, f func(c *Term) *Term) {
	as := in.Alts(m)
	for _, a := range as {
		k := in.mapCell(a.T)
		old := in.mapContent(st.mem, a.T)
		nv := in.lift(old, f)
		if len(as) > 1 {
			nv = in.mkIte([]alt{{a.G, nv}, {in.Not(a.G), old}})
		}
		st.mem.m[k] = nv
	}
}

func (in *Interp) convert(x *Term, from, to types.Type) *Term {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		if fi&types.IsString != 0 && ti&types.IsString != 0 {
			return x
		}
		if fi&types.IsInteger != 0 && ti&types.IsInteger != 0 {
			if intSize(tb) >= intSize(fb) {
				return x // widening (64-bit platform)
			}
			return in.lift(x, func(x *Term) *Term { return in.mkT("conv", tb.Name(), to, x) })
		}
	}
	return in.lift(x, func(x *Term) *Term {
		name := "str2bytes"
		_, isSlice := to.Underlying().(*types.Slice)
		if fok && isSlice {
			return in.mkT(name, typeKey(to), to, x)
		}
		if x.Op == "str2bytes" && tok {
			return x.Args[0]
		}
		return in.mkT("conv", typeKey(to), to, x)
	})
}

func intSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func (in *Interp) unop(fr *Frame, st *State, i *ssa.UnOp) {
	x := in.val(fr, i.X)
	switch i.Op {
	case token.MUL:
		x = in.Simp(x, in.abs(fr, st.g))
		if !in.NoLoads {
			in.emit(fr, st, &Event{Kind: "load", Instr: i, Addr: x, Args: []*Term{x}})
		}
		fr.env[i] = in.load(st.mem, x, i.Type())
	case token.NOT:
		fr.env[i] = in.NotT(x)
	case token.ARROW:
		t := in.mkT("recvat", fr.ctx+"/"+i.Name(), nil, x)
		t.inLoops(in.loopStack)
		in.emit(fr, st, &Event{Kind: "recv", Instr: i, Args: []*Term{x}, Result: t})
		et := i.X.Type().Underlying().(*types.Chan).Elem()
		if i.CommaOk {
			fr.env[i] = in.Tuple(in.mkT("recv", "", et, t), in.mkT("recvok", "", types.Typ[types.Bool], t))
		} else {
			fr.env[i] = in.mkT("recv", "", et, t)
		}
	case token.SUB:
		fr.env[i] = in.Bin(token.SUB, in.Int(0), x, i.Type())
	default:
		fr.env[i] = in.mkT("un", i.Op.String(), i.Type(), x)
	}
}

func (in *Interp) slice(fr *Frame, st *State, i *ssa.Slice) {
	x := in.val(fr, i.X)
	lo := in.Int(0)
	if i.Low != nil {
		lo = in.val(fr, i.Low)
	}
	hi := (*Term)(nil)
	if i.High != nil {
		hi = in.val(fr, i.High)
		if hi == in.mkT("len", "", types.Typ[types.Int], x) {
			hi = nil
		}
	}
	// slice of an array cell: the literal
	if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		if arr, ok := p.Elem().Underlying().(*types.Array); ok && i.Low == nil && i.High == nil && x.Op == "alloc" {
			var es []*Term
			for k := int64(0); k < arr.Len(); k++ {
				a := in.IndexAddr(x, in.Int(k), arr.Elem())
				es = append(es, in.load(st.mem, a, arr.Elem()))
			}
			fr.env[i] = in.mkT("slicelit", "", i.Type(), es...)
			return
		}
	}
	if hi != nil && hi.isConst() && hi.Aux == "0" && x.Op == "alloc" { // make([]T, 0)
		fr.env[i] = in.mkT("emptyslice", fr.ctx+"/"+i.Name(), i.Type())
		return
	}
	in.emit(fr, st, &Event{Kind: "slice", Instr: i, Args: []*Term{x, lo, hi}})
	if hi == nil {
		if n, ok := lo.constInt(); ok && n == 0 {
			fr.env[i] = x
			return
		}
		fr.env[i] = in.lift(x, func(x *Term) *Term {
			if x.Op == "concat" {
				if l, ok := x.Args[0].constStr(); ok {
					if n, ok := lo.constInt(); ok && int(n) == len(l) {
						return x.Args[1]
					}
				}
			}
			if s, ok := x.constStr(); ok {
				if n, ok := lo.constInt(); ok && int(n) <= len(s) {
					return in.Str(s[n:])
				}
			}
			return in.lift(lo, func(lo *Term) *Term { return in.mkT("slice", "", i.Type(), x, lo) })
		})
		return
	}
	fr.env[i] = in.cap(in.lift(x, func(x *Term) *Term {
		return in.lift(lo, func(lo *Term) *Term {
			return in.lift(hi, func(hi *Term) *Term {
				if hi == in.mkT("len", "", types.Typ[types.Int], x) {
					if n, ok := lo.constInt(); ok && n == 0 {
						return x
					}
					return in.mkT("slice", "", i.Type(), x, lo)
				}
				return in.mkT("slice", "", i.Type(), x, lo, hi)
			})
		})
	}), fr.ctx+"/"+i.Name(), i.Type())
}

func (in *Interp) typeAssert(fr *Frame, st *State, i *ssa.TypeAssert) {
	x := in.val(fr, i.X)
	_, toIface := i.AssertedType.Underlying().(*types.Interface)
	var vs, os []alt
	for _, a := range in.Alts(x) {
		v, ok := in.assert1(a.T, i.AssertedType, toIface)
		vs = append(vs, alt{a.G, v})
		os = append(os, alt{a.G, ok})
	}
	v, ok := in.mkIte(vs), in.mkIte(os)
	if i.CommaOk {
		zv := v
		okG := in.Truth(ok)
		if okG != bTrue {
			zv = in.mkIte([]alt{{okG, v}, {in.Not(okG), in.zero(i.AssertedType)}})
		}
		fr.env[i] = in.Tuple(zv, ok)
		return
	}
	in.emit(fr, st, &Event{Kind: "assert", Instr: i, Args: []*Term{x, ok}, Name: typeKey(i.AssertedType)})
	fr.env[i] = v
}

func (in *Interp) assert1(x *Term, T types.Type, toIface bool) (v, ok *Term) {
	if x.isNil() {
		return in.zero(T), in.Bool(false)
	}
	if x.Op == "iface" {
		ct, _ := x.Obj.(types.Type)
		if ct != nil {
			if toIface {
				return x, in.Bool(types.Implements(ct, T.Underlying().(*types.Interface)))
			}
			if types.Identical(ct, T) {
				return x.Args[0], in.Bool(true)
			}
			return in.zero(T), in.Bool(false)
		}
	}
	ok = in.mkT("istype", typeKey(T), types.Typ[types.Bool], x)
	if toIface {
		return x, ok
	}
	return in.mkT("as", typeKey(T), T, x), ok
}

// ---- calls ---------------------------------------------------------------------

func funcName(fn *ssa.Function) string {
	if o := fn.Object(); o != nil {
		if f, ok := o.(*types.Func); ok {
			return f.Origin().FullName()
		}
	}
	return fn.String()
}

func (in *Interp) callee(fr *Frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	var f *Term
	if c.IsInvoke() {
		f = in.mkT("method", c.Method.FullName(), nil)
		f.Obj = c.Method
		args = append(args, in.val(fr, c.Value))
	} else {
		f = in.val(fr, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, in.val(fr, a))
	}
	return f, args
}

func (in *Interp) calleeName(c *ssa.CallCommon, f *Term) string {
	switch f.Op {
	case "func", "closure":
		return funcName(f.Obj.(*ssa.Function))
	case "method":
		return f.Aux
	case "builtin":
		return "builtin." + f.Aux
	case "load":
		if f.Args[0].Op == "global" {
			return "var " + f.Args[0].Aux
		}
	}
	return "dynamic"
}

func (in *Interp) call(fr *Frame, st *State, i ssa.Instruction, c *ssa.CallCommon, typ types.Type) *Term {
	f, args := in.callee(fr, c)
	return in.callWith(fr, st, i, c, f, args, typ)
}

func siteOf(fr *Frame, i ssa.Instruction) string {
	if v, ok := i.(ssa.Value); ok {
		return fr.ctx + "/" + v.Name()
	}
	n := 0
	for k, x := range i.Block().Instrs {
		if x == i {
			n = k
		}
	}
	return fmt.Sprintf("%s/b%d.%d", fr.ctx, i.Block().Index, n)
}

func (in *Interp) callWith(fr *Frame, st *State, i ssa.Instruction, c *ssa.CallCommon, f *Term, args []*Term, typ types.Type) *Term {
	g := in.abs(fr, st.g)
	f = in.Simp(f, g)
	if f.Op == "ite" {
		return in.splitCall(fr, st, f, func(ff *Term, s *State) *Term {
			return in.callWith(fr, s, i, c, ff, args, typ)
		})
	}
	if f.Op == "builtin" {
		return in.builtin(fr, st, i, c, f.Aux, args, typ)
	}
	if f.Op == "method" {
		recv := in.Simp(args[0], g)
		anyKnown := false
		for _, a := range in.Alts(recv) {
			if a.T.Op == "iface" && a.T.Obj != nil {
				anyKnown = true
			}
		}
		if anyKnown {
			if recv.Op == "ite" {
				return in.splitCall(fr, st, recv, func(r *Term, s *State) *Term {
					return in.callWith(fr, s, i, c, f, append([]*Term{r}, args[1:]...), typ)
				})
			}
			ct := recv.Obj.(types.Type)
			m := f.Obj.(*types.Func)
			if mf := in.P.Prog.LookupMethod(ct, m.Pkg(), m.Name()); mf != nil {
				ft := in.mkT("func", funcName(mf), mf.Type())
				ft.Obj = mf
				return in.callWith(fr, st, i, c, ft, append([]*Term{recv.Args[0]}, args[1:]...), typ)
			}
		}
		return in.external(fr, st, i, c, f.Aux, nil, args, typ)
	}
	if f.Op == "load" && f.Args[0].Op == "global" {
		if tgt := in.P.globalFunc(f.Args[0].Aux); tgt != nil {
			ft := in.mkT("func", funcName(tgt), tgt.Type())
			ft.Obj = tgt
			f = ft
		}
	}
	fn, _ := f.Obj.(*ssa.Function)
	if fn == nil || (f.Op != "func" && f.Op != "closure") {
		return in.external(fr, st, i, c, in.calleeName(c, f), nil, append(append([]*Term{}, args...), f), typ)
	}
	name := funcName(fn)
	if t, ok := in.model(fr, st, i, name, fn, args, typ); ok {
		return t
	}
	if fn.Synthetic != "" && fn.Blocks != nil && !in.P.followed(fn) && !in.P.inRepoRecv(fn) {
		// wrapper of an external method
		return in.external(fr, st, i, c, name, fn, args, typ)
	}
	if fn.Blocks != nil && (in.P.followed(fn) || fn.Synthetic != "") && !in.onStack(fn) && len(in.stack) < 40 && !in.Opaque(fn) {
		call, isCall := i.(*ssa.Call)
		tail := isCall && c == &call.Call && c.StaticCallee() == fn && tailCall(call)
		g := st.g
		res := in.inline(fr, st, i, fn, f, args, typ)
		if tail && st.g != bFalse {
			// the ways out of the called function are those of this one
			for _, r := range in.lastInlined.returns {
				r.g = in.And(g, r.g)
				fr.returns = append(fr.returns, r)
			}
			st.g = bFalse
		}
		return res
	}
	return in.external(fr, st, i, c, name, fn, args, typ)
}

// tailCall: the results of the call, as they are, are those of the function.
func tailCall(call *ssa.Call) bool {
	b := call.Block()
	found, extracts := false, 0
	for _, i := range b.Instrs {
		if i == call {
			found = true
			continue
		}
		if !found {
			continue
		}
		switch i := i.(type) {
		case *ssa.DebugRef:
		case *ssa.Extract:
			if i.Tuple != call || i.Index != extracts {
				return false
			}
			extracts++
		case *ssa.Return:
			n := call.Call.Signature().Results().Len()
			if len(i.Results) != n {
				return false
			}
			for k, r := range i.Results {
				if n == 1 && r == call {
					continue
				}
				if e, ok := r.(*ssa.Extract); !ok || n == 1 || e.Tuple != call || e.Index != k {
					return false
				}
			}
			return true
		default:
			return false
		}
	}
	return false
}

func (in *Interp) splitCall(fr *Frame, st *State, f *Term, run func(*Term, *State) *Term) *Term {
	var gs []B
	var ms []*Mem
	var vs []alt
	tot := bFalse
	for _, a := range f.Obj.([]alt) {
		s := &State{in.And(st.g, a.G), st.mem.clone()}
		if !in.Sat(in.And(fr.abs, s.g)) {
			continue
		}
		v := run(a.T, s)
		if s.g == bFalse {
			continue
		}
		gs = append(gs, s.g)
		ms = append(ms, s.mem)
		if v != nil {
			vs = append(vs, alt{s.g, v})
		}
		tot = in.Or(tot, s.g)
	}
	st.g = tot
	if len(ms) == 0 {
		return in.mkT("undef", "call", nil)
	}
	for k := range gs {
		gs[k] = in.Simplify(gs[k], tot)
		if k < len(vs) {
			vs[k].G = gs[k]
		}
	}
	st.mem = in.joinMem(fr, nil, gs, ms)
	return in.mkIte(vs)
}

func (in *Interp) onStack(fn *ssa.Function) bool {
	n := 0
	for _, f := range in.stack {
		if f == fn {
			n++
		}
	}
	return n > in.Rec
}

func (in *Interp) inline(fr *Frame, st *State, i ssa.Instruction, fn *ssa.Function, f *Term, args []*Term, typ types.Type) *Term {
	sub := &Frame{fn: fn, ctx: siteOf(fr, i) + ">" + fn.Name(), env: map[ssa.Value]*Term{}, abs: in.abs(fr, st.g)}
	for k, p := range fn.Params {
		if k < len(args) {
			sub.env[p] = args[k]
		}
	}
	for k, fv := range fn.FreeVars {
		if f.Op == "closure" && k < len(f.Args) {
			sub.env[fv] = f.Args[k]
		}
	}
	in.callers = append(in.callers, i)
	in.runFrame(sub, st.mem.clone())
	in.callers = in.callers[:len(in.callers)-1]
	in.lastInlined = sub
	if len(sub.returns) == 0 {
		st.g = bFalse
		return in.mkT("undef", "noreturn", typ)
	}
	tot := bFalse
	for _, r := range sub.returns {
		tot = in.Or(tot, r.g)
	}
	var gs []B
	var ms []*Mem
	for _, r := range sub.returns {
		gs = append(gs, in.Simplify(r.g, tot))
		ms = append(ms, r.mem)
	}
	st.mem = in.joinMem(sub, nil, gs, ms)
	st.g = in.And(st.g, tot)
	n := len(sub.returns[0].vals)
	var res []*Term
	for k := 0; k < n; k++ {
		var as []alt
		for ri, r := range sub.returns {
			as = append(as, alt{gs[ri], r.vals[k]})
		}
		res = append(res, in.cap(in.mkIte(as), sub.ctx+"/ret"+strconv.Itoa(k), nil))
	}
	switch n {
	case 0:
		return in.Tuple()
	case 1:
		return res[0]
	}
	return in.Tuple(res...)
}

func (in *Interp) goStmt(fr *Frame, st *State, i *ssa.Go) {
	f, args := in.callee(fr, &i.Call)
	in.emit(fr, st, &Event{Kind: "go", Instr: i, Args: append([]*Term{f}, args...), Name: in.calleeName(&i.Call, f)})
	in.goLevel++
	sub := &State{st.g, st.mem.clone()}
	// a goroutine starts with no locks held
	for k := range sub.mem.m {
		if k.Op == "lock" {
			delete(sub.mem.m, k)
		}
	}
	in.callWith(fr, sub, i, &i.Call, f, args, nil)
	in.goLevel--
}

// callback runs a function value handed to outside code: zero or more times.
func (in *Interp) callback(fr *Frame, st *State, i ssa.Instruction, f *Term, fn *ssa.Function, call *Term, ev *Event) {
	if fn.Blocks == nil || in.onStack(fn) || !in.P.inRepo(fn) {
		return
	}
	key := siteOf(fr, i) + "/cb:" + fn.Name()
	lp := in.loopSeen[key]
	if lp == nil {
		lp = &Loop{ID: len(in.loopSeen), Key: key, Fn: fn, Callback: true}
		in.loopSeen[key] = lp
	}
	lp.AbsEntry = in.abs(fr, st.g)
	args := make([]*Term, len(fn.Params))
	for k, p := range fn.Params {
		args[k] = in.mkT("cbparam", fmt.Sprintf("%s#%d", key, k), p.Type(), call)
		args[k].addLoop(lp)
	}
	havoc := map[*Term]bool{}
	entry := st.mem
	if in.CbMem != nil {
		entry = in.CbMem(ev, entry)
	}
	run := func() *State {
		mem := entry.clone()
		for k := range havoc {
			in.purgeSub(mem, k)
			t := in.loopTerm("loopmem", key+"/"+strconv.Itoa(k.ID), cellType(k), lp)
			in.loopInfo[t] = &LoopVarInfo{Init: in.peek(entry, k), Loop: lp, Cell: k}
			mem.m[k] = t
		}
		s := &State{st.g, mem}
		in.loopStack = append(in.loopStack, lp)
		in.cbLevel++
		in.inline(fr, s, i, fn, f, args, nil)
		in.cbLevel--
		in.loopStack = in.loopStack[:len(in.loopStack)-1]
		return s
	}
	for iter := 0; iter < 10; iter++ {
		in.muted++
		s := run()
		in.muted--
		changed := false
		for k, v := range s.mem.m {
			if havoc[k] || k.hasLoop(lp) || rootAllocIn(k, key, entry) {
				continue
			}
			if in.Simp(v, s.g) != in.Simp(in.peek(entry, k), s.g) {
				havoc[k] = true
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	s := run()
	lp.CbArgs, lp.Call = args, ev
	lp.CbReturns = nil
	for _, r := range in.lastInlined.returns {
		r.g = in.And(in.lastInlined.abs, r.g)
		lp.CbReturns = append(lp.CbReturns, r)
	}
	mem := st.mem.clone()
	for k := range havoc {
		in.purgeSub(mem, k)
		t := in.loopTerm("loopmem", key+"/"+strconv.Itoa(k.ID), cellType(k), lp)
		mem.m[k] = t
		in.loopInfo[t].Back = []alt{{in.abs(fr, s.g), in.peek(s.mem, k)}}
	}
	st.mem = mem
	if in.muted == 0 {
		in.Loops = append(in.Loops, lp)
	}
}

func (in *Interp) builtin(fr *Frame, st *State, i ssa.Instruction, c *ssa.CallCommon, name string, args []*Term, typ types.Type) *Term {
	switch name {
	case "len":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			in.emit(fr, st, &Event{Kind: "mapget", Instr: i, Args: args, Addr: args[0], Name: "len"})
			return in.lift(in.mapContent(st.mem, args[0]), func(t *Term) *Term {
				if t.Op == "emptymap" {
					return in.Int(0)
				}
				if t.Op == "map0" {
					t = t.Args[0]
				}
				return in.mkT("len", "", types.Typ[types.Int], t)
			})
		}
		return in.Len(args[0])
	case "cap":
		return in.mkT("cap", "", types.Typ[types.Int], args[0])
	case "append":
		in.emit(fr, st, &Event{Kind: "append", Instr: i, Args: args})
		return in.cap(in.appendT(args[0], args[1], typ), siteOf(fr, i), typ)
	case "delete":
		in.emit(fr, st, &Event{Kind: "mapdel", Instr: i, Args: args, Addr: args[0]})
		in.mapWrite(st, args[0], func(c *Term) *Term {
			if c.Op == "emptymap" {
				return c
			}
			return in.mkT("mapdel", "", nil, c, args[1])
		})
		return in.Tuple()
	case "close":
		in.emit(fr, st, &Event{Kind: "close", Instr: i, Args: args})
		return in.Tuple()
	case "recover":
		t := in.mkT("recover", siteOf(fr, i), typ)
		in.emit(fr, st, &Event{Kind: "recover", Instr: i, Result: t})
		return t
	case "copy":
		in.emit(fr, st, &Event{Kind: "builtin", Name: name, Instr: i, Args: args})
		t := in.mkT("builtin:"+name, siteOf(fr, i), typ, args...)
		t.inLoops(in.loopStack)
		in.havocArg(st, args[0], t, 0, nil)
		return t
	case "print", "println":
		in.emit(fr, st, &Event{Kind: "builtin", Name: name, Instr: i, Args: args})
		return in.mkT("builtin:"+name, siteOf(fr, i), typ, args...)
	case "min", "max":
		if len(args) == 2 {
			lt := in.Truth(in.lt(args[0], args[1]))
			if name == "max" {
				lt = in.Not(lt)
			}
			return in.mkIte([]alt{{lt, args[0]}, {in.Not(lt), args[1]}})
		}
	case "ssa:wrapnilchk":
		return args[0]
	}
	return in.mkT("builtin:"+name, "", typ, args...)
}

func (in *Interp) appendT(base, add *Term, typ types.Type) *Term {
	return in.lift(base, func(b *Term) *Term {
		return in.lift(add, func(a *Term) *Term {
			be := b.Op == "emptyslice" || b.isNil() || (b.Op == "slicelit" && len(b.Args) == 0)
			if a.Op == "emptyslice" || a.isNil() || (a.Op == "slicelit" && len(a.Args) == 0) {
				return b
			}
			if be {
				return a
			}
			if b.Op == "slicelit" && a.Op == "slicelit" {
				return in.mkT("slicelit", "", typ, append(append([]*Term{}, b.Args...), a.Args...)...)
			}
			return in.mkT("append", "", typ, b, a)
		})
	})
}

// external records a call to code that is not looked into.
func (in *Interp) external(fr *Frame, st *State, i ssa.Instruction, c *ssa.CallCommon, name string, fn *ssa.Function, args []*Term, typ types.Type) *Term {
	eff := in.P.effectOf(name, fn)
	if eff.pure && fn != nil && in.Fresh != nil && in.Fresh(fn) {
		e := *eff
		e.pure = false
		eff = &e
	}
	var vals []*Term
	for _, a := range args {
		vals = append(vals, in.content(st, a))
	}
	ev := &Event{Kind: "call", Name: name, Instr: i, Args: args, Vals: vals, Opaque: fn != nil && in.P.inRepo(fn)}
	if typ == nil {
		typ = c.Signature().Results()
	}
	var res *Term
	if eff.pure {
		var sn []*Term
		for _, a := range args {
			sn = append(sn, in.snap(st, a))
		}
		res = in.callTerm(name, typ, sn)
	} else {
		res = in.mkT("call", name+"@"+siteOf(fr, i), typ, args...)
		res.inLoops(in.loopStack)
	}
	ev.Result = res
	in.emit(fr, st, ev)
	// function values handed out
	for _, a := range args {
		for _, al := range in.Alts(a) {
			t := al.T
			if t.Op == "iface" {
				t = t.Args[0]
			}
			if t.Op == "closure" || t.Op == "func" {
				if cf, ok := t.Obj.(*ssa.Function); ok && in.P.inRepo(cf) {
					in.callback(fr, st, i, t, cf, res, ev)
				}
			}
			if t.Op == "slicelit" {
				for _, e := range t.Args {
					if e.Op == "closure" || e.Op == "func" {
						if cf, ok := e.Obj.(*ssa.Function); ok && in.P.inRepo(cf) {
							in.callback(fr, st, i, e, cf, res, ev)
						}
					}
				}
			}
		}
	}
	for k := range args {
		if eff.writes(k) {
			in.havocArg(st, args[k], res, k, eff.wf[k])
		}
	}
	if eff.bumps && len(args) > 0 {
		r := args[0]
		if r.Op == "iface" {
			r = r.Args[0]
		}
		in.bumpVer(st, r, siteOf(fr, i))
	}
	if eff.noreturn {
		st.g = bFalse
	}
	return res
}

func (in *Interp) callTerm(name string, typ types.Type, args []*Term) *Term {
	// distribute over alternatives of one argument only, to stay small
	for k, a := range args {
		if a.Op == "ite" && len(a.Args) <= 8 {
			return in.lift(a, func(x *Term) *Term {
				na := append([]*Term{}, args...)
				na[k] = x
				return in.callTerm(name, typ, na)
			})
		}
	}
	if t := in.foldCall(name, args); t != nil {
		return t
	}
	return in.mkT("call", name, typ, args...)
}

func (in *Interp) foldCall(name string, args []*Term) *Term {
	switch name {
	case "strings.HasPrefix":
		p, ok := args[1].constStr()
		if !ok {
			return nil
		}
		if s, ok := args[0].constStr(); ok {
			return in.Bool(strings.HasPrefix(s, p))
		}
		if args[0].Op == "concat" {
			if l, ok := args[0].Args[0].constStr(); ok {
				if strings.HasPrefix(l, p) {
					return in.Bool(true)
				}
				if !strings.HasPrefix(p, l) {
					return in.Bool(false)
				}
			}
		}
		if p == "" {
			return in.Bool(true)
		}
	case "strings.TrimPrefix":
		p, ok := args[1].constStr()
		if ok && args[0].Op == "concat" {
			if l, ok := args[0].Args[0].constStr(); ok && l == p {
				return args[0].Args[1]
			}
		}
		// TrimPrefix(s,p) = s[len(p):] when it has the prefix, else s
		h := in.callTerm("strings.HasPrefix", types.Typ[types.Bool], args)
		g := in.Truth(h)
		if ok {
			return in.mkIte([]alt{{g, in.mkT("slice", "", types.Typ[types.String], args[0], in.Int(int64(len(p))))}, {in.Not(g), args[0]}})
		}
	case "strings.Compare":
		lt, eq := in.Truth(in.Bin(token.LSS, args[0], args[1], types.Typ[types.String])), in.Truth(in.Bin(token.EQL, args[0], args[1], types.Typ[types.String]))
		return in.mkIte([]alt{{lt, in.Int(-1)}, {in.And(in.Not(lt), eq), in.Int(0)}, {in.Not(in.Or(lt, eq)), in.Int(1)}})
	case "strconv.FormatBool":
		b := in.Truth(args[0])
		return in.mkIte([]alt{{b, in.Str("true")}, {in.Not(b), in.Str("false")}})
	case "strings.ToLower":
		if s, ok := args[0].constStr(); ok {
			return in.Str(strings.ToLower(s))
		}
	case "strings.Contains":
		if s, ok := args[0].constStr(); ok {
			if p, ok := args[1].constStr(); ok {
				return in.Bool(strings.Contains(s, p))
			}
		}
	}
	return nil
}

func (in *Interp) havocArg(st *State, a, res *Term, k int, fields map[string]bool) {
	for _, al := range in.Alts(a) {
		t := al.T
		if t.Op == "iface" {
			t = t.Args[0]
		}
		if t.Typ == nil {
			continue
		}
		switch u := t.Typ.Underlying().(type) {
		case *types.Pointer:
			out := in.mkT("out", strconv.Itoa(k), u.Elem(), res)
			if len(fields) > 0 {
				for _, f := range sortedKeys(fields) {
					if ft := structField(u.Elem(), f); ft != nil {
						in.store(st.mem, in.FieldAddr(t, f, ft), in.Field(out, f, ft))
					}
				}
				continue
			}
			in.store(st.mem, t, out)
			in.bumpVer(st, t, strconv.Itoa(res.ID))
		case *types.Map:
			st.mem.m[in.mapCell(t)] = in.mkT("outmap", strconv.Itoa(k), t.Typ, res)
		case *types.Slice:
			in.bumpVer(st, t, strconv.Itoa(res.ID))
			in.havocElems(st, t, res, k)
		}
	}
}

// havocElems forgets what is known of the elements behind slice t.
func (in *Interp) havocElems(st *State, t, res *Term, k int) {
	base := t
	for base.Op == "slice" {
		base = base.Args[0]
	}
	for c := range st.mem.m {
		if c.Op == "indexaddr" && (c.Args[0] == base || c.Args[0] == t) {
			delete(st.mem.m, c)
		}
	}
	if _, ok := arrayOf(base.Typ); ok && base.Op == "alloc" {
		in.store(st.mem, base, in.mkT("out", strconv.Itoa(k), base.Typ, res))
	} else if p, ok := base.Typ.Underlying().(*types.Pointer); ok {
		in.store(st.mem, base, in.mkT("out", strconv.Itoa(k), p.Elem(), res))
	}
}

// defaultOpaque lists the exported helpers whose results are treated as
// functions of their arguments when they are called from elsewhere; each of
// them has its own property.
var opaqueNames = map[string]bool{}

func init() {
	for _, n := range []string{
		"(*page.Paginate).Match", "(*page.Paginate).SearchParts", "(*page.Paginate).SearchSelector", "(*page.Paginate).SetSearchSelector",
		"(*page.Paginate).SetSearchWithParts", "(*page.Paginate).Namespaces", "(*page.Paginate).Clusters", "(*page.Paginate).GetClusters",
		"page.Match", "page.QueryGetOptions", "page.QueryCreateOptions", "page.QueryUpdateOptions", "page.QueryPatchOptions", "page.QueryDeleteOptions",
		"page.QueryListOptions", "page.MakeupResPaginate", "page.GetObjectCluster",
		"kube.SplittingValue", "kube.MergeValues", "kube.ParseToLabelSelector", "kube.GetK8sConfigConfigWithFile",
		"common.GetConfig", "common.InitConfig", "common.GetGVRKind",
		"utils.IsSubsetOf", "utils.Obj2JSONMap",
	} {
		if strings.HasPrefix(n, "(*") {
			opaqueNames["(*"+modPath+"/"+n[2:]] = true
		} else {
			opaqueNames[modPath+"/"+n] = true
		}
	}
}

func defaultOpaque(fn *ssa.Function) bool { return opaqueNames[funcName(fn)] }
