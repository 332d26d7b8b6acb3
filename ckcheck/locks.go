package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A lockset analysis over the SSA of the repository: which locks are certainly
// held (must) and possibly held (may) at each instruction, across calls and
// closures.

// lpath names a location by the value it is reached from.
type lpath struct {
	root ssa.Value
	sel  string
}

const (
	modeR = 1
	modeW = 2
)

type lockset map[lpath]int

func (s lockset) clone() lockset {
	n := lockset{}
	for k, v := range s {
		n[k] = v
	}
	return n
}

type lockState struct {
	must, may lockset
	deferred  map[lpath]int // unlocks that run at the end, on every path here
	defCalls  map[*ssa.Defer]bool
}

func (s *lockState) clone() *lockState {
	d := map[lpath]int{}
	for k, v := range s.deferred {
		d[k] = v
	}
	c := map[*ssa.Defer]bool{}
	for k := range s.defCalls {
		c[k] = true
	}
	return &lockState{s.must.clone(), s.may.clone(), d, c}
}

// meet merges o into s; tells whether s changed.
func (s *lockState) meet(o *lockState) bool {
	ch := false
	for k, v := range s.must {
		w := o.must[k]
		if w < v {
			ch = true
			if w == 0 {
				delete(s.must, k)
			} else {
				s.must[k] = w
			}
		}
	}
	for k, v := range o.may {
		if s.may[k] < v {
			s.may[k] = v
			ch = true
		}
	}
	for k := range s.deferred {
		if _, ok := o.deferred[k]; !ok {
			delete(s.deferred, k)
			ch = true
		}
	}
	for k := range o.defCalls {
		if !s.defCalls[k] {
			s.defCalls[k] = true
			ch = true
		}
	}
	return ch
}

type lockFn struct {
	fn    *ssa.Function
	entry lockset // nil: not known to be called yet
	fixed bool    // may be called from anywhere: nothing is held
	in    map[*ssa.BasicBlock]*lockState
	at    map[ssa.Instruction]*lockState
	exits []exitState
}

type exitState struct {
	ret *ssa.Return
	s   *lockState
}

type lockEdge struct {
	held, got string // classes
	at        ssa.Instruction
}

type locks struct {
	P   *Program
	fns map[*ssa.Function]*lockFn
	// how closures are made
	makes map[*ssa.Function][]*ssa.MakeClosure
	work  map[*ssa.Function]bool
	acq   map[*ssa.Function]map[string]bool
	// locks a function holds while it calls its n-th parameter
	cbHeld map[*ssa.Function]map[int]map[string]bool
	edges  []lockEdge
	values map[*ssa.Function]bool // functions used as values
	// how the lock is held at each unlock, as last seen
	unlocks map[ssa.Instruction]map[lpath]unlockAt
}

type unlockAt struct {
	mode, must, may int
}

func (u unlockAt) wrong() string {
	switch {
	case u.may == 0:
		return "a lock that is not held is released"
	case u.mode == modeR && u.must == modeW, u.mode == modeW && u.may == modeR:
		return "a lock is released in another way than it was taken"
	}
	return ""
}

func isMutexOp(name string) (op string, mode int, ok bool) {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "lock", modeW, true
	case "(*sync.RWMutex).RLock":
		return "lock", modeR, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "unlock", modeW, true
	case "(*sync.RWMutex).RUnlock":
		return "unlock", modeR, true
	}
	return "", 0, false
}

func (L *locks) path(v ssa.Value) lpath {
	for depth := 0; depth < 50; depth++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			p := L.path(x.X)
			st := deref(x.X.Type()).Underlying().(*types.Struct)
			return lpath{p.root, p.sel + "." + st.Field(x.Field).Name()}
		case *ssa.Field:
			p := L.path(x.X)
			st := x.X.Type().Underlying().(*types.Struct)
			return lpath{p.root, p.sel + "." + st.Field(x.Field).Name()}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return lpath{v, ""}
			}
			if u := singleStore(L.resolve(x.X)); u != nil {
				v = u
				continue
			}
			p := L.path(x.X)
			return lpath{p.root, p.sel + "*"}
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.FreeVar:
			if b := L.resolve(x); b != x {
				v = b
				continue
			}
			return lpath{v, ""}
		}
		return lpath{v, ""}
	}
	return lpath{v, ""}
}

// resolve: the value a free variable stands for.
func (L *locks) resolve(v ssa.Value) ssa.Value {
	for {
		fv, ok := v.(*ssa.FreeVar)
		if !ok {
			return v
		}
		ms := L.makes[fv.Parent()]
		if len(ms) != 1 {
			return v
		}
		for i, f := range fv.Parent().FreeVars {
			if f == fv {
				v = ms[0].Bindings[i]
			}
		}
	}
}

// singleStore: the value of a variable that is assigned once.
func singleStore(v ssa.Value) ssa.Value {
	a, ok := v.(*ssa.Alloc)
	if !ok || a.Referrers() == nil {
		return nil
	}
	var val ssa.Value
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			if val != nil {
				return nil
			}
			val = s.Val
		}
	}
	return val
}

func newLocks(P *Program) *locks {
	L := &locks{P: P, fns: map[*ssa.Function]*lockFn{}, makes: map[*ssa.Function][]*ssa.MakeClosure{}, work: map[*ssa.Function]bool{}, acq: map[*ssa.Function]map[string]bool{}, cbHeld: map[*ssa.Function]map[int]map[string]bool{}, unlocks: map[ssa.Instruction]map[lpath]unlockAt{}}
	used := map[*ssa.Function]bool{}  // called directly somewhere
	taken := map[*ssa.Function]bool{} // may be called from unknown places
	for _, fn := range P.AllFuncs {
		if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 || isGenericBody(fn) {
			continue
		}
		L.fns[fn] = &lockFn{fn: fn}
	}
	for fn := range L.fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if mc, ok := i.(*ssa.MakeClosure); ok {
					c := mc.Fn.(*ssa.Function)
					L.makes[c] = append(L.makes[c], mc)
				}
				com := callCommon(i)
				if com != nil {
					if c := com.StaticCallee(); c != nil {
						if _, isGo := i.(*ssa.Go); !isGo {
							used[c] = true
						} else {
							taken[c] = true
						}
					}
				}
				for _, op := range i.Operands(nil) {
					f, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if com != nil && op == &com.Value {
						continue
					}
					if _, ok := i.(*ssa.MakeClosure); ok {
						continue
					}
					if com != nil && isArg(com, f) {
						used[f] = true // a callback without captured variables
						continue
					}
					taken[f] = true
				}
			}
		}
	}
	for fn, f := range L.fns {
		switch {
		case taken[fn]:
			f.fixed = true
		case fn.Parent() != nil:
			f.fixed = !L.callback(fn) && !used[fn]
		case !used[fn] || isExported(fn) || fn.Name() == "main" || strings.HasPrefix(fn.Name(), "init"):
			f.fixed = true
		}
		if f.fixed {
			f.entry = lockset{}
		}
	}
	for round := 0; round < 12; round++ {
		before := L.snapshot()
		var order []*ssa.Function
		for _, fn := range P.AllFuncs {
			if L.fns[fn] != nil {
				order = append(order, fn)
			}
		}
		for _, fn := range order {
			L.flow(L.fns[fn])
		}
		if !L.entries() && before == L.snapshot() {
			break
		}
	}
	return L
}

func isGenericBody(fn *ssa.Function) bool {
	for p := fn; p != nil; p = p.Parent() {
		if p.TypeParams().Len() > 0 && len(p.TypeArgs()) == 0 {
			return true
		}
		if r := p.Signature.Recv(); r != nil {
			if n, ok := deref(r.Type()).(*types.Named); ok && n.TypeParams().Len() > 0 && (n.TypeArgs().Len() == 0 || hasTypeParam(n)) {
				return true
			}
		}
	}
	return false
}

func hasTypeParam(n *types.Named) bool {
	for i := 0; i < n.TypeArgs().Len(); i++ {
		if _, ok := n.TypeArgs().At(i).(*types.TypeParam); ok {
			return true
		}
	}
	return false
}

func isExported(fn *ssa.Function) bool {
	n := fn.Name()
	if i := strings.IndexByte(n, '['); i >= 0 {
		n = n[:i]
	}
	if !token.IsExported(n) {
		return false
	}
	// methods of unexported types are reachable through interfaces only
	if r := fn.Signature.Recv(); r != nil {
		if nt, ok := types.Unalias(deref(r.Type())).(*types.Named); ok && !nt.Obj().Exported() && nt.TypeParams().Len() > 0 {
			return false // an internal container
		}
	}
	return true
}

func isArg(c *ssa.CallCommon, f ssa.Value) bool {
	for _, a := range c.Args {
		if a == f {
			return true
		}
	}
	return false
}

func callCommon(i ssa.Instruction) *ssa.CallCommon {
	if c, ok := i.(ssa.CallInstruction); ok {
		return c.Common()
	}
	return nil
}

// callback: the closure is only called, or handed to calls, where it is made.
func (L *locks) callback(fn *ssa.Function) bool {
	ms := L.makes[fn]
	if len(ms) == 0 {
		return false
	}
	for _, m := range ms {
		for _, r := range *m.Referrers() {
			switch r := r.(type) {
			case *ssa.Call:
			case *ssa.Defer:
			case *ssa.DebugRef:
			default:
				_ = r
				return false
			}
		}
	}
	return true
}

func (L *locks) snapshot() string {
	var out []string
	for fn, f := range L.fns {
		s := fn.String() + ":"
		if f.entry == nil {
			s += "?"
		}
		var ks []string
		for k, v := range f.entry {
			ks = append(ks, k.sel+"/"+k.root.Name()+strings.Repeat("+", v))
		}
		for _, x := range f.exits {
			for k, v := range x.s.must {
				ks = append(ks, "x"+k.sel+strings.Repeat("+", v))
			}
		}
		sort.Strings(ks)
		out = append(out, s+strings.Join(ks, ","))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// flow analyses one function.
func (L *locks) flow(f *lockFn) {
	if f.entry == nil || len(f.fn.Blocks) == 0 {
		return
	}
	f.in = map[*ssa.BasicBlock]*lockState{}
	f.at = map[ssa.Instruction]*lockState{}
	f.exits = nil
	start := &lockState{f.entry.clone(), f.entry.clone(), map[lpath]int{}, map[*ssa.Defer]bool{}}
	f.in[f.fn.Blocks[0]] = start
	work := []*ssa.BasicBlock{f.fn.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := f.in[b].clone()
		for _, i := range b.Instrs {
			f.at[i] = s.clone()
			L.step(f, s, i)
		}
		for _, n := range b.Succs {
			if f.in[n] == nil {
				f.in[n] = s.clone()
				work = append(work, n)
			} else if f.in[n].meet(s) {
				work = append(work, n)
			}
		}
	}
	for _, b := range f.fn.Blocks {
		if f.in[b] == nil {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			f.exits = append(f.exits, exitState{r, f.at[r]})
		}
	}
}

func (s *lockState) apply(op string, mode int, p lpath) {
	if op == "lock" {
		s.must[p] = mode
		s.may[p] = mode
		return
	}
	delete(s.must, p)
	delete(s.may, p)
}

func (L *locks) step(f *lockFn, s *lockState, i ssa.Instruction) {
	switch i := i.(type) {
	case *ssa.Call:
		if op, mode, ok := isMutexOp(calleeName(&i.Call)); ok && op == "unlock" {
			p := L.path(i.Call.Args[0])
			L.unlocks[i] = map[lpath]unlockAt{p: {mode, s.must[p], s.may[p]}}
		}
		L.call(s, &i.Call)
	case *ssa.Defer:
		if op, mode, ok := isMutexOp(calleeName(&i.Call)); ok && op == "unlock" {
			s.deferred[L.path(i.Call.Args[0])] = mode
		}
		s.defCalls[i] = true
	case *ssa.RunDefers:
		L.unlocks[i] = map[lpath]unlockAt{}
		for p, mode := range s.deferred {
			L.unlocks[i][p] = unlockAt{mode, s.must[p], s.may[p]}
			delete(s.must, p)
			delete(s.may, p)
		}
		for d := range s.defCalls {
			if _, _, ok := isMutexOp(calleeName(&d.Call)); !ok {
				L.call(s, &d.Call)
			}
		}
	}
}

func calleeName(c *ssa.CallCommon) string {
	if fn := c.StaticCallee(); fn != nil {
		return fn.String()
	}
	return ""
}

// call applies the net effect of a call.
func (L *locks) call(s *lockState, c *ssa.CallCommon) {
	if op, mode, ok := isMutexOp(calleeName(c)); ok {
		s.apply(op, mode, L.path(c.Args[0]))
		return
	}
	fn := c.StaticCallee()
	if fn == nil {
		return
	}
	f := L.fns[fn]
	if f == nil || len(f.exits) == 0 {
		return
	}
	// what is held at all its ends and was not at its entry
	net := f.exits[0].s.must.clone()
	for _, x := range f.exits[1:] {
		for k, v := range net {
			if w := x.s.must[k]; w < v {
				delete(net, k)
			}
		}
	}
	for k, v := range net {
		if f.entry[k] >= v {
			continue
		}
		if p, ok := L.translate(k, fn, c); ok {
			s.must[p] = v
			s.may[p] = v
		}
	}
	// what it may leave locked
	for _, x := range f.exits {
		for k, v := range x.s.may {
			if f.entry[k] >= v {
				continue
			}
			if p, ok := L.translate(k, fn, c); ok && s.may[p] < v {
				s.may[p] = v
			}
		}
	}
	// what it releases: unlocks of paths it did not lock itself
	for p := range L.releases(f) {
		if q, ok := L.translate(p, fn, c); ok {
			delete(s.must, q)
			delete(s.may, q)
		}
	}
}

// releases: locks a function unlocks that are not held at its ends.
func (L *locks) releases(f *lockFn) map[lpath]bool {
	out := map[lpath]bool{}
	for p := range f.entry {
		gone := true
		for _, x := range f.exits {
			if x.s.may[p] != 0 {
				gone = false
			}
		}
		if gone {
			out[p] = true
		}
	}
	for _, b := range f.fn.Blocks {
		for _, i := range b.Instrs {
			c := callCommon(i)
			if c == nil {
				continue
			}
			if op, _, ok := isMutexOp(calleeName(c)); ok && op == "unlock" {
				p := L.path(c.Args[0])
				held := true
				for _, x := range f.exits {
					if x.s.must[p] == 0 {
						held = false
					}
				}
				locksIt := false
				for _, b := range f.fn.Blocks {
					for _, j := range b.Instrs {
						if d := callCommon(j); d != nil {
							if op, _, ok := isMutexOp(calleeName(d)); ok && op == "lock" && L.path(d.Args[0]) == p {
								locksIt = true
							}
						}
					}
				}
				if !held && !locksIt {
					out[p] = true
				}
			}
		}
	}
	return out
}

// translate expresses a path of the callee in the caller.
func (L *locks) translate(p lpath, fn *ssa.Function, c *ssa.CallCommon) (lpath, bool) {
	switch r := p.root.(type) {
	case *ssa.Parameter:
		if r.Parent() != fn {
			return p, true // of an enclosing function
		}
		for i, q := range fn.Params {
			if q == r && i < len(c.Args) {
				b := L.path(c.Args[i])
				return lpath{b.root, b.sel + p.sel}, true
			}
		}
	case *ssa.Global:
		return p, true
	case *ssa.Alloc:
		return p, r.Parent() != fn
	}
	if v, ok := p.root.(ssa.Instruction); ok {
		return p, v.Parent() != fn
	}
	return lpath{}, false
}

// into expresses what is held at a call in the terms of the called function.
func (L *locks) into(s lockset, fn *ssa.Function, c *ssa.CallCommon) lockset {
	n := lockset{}
	for k, v := range s {
		_, isGlobal := k.root.(*ssa.Global)
		if isGlobal || fn.Parent() != nil || c == nil {
			n[k] = v // enclosing functions and globals
		}
	}
	for i, q := range fn.Params {
		if c == nil || i >= len(c.Args) {
			break
		}
		b := L.path(c.Args[i])
		for k, v := range s {
			if k.root == b.root && strings.HasPrefix(k.sel, b.sel) {
				n[lpath{q, k.sel[len(b.sel):]}] = v
			}
		}
	}
	return n
}

// carried: the called function is analysed with what is held here, all of it.
func (L *locks) carried(s lockset, i ssa.Instruction) bool {
	call, ok := i.(*ssa.Call)
	if !ok {
		return false
	}
	fn := call.Call.StaticCallee()
	if fn == nil || L.fns[fn] == nil || L.fns[fn].fixed || fn.Parent() != nil {
		return false
	}
	in := L.into(s, fn, &call.Call)
	if len(in) < len(s) {
		return false
	}
	for k, v := range in {
		if L.fns[fn].entry[k] < v {
			return false
		}
	}
	return true
}

// entries computes what is held where functions are called.
func (L *locks) entries() bool {
	now := map[*ssa.Function]lockset{}
	meet := func(fn *ssa.Function, s lockset) {
		f := L.fns[fn]
		if f == nil || f.fixed {
			return
		}
		if old, ok := now[fn]; ok {
			for k, v := range old {
				if s[k] < v {
					if s[k] == 0 {
						delete(old, k)
					} else {
						old[k] = s[k]
					}
				}
			}
			return
		}
		now[fn] = s.clone()
	}
	into := L.into
	for _, f := range L.fns {
		for i, s := range f.at {
			c := callCommon(i)
			if c == nil {
				continue
			}
			if _, ok := i.(*ssa.Go); ok {
				for _, a := range append([]ssa.Value{c.Value}, c.Args...) {
					if fn := funcOf(a); fn != nil {
						meet(fn, lockset{})
					}
				}
				continue
			}
			held := s.must
			if _, ok := i.(*ssa.Defer); ok {
				held = lockset{}
			}
			if fn := c.StaticCallee(); fn != nil {
				meet(fn, into(held, fn, c))
			}
			for _, a := range c.Args {
				if fn := funcOf(a); fn != nil {
					meet(fn, into(held, fn, nil))
				}
			}
		}
	}
	ch := false
	for fn, s := range now {
		f := L.fns[fn]
		if f.entry == nil {
			f.entry = s
			ch = true
			continue
		}
		for k, v := range f.entry {
			if s[k] < v {
				ch = true
			}
		}
		for k := range s {
			if _, ok := f.entry[k]; !ok {
				ch = true
			}
		}
		f.entry = s
	}
	return ch
}

func funcOf(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.ChangeType:
		return funcOf(v.X)
	}
	return nil
}

// class names the kind of lock: the struct and field it is.
func (L *locks) class(p lpath, v ssa.Value) string {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		return types.TypeString(deref(fa.X.Type()), types.RelativeTo(nil)) + p.sel[strings.LastIndexByte(p.sel, '.'):]
	}
	return p.root.Name() + p.sel
}

// classes acquired by a function and what it calls.
func (L *locks) acquires(fn *ssa.Function) map[string]bool {
	if a := L.acq[fn]; a != nil {
		return a
	}
	out := map[string]bool{}
	L.acq[fn] = out
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			c := callCommon(i)
			if c == nil {
				continue
			}
			if _, ok := i.(*ssa.Go); ok {
				continue
			}
			if op, _, ok := isMutexOp(calleeName(c)); ok {
				if op == "lock" {
					out[L.class(L.path(c.Args[0]), c.Args[0])] = true
				}
				continue
			}
			for _, g := range L.targets(c) {
				for k := range L.acquires(g) {
					out[k] = true
				}
			}
		}
	}
	return out
}

// targets: the repository's functions a call may run (its callbacks included).
func (L *locks) targets(c *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	if fn := c.StaticCallee(); fn != nil {
		out = append(out, fn)
	} else if c.IsInvoke() {
		for _, f := range L.implementations(c) {
			out = append(out, f)
		}
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		out = append(out, L.valued(c.Signature())...)
	}
	for _, a := range c.Args {
		if fn := funcOf(a); fn != nil {
			out = append(out, fn)
		}
	}
	return out
}

// valued: the functions of the repository that are used as values, of a type.
func (L *locks) valued(s *types.Signature) []*ssa.Function {
	if L.values == nil {
		L.values = map[*ssa.Function]bool{}
		for fn := range L.fns {
			if fn.Parent() != nil {
				L.values[fn] = true
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					for n, op := range i.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							if c := callCommon(i); c != nil && c.StaticCallee() == g && n == 0 {
								continue
							}
							L.values[g] = true
						}
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for fn := range L.values {
		if L.fns[fn] != nil && types.Identical(fn.Signature, s) {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (L *locks) implementations(c *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	I, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for fn := range L.fns {
		if fn.Name() != c.Method.Name() || fn.Signature.Recv() == nil || fn.Synthetic != "" {
			continue
		}
		if types.Implements(fn.Signature.Recv().Type(), I) {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// heldClasses: the classes of the locks possibly held.
func (L *locks) classesOf(s lockset, names map[lpath]string) []string {
	var out []string
	for p := range s {
		if n := names[p]; n != "" {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// order collects which locks are taken while others are held.
func (L *locks) order() []lockEdge {
	names := map[lpath]string{}
	for fn := range L.fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c := callCommon(i); c != nil {
					if op, _, ok := isMutexOp(calleeName(c)); ok && op == "lock" {
						p := L.path(c.Args[0])
						names[p] = L.class(p, c.Args[0])
					}
				}
			}
		}
	}
	// locks handed to the functions called
	for more := true; more; {
		more = false
		for _, f := range L.fns {
			for i, s := range f.at {
				if len(s.may) == 0 || !L.carried(s.may, i) {
					continue
				}
				c := callCommon(i)
				for k, v := range s.may {
					for q := range L.into(lockset{k: v}, c.StaticCallee(), c) {
						if names[q] == "" && names[k] != "" {
							names[q] = names[k]
							more = true
						}
					}
				}
			}
		}
	}
	// what is held while a parameter is called
	cb := map[*ssa.Function]map[int][]string{}
	for fn, f := range L.fns {
		for i, s := range f.at {
			c := callCommon(i)
			if c == nil || c.IsInvoke() {
				continue
			}
			for n, q := range fn.Params {
				if c.Value == q {
					if cb[fn] == nil {
						cb[fn] = map[int][]string{}
					}
					cb[fn][n] = append(cb[fn][n], L.classesOf(s.may, names)...)
				}
			}
		}
	}
	var out []lockEdge
	for _, f := range L.fns {
		for i, s := range f.at {
			c := callCommon(i)
			if c == nil {
				continue
			}
			if _, ok := i.(*ssa.Go); ok {
				continue
			}
			held := L.classesOf(s.may, names)
			if op, _, ok := isMutexOp(calleeName(c)); ok {
				if op == "lock" {
					if _, d := i.(*ssa.Defer); d {
						continue
					}
					for _, h := range held {
						out = append(out, lockEdge{h, L.class(L.path(c.Args[0]), c.Args[0]), i})
					}
				}
				continue
			}
			for _, g := range L.targets(c) {
				if L.carried(s.may, i) {
					continue // its own locks are looked at there
				}
				for k := range L.acquires(g) {
					for _, h := range held {
						out = append(out, lockEdge{h, k, i})
					}
				}
			}
			if fn := c.StaticCallee(); fn != nil {
				for n, hs := range cb[fn] {
					if n < len(c.Args) {
						if g := funcOf(c.Args[n]); g != nil {
							for k := range L.acquires(g) {
								for _, h := range hs {
									out = append(out, lockEdge{h, k, i})
								}
							}
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.held != b.held {
			return a.held < b.held
		}
		if a.got != b.got {
			return a.got < b.got
		}
		return a.at.Pos() < b.at.Pos()
	})
	return out
}
