package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C17", Rule: "lockset analysis of every function: each access of a field that is changed after construction happens with the lock of its struct held (for writing if it changes it); locks are released on every path, taken in one order and not held across anything that blocks",
		Run: lockRule})
}

// field is a field of a struct type.
type guardedField struct {
	typ  string
	name string
}

func (f guardedField) String() string { return f.typ + "." + f.name }

type fieldAccess struct {
	f     guardedField
	write bool
	what  string
	at    ssa.Instruction
	base  ssa.Value // the struct
	esc   bool      // the content leaves
}

func originName(t types.Type) (string, *types.Named) {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok {
		return "", nil
	}
	o := n.Origin()
	if o.Obj().Pkg() == nil {
		return o.Obj().Name(), o
	}
	return shortName(o.Obj().Pkg().Path() + "." + o.Obj().Name()), o
}

// mutexFields: the locks of a struct.
func mutexFields(n *types.Named) []string {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < st.NumFields(); i++ {
		if typeIs(deref(st.Field(i).Type()), "sync.Mutex", "sync.RWMutex") {
			sel := "." + st.Field(i).Name()
			if _, ok := st.Field(i).Type().Underlying().(*types.Pointer); ok {
				sel += "*"
			}
			out = append(out, sel)
		}
	}
	return out
}

// accesses of the fields of the repository's structs.
func (L *locks) accesses(fn *ssa.Function) []fieldAccess {
	var out []fieldAccess
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			fa, ok := i.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			name, n := originName(fa.X.Type())
			if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				continue
			}
			st := n.Underlying().(*types.Struct)
			fld := guardedField{name, st.Field(fa.Field).Name()}
			ft := st.Field(fa.Field).Type()
			if isSyncType(ft) {
				continue
			}
			for _, r := range *fa.Referrers() {
				switch r := r.(type) {
				case *ssa.Store:
					if r.Addr == fa {
						out = append(out, fieldAccess{fld, true, "assigned", r, fa.X, false})
					}
				case *ssa.UnOp:
					if r.Op == token.MUL {
						out = append(out, fieldAccess{fld, false, "read", r, fa.X, false})
						L.contents(fld, fa.X, r, &out, map[ssa.Value]bool{})
					}
				}
			}
		}
	}
	return out
}

func isSyncType(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	return p == "sync" || p == "sync/atomic"
}

// contents: what is done with the map or slice read from a field.
func (L *locks) contents(f guardedField, base ssa.Value, v ssa.Value, out *[]fieldAccess, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch v.Type().Underlying().(type) {
	case *types.Map, *types.Slice:
	default:
		return
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			if r.Map == v {
				*out = append(*out, fieldAccess{f, true, "changed", r, base, false})
			}
		case *ssa.Lookup:
			*out = append(*out, fieldAccess{f, false, "looked up", r, base, false})
		case *ssa.Range:
			*out = append(*out, fieldAccess{f, false, "visited", r, base, false})
			for _, n := range *r.Referrers() {
				if n, ok := n.(*ssa.Next); ok {
					*out = append(*out, fieldAccess{f, false, "visited", n, base, false})
				}
			}
		case *ssa.IndexAddr:
			for _, s := range *r.Referrers() {
				if s, ok := s.(*ssa.Store); ok && s.Addr == r {
					*out = append(*out, fieldAccess{f, true, "changed", s, base, false})
				}
			}
		case ssa.CallInstruction:
			c := r.Common()
			if bi, ok := c.Value.(*ssa.Builtin); ok {
				*out = append(*out, fieldAccess{f, bi.Name() == "delete" || bi.Name() == "clear", "used by " + bi.Name(), r, base, false})
				continue
			}
			*out = append(*out, fieldAccess{f, false, "used by a call", r, base, false})
		case *ssa.Return:
			*out = append(*out, fieldAccess{f, false, "returned", r, base, true})
		case *ssa.Phi:
			L.contents(f, base, r, out, seen)
		}
	}
}

// fresh: the struct was made in this function.
func (L *locks) fresh(fn *ssa.Function, base ssa.Value) bool {
	r := L.path(base).root
	a, ok := r.(*ssa.Alloc)
	if !ok || a.Parent() != fn {
		return false
	}
	// a variable that holds a pointer from elsewhere is not fresh
	_, isPtr := deref(a.Type()).Underlying().(*types.Pointer)
	return !isPtr
}

func lockRule(c *Ctx) {
	L := newLocks(c.P)
	byField := map[guardedField][]fieldAccess{}
	mutated, content := map[guardedField]bool{}, map[guardedField]bool{}
	owners := map[guardedField][]string{}
	named := map[string]*types.Named{}
	for _, fn := range c.P.AllFuncs {
		if L.fns[fn] == nil || L.fns[fn].entry == nil && fn.Name() == "init" {
			continue
		}
		for _, a := range L.accesses(fn) {
			_, n := originName(a.base.Type())
			named[a.f.typ] = n
			if L.fresh(fn, a.base) {
				continue
			}
			byField[a.f] = append(byField[a.f], a)
			if a.write {
				mutated[a.f] = true
				if a.what != "assigned" {
					content[a.f] = true
				}
			}
			owners[a.f] = mutexFields(n)
		}
	}
	shared := sharedTypes(c.P)
	var fields []guardedField
	for f := range byField {
		fields = append(fields, f)
	}
	sort.Slice(fields, func(i, j int) bool { return fields[i].String() < fields[j].String() })
	guarded := map[string]bool{}
	for _, f := range fields {
		if !mutated[f] || len(owners[f]) == 0 && !shared[f.typ] {
			continue
		}
		heldAt := func(a fieldAccess, lock string) int {
			p := L.path(a.base)
			if s := L.fns[a.at.Parent()].at[a.at]; s != nil {
				return s.must[lpath{p.root, p.sel + lock}]
			}
			return 0
		}
		// of several locks the one that is held most
		owner, best := "", -1
		for _, m := range owners[f] {
			n := 0
			for _, a := range byField[f] {
				if heldAt(a, m) > 0 {
					n++
				}
			}
			if n > best {
				owner, best = m, n
			}
		}
		guarded[f.typ] = true
		for _, a := range byField[f] {
			fn := a.at.Parent()
			c.funcOf(fn)
			lf := L.fns[fn]
			if lf.entry == nil {
				continue // never called
			}
			if owner == "" {
				c.Ob("guarded", a.at, false, "%s is %s, but %s has no lock and is used by several goroutines", f, a.what, f.typ)
				continue
			}
			held := heldAt(a, owner)
			need := modeR
			if a.write {
				need = modeW
			}
			if a.esc && content[f] {
				c.Ob("guarded", a.at, false, "%s is handed out although it is changed later", f)
				continue
			}
			c.Ob("guarded", a.at, held >= need, "%s is %s with the lock of its struct held (%s)", f, a.what, owner)
		}
	}
	c.Ob("guarded", "the server's state", guarded["server.muxServer"] || serverGuarded(c.P, guarded), "the server's replaceable state is guarded by a lock")
	c.Ob("guarded", "the store's state", len(guarded) >= 2, "the store's maps are guarded by locks")
	c.Min("guarded", 15)
	// globals
	for _, fn := range c.P.AllFuncs {
		if strings.HasPrefix(fn.Name(), "init") && fn.Parent() == nil && fn.Signature.Recv() == nil {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Store:
					if g, ok := i.Addr.(*ssa.Global); ok && c.P.inRepoGlobal(g) {
						c.Ob("global", i, L.globalGuarded(i), "the variable %s is only set while nothing else runs", g.Name())
					}
				case *ssa.MapUpdate:
					if u, ok := i.Map.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok && c.P.inRepoGlobal(g) {
							c.Ob("global", i, L.globalGuarded(i), "the map %s is only changed while nothing else runs", g.Name())
						}
					}
				}
			}
		}
	}
	// a copy of a lock guards nothing
	for _, fn := range c.P.AllFuncs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL && holdsLock(u.Type(), 0) && !literal(u.X) {
					c.Ob("copied", i, false, "a struct with a lock is copied")
				}
			}
		}
	}
	// released
	n := 0
	for _, fn := range c.P.AllFuncs {
		f := L.fns[fn]
		if f == nil || f.entry == nil {
			continue
		}
		locksHere := false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if cc := callCommon(i); cc != nil {
					if op, _, ok := isMutexOp(calleeName(cc)); ok && op == "lock" {
						locksHere = true
					}
				}
			}
		}
		if !locksHere {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, u := range L.unlocks[i] {
					c.Ob("released", i, u.wrong() == "", "%s", u.wrong())
				}
			}
		}
		n++
		c.funcOf(fn)
		helper := !f.fixed && L.consistent(f)
		for _, x := range f.exits {
			left := []string{}
			for p := range x.s.may {
				if f.entry[p] == 0 {
					left = append(left, p.sel)
				}
			}
			c.Ob("released", x.ret, len(left) == 0 || helper, "every lock is released at the end")
		}
	}
	c.Ob("released", "functions that lock", n >= 6, "functions that take locks were found (%d)", n)
	// order
	es := L.order()
	graph := map[string]map[string]ssa.Instruction{}
	for _, e := range es {
		if graph[e.held] == nil {
			graph[e.held] = map[string]ssa.Instruction{}
		}
		if graph[e.held][e.got] == nil {
			graph[e.held][e.got] = e.at
		}
	}
	for h, gs := range graph {
		for g, at := range gs {
			c.Ob("order", at, !reach(graph, g, h), "taking %s while %s is held cannot deadlock", shortName(g), shortName(h))
		}
	}
	c.Ob("order", "lock order", true, "%d pairs of locks are nested", len(es))
	// blocking
	for _, fn := range c.P.AllFuncs {
		f := L.fns[fn]
		if f == nil {
			continue
		}
		for i, s := range f.at {
			if len(s.may) == 0 || L.carried(s.may, i) {
				continue
			}
			if w := L.blocks(i, map[*ssa.Function]bool{}); w != "" {
				c.Ob("blocking", i, false, "no lock is held while waiting (%s)", w)
			}
		}
	}
}

func serverGuarded(P *Program, guarded map[string]bool) bool {
	for _, T := range P.Impls(modPath + "/server.Server") {
		if n, _ := originName(T); guarded[n] {
			return true
		}
	}
	return false
}

// consistent: all ends hold the same locks.
func (L *locks) consistent(f *lockFn) bool {
	for _, x := range f.exits {
		for p := range x.s.may {
			for _, y := range f.exits {
				if y.s.must[p] == 0 {
					return false
				}
			}
		}
	}
	return true
}

func reach(g map[string]map[string]ssa.Instruction, from, to string) bool {
	seen := map[string]bool{}
	var dfs func(x string) bool
	dfs = func(x string) bool {
		if x == to {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for n := range g[x] {
			if dfs(n) {
				return true
			}
		}
		return false
	}
	return dfs(from)
}

func (P *Program) inRepoGlobal(g *ssa.Global) bool {
	return g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && g.Pkg.Pkg.Name() != "main"
}

// globalGuarded: a lock is held.
func (L *locks) globalGuarded(i ssa.Instruction) bool {
	f := L.fns[i.Parent()]
	if f == nil || f.at[i] == nil {
		return false
	}
	for _, m := range f.at[i].must {
		if m == modeW {
			return true
		}
	}
	return false
}

// sharedTypes: the structs reachable from what the goroutines share.
func sharedTypes(P *Program) map[string]bool {
	out := map[string]bool{}
	var walk func(t types.Type)
	seen := map[types.Type]bool{}
	walk = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch u := types.Unalias(t).(type) {
		case *types.Named:
			if u.Obj().Pkg() == nil || !strings.HasPrefix(u.Obj().Pkg().Path(), modPath) {
				return
			}
			name, _ := originName(u)
			if st, ok := u.Underlying().(*types.Struct); ok {
				out[name] = true
				for i := 0; i < st.NumFields(); i++ {
					walk(st.Field(i).Type())
				}
			} else {
				walk(u.Underlying())
			}
		case *types.Pointer:
			walk(u.Elem())
		case *types.Map:
			walk(u.Elem())
		case *types.Slice:
			walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		}
	}
	for _, iface := range []string{storeIface, modPath + "/server.Server", watcherIface} {
		for _, T := range P.Impls(iface) {
			walk(T)
		}
	}
	return out
}

// blocks: the instruction may wait for something else.
func (L *locks) blocks(i ssa.Instruction, busy map[*ssa.Function]bool) string {
	switch i := i.(type) {
	case *ssa.Send:
		return "send"
	case *ssa.UnOp:
		if i.Op == token.ARROW {
			return "receive"
		}
	case *ssa.Select:
		if i.Blocking {
			return "select"
		}
	case *ssa.Call:
		n := calleeName(&i.Call)
		if i.Call.IsInvoke() {
			n = "(" + types.TypeString(i.Call.Value.Type(), nil) + ")." + i.Call.Method.Name()
		}
		for _, b := range blockingCalls {
			if strings.HasPrefix(n, b) {
				return shortName(n)
			}
		}
		for _, fn := range L.targets(&i.Call) {
			if L.fns[fn] == nil || busy[fn] {
				continue
			}
			busy[fn] = true
			for _, b := range fn.Blocks {
				for _, j := range b.Instrs {
					if _, isDef := j.(*ssa.Defer); isDef {
						continue
					}
					if w := L.blocks(j, busy); w != "" {
						return w
					}
				}
			}
		}
	}
	return ""
}

var blockingCalls = []string{
	"time.Sleep", "(*net/http.Server).", "(*net/http.Client).", "net/http.ListenAndServe", "net/http.Get",
	"(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "(*k8s.io/client-go/rest.Request).Do", "(*k8s.io/client-go/rest.Request).Watch",
	"(*os/exec.Cmd).", "(net/http.ResponseWriter).Write", "io.Copy", "io.ReadAll",
}

// holdsLock: values of the type contain a lock.
func holdsLock(t types.Type, depth int) bool {
	if depth > 6 {
		return false
	}
	if typeIs(t, "sync.Mutex", "sync.RWMutex") {
		_, isPtr := t.Underlying().(*types.Pointer)
		return !isPtr
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsLock(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return holdsLock(u.Elem(), depth+1)
	}
	return false
}

// literal: the variable of a composite literal.
func literal(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok || a.Comment != "complit" {
		return false
	}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef:
		default:
			_ = r
			return false
		}
	}
	return true
}
