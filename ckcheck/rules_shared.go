package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The cache hands out its objects by reference. sharing follows those
// references through the program: depth 0 is (part of) a cached object, depth n
// is a container of the reader's own that reaches one after n dereferences.
const unshared = 99

type sharing struct {
	c       *Ctx
	P       *Program
	lv      map[ssa.Value]int
	res     map[*ssa.Function]map[int]int
	changed bool
	fns     []*ssa.Function
	impls   map[string][]*ssa.Function
	readers map[*ssa.Function]bool // what the store's own reads run
	sources int
}

func refType(T types.Type) bool { return refType1(T, map[types.Type]bool{}) }

func refType1(T types.Type, busy map[types.Type]bool) bool {
	if T == nil || busy[T] {
		return false
	}
	busy[T] = true
	if n, ok := T.(*types.Named); ok {
		switch n.String() {
		case "error", "time.Time", "k8s.io/apimachinery/pkg/apis/meta/v1.Time":
			return false
		}
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType1(u.Field(i).Type(), busy) {
				return true
			}
		}
		return false
	case *types.Array:
		return refType1(u.Elem(), busy)
	case *types.Tuple:
		return true
	case *types.Signature:
		return false
	}
	return true
}

func (s *sharing) level(v ssa.Value) int {
	if v == nil {
		return unshared
	}
	if l, ok := s.lv[v]; ok {
		return l
	}
	return unshared
}

func (s *sharing) set(v ssa.Value, l int) {
	if v == nil || l >= unshared || !refType(v.Type()) {
		return
	}
	if l > 3 {
		l = 3
	}
	if l < 0 {
		l = 0
	}
	if l < s.level(v) {
		s.lv[v] = l
		s.changed = true
	}
}

func down(l int) int {
	if l >= unshared {
		return l
	}
	if l == 0 {
		return 0
	}
	return l - 1
}

func up(l int) int {
	if l >= unshared {
		return l
	}
	return l + 1
}

// hold: the container behind this address now holds something of depth l.
func (s *sharing) hold(addr ssa.Value, l int) {
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
			continue
		case *ssa.IndexAddr:
			addr = x.X
			continue
		}
		break
	}
	if s.level(addr) == 0 {
		return // reported as a write
	}
	s.set(addr, max(up(l), 1))
}

func mutatorName(m string) bool {
	for _, p := range []string{"Set", "Add", "Remove", "Delete", "Insert", "Append", "Unmarshal", "UnmarshalJSON", "Reset", "Clear", "Update", "Merge"} {
		if strings.HasPrefix(m, p) {
			return true
		}
	}
	return false
}

func freshResult(name string) bool {
	last := name[strings.LastIndexByte(name, '.')+1:]
	return strings.HasPrefix(last, "DeepCopy") || strings.HasPrefix(last, "Marshal") || strings.HasPrefix(name, "fmt.") || strings.HasPrefix(last, "Print") || strings.HasPrefix(last, "ToUnstructured")
}

type sharedWrite struct {
	at  ssa.Instruction
	msg string
}

func (s *sharing) callees(cc *ssa.CallCommon) []*ssa.Function {
	if f := cc.StaticCallee(); f != nil {
		if s.P.inRepo(f) && f.Blocks != nil || f.Synthetic != "" && f.Blocks != nil && s.P.inRepoRecv(f) {
			return []*ssa.Function{f}
		}
		if o := f.Origin(); o != nil && s.P.inRepo(o) && f.Blocks != nil {
			return []*ssa.Function{f}
		}
		return nil
	}
	if cc.IsInvoke() {
		k := cc.Value.Type().String() + "." + cc.Method.Name()
		if fs, ok := s.impls[k]; ok {
			return fs
		}
		var fs []*ssa.Function
		if it, ok := cc.Value.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
			for _, fn := range s.fns {
				if fn.Signature.Recv() == nil || fn.Name() != cc.Method.Name() {
					continue
				}
				T := fn.Signature.Recv().Type()
				if types.Implements(T, it) {
					fs = append(fs, fn)
				}
			}
		}
		s.impls[k] = fs
		return fs
	}
	// a function value made in the repository
	var out []*ssa.Function
	switch x := cc.Value.(type) {
	case *ssa.MakeClosure:
		out = append(out, x.Fn.(*ssa.Function))
	}
	return out
}

func (s *sharing) isStoreRead(cc *ssa.CallCommon) string {
	var name string
	var recv types.Type
	switch {
	case cc.IsInvoke():
		name, recv = cc.Method.Name(), cc.Value.Type()
	case cc.StaticCallee() != nil && cc.StaticCallee().Signature.Recv() != nil:
		name, recv = cc.StaticCallee().Name(), cc.StaticCallee().Signature.Recv().Type()
	default:
		return ""
	}
	if name != "Query" && name != "Get" {
		return ""
	}
	if typeIs(recv, modPath+"/store.Store") {
		return name
	}
	for _, T := range s.P.Impls(modPath + "/store.Store") {
		if types.Identical(T, recv) {
			return name
		}
	}
	return ""
}

// step propagates through one instruction; with report it tells about writes.
func (s *sharing) step(fn *ssa.Function, i ssa.Instruction, report func(ssa.Instruction, string)) {
	v, _ := i.(ssa.Value)
	// what the store itself keeps
	if s.readers[fn] && v != nil {
		switch x := i.(type) {
		case *ssa.FieldAddr:
			if typeIs(x.X.Type(), modPath+"/store.Object") && s.level(x.X) >= unshared {
				if _, local := x.X.(*ssa.Alloc); local {
					s.set(x.X, 1)
				} else {
					s.set(x.X, 0)
				}
			}
		case *ssa.Field:
			if typeIs(x.X.Type(), modPath+"/store.Object") {
				s.set(x, 0)
			}
		}
	}
	switch x := i.(type) {
	case *ssa.FieldAddr:
		s.set(x, s.level(x.X))
	case *ssa.IndexAddr:
		s.set(x, s.level(x.X))
	case *ssa.Field:
		s.set(x, s.level(x.X))
	case *ssa.Index:
		s.set(x, s.level(x.X))
	case *ssa.UnOp:
		s.set(x, down(s.level(x.X)))
	case *ssa.Lookup:
		s.set(x, down(s.level(x.X)))
	case *ssa.Range:
		s.set(x, s.level(x.X))
	case *ssa.Next:
		s.set(x, down(s.level(x.Iter)))
	case *ssa.Extract:
		s.set(x, s.level(x.Tuple))
	case *ssa.MakeInterface:
		s.set(x, s.level(x.X))
	case *ssa.ChangeInterface:
		s.set(x, s.level(x.X))
	case *ssa.ChangeType:
		s.set(x, s.level(x.X))
	case *ssa.Convert:
		s.set(x, s.level(x.X))
	case *ssa.TypeAssert:
		s.set(x, s.level(x.X))
	case *ssa.Slice:
		s.set(x, s.level(x.X))
	case *ssa.Phi:
		for _, e := range x.Edges {
			s.set(x, s.level(e))
		}
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for k, b := range x.Bindings {
			s.set(f.FreeVars[k], s.level(b))
			// a captured variable is the same variable inside
			s.set(b, s.level(f.FreeVars[k]))
		}
	case *ssa.Store:
		if s.level(x.Addr) == 0 {
			report(i, "writes into an object of the cache")
			return
		}
		s.hold(x.Addr, s.level(x.Val))
	case *ssa.MapUpdate:
		if s.level(x.Map) == 0 {
			report(i, "writes into a map of a cached object")
			return
		}
		l := min(s.level(x.Value), s.level(x.Key))
		if l < unshared {
			s.set(x.Map, max(up(l), 1))
			if u, ok := x.Map.(*ssa.UnOp); ok {
				s.hold(u.X, s.level(x.Map))
			}
		}
	case *ssa.Send:
		s.set(x.Chan, max(up(s.level(x.X)), 1))
	case *ssa.Return:
		for k, r := range x.Results {
			l := s.level(r)
			if l >= unshared || !refType(r.Type()) {
				continue
			}
			m := s.res[fn]
			if m == nil {
				m = map[int]int{}
				s.res[fn] = m
			}
			if o, ok := m[k]; !ok || l < o {
				m[k] = l
				s.changed = true
			}
		}
	case ssa.CallInstruction:
		s.call(fn, x, report)
	}
}

func (s *sharing) call(fn *ssa.Function, x ssa.CallInstruction, report func(ssa.Instruction, string)) {
	cc := x.Common()
	res := x.Value()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if s.level(cc.Args[0]) == 0 {
				report(x, "appends to a slice of a cached object")
			}
			l := s.level(cc.Args[0])
			if len(cc.Args) > 1 {
				l = min(l, max(s.level(cc.Args[1]), 1))
			}
			if res != nil {
				s.set(res, max(l, 1))
			}
		case "copy":
			if s.level(cc.Args[0]) == 0 {
				report(x, "copies into a slice of a cached object")
				return
			}
			s.hold(cc.Args[0], down(s.level(cc.Args[1])))
			s.set(cc.Args[0], max(s.level(cc.Args[1]), 1))
		case "delete", "clear":
			if s.level(cc.Args[0]) == 0 {
				report(x, "deletes from a map of a cached object")
			}
		}
		return
	}
	switch s.isStoreRead(cc) {
	case "Query":
		s.sources++
		if res != nil {
			s.set(res, 1)
		}
		return
	case "Get":
		s.sources++
		if res != nil {
			s.set(res, 0)
		}
		return
	}
	var args []ssa.Value
	if cc.IsInvoke() {
		args = append(args, cc.Value)
	}
	args = append(args, cc.Args...)
	lowest := unshared
	for _, a := range args {
		if refType(a.Type()) {
			lowest = min(lowest, s.level(a))
		}
	}
	fs := s.callees(cc)
	for _, f := range fs {
		for k, p := range f.Params {
			if k < len(args) {
				s.set(p, s.level(args[k]))
			}
		}
		if res != nil {
			for k, l := range s.res[f] {
				if f.Signature.Results().Len() == 1 {
					s.set(res, l)
				} else {
					for _, u := range *res.Referrers() {
						if e, ok := u.(*ssa.Extract); ok && e.Index == k {
							s.set(e, l)
						}
					}
				}
			}
		}
	}
	if cc.IsInvoke() && s.level(cc.Value) == 0 && mutatorName(cc.Method.Name()) {
		report(x, "calls "+cc.Method.Name()+" on an object of the cache")
	}
	if len(fs) > 0 && !cc.IsInvoke() || lowest >= unshared {
		return
	}
	name := ""
	if cc.IsInvoke() {
		name = cc.Method.FullName()
	} else if f := cc.StaticCallee(); f != nil {
		name = funcName(f)
		if f.Signature.Recv() != nil && s.level(args[0]) == 0 && mutatorName(f.Name()) {
			report(x, "calls "+f.Name()+" on an object of the cache")
		}
		if f.Name() == "DeepCopyInto" && len(args) > 1 && s.level(args[1]) == 0 {
			report(x, "copies over an object of the cache")
		}
	} else if len(fs) > 0 {
		return
	}
	for _, k := range argWriters[name] {
		if k < len(args) && s.level(args[k]) == 0 {
			report(x, shortName(name)+" writes into an object of the cache")
		}
	}
	if res == nil || name == "" || freshResult(name) || isLog(name) {
		return
	}
	if tp, ok := res.Type().(*types.Tuple); ok {
		for _, u := range *res.Referrers() {
			if e, ok := u.(*ssa.Extract); ok && refType(tp.At(e.Index).Type()) {
				s.set(e, 0)
			}
		}
		return
	}
	// a getter of a cached object hands out a part of it
	if lowest == 0 {
		s.set(res, 0)
	} else {
		s.set(res, lowest)
	}
}

func init() {
	register(&Rule{ID: "C18", Rule: "references obtained from the cache (results of Store.Get and Store.Query, and the entries the store's own reads visit) are followed through assignments, containers, calls and closures; no instruction may store through such a reference, change a map or slice reached through it, or call a mutator on it",
		Trust: []string{"functions outside the repository write to their arguments only if they are listed as writers or are methods named as mutators (Set…, Add…, Delete…, Unmarshal…); their other reference results may alias a cached argument, except DeepCopy and Marshal"},
		Run: func(c *Ctx) {
			s := &sharing{c: c, P: c.P, lv: map[ssa.Value]int{}, res: map[*ssa.Function]map[int]int{}, impls: map[string][]*ssa.Function{}, readers: map[*ssa.Function]bool{}}
			var reach func(f *ssa.Function)
			seen := map[*ssa.Function]bool{}
			for _, fn := range c.P.AllFuncs {
				if fn.Blocks != nil {
					s.fns = append(s.fns, fn)
				}
			}
			reach = func(f *ssa.Function) {
				if f == nil || seen[f] || f.Blocks == nil {
					return
				}
				seen[f] = true
				if !c.P.inRepo(f) && (f.Origin() == nil || !c.P.inRepo(f.Origin())) {
					return
				}
				s.readers[f] = true
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						for _, op := range i.Operands(nil) {
							if g, ok := (*op).(*ssa.Function); ok {
								reach(g)
							}
						}
						if cc, ok := i.(ssa.CallInstruction); ok {
							for _, g := range s.callees(cc.Common()) {
								reach(g)
							}
						}
					}
				}
			}
			roots := 0
			for _, m := range []string{"Query", "Get"} {
				for _, T := range c.P.Impls(modPath + "/store.Store") {
					if fn := c.P.MethodOf(T, m); fn != nil && fn.Blocks != nil {
						roots++
						reach(fn)
					}
				}
			}
			if roots < 2 {
				giveUp(nil, "no implementation of the store's reads was found")
			}
			for f := range s.readers {
				found := false
				for _, g := range s.fns {
					if g == f {
						found = true
					}
				}
				if !found {
					s.fns = append(s.fns, f)
				}
			}
			none := func(ssa.Instruction, string) {}
			for n := 0; ; n++ {
				s.changed = false
				for _, fn := range s.fns {
					for _, b := range fn.Blocks {
						for _, i := range b.Instrs {
							s.step(fn, i, none)
						}
					}
				}
				if !s.changed {
					break
				}
				if n > 200 {
					giveUp(nil, "following the references does not end")
				}
			}
			s.sources = 0
			touched := map[*ssa.Function]bool{}
			done := map[ssa.Instruction]bool{}
			for _, fn := range s.fns {
				for _, b := range fn.Blocks {
					for _, i := range b.Instrs {
						bad := false
						s.step(fn, i, func(at ssa.Instruction, msg string) {
							bad = true
							if !done[at] {
								done[at] = true
								c.Ob("write", at, false, "%s", msg)
							}
						})
						switch i.(type) {
						case *ssa.Store, *ssa.MapUpdate, ssa.CallInstruction:
							near := false
							for _, op := range i.Operands(nil) {
								if s.level(*op) < unshared {
									near = true
								}
							}
							if near && !bad {
								touched[fn] = true
								c.Ob("write", i, true, "does not change a cached object")
							}
						}
					}
				}
			}
			for fn := range touched {
				c.funcOf(fn)
			}
			c.stats["references"] = len(s.lv)
			c.Ob("sources", nil, s.sources >= 4, "the cache is read at %d places", s.sources)
			c.Min("write", 20)
		}})
}
