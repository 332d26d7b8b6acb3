package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	configType = modPath + "/common.Config"
	commonPkg  = modPath + "/common"
)

func init() {
	register(&Rule{ID: "C27", Rule: "what is put into force has every field of the configuration given, the default cluster defaulted only when empty; a lookup returns what is in force, the list kind only of an entry equal in group, version and resource, none only after all entries",
		Trust: []string{"sync/atomic.Pointer"},
		Run:   configRule})
	register(&Rule{ID: "C28", Rule: "on every path the total is the remaining objects plus those listed plus those of the pages before; the cluster of an object is read from the annotation the cache writes",
		Trust: []string{"reflect"},
		Run:   clientTotals})
}

// structEqual: every field of the struct term is the one of what want says.
func (in *Interp) structFields(t *Term, typ types.Type, f func(name string, v *Term)) {
	s := typ.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f(s.Field(i).Name(), in.Field(t, s.Field(i).Name(), s.Field(i).Type()))
	}
}

func configRule(c *Ctx) {
	initFn, getFn, kindFn := c.P.Func("common.InitConfig"), c.P.Func("common.GetConfig"), c.P.Func("common.GetGVRKind")
	if initFn == nil || getFn == nil || kindFn == nil {
		giveUp(nil, "the functions of the configuration were not found")
	}
	all := func(*ssa.Function) bool { return false }

	// put into force
	in := newInterp(c.P)
	in.Opaque = all
	c.Analyse(in, initFn, nil)
	given := in.Entry.params[0]
	cfgT := deref(given.Typ)
	stored := bFalse
	var place *Term
	for _, e := range in.kind("call") {
		if !strings.HasPrefix(e.Name, "(*sync/atomic.") || !strings.HasSuffix(e.Name, ").Store") {
			continue
		}
		stored = in.Or(stored, e.Guard)
		place = e.Args[0]
		content := e.Vals[1]
		for content.Op == "iface" || content.Op == "ptrto" || content.Op == "ptrver" {
			content = content.Args[0]
		}
		s := cfgT.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			name, ft := s.Field(i).Name(), s.Field(i).Type()
			v := in.Field(content, name, ft)
			own := func(t *Term) bool { root, p := fieldPath(t); return root == given && len(p) == 1 && p[0] == name }
			empty := in.Not(in.anyAtom(func(t *Term) bool { return t.Op == "nonempty" && own(t.Args[0]) }))
			ok := in.all(v, e.Guard, func(t *Term, g B) bool {
				if own(t) {
					return name != "DefaultCluster" || !in.Sat(in.And(g, empty))
				}
				d, isS := t.constStr()
				return name == "DefaultCluster" && isS && d == "default" && in.Implies(g, empty)
			})
			c.Ob("in-force", e, ok, "%s is what was given (the default cluster \"default\" if it is empty)", name)
		}
	}
	c.Ob("in-force", initFn, in.Implies(bTrue, stored), "the configuration given is put into force on every path")
	if place == nil {
		giveUp(initFn, "where the configuration is kept is not known")
	}

	// read
	isCfg := func(in *Interp, t *Term) bool {
		t = plain(t)
		return t.Op == "call" && strings.HasPrefix(t.Aux, "(*sync/atomic.") && strings.Contains(t.Aux, ").Load") && sameGlobal(t.Args[0], place)
	}
	in2 := newInterp(c.P)
	in2.Opaque = all
	c.Analyse(in2, getFn, nil)
	for _, r := range in2.Returns {
		in2.structFields(r.vals[0], cfgT, func(name string, v *Term) {
			c.Ob("read", r.in, in2.all(v, r.g, func(t *Term, g B) bool {
				root, p := fieldPath(t)
				return len(p) == 1 && p[0] == name && isCfg(in2, root)
			}), "%s is read from the configuration in force", name)
		})
	}

	// kinds
	in3 := newInterp(c.P)
	in3.Opaque = all
	c.Analyse(in3, kindFn, nil)
	var s *seqLoop
	for _, l := range in3.Loops {
		if x := in3.countOf(l); x != nil {
			seq := x.seq
			if seq == nil {
				continue
			}
			root, p := fieldPath(seq)
			if len(p) == 1 && p[0] == "Proxies" && isCfg(in3, root) {
				s = x
			}
		}
	}
	if s == nil {
		giveUp(kindFn, "the entries of the configuration are not looked through one by one")
	}
	fieldOfElem := func(t *Term, name string) bool {
		root, p := fieldPath(t)
		return len(p) == 1 && p[0] == name && s.isElem(root)
	}
	match := bTrue
	for k, name := range []string{"Group", "Version", "Resource"} {
		param := in3.Entry.params[k]
		match = in3.And(match, in3.testAtom(func(t *Term) bool {
			return t.Op == "eq" && (t.Args[0] == param && fieldOfElem(t.Args[1], name) || t.Args[1] == param && fieldOfElem(t.Args[0], name))
		}))
	}
	found := func(t *Term, g B) bool { return fieldOfElem(t, "ListKind") && in3.Implies(g, in3.And(s.more, match)) }
	for _, r := range in3.Returns {
		in3.each(r.vals[0], r.g, func(t *Term, g B) {
			str, isS := t.constStr()
			li := in3.loopInfo[t]
			switch {
			case isS && str == "":
				c.Ob("kind", r.in, !in3.Sat(in3.And(g, s.more)), "no kind is only returned after all entries")
				for _, b := range s.l.Backs {
					c.Ob("kind", r.in, !in3.Sat(in3.And(b.abs, match)), "an entry that matches is not passed over")
				}
			case li != nil && li.Loop == s.l:
				c.Ob("kind", r.in, !in3.Sat(in3.And(g, s.more)), "no kind is only returned after all entries")
				ini, _ := li.Init.constStr()
				c.Ob("kind", r.in, li.Init.isConst() && ini == "", "no kind if no entry matches")
				for _, b := range li.Back {
					in3.each(b.T, b.G, func(x *Term, g B) {
						c.Ob("kind", r.in, x == t && !in3.Sat(in3.And(g, match)) || found(x, g), "the kind is the one of a matching entry")
					})
				}
			default:
				c.Ob("kind", r.in, found(t, g), "the kind is the one of an entry equal in group, version and resource")
			}
		})
	}
	for _, e := range s.l.Exits {
		if in3.Sat(in3.And(e.abs, s.more)) {
			c.Ob("kind", kindFn, in3.Implies(in3.And(e.abs, s.more), match), "the search ends early only with a match")
		}
	}
	c.Min("kind", 2)
}

func sameGlobal(a, b *Term) bool {
	return base(a) == base(b) || base(a).Op == base(b).Op && base(a).Op == "global" && base(a).Aux == base(b).Aux
}

// clientTotals: what the client works out from a page.
func clientTotals(c *Ctx) {
	fn := c.P.Func("page.MakeupResPaginate")
	cl := c.P.Func("page.GetObjectCluster")
	if fn == nil || cl == nil {
		giveUp(nil, "the functions that read a list's page and an object's cluster were not found")
	}
	in := newInterp(c.P)
	in.Opaque = func(*ssa.Function) bool { return false }
	c.Analyse(in, fn, nil)
	list, pg := in.Entry.params[0], in.Entry.params[1]
	lin := newLin(in)
	i64 := types.Typ[types.Int64]
	P, S := in.Field(pg, "Page", i64), in.Field(pg, "PageSize", i64)
	remainCall := func(t *Term) bool {
		return t.Op == "call" && isMethodCall(t, "GetRemainingItemCount") && plain(t.Args[0]) == list
	}
	noRemain := in.testAtom(isNilCmp(func(t *Term) bool { return remainCall(plain(t)) }))
	var remain, items *Term
	for _, t := range in.terms {
		if t.Op == "load" && remainCall(plain(t.Args[0])) {
			remain = t
		}
	}
	if remain == nil {
		giveUp(fn, "how many objects remain is not read")
	}
	byName := func(t *Term) bool {
		return mentions(t, func(x *Term) bool {
			if x.Op != "call" || !isMethodCall(x, "FieldByName") {
				return false
			}
			n, ok := x.Args[1].constStr()
			return ok && n == "Items"
		})
	}
	// the length of the list's items
	isLen := func(t *Term, g B) bool {
		t = plain(t)
		if t.Op == "convert" {
			t = t.Args[0]
		}
		if t.Op == "call" && strings.HasSuffix(callName(t), "meta.LenList") {
			return true
		}
		if t.Op != "call" || !isMethodCall(t, "Len") {
			return false
		}
		v := plain(t.Args[0])
		if byName(v) {
			return true
		}
		// the field is the one whose name is Items
		var idx *Term
		mentions(v, func(x *Term) bool {
			if x.Op == "call" && isMethodCall(x, "Field") && len(x.Args) == 2 {
				idx = x.Args[1]
			}
			return false
		})
		return idx != nil && in.impliesAtom(g, true, eqConst("Items", func(x *Term) bool {
			return hasPathSuffix(x, "Name") && mentions(x, func(y *Term) bool {
				return y.Op == "call" && isMethodCall(y, "Field") && len(y.Args) == 2 && y.Args[1] == idx
			})
		}))
	}
	for t, li := range in.loopInfo {
		if li.Init == nil || !li.Init.isZeroInt() || len(li.Back) == 0 {
			continue
		}
		ok, some := true, false
		for _, b := range li.Back {
			in.each(b.T, b.G, func(x *Term, g B) {
				switch {
				case x == t:
					// the items are not passed over
					for _, y := range in.terms {
						if y.Op == "call" && isMethodCall(y, "Len") && isLen(y, g) {
							ok = false
						}
					}
				case isLen(x, g):
					some = true
				default:
					ok = false
				}
			})
		}
		if !ok || !some {
			continue
		}
		// all fields are looked at, or the loop ends with the items
		if s := in.countOf(li.Loop); s != nil && in.complete(s) && s.first.isZeroInt() && len(s.bound) == 1 && s.bound[0].T.Op == "call" && isMethodCall(s.bound[0].T, "NumField") {
			items = t
		}
	}
	if items == nil {
		for _, t := range in.terms {
			if isLen(t, bTrue) {
				items = t
			}
		}
	}
	if items == nil {
		giveUp(fn, "how the items of the list are counted is not understood")
	}
	one, zero := constPoly(1), constPoly(0)
	p, sz := lin.expr(P), lin.expr(S)
	before := p.plus(one, -1).times(sz)
	for _, r := range in.Returns {
		in.structFields(r.vals[0], pg.Typ, func(name string, v *Term) {
			if name != "Total" {
				c.Ob("page", r.in, in.all(v, r.g, func(t *Term, g B) bool { return t == in.Field(pg, name, t.Typ) }), "%s stays as it is", name)
				return
			}
			for _, rem := range []bool{false, true} {
				cg := in.And(r.g, noRemain)
				if rem {
					cg = in.And(r.g, in.Not(noRemain))
				}
				in.each(v, cg, func(t *Term, g B) {
					want := lin.expr(items)
					if in.impliesAtom(g, false, func(x *Term) bool { return x.Op == "call" && isMethodCall(x, "IsValid") && byName(x) }) {
						want = zero // no items
					}
					if rem {
						want = want.plus(lin.expr(remain), 1)
					}
					got := lin.expr(t)
					eq := func(q poly) bool { return len(got.plus(q, -1).c) == 0 }
					paged := !lin.Impossible(g, nil, []poly{atLeast(p, one), atLeast(sz, one)})
					un1 := !lin.Impossible(g, nil, []poly{atLeast(zero, p)})
					un2 := !lin.Impossible(g, nil, []poly{atLeast(zero, sz)})
					if paged {
						c.Ob("total", r.in, eq(want.plus(before, 1)), "the total of a page is what remains, its items and those of the pages before")
					}
					if un1 || un2 {
						c.Ob("total", r.in, eq(want), "the total of an unpaged list is what remains and its items")
					}
				})
			}
		})
	}
	c.Min("total", 4)

	in2 := newInterp(c.P)
	in2.Opaque = func(*ssa.Function) bool { return false }
	c.Analyse(in2, cl, nil)
	for _, r := range in2.Returns {
		c.Ob("cluster", r.in, in2.all(r.vals[0], r.g, func(t *Term, g B) bool {
			t = plain(t)
			if s, ok := t.constStr(); ok && s == "" { // no such annotation
				return in2.impliesAtom(g, false, func(x *Term) bool {
					k, ok := x.Args[len(x.Args)-1].constStr()
					return x.Op == "has" && ok && k == clusterAnno
				})
			}
			if t.Op != "lookup" {
				return false
			}
			k, ok := t.Args[1].constStr()
			return ok && k == clusterAnno && mentions(t.Args[0], func(x *Term) bool {
				return x.Op == "call" && isMethodCall(x, "GetAnnotations") && plain(x.Args[0]) == in2.Entry.params[0]
			})
		}), "the cluster of an object is its annotation %s", clusterAnno)
	}
	c.Min("cluster", 1)
}
