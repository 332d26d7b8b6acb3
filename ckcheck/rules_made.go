package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// made decides that what a constructor returns holds the parameters given
// (by number), each in a field of its type.
func (c *Ctx) made(rule, ctor string, params ...int) (*Interp, *ssa.Function) {
	fn := c.P.Func(ctor)
	if fn == nil || fn.Blocks == nil {
		giveUp("constructors", "%s was not found", ctor)
	}
	in := newInterp(c.P)
	c.Analyse(in, fn, nil)
	n := 0
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[0], r.g, func(t *Term, g B) {
			t = unwrapIface(t)
			if t.isNil() {
				if len(r.vals) > 1 {
					c.Ob(rule, r.in, in.all(r.vals[1], g, func(x *Term, g B) bool {
						return !x.isNil() && !in.Sat(in.And(g, in.Truth(in.eq(x, in.Nil(), nil))))
					}), "%s returns nothing only with an error", fn.Name())
				}
				return
			}
			n++
			for _, k := range params {
				p := in.Entry.params[k]
				var got []*Term
				found := false
				in.fieldsOfType(t, p.Typ, 3, func(ptr *Term) {
					v := in.load(r.mem, ptr, p.Typ)
					got = append(got, v)
					found = found || in.all(v, g, func(x *Term, _ B) bool { return x == p })
				})
				c.Ob(rule, r.in, found, "what %s returns holds its %s", fn.Name(), p.Aux)
			}
			in.channels(t, 3, func(ptr *Term, typ types.Type) {
				if c.P.assigned(ptr.Aux, typ, fn) {
					return
				}
				v := in.load(r.mem, ptr, typ)
				c.Ob(rule, r.in, in.all(v, g, func(x *Term, _ B) bool { return !x.isNil() && !strings.HasPrefix(x.Op, "zero") }), "the channels of what %s returns are made", fn.Name())
			})
		})
	}
	c.Ob(rule, fn, n > 0, "%s returns something", fn.Name())
	return in, fn
}

// assigned: a field of that name and type is also set elsewhere.
func (P *Program) assigned(field string, typ types.Type, but *ssa.Function) bool {
	for _, fn := range P.AllFuncs {
		if fn == but {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := deref(fa.X.Type()).Underlying().(*types.Struct)
				if st.Field(fa.Field).Name() == field && types.Identical(st.Field(fa.Field).Type(), typ) {
					return true
				}
			}
		}
	}
	return false
}

func (in *Interp) eachField(ptr *Term, depth int, f func(ptr *Term, typ types.Type)) {
	st, ok := deref(ptr.Typ).Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		p := in.FieldAddr(ptr, fl.Name(), fl.Type())
		f(p, fl.Type())
		if _, isStruct := fl.Type().Underlying().(*types.Struct); isStruct && depth > 0 && !isSyncType(fl.Type()) {
			in.eachField(p, depth-1, f)
		}
	}
}

func (in *Interp) fieldsOfType(ptr *Term, t types.Type, depth int, f func(ptr *Term)) {
	in.eachField(ptr, depth, func(p *Term, typ types.Type) {
		if types.Identical(typ, t) {
			f(p)
		}
	})
}

func (in *Interp) channels(ptr *Term, depth int, f func(ptr *Term, typ types.Type)) {
	in.eachField(ptr, depth, func(p *Term, typ types.Type) {
		if _, ok := typ.Underlying().(*types.Chan); ok {
			f(p, typ)
		}
	})
}

// newStore: a new cache knows every type it has an index for.
func newStore(c *Ctx) {
	in, fn := c.made("made", "store/memory.NewMemoryStore", 0)
	conf := in.Entry.params[0]
	var loop *Loop
	for _, l := range in.Loops {
		if l.RangeM == conf {
			loop = l
		}
	}
	if loop == nil {
		giveUp(fn, "the types of a new cache are not taken from its index configuration in one loop")
	}
	key := in.mapKeyOf(loop)
	set := bFalse
	for _, e := range in.Events {
		if e.Kind != "mapset" {
			continue
		}
		c.Ob("made", e, in.all(e.Args[1], e.Guard, func(t *Term, _ B) bool { return t == key }), "a new cache has the types of its index configuration only: %s", in.S(e.Args[1]))
		set = in.Or(set, e.Guard)
	}
	there := in.testAtom(func(t *Term) bool { return t.Op == "has" && t.Args[1] == key })
	c.Ob("made", loop, in.Implies(in.And(in.moreOf(loop), in.Not(there)), set), "every type of the index configuration becomes one of a new cache")
	for _, r := range in.Returns {
		c.Ob("made", r.in, in.Implies(r.g, in.Not(in.moreOf(loop))), "a new cache has all types of the index configuration")
	}
}
