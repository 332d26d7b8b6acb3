package main

import (
	"go/token"
	"strings"
)

const memPkg = modPath + "/store/memory"

// ---- collections built in loops --------------------------------------------------

// growth is one way an element is added to a collection.
type growth struct {
	elem *Term
	g    B
	loop *Loop
}

// collection describes a slice built by appending in (nested) loops.
type collection struct {
	t     *Term
	loops []*Loop // outermost first
	adds  []growth
	keeps []growth // iterations that add nothing (elem nil), per loop
	why   string   // not "" if t is not such a collection
}

func (in *Interp) collected(t *Term) *collection {
	c := &collection{t: t}
	li := in.loopInfo[t]
	if li == nil {
		c.why = "it is not collected in a loop"
		return c
	}
	if !in.all(li.Init, bTrue, func(t *Term, g B) bool { e, ok := in.emptySeq(t); return ok && e }) {
		c.why = "it does not start empty"
		return c
	}
	var walk func(v, self *Term, g B, l *Loop)
	enter := func(u *Term) {
		ui := in.loopInfo[u]
		c.loops = append(c.loops, ui.Loop)
		for _, b := range ui.Back {
			walk(b.T, u, b.G, ui.Loop)
		}
	}
	seen := map[*Term]bool{}
	walk = func(v, self *Term, g B, l *Loop) {
		in.each(v, g, func(v *Term, g B) {
			switch {
			case v == self:
				c.keeps = append(c.keeps, growth{nil, g, l})
			case v.Op == "append" && v.Args[1].Op == "slicelit":
				if v.Args[0] != self {
					walk(v.Args[0], self, g, l)
				}
				for _, e := range v.Args[1].Args {
					c.adds = append(c.adds, growth{e, g, l})
				}
			case in.loopInfo[v] != nil && !seen[v]:
				seen[v] = true
				init := in.loopInfo[v].Init
				if init == nil || !in.all(init, g, func(t *Term, g B) bool { return t == self }) {
					c.why = "a collection is replaced by another"
					return
				}
				enter(v)
			case in.loopInfo[v] != nil:
			default:
				c.why = "it is changed other than by appending"
			}
		})
	}
	enter(t)
	return c
}

// mapped recognises a slice with one element per element visited by a counted
// loop, in order: appended one by one, or made with the full length and filled
// at the index of the loop.
func (in *Interp) mapped(t *Term) (*seqLoop, []growth) {
	if t.Op != "makeslice" {
		cl := in.collected(t)
		if cl.why != "" || len(cl.loops) != 1 || len(cl.keeps) > 0 {
			return nil, nil
		}
		return in.countOf(cl.loops[0]), cl.adds
	}
	var s *seqLoop
	var adds []growth
	for _, e := range in.Events {
		if e.Kind == "store" && e.Addr == t || e.Kind == "call" && mentionsArg(e, t) && !isLog(e.Name) && e.Name != "strings.Join" {
			return nil, nil
		}
		if e.Kind != "store" || e.Addr.Op != "indexaddr" || e.Addr.Args[0] != t {
			continue
		}
		if len(e.Loops) == 0 {
			return nil, nil
		}
		if s == nil {
			s = in.countOf(e.Loops[len(e.Loops)-1])
		}
		if s == nil || s.l != e.Loops[len(e.Loops)-1] || e.Addr.Args[1] != s.idx {
			return nil, nil
		}
		adds = append(adds, growth{e.Args[1], e.Guard, s.l})
	}
	if s == nil {
		return nil, nil
	}
	if n, ok := s.first.constInt(); !ok || n != 0 {
		return nil, nil
	}
	for _, b := range s.bound {
		if !in.all(t.Args[0], b.G, func(t *Term, g B) bool {
			return in.all(b.T, g, func(u *Term, g B) bool { return u == t })
		}) {
			return nil, nil
		}
	}
	for _, b := range s.l.Backs {
		any := bFalse
		for _, a := range adds {
			any = in.Or(any, a.g)
		}
		if !in.Implies(b.abs, any) {
			return nil, nil
		}
	}
	return s, adds
}

// ---- reading the memory store -----------------------------------------------------

type queryFacts struct {
	in   *Interp
	fn   any
	gvr  *Term
	q    *Term // the query
	list *Term // all objects that match
	rets []queryReturn
}

type queryReturn struct {
	r                   *retState
	g                   B
	items, total, error *Term
}

func storeQuery(c *Ctx) *queryFacts {
	fn := c.P.implMethod(storeIface, "Query")
	if fn == nil {
		giveUp(nil, "no implementation of the store's Query was found")
	}
	in := newInterp(c.P)
	c.Analyse(in, fn, nil)
	f := &queryFacts{in: in, fn: fn, gvr: in.Entry.params[1], q: in.Entry.params[2]}
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[0], r.g, func(t *Term, g B) {
			if in.Implies(g, f.unstored()) {
				return // there is nothing of a type that is not cached
			}
			f.rets = append(f.rets, queryReturn{r, g, in.fieldOf(t, "Items"), in.fieldOf(t, "Total"), in.fieldOf(t, "Error")})
		})
	}
	// the objects returned come from one list
	for _, q := range f.rets {
		in.each(q.items, q.g, func(t *Term, g B) {
			for _, p := range f.parts(t, g) {
				if p.base == nil {
					continue
				}
				if f.list != nil && f.list != p.base {
					giveUp(fn, "the objects returned come from more than one collection")
				}
				f.list = p.base
			}
		})
	}
	if f.list == nil {
		giveUp(fn, "the collection the returned objects are taken from was not found")
	}
	return f
}

// parts: the parts of the list that items consists of; nil if it is not made
// of consecutive objects.
func (f *queryFacts) parts(items *Term, g B) []span {
	in := f.in
	if e, ok := in.emptySeq(items); ok && e {
		return nil
	}
	bad := []span{{g: g}}
	s, adds := in.mapped(items)
	if s == nil {
		return bad
	}
	// left early?
	for _, e := range s.l.Exits {
		if in.Sat(in.And(e.abs, in.And(s.more, g))) {
			return bad
		}
	}
	var out []span
	for _, a := range adds {
		in.each(a.elem, a.g, func(t *Term, ag B) {
			root, p := fieldPath(t)
			seq := s.elemOf(root)
			if seq == nil || len(p) != 1 || p[0] != "Obj" {
				out = append(out, span{g: g})
				return
			}
			out = append(out, in.spans(s, seq, in.And(g, in.dropLoop(ag, s.l)))...)
		})
	}
	return out
}

// isErr: t is an error, not nil.
func (in *Interp) isErr(t *Term, g B) bool {
	return in.all(t, g, func(t *Term, g B) bool {
		if t.isNil() {
			return false
		}
		if t.Op == "newerr" || t.Op == "iface" || isCallTo(t, "fmt.Errorf", "errors.New") {
			return true
		}
		return in.Implies(g, in.Not(in.Truth(in.eq(t, in.Nil(), nil))))
	})
}

// unstored: the store was found not to have the type.
func (f *queryFacts) unstored() B {
	in := f.in
	top := func(m, key *Term) bool {
		m = stripMap0(m)
		root, _ := fieldPath(m)
		for root.Op == "load" || root.Op == "fieldaddr" || root.Op == "field" {
			root = root.Args[0]
		}
		return plain(key) == f.gvr && root == in.Entry.params[0]
	}
	r := bFalse
	for v, a := range in.atoms {
		switch {
		case a.Op == "has" && top(a.Args[0], a.Args[1]):
			r = in.Or(r, in.Not(in.Var(v)))
		case a.Op == "eq" && a.Args[1].isNil() && a.Args[0].Op == "lookup" && top(a.Args[0].Args[0], a.Args[0].Args[1]):
			r = in.Or(r, in.Var(v))
		}
	}
	return r
}

func memoryWindow(c *Ctx) {
	f := storeQuery(c)
	in := f.in
	pq := in.fieldOf(f.q, "Paginate")
	n := 0
	for _, q := range f.rets {
		if in.isErr(q.error, q.g) {
			continue
		}
		in.each(q.items, q.g, func(t *Term, g B) {
			l := newLin(in)
			P, S := l.expr(in.fieldOf(pq, "Page")), l.expr(in.fieldOf(pq, "PageSize"))
			L := l.length(f.list)
			ps := f.parts(t, g)
			if ps == nil {
				c.Ob("cache-window", q.r.in, l.Impossible(g, []poly{atLeast(L, constPoly(1))}, []poly{atLeast(constPoly(dataSize), L)}), "nothing is only answered if nothing matches")
			}
			for _, p := range ps {
				n++
				if p.base != f.list {
					c.Ob("cache-window", q.r.in, false, "the objects answered are consecutive objects of the sorted result")
					continue
				}
				w := l.window(p.g, p.lo, p.hi, L, P, S)
				c.Ob("cache-window", q.r.in, w == "", "the part of the result answered is the page requested. %s", w)
			}
			ok := in.all(q.total, g, func(t *Term, g B) bool {
				return l.equalsUnder(g, t, L, atLeast(constPoly(dataSize), L))
			})
			c.Ob("total", q.r.in, ok, "the total is the number of all matching objects")
		})
	}
	c.Ob("cache-window", f.fn, n > 0, "pages are cut")
}

var _ = token.ADD
var _ = strings.Cut

func init() {
	register(&Rule{ID: "C10", Rule: "over the nested loops of a query: an object is collected if and only if its namespace is the one asked for (or none is) and the search matches its index; no loop is left early; an error of the match is the error of the result",
		Run: queryExact})
}

// loopKey: t is the key the loop l is at.
func (in *Interp) loopKey(t *Term, l *Loop) bool {
	for t.Op == "convert" || t.Op == "as" {
		t = t.Args[0]
	}
	return t.Op == "mapkey" && t.Aux == l.Key
}

// loopValue: t is (reached through) the value the loop l is at.
func (in *Interp) loopValue(t *Term, l *Loop) bool {
	return mentions(t, func(x *Term) bool { return x.Op == "lookup" && in.loopKey(x.Args[1], l) })
}

func queryExact(c *Ctx) {
	f := storeQuery(c)
	in := f.in
	cl := in.collected(f.list)
	if cl.why != "" {
		giveUp(f.fn, "the collection of matching objects is not understood: %s", cl.why)
	}
	for k, l := range cl.loops {
		ok := l.RangeM != nil
		if ok && k == 0 {
			ok = mentions(l.RangeM, func(t *Term) bool { return t.Op == "lookup" && t.Args[1] == f.gvr })
		} else if ok {
			ok = in.loopValue(l.RangeM, cl.loops[k-1])
		}
		c.Ob("all", l, ok, "the objects of the type asked for are visited, level by level")
		more := in.moreOf(l)
		ok = more != bFalse
		for _, e := range l.Exits {
			if in.Sat(in.And(e.abs, more)) {
				ok = false
			}
		}
		c.Ob("all", l, ok, "all entries are visited")
	}
	c.Ob("all", f.fn, len(cl.loops) == 3, "clusters, namespaces and names are visited")
	if len(cl.loops) != 3 {
		return
	}
	nsL, inner := cl.loops[1], cl.loops[2]
	nsF := in.fieldOf(f.q, "Namespace")
	any := in.Truth(in.eq(nsF, in.Str(""), nil))
	mine := in.anyAtom(func(t *Term) bool {
		return t.Op == "eq" && (t.Args[0] == nsF && in.loopKey(t.Args[1], nsL) || t.Args[1] == nsF && in.loopKey(t.Args[0], nsL))
	})
	inNs := in.Or(any, mine)
	isMatch := func(t *Term, n string) bool {
		if t.Op != "extract" || t.Aux != n {
			return false
		}
		m := t.Args[0]
		var idx *Term
		switch {
		case isCallTo(m, "(*"+pagePkg+".Paginate).Match"):
			root, p := fieldPath(m.Args[0])
			if root.Op == "ptrto" {
				root, p = fieldPath(root.Args[0])
			}
			if len(p) != 1 || p[0] != "Paginate" {
				_ = root
				return false
			}
			idx = m.Args[1]
		case isCallTo(m, pagePkg+".Match"):
			if !mentions(m.Args[1], func(x *Term) bool { return isCallTo(x, "(*"+pagePkg+".Paginate).SearchParts") }) {
				return false
			}
			idx = m.Args[0]
		default:
			return false
		}
		for idx.Op == "map0" {
			idx = idx.Args[0]
		}
		_, p := fieldPath(idx)
		return len(p) == 1 && p[0] == "Index" && in.loopValue(idx, inner)
	}
	match := in.anyAtom(func(t *Term) bool { return isMatch(t, "0") })
	noErr := in.anyAtom(isNilCmp(func(t *Term) bool { return isMatch(t, "1") }))
	for _, a := range cl.adds {
		root, p := fieldPath(a.elem)
		c.Ob("object", inner, len(p) == 0 && in.loopValue(root, inner) && a.loop == inner, "what is collected is the stored object")
		c.Ob("match", inner, in.Implies(a.g, match), "only objects the search matches are collected")
		c.Ob("namespace", inner, in.Implies(a.g, inNs), "only objects of the namespace asked for are collected")
	}
	for _, k := range cl.keeps {
		miss := in.Not(inNs)
		if k.loop == inner {
			miss = in.Or(miss, in.Or(in.Not(match), in.Not(noErr)))
		}
		c.Ob("match", k.loop, in.Implies(k.g, miss), "an object is only left out if its namespace or the search does not match")
	}
	n := 0
	for _, a := range cl.adds {
		_ = a
		n++
	}
	c.Ob("object", inner, n > 0, "objects are collected")
	// errors
	var walk func(v, self *Term, g B, l *Loop)
	seen := map[*Term]bool{}
	enter := func(u *Term) {
		seen[u] = true
		ui := in.loopInfo[u]
		for _, b := range ui.Back {
			walk(b.T, u, b.G, ui.Loop)
		}
	}
	kept := map[*Loop]bool{}
	walk = func(v, self *Term, g B, l *Loop) {
		in.each(v, g, func(v *Term, g B) {
			switch {
			case v == self && l == inner:
				c.Ob("error", l, in.Implies(g, in.Or(in.Not(inNs), in.Or(noErr, match))), "an error of the match is not ignored")
				kept[l] = true
			case v == self:
				// this iteration did not look at objects
				c.Ob("error", l, in.Implies(g, in.Not(inNs)), "an error of the match is not ignored")
			case isMatch(v, "1"):
				c.Ob("error", l, in.isErr(v, g), "an error is not forgotten")
			case in.loopInfo[v] != nil:
				if !seen[v] {
					init := in.loopInfo[v].Init
					c.Ob("error", l, init != nil && in.all(init, g, func(t *Term, g B) bool { return t == self }), "an error is not forgotten")
					enter(v)
				}
			default:
				c.Ob("error", l, in.isErr(v, g), "an error is not forgotten")
			}
		})
	}
	for _, q := range f.rets {
		in.each(q.error, q.g, func(t *Term, g B) {
			li := in.loopInfo[t]
			if li != nil && li.Loop == cl.loops[0] {
				if !seen[t] {
					enter(t)
				}
				return
			}
			c.Ob("error", q.r.in, in.isErr(t, g), "an error of the match is the error of the result")
		})
	}
	c.Min("error", 3)
}

// mentionsArg: t itself is passed to the call.
func mentionsArg(e *Event, t *Term) bool {
	for _, a := range e.Args {
		if a == t || a != nil && a.Op == "iface" && len(a.Args) > 0 && a.Args[0] == t {
			return true
		}
	}
	return false
}
