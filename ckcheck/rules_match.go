package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const advPrefix = "__ckube_as__:"

// matchFacts describes the match of one search condition P against an index m.
type matchFacts struct {
	in   *Interp
	c    *Ctx
	m, p *Term
}

func (f *matchFacts) isS(t *Term) bool {
	return isCallTo(t, "strings.TrimSpace") && t.Args[0] == f.p
}

// eqAt: t is the position of the first "=".
func (f *matchFacts) eqAt(t *Term) bool {
	if !isCallTo(t, "strings.Index") || !f.isS(t.Args[0]) {
		return false
	}
	s, ok := t.Args[1].constStr()
	return ok && s == "="
}

func (f *matchFacts) cut(t *Term, n string) bool {
	if t.Op == "extract" && t.Aux == n && isCallTo(t.Args[0], "strings.Cut") && f.isS(t.Args[0].Args[0]) {
		s, ok := t.Args[0].Args[1].constStr()
		return ok && s == "="
	}
	if t.Op == "index" && isCallTo(t.Args[0], "strings.SplitN") && f.isS(t.Args[0].Args[0]) {
		s, ok := t.Args[0].Args[1].constStr()
		k, ok2 := t.Args[0].Args[2].constInt()
		i, ok3 := t.Args[1].constInt()
		return ok && ok2 && ok3 && s == "=" && k == 2 && n == map[int64]string{0: "0", 1: "1"}[i]
	}
	return false
}

// isKey: what comes before the first "=".
func (f *matchFacts) isKey(t *Term) bool {
	if t.Op == "slice" && len(t.Args) == 3 && f.isS(t.Args[0]) && f.eqAt(t.Args[2]) {
		n, ok := t.Args[1].constInt()
		return ok && n == 0
	}
	return f.cut(t, "0")
}

// hasEq: the condition has a "=".
func (f *matchFacts) hasEq() B {
	in := f.in
	r := bFalse
	for v, a := range in.atoms {
		b := in.Var(v)
		switch {
		case a.Op == "lt" && f.eqAt(a.Args[1]):
			if n, ok := a.Args[0].constInt(); ok && n == -1 {
				r = in.Or(r, b)
			}
		case a.Op == "lt" && f.eqAt(a.Args[0]):
			if n, ok := a.Args[1].constInt(); ok && n == 0 {
				r = in.Or(r, in.Not(b))
			}
		case a.Op == "eq" && f.eqAt(a.Args[0]):
			if n, ok := a.Args[1].constInt(); ok && n == -1 {
				r = in.Or(r, in.Not(b))
			}
		case f.cut(a, "2"):
			r = in.Or(r, b)
		case isCallTo(a, "strings.Contains") && f.isS(a.Args[0]):
			if s, ok := a.Args[1].constStr(); ok && s == "=" {
				r = in.Or(r, b)
			}
		}
	}
	return r
}

// isVal: t is the value of the condition under g (after the first "=", or all
// of it without one).
func (f *matchFacts) isVal(t *Term, g B) bool {
	in := f.in
	if f.isS(t) {
		return in.Implies(g, in.Not(f.hasEq()))
	}
	if t.Op == "slice" && len(t.Args) == 2 && f.isS(t.Args[0]) && t.Args[1].Op == "addc" && t.Args[1].Aux == "1" && f.eqAt(t.Args[1].Args[0]) {
		return in.Implies(g, f.hasEq())
	}
	if f.cut(t, "1") {
		return in.Implies(g, f.hasEq())
	}
	if s, ok := t.constStr(); ok && s == "" {
		// nothing behind the "="
		l := newLin(in)
		for _, x := range in.terms {
			if f.eqAt(x) {
				n := l.length(x.Args[0])
				e := l.expr(x)
				return in.Implies(g, f.hasEq()) && l.Impossible(g, nil, []poly{above(n, e.plus(constPoly(1), 1))}, x, x.Args[0])
			}
		}
	}
	return false
}

// value: t is the text looked for under g; neg: the condition is negated.
func (f *matchFacts) value(t *Term, g B) (neg, ok bool) {
	in := f.in
	bang := func(x *Term) B {
		if s, ok := x.constStr(); ok && s == "" {
			return bFalse
		}
		return in.Truth(in.callTerm("strings.HasPrefix", nil, []*Term{x, in.Str("!")}))
	}
	if f.isVal(t, g) {
		return false, in.Implies(g, in.Not(bang(t)))
	}
	var x *Term
	if t.Op == "slice" && len(t.Args) == 2 {
		if n, ok := t.Args[1].constInt(); ok && n == 1 {
			x = t.Args[0]
		}
	}
	if isCallTo(t, "strings.TrimPrefix") {
		if s, ok := t.Args[1].constStr(); ok && s == "!" {
			x = t.Args[0]
			if f.isVal(x, g) && in.Implies(g, in.Not(bang(x))) {
				return false, true
			}
		}
	}
	if x != nil && f.isVal(x, g) {
		return true, in.Implies(g, bang(x))
	}
	return false, false
}

// contains: t compares entry (a value of the index) with the text looked for.
func (f *matchFacts) contains(t *Term, entry func(*Term) bool) (*Term, bool) {
	if !isCallTo(t, "strings.Contains") || !isCallTo(t.Args[0], "strconv.Quote") || !entry(t.Args[0].Args[0]) {
		return nil, false
	}
	return t.Args[1], true
}

func (f *matchFacts) isEntry(t *Term) bool {
	return t.Op == "lookup" && unMap0(t.Args[0]) == f.m && f.isKey(t.Args[1])
}

func unMap0(t *Term) *Term {
	if t.Op == "map0" {
		return t.Args[0]
	}
	return t
}

func init() {
	register(&Rule{ID: "C11", Rule: "every path of the match of one condition returns the truth of the one comparison its form stands for (advanced selector, key=value, text; negated or not); the match of several conditions equals the conjunction of the single matches",
		Run: matchRule})
}

func matchRule(c *Ctx) {
	fn := c.P.Func("page.Match")
	if fn == nil {
		giveUp(nil, "page.Match was not found")
	}
	in := newInterp(c.P)
	m := in.mkT("param", "m", fn.Params[0].Type())
	st := fn.Params[1].Type()
	P := in.mkT("param", "P", in.Str("").Typ)
	c.Analyse(in, fn, []*Term{m, in.mkT("slicelit", "", st, P)})
	f := &matchFacts{in, c, m, P}
	empty := bFalse
	for _, b := range in.atomsWhere(func(t *Term) bool { return t.Op == "nonempty" && f.isS(t.Args[0]) }) {
		empty = in.Or(empty, in.Not(b))
	}
	adv := in.anyAtom(func(t *Term) bool {
		if !isCallTo(t, "strings.HasPrefix") || !f.isS(t.Args[0]) {
			return false
		}
		s, ok := t.Args[1].constStr()
		return ok && s == advPrefix
	})
	rest := func(t *Term) bool { // the selector text
		if t.Op == "slice" && len(t.Args) == 2 && f.isS(t.Args[0]) {
			n, ok := t.Args[1].constInt()
			return ok && n == int64(len(advPrefix))
		}
		if isCallTo(t, "strings.TrimPrefix") && f.isS(t.Args[0]) {
			s, ok := t.Args[1].constStr()
			return ok && s == advPrefix
		}
		return false
	}
	parsed := func(t *Term, n string) bool {
		return t.Op == "extract" && t.Aux == n && isCallTo(t.Args[0], kubePkg+".ParseToLabelSelector") && rest(t.Args[0].Args[0])
	}
	parsedP := func(t *Term) bool {
		for t.Op == "ptrto" || t.Op == "ptrver" {
			t = t.Args[0]
		}
		return mentions(t, func(x *Term) bool { return parsed(x, "0") })
	}
	selector := func(t *Term, n string) bool {
		return t.Op == "extract" && t.Aux == n && isCallTo(t.Args[0], metav1+".LabelSelectorAsSelector") && parsedP(t.Args[0].Args[0])
	}
	bad := bFalse // the selector is no selector
	for _, b := range in.atomsWhere(isNilCmp(func(t *Term) bool { return parsed(t, "1") || selector(t, "1") })) {
		bad = in.Or(bad, in.Not(b))
	}
	nothing := bFalse // there is no selector behind the prefix
	for v, a := range in.atoms {
		if a.Op == "eq" && a.Args[0].Op == "len" && f.isS(a.Args[0].Args[0]) {
			if n, ok := a.Args[1].constInt(); ok && n == int64(len(advPrefix)) {
				nothing = in.Or(nothing, in.Var(v))
			}
		}
		if a.Op == "eq" && f.isS(a.Args[0]) {
			if s, ok := a.Args[1].constStr(); ok && s == advPrefix {
				nothing = in.Or(nothing, in.Var(v))
			}
		}
		// HasPrefix holds: longer than the prefix or just the prefix
		if a.Op == "lt" && a.Args[1].Op == "len" && f.isS(a.Args[1].Args[0]) {
			if n, ok := a.Args[0].constInt(); ok && n == int64(len(advPrefix)) {
				nothing = in.Or(nothing, in.Not(in.Var(v)))
			}
		}
		if a.Op == "nonempty" && rest(a.Args[0]) {
			nothing = in.Or(nothing, in.Not(in.Var(v)))
		}
	}
	c.Ob("selector", fn, nothing != bFalse, "a prefix without a selector behind it is an error")
	bad = in.Or(bad, nothing)
	keyed, known := bFalse, bFalse
	for v, a := range in.atoms {
		if a.Op == "nonempty" && f.isKey(a.Args[0]) {
			keyed = in.Or(keyed, in.Var(v))
		}
		if a.Op == "has" && unMap0(a.Args[0]) == m && f.isKey(a.Args[1]) {
			known = in.Or(known, in.Var(v))
		}
	}
	keyed = in.And(keyed, f.hasEq())
	// text searches: the loop over all entries
	var loop *Loop
	for _, l := range in.Loops {
		if l.RangeM != nil && unMap0(l.RangeM) == m {
			loop = l
		}
	}
	inLoop := func(t *Term) bool { return loop != nil && t.Op == "lookup" && in.loopKey(t.Args[1], loop) }
	plain := in.And(in.Not(empty), in.Not(adv))
	// hit: under g, some evaluated comparison of the entry decides; returns the
	// comparison and whether the condition is negated
	hit := func(g B, entry func(*Term) bool) (at B, neg, ok bool) {
		at, ok = bFalse, false
		first := true
		nothing := f.isVal(in.Str(""), g)
		for v, a := range in.atoms {
			x, is := f.contains(a, entry)
			if !is || nothing && !x.isConst() {
				continue
			}
			n, good := f.value(x, g)
			if !good {
				continue
			}
			if !first && n != neg {
				return bFalse, false, false
			}
			first, neg, ok = false, n, true
			at = in.Or(at, in.Var(v))
		}
		return
	}
	n := map[string]int{}
	for _, r := range in.Returns {
		in.Truth(r.vals[0])
	}
	for _, r := range in.Returns {
		in.each(r.vals[1], r.g, func(e *Term, g B) {
			if in.isErr(e, g) {
				c.Ob("error", r.in, !in.Sat(in.And(g, in.Truth(r.vals[0]))), "a condition in error does not match")
				miss := in.And(keyed, in.Not(known))
				c.Ob("error", r.in, in.Implies(g, in.Or(in.And(adv, bad), in.And(plain, miss))), "only a key the index does not have and a malformed selector are errors")
				return
			}
			c.Ob("error", r.in, e.isNil(), "an error is an error")
			v := in.Truth(r.vals[0])
			is := func(g, a B) bool {
				return in.Implies(g, in.Or(in.And(a, v), in.And(in.Not(a), in.Not(v))))
			}
			if h := in.And(g, empty); in.Sat(h) {
				n["empty"]++
				c.Ob("empty", r.in, in.Implies(h, v), "an empty condition matches everything")
			}
			if h := in.And(g, in.And(in.Not(empty), adv)); in.Sat(h) {
				n["selector"]++
				c.Ob("selector", r.in, in.Implies(h, in.Not(bad)), "a malformed selector is an error")
				mt := in.anyAtom(func(t *Term) bool {
					if !isMethodCall(t, "Matches") || len(t.Args) != 2 || !selector(t.Args[0], "0") {
						return false
					}
					s := unwrapIface(t.Args[1])
					for s.Op == "convert" || s.Op == "as" || s.Op == "map0" {
						s = s.Args[0]
					}
					return s == m
				})
				c.Ob("selector", r.in, is(h, mt), "a selector condition matches as its selector matches the index")
			}
			if h := in.And(g, in.And(plain, keyed)); in.Sat(h) {
				n["key"]++
				c.Ob("key", r.in, in.Implies(h, known), "a key the index does not have is an error")
				// per comparison evaluated
				in.each(r.vals[0], h, func(t *Term, h B) {
					at, neg, ok := hit(h, f.isEntry)
					if neg {
						at = in.Not(at)
					}
					v := in.Truth(t)
					c.Ob("key", r.in, ok && in.Implies(h, in.Or(in.And(at, v), in.And(in.Not(at), in.Not(v)))), "key=value matches if and only if the entry contains the value, key=!value if and only if it does not")
				})
			}
			if h := in.And(g, in.And(plain, in.Not(keyed))); in.Sat(h) {
				n["text"]++
				if loop == nil {
					giveUp(fn, "the loop over the index was not found")
				}
				more := in.moreOf(loop)
				f.splitVal(h, v, func(h B) {
					at, neg, ok := hit(h, inLoop)
					if !ok && !in.Sat(in.And(h, more)) {
						// no entry was looked at in the end: the condition alone decides
						neg, ok = f.negated(h)
					}
					c.Ob("text", r.in, ok, "the text looked for is the condition, without the mark of a negation")
					if !ok {
						return
					}
					want := more
					_ = want
					if x := in.And(h, more); in.Sat(x) {
						c.Ob("text", r.in, in.Implies(x, at), "the search for a text ends early only at an entry that contains it")
						w := v
						if neg {
							w = in.Not(v)
						}
						c.Ob("text", r.in, in.Implies(x, w), "a text matches if an entry contains it, a negated one does not")
					}
					if x := in.And(h, in.Not(more)); in.Sat(x) {
						w := in.Not(v)
						if neg {
							w = v
						}
						c.Ob("text", r.in, in.Implies(x, w), "without an entry containing it, a text does not match and a negated one does")
					}
				})
			}
		})
	}
	if loop != nil {
		for _, b := range loop.Backs {
			f.splitVal(b.abs, bTrue, func(h B) {
				at, _, ok := hit(h, inLoop)
				c.Ob("text", loop, ok && in.Implies(h, in.Not(at)), "every entry is compared with the text")
			})
		}
	}
	for _, k := range []string{"empty", "selector", "key", "text"} {
		c.Ob(k, fn, n[k] > 0, "conditions of every form are matched")
	}
	matchAll(c, in, m, fn)
}

// splitVal splits g by the tests of the form of the condition.
func (f *matchFacts) splitVal(g, more B, do func(B)) {
	in := f.in
	var vs []int
	for v, a := range in.atoms {
		switch {
		case isCallTo(a, "strings.HasPrefix") && mentions(a.Args[0], f.isS):
			if s, ok := a.Args[1].constStr(); ok && s == "!" {
				vs = append(vs, v)
			}
		case a.Op == "lt" || a.Op == "eq":
			if f.eqAt(a.Args[0]) || f.eqAt(a.Args[1]) {
				vs = append(vs, v)
			}
		case f.cut(a, "2"), isCallTo(a, "strings.Contains") && f.isS(a.Args[0]):
			vs = append(vs, v)
		}
	}
	sup := map[int]bool{}
	for _, v := range in.Support(g, more) {
		sup[v] = true
	}
	var rec func(k int, g B)
	rec = func(k int, g B) {
		if !in.Sat(g) {
			return
		}
		for k < len(vs) && !sup[vs[k]] {
			k++
		}
		if k == len(vs) {
			do(g)
			return
		}
		rec(k+1, in.And(g, in.Var(vs[k])))
		rec(k+1, in.And(g, in.Not(in.Var(vs[k]))))
	}
	rec(0, g)
}

// negated: the condition is negated under g.
func (f *matchFacts) negated(g B) (neg, ok bool) {
	in := f.in
	if f.isVal(in.Str(""), g) {
		return false, true
	}
	for v, a := range in.atoms {
		if !isCallTo(a, "strings.HasPrefix") || !f.isVal(a.Args[0], g) {
			continue
		}
		if s, ok := a.Args[1].constStr(); !ok || s != "!" {
			continue
		}
		if in.Implies(g, in.Var(v)) {
			return true, true
		}
		if in.Implies(g, in.Not(in.Var(v))) {
			return false, true
		}
	}
	return false, false
}

// matchAll: several conditions match if and only if each does.
func matchAll(c *Ctx, in *Interp, m *Term, fn any) {
	f := c.P.Func("page.Match")
	st := f.Params[1].Type()
	in.Opaque = func(fn *ssa.Function) bool { return fn != f && defaultOpaque(fn) }
	run := func(ps ...*Term) (val, err *Term, g B) {
		in.Rec = 1
		fr := in.Run(f, []*Term{m, in.mkT("slicelit", "", st, ps...)})
		in.Rec = 0
		var vs, es []alt
		g = bFalse
		for _, r := range fr.returns {
			vs = append(vs, alt{r.g, r.vals[0]})
			es = append(es, alt{r.g, r.vals[1]})
			g = in.Or(g, r.g)
		}
		return in.mkIte(vs), in.mkIte(es), g
	}
	v0, e0, _ := run()
	c.Ob("all", f, in.Truth(v0) == bTrue && e0.isNil(), "a search without conditions matches everything")
	P := in.mkT("param", "P", in.Str("").Typ)
	Q := in.mkT("param", "Q", in.Str("").Typ)
	failed := func(e *Term) B {
		r := bFalse
		for _, a := range in.Alts(e) {
			r = in.Or(r, in.And(a.G, in.Not(in.Truth(in.eq(a.T, in.Nil(), nil)))))
		}
		return r
	}
	vp, ep, _ := run(P)
	vq, eq, _ := run(Q)
	vr, er, g := run(P, Q)
	R := in.mkT("param", "R", in.Str("").Typ)
	vs, es, g3 := run(R)
	v3, e3, g3 := run(P, Q, R)
	// text searches loop over the index, once per condition; they are decided
	// for a single condition
	noText := bTrue
	for _, X := range []*Term{P, Q, R} {
		mf := &matchFacts{in, c, m, X}
		keyed := bFalse
		for v, a := range in.atoms {
			switch {
			case a.Op == "nonempty" && mf.isKey(a.Args[0]):
				keyed = in.Or(keyed, in.And(mf.hasEq(), in.Var(v)))
			case a.Op == "nonempty" && mf.isS(a.Args[0]):
				keyed = in.Or(keyed, in.Not(in.Var(v)))
			case isCallTo(a, "strings.HasPrefix") && mf.isS(a.Args[0]):
				if s, ok := a.Args[1].constStr(); ok && s == advPrefix {
					keyed = in.Or(keyed, in.Var(v))
				}
			}
		}
		noText = in.And(noText, keyed)
	}
	g, g3 = in.And(g, noText), in.And(g3, noText)
	iff := func(a, b B) bool { return in.Implies(g, in.Or(in.And(a, b), in.And(in.Not(a), in.Not(b)))) }
	c.Ob("all", f, in.Sat(g), "several conditions are matched")
	c.Ob("all", f, iff(in.Truth(vr), in.And(in.Truth(vp), in.Truth(vq))), "a search matches if and only if all its conditions do")
	bad := in.Or(failed(ep), failed(eq))
	c.Ob("all", f, in.Implies(g, in.Or(in.Not(failed(er)), bad)), "a search is only in error if one of its conditions is")
	c.Ob("all", f, in.Implies(in.And(g, failed(ep)), failed(er)), "a search with a condition in error is in error")
	c.Ob("all", f, in.Implies(in.And(g, in.And(bad, in.Truth(vp))), failed(er)), "a condition in error is not taken for one that does not match")
	// and of three
	all := in.And(in.Truth(vp), in.And(in.Truth(vq), in.Truth(vs)))
	bad = in.Or(bad, failed(es))
	b3 := in.Truth(v3)
	c.Ob("all", f, in.Implies(g3, in.Or(in.And(b3, all), in.And(in.Not(b3), in.Not(all)))), "a search matches if and only if all its conditions do")
	c.Ob("all", f, in.Implies(g3, in.Or(in.Not(failed(e3)), bad)) && in.Implies(in.And(g3, in.And(bad, in.And(in.Or(in.Truth(vp), failed(ep)), in.Or(in.Truth(vq), failed(eq))))), failed(e3)), "a search with a condition in error is in error")
	// the search of a query is its conditions
	pm := c.P.MethodOf(types.NewPointer(c.P.Type(paginateTy)), "Match")
	if pm == nil {
		giveUp(nil, "the match of a search was not found")
	}
	in2 := newInterp(c.P)
	c.Analyse(in2, pm, nil)
	for _, r := range in2.Returns {
		for k, v := range r.vals {
			ok := in2.all(v, r.g, func(t *Term, g B) bool {
				if t.Op != "extract" || t.Aux != map[int]string{0: "0", 1: "1"}[k] || !isCallTo(t.Args[0], pagePkg+".Match") {
					return false
				}
				a := t.Args[0].Args
				return unMap0(a[0]) == in2.Entry.params[1] && isCallTo(a[1], "(*"+pagePkg+".Paginate).SearchParts") && unPtr(a[1].Args[0]) == in2.Entry.params[0]
			})
			c.Ob("parts", r.in, ok, "a search matches as its conditions do")
		}
	}
	c.Min("parts", 2)
}

// unPtr strips versions and snapshots of a pointer.
func unPtr(t *Term) *Term {
	for t.Op == "ptrto" || t.Op == "ptrver" || t.Op == "load" {
		t = t.Args[0]
	}
	return t
}
