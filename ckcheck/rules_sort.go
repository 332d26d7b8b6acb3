package main

import (
	"go/types"
	"strings"
)

// comparator describes the function the results are sorted with.
type comparator struct {
	*queryFacts
	cb    *Loop
	i, j  *Term
	keys  *seqLoop // loop over the sort terms, in the comparator
	parse *collection
	pl    *seqLoop // loop over the parts of the sort string
}

func (f *queryFacts) comparator() *comparator {
	in := f.in
	c := &comparator{queryFacts: f}
	for _, l := range in.Loops {
		if l.Callback && (l.Call.Name == "sort.Slice" || l.Call.Name == "sort.SliceStable") && in.all(unwrapIface(l.Call.Args[0]), l.AbsEntry, func(t *Term, g B) bool { return unwrapIface(t) == f.list }) {
			if c.cb != nil {
				giveUp(l.Call, "the result is sorted more than once")
			}
			c.cb = l
		}
	}
	if c.cb == nil {
		giveUp(f.fn, "the place where the result is sorted was not found")
	}
	c.i, c.j = c.cb.CbArgs[0], c.cb.CbArgs[1]
	for _, l := range in.Loops {
		if l.Callback || !strings.HasPrefix(l.Key, c.cbKey()) {
			continue
		}
		s := in.seqOf(l)
		if s == nil {
			continue
		}
		if cl := in.collected(s.seq); cl.why == "" && len(cl.loops) == 1 {
			c.keys, c.parse, c.pl = s, cl, in.countOf(cl.loops[0])
		}
	}
	if c.keys == nil || c.pl == nil {
		giveUp(c.cb.Call, "the loop of the comparison over the sort keys was not found")
	}
	return c
}

// cbKey is the prefix of the keys of loops within the callback.
func (c *comparator) cbKey() string {
	k := c.cb.Key
	n := strings.LastIndex(k, "/cb:")
	return k[:n] + ">" + k[n+4:]
}

// entry: the value of index entry key of object 0 (i) or 1 (j).
func (c *comparator) entry(t *Term) (side int, key *Term) {
	if t.Op != "lookup" {
		return -1, nil
	}
	root, p := fieldPath(t.Args[0])
	if root.Op == "map0" {
		root, p = fieldPath(root.Args[0])
	}
	if len(p) != 1 || p[0] != "Index" || root.Op != "index" && root.Op != "indexaddr" || root.Args[0] != c.list {
		return -1, nil
	}
	switch root.Args[1] {
	case c.i:
		return 0, t.Args[1]
	case c.j:
		return 1, t.Args[1]
	}
	return -1, nil
}

func (c *comparator) number(t *Term) (int, *Term) {
	if t.Op != "extract" || t.Aux != "0" || !isCallTo(t.Args[0], "strconv.ParseFloat") {
		return -1, nil
	}
	if n, ok := t.Args[0].Args[1].constInt(); !ok || n != 64 {
		return -1, nil
	}
	return c.entry(t.Args[0].Args[0])
}

// order collects the atoms comparing the values of one key.
type order struct{ eq, lt, gt B }

func (c *comparator) orders(val func(*Term) (int, *Term)) map[*Term]*order {
	in := c.in
	out := map[*Term]*order{}
	for v, a := range in.atoms {
		if a.Op != "eq" && a.Op != "lt" {
			continue
		}
		s0, k0 := val(a.Args[0])
		s1, k1 := val(a.Args[1])
		if s0 < 0 || s1 < 0 || s0 == s1 || k0 != k1 {
			continue
		}
		o := out[k0]
		if o == nil {
			o = &order{bFalse, bFalse, bFalse}
			out[k0] = o
		}
		b := in.Var(v)
		switch {
		case a.Op == "eq":
			o.eq = in.Or(o.eq, b)
		case s0 == 0:
			o.lt = in.Or(o.lt, b)
		default:
			o.gt = in.Or(o.gt, b)
		}
	}
	return out
}

// total orders: complete the missing atoms, return the axioms.
func (c *comparator) axioms(os map[*Term]*order) B {
	in := c.in
	ax := bTrue
	one := func(a, b B) B { return in.Not(in.And(a, b)) }
	for k, o := range os {
		switch {
		case o.eq == bFalse && (o.gt == bFalse || o.lt == bFalse):
			// only one of the three is asked for: the values may still be equal
			o.eq = in.Truth(in.mkT("equalvalues", "", types.Typ[types.Bool], k))
			if o.gt == bFalse {
				o.gt = in.Not(in.Or(o.lt, o.eq))
			} else {
				o.lt = in.Not(in.Or(o.gt, o.eq))
			}
		case o.gt == bFalse:
			o.gt = in.Not(in.Or(o.lt, o.eq))
		case o.lt == bFalse:
			o.lt = in.Not(in.Or(o.gt, o.eq))
		case o.eq == bFalse:
			o.eq = in.Not(in.Or(o.gt, o.lt))
		}
		ax = in.And(ax, in.And(one(o.eq, o.lt), in.And(one(o.eq, o.gt), one(o.lt, o.gt))))
		ax = in.And(ax, in.Or(o.eq, in.Or(o.lt, o.gt)))
	}
	return ax
}

// fragment: t is the first part of the sort term.
func (c *comparator) fragment(t *Term) bool {
	switch {
	case c.isTerm(t):
		return true
	case t.Op == "call":
		switch callName(t) {
		case "strings.TrimSpace":
			return c.fragment(t.Args[0])
		}
	case t.Op == "index":
		if n, ok := t.Args[1].constInt(); !ok || n != 0 {
			return false
		}
		return isCallTo(t.Args[0], "strings.Split", "strings.SplitN", "strings.Fields") && c.fragment(t.Args[0].Args[0])
	case t.Op == "extract" && t.Aux == "0":
		return isCallTo(t.Args[0], "strings.Cut") && c.fragment(t.Args[0].Args[0])
	}
	return false
}

// isTerm: the current part of the sort string.
// parts: what contains a separator has two parts or more.
func (c *comparator) parts(sep string) B {
	in := c.in
	r := bTrue
	two, more := map[*Term]B{}, map[*Term]B{}
	for v, a := range in.atoms {
		for i, x := range a.Args {
			if x.Op != "len" || !isCallTo(x.Args[0], "strings.Split") || a.Op != "eq" && a.Op != "lt" {
				continue
			}
			s := x.Args[0]
			if w, ok := s.Args[1].constStr(); !ok || w != sep {
				continue
			}
			n, ok := a.Args[1-i].constInt()
			if !ok {
				continue
			}
			has := in.Truth(in.callTerm("strings.Contains", nil, []*Term{s.Args[0], s.Args[1]}))
			switch {
			case a.Op == "eq" && n < 2, a.Op == "lt" && i == 0 && n <= 2:
				r = in.And(r, in.Not(in.And(has, in.Var(v))))
			case a.Op == "lt" && i == 1 && n < 2:
				r = in.And(r, in.Or(in.Not(has), in.Var(v)))
			case a.Op == "eq" && n == 2:
				two[s] = in.Var(v)
			case a.Op == "lt" && i == 1 && n == 2:
				more[s] = in.Var(v)
			}
		}
	}
	for s, b := range two {
		if m, ok := more[s]; ok {
			has := in.Truth(in.callTerm("strings.Contains", nil, []*Term{s.Args[0], s.Args[1]}))
			r = in.And(r, in.Or(in.Not(has), in.Or(b, m)))
		}
	}
	return r
}

func (c *comparator) isTerm(t *Term) bool {
	seq := c.pl.elemOf(t)
	return seq != nil && isCallTo(seq, "strings.Split")
}

// ofTerm: an equation about the current sort term holds.
func (c *comparator) ofTerm(f func(*Term) bool) B {
	in := c.in
	r := bFalse
	for _, b := range c.pl.bound {
		if b.T.Op != "len" {
			continue
		}
		seq := b.T.Args[0]
		r = in.Or(r, in.And(b.G, in.anyAtom(func(t *Term) bool {
			return (t.Op == "eq" || t.Op == "nonempty") && mentions(t.Args[0], func(x *Term) bool { return c.isTerm(x) && c.pl.elemOf(x) == seq }) && f(t)
		})))
	}
	return r
}

// parts: a second part of a string exists only if the separator occurs in it.
func (c *comparator) split() B {
	in := c.in
	r := bTrue
	n := len(in.atoms)
	for v := 0; v < n; v++ {
		a := in.atoms[v]
		if a.Op != "eq" {
			continue
		}
		mentions(a.Args[0], func(x *Term) bool {
			var s *Term
			switch {
			case x.Op == "index" && isCallTo(x.Args[0], "strings.Split"):
				if k, ok := x.Args[1].constInt(); !ok || k < 1 {
					return false
				}
				s = x.Args[0]
			case x.Op == "extract" && x.Aux == "1" && isCallTo(x.Args[0], "strings.Cut"):
				s = x.Args[0]
			default:
				return false
			}
			if w, ok := a.Args[1].constStr(); !ok || w == "" {
				return false
			}
			has := in.Truth(in.callTerm("strings.Contains", nil, []*Term{s.Args[0], s.Args[1]}))
			if x.Op == "index" {
				has = in.And(has, in.lenAtLeast(in.Len(s), 2))
			}
			r = in.And(r, in.Or(in.Not(in.Var(v)), has))
			return false
		})
	}
	return r
}

// lenAtLeast: what the atoms comparing the length t with constants can be when
// it is at least k.
func (in *Interp) lenAtLeast(t *Term, k int64) B {
	r := bFalse
	for n := k; n < k+6; n++ {
		b := bTrue
		for v, a := range in.atoms {
			if a.Op != "eq" && a.Op != "lt" {
				continue
			}
			x, y := a.Args[0], a.Args[1]
			var val bool
			if c, ok := y.constInt(); ok && x == t {
				val = a.Op == "eq" && n == c || a.Op == "lt" && n < c
			} else if c, ok := x.constInt(); ok && y == t {
				val = a.Op == "eq" && n == c || a.Op == "lt" && c < n
			} else {
				continue
			}
			if val {
				b = in.And(b, in.Var(v))
			} else {
				b = in.And(b, in.Not(in.Var(v)))
			}
		}
		r = in.Or(r, b)
	}
	return r
}

func init() {
	register(&Rule{ID: "C09", Rule: "the comparison handed to the sort is, on every path, equivalent (over the atoms of a total order) to the lexicographic comparison by the parsed sort terms and then by identity; each parsed term carries the direction and the type its text gives; a value that is no number makes the query fail",
		Run: sortRule})
}

func sortRule(c *Ctx) {
	f := storeQuery(c).comparator()
	in := f.in
	iff := func(g, a, b B) bool {
		return in.Implies(g, in.Or(in.And(a, b), in.And(in.Not(a), in.Not(b))))
	}
	// every page is cut from a sorted list
	for _, q := range f.rets {
		if in.isErr(q.error, q.g) {
			continue
		}
		in.each(q.items, q.g, func(t *Term, g B) {
			if e, ok := in.emptySeq(t); ok && e {
				return
			}
			c.Ob("sorted", q.r.in, in.Implies(g, f.cb.AbsEntry), "objects are only answered after sorting them")
		})
	}
	c.Min("sorted", 1)

	for _, r := range f.cb.CbReturns { // comparisons that are only returned
		in.Truth(r.vals[0])
	}
	strs, nums := f.orders(f.entry), f.orders(f.number)
	ax := in.And(f.axioms(strs), f.axioms(nums))
	// the key of the current sort term
	var key *Term
	for k := range strs {
		if mentions(k, f.keys.isElem) {
			key = k
		}
	}
	for k := range nums {
		if mentions(k, f.keys.isElem) {
			if key != nil && key != k {
				giveUp(f.cb.Call, "different keys are compared for one sort term")
			}
			key = k
		}
	}
	if key == nil {
		giveUp(f.cb.Call, "the comparison by the sort keys was not found")
	}
	never := &order{bFalse, bFalse, bFalse}
	str, num := strs[key], nums[key]
	if str == nil {
		str = never
	}
	if num == nil {
		num = never
	}
	// the options of the current sort term: what they are set from
	isOpt := func(a *Term) *Term {
		x := a
		if x.Op == "eq" {
			if _, ok := x.Args[1].constStr(); !ok {
				if _, ok := x.Args[1].constInt(); !ok {
					return nil
				}
			}
			x = x.Args[0]
		}
		root, p := fieldPath(x)
		if len(p) == 1 && f.keys.isElem(root) {
			return x
		}
		return nil
	}
	field := func(t *Term) string { _, p := fieldPath(t); return p[0] }
	numeric, reverse := bFalse, bFalse
	set := func(a *Term, x *Term, word string) bool { // a <=> the term said word
		A, V := bFalse, bFalse
		for _, ad := range f.parse.adds {
			in.each(in.fieldOf(ad.elem, field(x)), ad.g, func(v *Term, g B) {
				b := in.Truth(v)
				if a.Op == "eq" {
					b = in.Truth(in.eq(v, a.Args[1], nil))
				}
				A, V = in.Or(A, g), in.Or(V, in.And(g, b))
			})
		}
		care := f.split()
		A, V = in.And(A, care), in.And(V, care)
		sep := " "
		if word == "int" || word == "str" {
			sep = "!"
		}
		tested, said := bFalse, bFalse
		for _, u := range in.Support(V, A) {
			t := in.atoms[u]
			if t.Op != "eq" || !mentions(t.Args[0], f.isTerm) {
				continue
			}
			if w, ok := t.Args[1].constStr(); !ok || w != word {
				continue
			}
			// where the outcome depends on it
			d := bFalse
			for _, o := range []B{V, in.And(A, in.Not(V))} {
				p, n := in.Cofactor(o, u, true), in.Cofactor(o, u, false)
				d = in.Or(d, in.Or(in.And(p, in.Not(n)), in.And(n, in.Not(p))))
			}
			tested = in.Or(tested, d)
			said = in.Or(said, in.And(d, in.Var(u)))
		}
		// elsewhere there is nothing to say it
		nosep := bFalse
		for u, t := range in.atoms {
			if isCallTo(t, "strings.Contains") && mentions(t.Args[0], f.isTerm) {
				if w, ok := t.Args[1].constStr(); ok && w == sep {
					nosep = in.Or(nosep, in.Not(in.Var(u)))
				}
			}
		}
		return said != bFalse && iff(A, V, said) && in.Implies(in.And(A, in.Not(tested)), nosep)
	}
	for v, a := range in.atoms {
		x := isOpt(a)
		if x == nil || x == key {
			continue
		}
		b := in.Var(v)
		switch {
		case set(a, x, "int"):
			numeric = in.Or(numeric, b)
		case set(a, x, "str"):
			numeric = in.Or(numeric, in.Not(b))
		case set(a, x, "desc"):
			reverse = in.Or(reverse, b)
		case set(a, x, "asc"):
			reverse = in.Or(reverse, in.Not(b))
		}
	}
	c.Ob("type", f.cb.Call, numeric != bFalse, "a sort term is compared as numbers if and only if it says so")
	c.Ob("direction", f.cb.Call, reverse != bFalse, "a sort term is reversed if and only if it says so")
	// sort terms
	for _, ad := range f.parse.adds {
		k := field(key)
		ok := in.all(in.fieldOf(ad.elem, k), ad.g, func(t *Term, g B) bool { return f.fragment(t) })
		c.Ob("key", f.cb.Call, ok, "the key is the first part of the sort term")
		ok = in.all(in.fieldOf(ad.elem, k), ad.g, func(t *Term, g B) bool {
			return in.impliesAtom(g, true, func(a *Term) bool {
				return a.Op == "has" && a.Args[1] == t && hasPathSuffix(a.Args[0], "Index") && mentions(a.Args[0], func(x *Term) bool { return x == f.list })
			})
		})
		c.Ob("known-key", f.cb.Call, ok, "a key no object has is an error")
	}
	some := f.ofTerm(func(t *Term) bool { return t.Op == "nonempty" && f.fragment(t.Args[0]) })
	blank := in.Not(some)
	for _, ad := range f.parse.adds {
		c.Ob("terms", f.cb.Call, in.Implies(ad.g, some), "empty sort terms are skipped")
		for _, o := range []struct{ what, sep, a, b string }{{"order", " ", "asc", "desc"}, {"type", "!", "int", "str"}} {
			known := bFalse
			for u, t := range in.atoms {
				switch {
				case t.Op == "eq" && mentions(t.Args[0], f.isTerm):
					if w, ok := t.Args[1].constStr(); ok && (w == o.a || w == o.b) {
						known = in.Or(known, in.Var(u))
					}
				case isCallTo(t, "strings.Contains") && mentions(t.Args[0], f.isTerm):
					if w, ok := t.Args[1].constStr(); ok && w == o.sep {
						known = in.Or(known, in.Not(in.Var(u)))
					}
				}
			}
			c.Ob("unknown", f.cb.Call, in.Implies(in.And(in.And(ad.g, f.split()), f.parts(o.sep)), known), "a sort term with an unknown %s is an error", o.what)
		}
	}
	c.Min("unknown", 2)
	for _, k := range f.parse.keeps {
		c.Ob("terms", f.cb.Call, in.Implies(k.g, blank), "only empty sort terms are skipped")
	}
	c.Ob("terms", f.cb.Call, len(f.parse.adds) > 0, "sort terms are collected in order")
	if f.pl != nil {
		for _, e := range f.pl.l.Exits {
			c.Ob("terms", f.cb.Call, !in.Sat(in.And(in.And(e.abs, f.pl.more), f.cb.AbsEntry)), "objects are sorted before all sort terms are read")
		}
	}

	// values that are no numbers
	perr := bFalse
	for _, b := range in.atomsWhere(isNilCmp(func(t *Term) bool {
		if t.Op != "extract" || t.Aux != "1" || !isCallTo(t.Args[0], "strconv.ParseFloat") {
			return false
		}
		_, k := f.entry(t.Args[0].Args[0])
		return k == key
	})) {
		perr = in.Or(perr, in.Not(b))
	}
	perr = in.And(perr, numeric)
	cur := in.And(f.keys.more, ax)
	eq := in.Or(in.And(numeric, num.eq), in.And(in.Not(numeric), str.eq))
	lt := in.Or(in.And(numeric, num.lt), in.And(in.Not(numeric), str.lt))
	gt := in.Or(in.And(numeric, num.gt), in.And(in.Not(numeric), str.gt))
	want := in.Or(in.And(reverse, gt), in.And(in.Not(reverse), lt))
	good := in.And(ax, in.Not(perr))
	for _, e := range f.keys.l.Backs {
		c.Ob("priority", f.keys.l, in.Implies(in.And(e.abs, good), eq), "a later sort term only decides if all earlier ones are equal")
	}
	// ties
	tie := bFalse
	same := bTrue
	for _, k := range []string{"cluster", "namespace", "name"} {
		var o *order
		for t, x := range strs {
			if s, ok := t.constStr(); ok && s == k {
				o = x
			}
		}
		if o == nil {
			giveUp(f.cb.Call, "objects that are equal in all sort terms are not ordered by their %s", k)
		}
		tie = in.Or(tie, in.And(same, o.lt))
		same = in.And(same, o.eq)
	}
	for _, r := range f.cb.CbReturns {
		in.each(r.vals[0], in.And(r.g, good), func(t *Term, g B) {
			v := in.Truth(t)
			if h := in.And(g, cur); in.Sat(h) {
				c.Ob("order", r.in, in.Implies(h, in.Not(eq)), "equal values do not decide the order")
				c.Ob("order", r.in, iff(h, v, want), "objects are ordered by the value of the sort term, reversed if it is descending")
			}
			if h := in.And(g, in.Not(f.keys.more)); in.Sat(h) {
				c.Ob("ties", r.in, iff(h, v, tie), "objects equal in all sort terms are ordered by cluster, namespace and name")
			}
		})
	}
	c.Min("order", 2)
	c.Min("ties", 1)
	// errors found while comparing
	n := 0
	for t, li := range in.loopInfo {
		if li.Loop != f.cb || in.eq(t, in.Nil(), nil) == nil || len(li.Back) == 0 || !in.usedAsError(t, f.rets) {
			continue
		}
		n++
		for _, b := range li.Back {
			in.each(b.T, b.G, func(v *Term, g B) {
				if v == t {
					c.Ob("numbers", f.cb.Call, !in.Sat(in.And(g, in.And(perr, f.keys.more))), "a value that is no number is an error")
					return
				}
				c.Ob("numbers", f.cb.Call, in.isErr(v, g), "an error is not forgotten while comparing")
				c.Ob("numbers", f.cb.Call, in.Implies(g, perr), "only a value that is no number is an error")
			})
		}
		for _, q := range f.rets {
			if !in.isErr(q.error, q.g) {
				g := in.And(q.g, f.cb.AbsEntry)
				c.Ob("numbers", q.r.in, in.Implies(g, in.Truth(in.eq(t, in.Nil(), nil))), "an error found while sorting is the result of the query")
			}
		}
	}
	c.Ob("numbers", f.cb.Call, n > 0, "errors found while comparing are kept")
}

// usedAsError: t is the error of some result.
func (in *Interp) usedAsError(t *Term, rets []queryReturn) bool {
	for _, q := range rets {
		for _, a := range in.Alts(q.error) {
			if a.T == t {
				return true
			}
		}
	}
	return false
}
