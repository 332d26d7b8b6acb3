package main

import (
	"math/big"
	"strings"
)

const (
	pagePkg    = modPath + "/page"
	paginateTy = modPath + "/page.Paginate"
	kubePkg    = modPath + "/kube"
	metav1     = "k8s.io/apimachinery/pkg/apis/meta/v1"
)

// pageReq is the page the request asks for: the fields of the decoded search,
// zero when it carries none.
type pageReq struct {
	p, s *Term
	u    B // the search was decoded
}

// requestPage finds what the page parameter of the request was decoded into.
func (f *proxyFacts) requestPage() pageReq {
	in := f.in
	var r pageReq
	for _, e := range in.calls("encoding/json.Unmarshal") {
		a := unwrapIface(e.Args[1])
		if a.Typ == nil || !typeIs(a.Typ, paginateTy) {
			continue
		}
		if r.p != nil {
			giveUp(e, "the search of a request is decoded in more than one place")
		}
		pt := deref(a.Typ)
		out := in.mkT("out", "1", pt, e.Result)
		r.p = in.Field(out, "Page", structField(pt, "Page"))
		r.s = in.Field(out, "PageSize", structField(pt, "PageSize"))
		r.u = e.Guard
	}
	if r.p == nil {
		giveUp(f.fn, "the place where the search of a request is decoded was not found")
	}
	return r
}

// dataSize: no collection in memory has more elements than this, so counts of
// objects and page arithmetic on them stay far from the integer range.
const dataSize = int64(1) << 59

func atLeast(p, q poly) poly { return p.plus(q, -1) }                        // p >= q
func above(p, q poly) poly   { return p.plus(q, -1).plus(constPoly(1), -1) } // p >= q+1

// equalsUnder: t has the value v under g and the extra facts.
func (l *Lin) equalsUnder(g B, t *Term, v poly, extra ...poly) bool {
	e := l.expr(t)
	return l.Impossible(g, []poly{above(e, v)}, extra, t) && l.Impossible(g, []poly{above(v, e)}, extra, t)
}

func (l *Lin) polyEquals(g B, e, v poly, extra []poly, use ...*Term) bool {
	return l.Impossible(g, []poly{above(e, v)}, extra, use...) && l.Impossible(g, []poly{above(v, e)}, extra, use...)
}

// window decides that [lo:hi] of a sequence of length L is page P of size S
// (hi nil: to the end); "" if so.
func (l *Lin) window(g B, lo, hi *Term, L, P, S poly) string {
	zero, one := constPoly(0), constPoly(1)
	lop := constPoly(0)
	var use []*Term
	if lo != nil {
		lop = l.expr(lo)
		use = append(use, lo)
	}
	hip := L
	if hi != nil {
		hip = l.expr(hi)
		use = append(use, hi)
	}
	size := atLeast(constPoly(dataSize), L)
	for _, ex := range [][]poly{{atLeast(zero, P), size}, {atLeast(zero, S), size}} {
		if !l.polyEquals(g, lop, zero, ex, use...) || !l.polyEquals(g, hip, L, ex, use...) {
			return "without a page number and a page size everything must be returned"
		}
	}
	X := P.plus(one, -1).times(S)
	Y := X.plus(S, 1)
	paged := []poly{atLeast(P, one), atLeast(S, one), size}
	with := func(ps ...poly) []poly { return append(append([]poly(nil), paged...), ps...) }
	if !l.polyEquals(g, lop, X, with(atLeast(L, X)), use...) {
		return "the page must start at (page-1)*page_size"
	}
	if !l.polyEquals(g, lop, L, with(atLeast(X, L)), use...) {
		return "a page beyond the end must be empty"
	}
	if !l.polyEquals(g, hip, Y, with(atLeast(L, Y)), use...) {
		return "a full page must end at page*page_size"
	}
	if !l.polyEquals(g, hip, L, with(atLeast(Y, L), atLeast(L, X)), use...) {
		return "the last page must end with the last object"
	}
	if !l.polyEquals(g, hip, L, with(atLeast(X, L)), use...) {
		return "a page beyond the end must be empty"
	}
	return ""
}

// sliceOf splits a (possibly sliced) sequence.
func sliceOf(t *Term) (base, lo, hi *Term) {
	t = unwrapIface(t)
	if t.Op == "slice" && len(t.Args) >= 2 {
		base, lo = t.Args[0], t.Args[1]
		if len(t.Args) > 2 {
			hi = t.Args[2]
		}
		return
	}
	return t, nil, nil
}

// listReturn is one way a list is answered from the cache.
type listAnswer struct {
	r       *retState
	g       B
	items   *Term // alternatives
	remain  *Term // nil for a table
	isTable bool
}

func (f *proxyFacts) listAnswers() []listAnswer {
	in := f.in
	var out []listAnswer
	for _, r := range in.Returns {
		in.each(r.vals[0], r.g, func(t *Term, g B) {
			if t.Op != "iface" || !strings.HasPrefix(t.Aux, "map[string]") {
				return
			}
			m := in.mapContent(r.mem, t.Args[0])
			items := in.unwrap(in.mapEntry(m, "items"))
			md := in.unwrap(in.mapEntry(m, "metadata"))
			rem := in.unwrap(in.mapEntry(in.mapContent(r.mem, md), "remainingItemCount"))
			out = append(out, listAnswer{r: &r, g: g, items: items, remain: rem})
		})
	}
	return out
}

// queryOf: items are exactly those of a query result.
func (f *proxyFacts) queryOf(t *Term) *Event {
	root, p := fieldPath(t)
	if len(p) != 1 || p[0] != "Items" {
		return nil
	}
	for _, e := range f.query {
		if e.Result == root {
			return e
		}
		for _, a := range f.in.Alts(e.Result) {
			if a.T == root {
				return e
			}
		}
	}
	return nil
}

func init() {
	register(&Rule{ID: "C06", Rule: "at every list read of the cache, each value the search can have is, by path condition, either the one produced by restricting it to the configured default cluster or one that names clusters itself",
		Run: func(c *Ctx) {
			f := proxyOf(c)
			in := f.in
			getC := "(*" + pagePkg + ".Paginate).GetClusters"
			for _, e := range f.query {
				in.each(in.fieldOf(e.Args[2], "Paginate", "Search"), e.Guard, func(t *Term, g B) {
					// restricted by Clusters?
					root, p := fieldPath(t)
					if root.Op == "out" && len(p) == 1 && p[0] == "Search" && isCallTo(root.Args[0], "(*"+pagePkg+".Paginate).Clusters") {
						cl := root.Args[0]
						ok := in.all(cl.Args[1], g, func(a *Term, g B) bool {
							return a.Op == "slicelit" && len(a.Args) == 1 && in.all(a.Args[0], g, func(x *Term, g B) bool { return isConfigField(x, "DefaultCluster") })
						})
						c.Ob("default", e, ok, "a list that names no cluster is restricted to the default cluster, and nothing else")
						none := bFalse
						for _, b := range in.atomsWhere(func(t *Term) bool { return t.Op == "nonempty" && isCallTo(t.Args[0], getC) }) {
							none = in.Or(none, in.Not(b))
						}
						c.Ob("default-only", e, in.Implies(g, none), "a list that names clusters is not restricted to the default cluster")
						return
					}
					c.Ob("restricted", e, in.Implies(g, f.namesClusters(getC)), "a list read without restricting it to the default cluster names its clusters itself")
				})
			}
			c.Min("default", 2)
			c.Min("restricted", 2)
		}})

	register(&Rule{ID: "C07", Rule: "with a label selector left after removing the search, the cache is read unpaged with the same sort and search, every object read is kept if and only if the selector of the request matches the labels of that object, and the order is kept; without one the page is read as requested",
		Run: labelFilter})

	register(&Rule{ID: "C08", Rule: "in the domain of polyhedra over products: the bounds of every slice of a list equal page arithmetic without overflow, the remaining count equals what follows the page, and the out-of-page error is reachable exactly beyond the end",
		Run: pageWindows})
}

// namesClusters: the search of the request names clusters.
func (f *proxyFacts) namesClusters(getC string) B {
	return f.in.anyAtom(func(t *Term) bool { return t.Op == "nonempty" && isCallTo(t.Args[0], getC) })
}

func (f *proxyFacts) querySame(c *Ctx, rule string, e *Event, field string, g B) {
	in := f.in
	c.Ob(rule, e, in.all(in.fieldOf(e.Args[2], "Paginate", field), g, func(t *Term, g B) bool {
		root, p := fieldPath(t)
		if len(p) == 1 && p[0] == field && root.Op == "out" {
			return isCallTo(root.Args[0], "encoding/json.Unmarshal") || field == "Search" && isCallTo(root.Args[0], "(*"+pagePkg+".Paginate).Clusters")
		}
		if !t.isConst() {
			return false
		}
		// no search in the request
		return (t.Aux == `""` || t.Aux == "0") && !in.Sat(in.And(g, f.decoded()))
	}), "the cache is read with the %s of the request", strings.ToLower(field))
}

func (f *proxyFacts) decoded() B { return f.requestPage().u }

// selector is the label selector applied to a list.
type selector struct {
	call *Term // LabelSelectorAsSelector(...)
	e    *Event
	expr *Term // its MatchExpressions (alternatives)
	lab  *Term // the content of its MatchLabels
}

func (f *proxyFacts) selectors() []selector {
	in := f.in
	var out []selector
	for _, e := range in.calls(metav1 + ".LabelSelectorAsSelector") {
		in.each(e.Result, e.Guard, func(t *Term, g B) {
			if t.Op != "call" || t.Args[0].isNil() {
				return
			}
			s := in.selectorOf(t, e)
			out = append(out, s)
		})
	}
	return out
}

// selectorOf: the parts of the selector given to call t.
func (in *Interp) selectorOf(t *Term, e *Event) selector {
	s := selector{call: t, e: e}
	v := t.Args[0]
	for v.Op == "ptrver" {
		v = v.Args[0]
	}
	if v.Op == "ptrto" {
		for _, m := range v.Args[1:] {
			if m.Aux == "MatchLabels" {
				s.lab = m.Args[0]
			}
		}
		v = v.Args[0]
	} else {
		v = in.load(newMem(), v, deref(v.Typ))
	}
	s.expr = in.fieldOf(v, "MatchExpressions")
	if s.lab == nil {
		s.lab = in.mapContent(newMem(), in.fieldOf(v, "MatchLabels"))
	}
	return s
}

func (in *Interp) nonemptyB(x *Term) B {
	return in.Not(in.Truth(in.eq(in.Len(x.Args0()), in.Int(0), nil)))
}

const searchKey = "ckube.daocloud.io/query"

// selectorOf: the requirements are those of the labelSelector parameter
// without the search; "" if so.
func (f *proxyFacts) cleanSelector(s selector) string {
	in := f.in
	why := ""
	parsed := func(t *Term) bool { // derived from ParseToLabelSelector(labelSelector)
		return mentions(t, func(x *Term) bool {
			if !isCallTo(x, kubePkg+".ParseToLabelSelector") {
				return false
			}
			for _, src := range in.sources(x.Args[0]) {
				if c, ok := src.constStr(); ok && c == "" {
					continue
				}
				k, ok := f.queryFirst(src)
				if !ok {
					return false
				}
				if c, ok := k.constStr(); ok && c == "labelSelector" {
					continue
				}
				if k.Op != "mapkey" {
					return false
				}
			}
			return true
		})
	}
	hasSearch := in.anyAtom(func(t *Term) bool {
		if t.Op != "has" || !hasPathSuffix(t.Args[0], "MatchLabels") {
			return false
		}
		k, ok := t.Args[1].constStr()
		return ok && k == searchKey
	})
	in.each(s.lab, s.e.Guard, func(t *Term, g B) {
		del := false
		for t.Op == "mapdel" {
			if k, ok := t.Args[1].constStr(); !ok || k != searchKey {
				why = "a label requirement of the request is dropped"
			}
			del = true
			t = t.Args[0]
		}
		if t.Op == "mapupd" || !hasPathSuffix(t.Args0(), "MatchLabels") || !parsed(t) {
			why = "the label requirements are not those of the request"
		}
		if !del && in.Sat(in.And(g, hasSearch)) {
			why = "the search is left among the label requirements"
		}
	})
	in.each(s.expr, s.e.Guard, func(t *Term, g B) {
		if li := in.loopInfo[t]; li != nil {
			sl := in.seqOf(li.Loop)
			if sl == nil || !hasPathSuffix(sl.seq, "MatchExpressions") || !parsed(sl.seq) {
				why = "the requirements are not collected from those of the request"
				return
			}
			is := bFalse
			for v, a := range in.atoms {
				if a.Op == "eq" && a.hasLoop(li.Loop) && hasPathSuffix(a.Args[0], "Key") && mentions(a.Args[0], sl.isElem) {
					if k, ok := a.Args[1].constStr(); ok && k == searchKey {
						is = in.Or(is, in.Var(v))
					}
				}
			}
			if n, ok := in.emptySeq(li.Init); !ok || !n {
				why = "the requirements do not start empty"
			}
			for _, b := range li.Back {
				in.each(b.T, b.G, func(v *Term, g B) {
					switch {
					case v == t:
						if !in.Implies(g, is) {
							why = "a requirement that is not the search is dropped"
						}
					case v.Op == "append" && v.Args[0] == t && v.Args[1].Op == "slicelit" && len(v.Args[1].Args) == 1 && sl.isElem(v.Args[1].Args[0]):
						if in.Sat(in.And(g, is)) {
							why = "the search is kept among the requirements"
						}
					default:
						why = "a requirement is changed"
					}
				})
			}
			return
		}
		if !hasPathSuffix(t, "MatchExpressions") || !parsed(t) {
			why = "the requirements are not those of the request"
		}
		if !in.Implies(g, hasSearch) {
			why = "the search may be left among the requirements"
		}
	})
	return why
}

// Args0 is the first argument, or the term itself.
func (t *Term) Args0() *Term {
	if t.Op == "map0" {
		return t.Args[0]
	}
	return t
}

// emptySeq: a sequence that is empty (true) when known.
func (in *Interp) emptySeq(t *Term) (empty, known bool) {
	switch {
	case t.Op == "slicelit":
		return len(t.Args) == 0, true
	case t.Op == "emptyslice", t.isNil():
		return true, true
	case t.Op == "zero":
		return true, true
	case t.Op == "slice" && len(t.Args) == 3:
		n, ok := t.Args[2].constInt()
		return n == 0, ok
	}
	return false, false
}

func labelFilter(c *Ctx) {
	f := proxyOf(c)
	in := f.in
	sels := f.selectors()
	if len(sels) == 0 {
		giveUp(f.fn, "no label selector is applied")
	}
	for _, s := range sels {
		why := f.cleanSelector(s)
		c.Ob("selector", s.e, why == "", "the selector applied is the one of the request without the search. %s", why)
	}
	for _, e := range f.query {
		f.querySame(c, "sort", e, "Sort", e.Guard)
		f.querySame(c, "search", e, "Search", e.Guard)
	}
	c.Min("sort", 1)
	nf := 0
	for _, la := range f.listAnswers() {
		in.each(la.items, la.g, func(t *Term, g B) {
			base, _, _ := sliceOf(t)
			in.each(base, g, func(base *Term, g B) {
				if q := f.queryOf(base); q != nil {
					ok := true
					has := bFalse // the request has a selector
					for _, e := range in.calls(kubePkg + ".ParseToLabelSelector") {
						has = in.Or(has, e.Guard)
					}
					for _, b := range in.atomsWhere(isNilCmp(func(t *Term) bool {
						return t.Op == "extract" && isCallTo(t.Args[0], kubePkg+".ParseToLabelSelector") && t.Aux == "0"
					})) {
						has = in.And(has, in.Not(b)) // a parsed selector is not nil
					}
					for _, s := range sels {
						for _, x := range []*Term{s.expr, s.lab} {
							in.each(x, in.And(has, in.And(g, q.Guard)), func(x *Term, g B) {
								if in.Sat(in.And(g, in.nonemptyB(x))) {
									ok = false
								}
							})
						}
					}
					c.Ob("unfiltered", la.r.in, ok, "a list with label requirements is never answered without applying them")
					return
				}
				nf++
				why := f.filteredBy(base, g, sels)
				c.Ob("filtered", la.r.in, why == "", "a list with label requirements holds the objects whose labels match, in order. %s", why)
			})
		})
	}
	c.Ob("filtered", f.fn, nf > 0, "lists with label requirements are answered")
}

// labelsOf: t are the labels of object o.
func (in *Interp) labelsOf(t *Term, isObj func(*Term) bool) bool {
	if !mentions(t, isObj) {
		return false
	}
	last := ""
	bad := false
	names := map[string]bool{"ObjectMeta": true, "metadata": true, "Labels": true, "labels": true}
	first := true
	mentions(t, func(x *Term) bool {
		if x.Op == "call" && callName(x) == "(reflect.Value).FieldByName" {
			s, ok := x.Args[1].constStr()
			if !ok || !names[s] {
				bad = true
			}
			if first {
				last = s
				first = false
			}
		}
		if x.Op == "call" && isMethodCall(x, "GetLabels") && first {
			last = "Labels"
			first = false
		}
		return false
	})
	return !bad && strings.EqualFold(last, "labels")
}

func (f *proxyFacts) filteredBy(t *Term, g B, sels []selector) string {
	in := f.in
	li := in.loopInfo[t]
	if li == nil {
		return "the objects are not collected one by one"
	}
	if e, ok := in.emptySeq(li.Init); !ok || !e {
		return "the collection does not start empty"
	}
	sl := in.seqOf(li.Loop)
	if sl == nil || f.queryOf(sl.seq) == nil {
		return "the objects collected are not those read from the cache"
	}
	if !in.Implies(g, in.Not(sl.more)) && !in.complete(sl) {
		return "the collection ends before the last object"
	}
	q := f.queryOf(sl.seq)
	unpaged := false
	for _, n := range []string{"Page", "PageSize"} {
		if in.all(in.fieldOf(q.Args[2], "Paginate", n), q.Guard, func(t *Term, g B) bool { k, ok := t.constInt(); return ok && k <= 0 }) {
			unpaged = true
		}
	}
	if !unpaged {
		return "the labels are applied to a page, not to all objects"
	}
	match, nomatch := bFalse, bFalse
	for v, a := range in.atoms {
		if !isMethodCall(a, "Matches") || len(a.Args) != 2 {
			continue
		}
		s := a.Args[0]
		if s.Op == "extract" {
			s = s.Args[0]
		}
		ok := false
		for _, x := range sels {
			if x.call == s {
				ok = true
			}
		}
		l := unwrapIface(a.Args[1])
		for l.Op == "convert" || l.Op == "as" {
			l = l.Args[0]
		}
		if !ok && !isCallTo(s, metav1+".LabelSelectorAsSelector") {
			continue
		}
		if !l.isNil() && !in.labelsOf(l, sl.isElem) {
			continue
		}
		b := in.Var(v)
		if l.isNil() {
			// objects without labels
			none := in.anyAtom(func(t *Term) bool { return t.Op == "call" && callName(t) == "(reflect.Value).CanInterface" })
			_ = none
		}
		match = in.Or(match, b)
		nomatch = in.Or(nomatch, in.Not(b))
	}
	why := ""
	for _, b := range li.Back {
		in.each(b.T, b.G, func(v *Term, g B) {
			switch {
			case v == t:
				if !in.Implies(g, nomatch) {
					why = "an object is dropped without its labels being compared"
				}
			case v.Op == "append" && v.Args[0] == t && v.Args[1].Op == "slicelit" && len(v.Args[1].Args) == 1 && sl.isElem(v.Args[1].Args[0]):
				if !in.Implies(g, match) {
					why = "an object is kept although its labels do not match"
				}
			default:
				why = "something other than the object is collected"
			}
		})
	}
	return why
}

func pageWindows(c *Ctx) {
	f := proxyOf(c)
	in := f.in
	pr := f.requestPage()
	n, nq := 0, 0
	split := func(g B, fn func(g B, P, S poly, l *Lin)) {
		if h := in.And(g, pr.u); in.Sat(h) {
			l := newLin(in)
			fn(h, l.expr(pr.p), l.expr(pr.s), l)
		}
		if h := in.And(g, in.Not(pr.u)); in.Sat(h) {
			fn(h, constPoly(0), constPoly(0), newLin(in))
		}
	}
	// what a list is made of: the total and the facts known about its items
	type shape struct {
		total *Term
		facts func(l *Lin, P, S poly) []poly
	}
	_ = shape{}
	for _, la := range f.listAnswers() {
		in.each(la.items, la.g, func(t *Term, g B) {
			base, lo, hi := sliceOf(t)
			q := f.queryOf(base)
			split(g, func(g B, P, S poly, l *Lin) {
				if q != nil && f.queriedPaged(q, g, pr) {
					nq++
					c.Ob("page-as-read", la.r.in, lo == nil && hi == nil, "a page read from the cache is answered as it is")
					f.remaining(c, la, g, P, S, l, l.expr(in.totalOf(q)), l.length(base))
					return
				}
				n++
				L := l.length(base)
				if w := l.window(g, lo, hi, L, P, S); w != "" {
					c.Ob("window", la.r.in, false, "%s", w)
				} else {
					c.Ob("window", la.r.in, true, "the slice answered is the page requested")
				}
				f.remaining(c, la, g, P, S, l, L, l.length(unwrapIface(t)))
			})
		})
	}
	c.Ob("window", f.fn, n+nq > 0, "lists are answered")
	// the page is handed to the cache
	for _, e := range f.query {
		for k, name := range []string{"Page", "PageSize"} {
			in.each(in.fieldOf(e.Args[2], "Paginate", name), e.Guard, func(t *Term, g B) {
				want := []*Term{pr.p, pr.s}[k]
				zero := false
				if x, ok := t.constInt(); ok && x == 0 {
					zero = true
				}
				c.Ob("page-read", e, t == want || zero, "the cache is read with the %s of the request, or unpaged", name)
			})
		}
	}
	// errors about pages
	for _, r := range in.Returns {
		in.each(r.vals[0], r.g, func(t *Term, g B) {
			if in.statusCode(t, g) != 400 {
				return
			}
			qerr := bFalse
			for _, b := range in.atomsWhere(isNilCmp(func(t *Term) bool {
				return hasPathSuffix(t, "Error") && mentions(t, func(x *Term) bool { return isMethodCall(x, "Query") }) || t.Op == "extract" && isCallTo(t.Args[0], metav1+".LabelSelectorAsSelector")
			})) {
				qerr = in.Or(qerr, in.Not(b))
			}
			g = in.And(g, in.Not(qerr))
			if !in.Sat(g) {
				return
			}
			f.beyond(c, &r, g, pr, split)
		})
	}
	// the cache's own slice
	memoryWindow(c)
}

func (in *Interp) totalOf(q *Event) *Term { return in.fieldOf(q.Result, "Total") }

// queriedPaged: the read q was given the page of the request.
func (f *proxyFacts) queriedPaged(q *Event, g B, pr pageReq) bool {
	in := f.in
	ok := true
	for k, name := range []string{"Page", "PageSize"} {
		in.each(in.fieldOf(q.Args[2], "Paginate", name), g, func(t *Term, g B) {
			if t == []*Term{pr.p, pr.s}[k] {
				return
			}
			if n, isC := t.constInt(); isC && n == 0 && !in.Sat(in.And(g, pr.u)) {
				return
			}
			ok = false
		})
	}
	return ok
}

// remaining: the remaining count is total minus what this page and those
// before it hold, and zero for unpaged lists.
func (f *proxyFacts) remaining(c *Ctx, la listAnswer, g B, P, S poly, l *Lin, T, n poly) {
	in := f.in
	zero, one := constPoly(0), constPoly(1)
	in.each(la.remain, g, func(t *Term, g B) {
		e := l.expr(t)
		// n objects on the page, T in total; the cache returns an object only
		// if the page is not beyond the end
		size := []poly{atLeast(constPoly(dataSize), T), atLeast(T, zero), atLeast(n, zero)}
		with := func(ps ...poly) []poly { return append(append([]poly(nil), size...), ps...) }
		ok := true
		for _, ex := range [][]poly{{atLeast(zero, P)}, {atLeast(zero, S)}} {
			if !l.polyEquals(g, e, zero, with(ex...), t) {
				ok = false
			}
		}
		c.Ob("remaining-unpaged", la.r.in, ok, "nothing remains after an unpaged list")
		PS := P.times(S)
		X := PS.plus(S, -1)
		for _, pc := range [][]poly{{atLeast(P, one), atLeast(one, P)}, {atLeast(P, constPoly(2))}} {
			ps := with(append(pc, atLeast(S, one))...)
			// the page is inside: it holds objects and starts before the end;
			// or it holds none and starts at or behind the end
			for _, inside := range [][]poly{{atLeast(n, one), above(T, X)}, {atLeast(zero, n), atLeast(X, T)}} {
				q := append(append([]poly(nil), ps...), inside...)
				ok := l.polyEquals(g, e, T.plus(PS, -1), append(append([]poly(nil), q...), atLeast(T, PS)), t) &&
					l.polyEquals(g, e, zero, append(append([]poly(nil), q...), atLeast(PS, T)), t)
				c.Ob("remaining", la.r.in, ok, "what remains is the total minus the objects up to the end of this page")
				// beyond the end no list is answered
			}
		}
		// page 2 and later beyond the end is an error
		c.Ob("beyond-end", la.r.in, l.Impossible(g, nil, with(atLeast(P, constPoly(2)), atLeast(S, one), atLeast(zero, n), atLeast(X, T))), "a page beyond the end is not answered with a list")
	})
}

func (f *proxyFacts) beyond(c *Ctx, r *retState, g B, pr pageReq, split func(B, func(B, poly, poly, *Lin))) {
	in := f.in
	zero, one := constPoly(0), constPoly(1)
	split(g, func(g B, P, S poly, l *Lin) {
		// the lengths of the candidate lists
		n := 0
		X := P.plus(one, -1).times(S)
		try := func(T, n poly, g B) bool {
			size := []poly{atLeast(constPoly(dataSize), T), atLeast(T, zero), atLeast(n, zero)}
			w := func(ps ...poly) []poly { return append(append([]poly(nil), size...), ps...) }
			return l.Impossible(g, []poly{atLeast(one, P)}, w()) && l.Impossible(g, []poly{atLeast(zero, S)}, w()) &&
				l.Impossible(g, nil, w(atLeast(n, one), above(T, X), atLeast(P, one), atLeast(S, one)))
		}
		ok := false
		for _, q := range f.query {
			qg := in.And(g, q.Guard)
			if !in.Sat(qg) {
				continue
			}
			n++
			if f.queriedPaged(q, qg, pr) {
				its := in.fieldOf(q.Result, "Items")
				ok = try(l.expr(in.totalOf(q)), l.length(its), qg)
			} else {
				ok = false
				// some sliced list must be empty
				for _, t := range in.terms {
					if t.Op != "loopvar" || !isSliceTerm(t) || in.loopInfo[t] == nil {
						continue
					}
					if _, ok2 := in.growsFrom(t, q); !ok2 {
						continue
					}
					L := l.length(t)
					size := []poly{atLeast(constPoly(dataSize), L)}
					if l.Impossible(qg, []poly{atLeast(one, P)}, size) && l.Impossible(qg, []poly{atLeast(zero, S)}, size) && l.Impossible(qg, []poly{above(L, X)}, append(size, atLeast(P, one), atLeast(S, one))) {
						ok = true
					}
				}
			}
			c.Ob("out-of-page", r.in, ok, "the out-of-page error is only given for a page beyond the end")
		}
		c.Ob("out-of-page", r.in, n > 0, "an error 400 comes after reading the cache")
	})
}

// growsFrom: t is a list built in a loop over the items of q.
func (in *Interp) growsFrom(t *Term, q *Event) (*Loop, bool) {
	li := in.loopInfo[t]
	if li == nil {
		return nil, false
	}
	sl := in.seqOf(li.Loop)
	if sl == nil {
		return nil, false
	}
	return li.Loop, mentions(sl.seq, func(x *Term) bool { return x == q.Result })
}

var _ = big.NewInt
