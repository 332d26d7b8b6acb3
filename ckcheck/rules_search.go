package main

const pageM = "(*" + pagePkg + ".Paginate)."

// onlySearch: nothing but the search of the receiver is written, by these calls.
func (c *Ctx) onlyCalls(in *Interp, ok func(e *Event) bool) {
	recv := in.Entry.params[0]
	for _, e := range in.kind("store") {
		root, p := fieldPath(e.Addr)
		if root == recv && len(p) > 0 {
			c.Ob("only", e, ok(e), "%s of the page is written", p[0])
		}
	}
	for _, e := range in.calls(pageM+"SetSearchSelector", pageM+"SetSearchWithParts", pageM+"Namespaces", pageM+"Clusters") {
		if e.Args[0] == recv {
			c.Ob("only", e, ok(e), "the search is changed here")
		}
	}
}

func searchRule(c *Ctx) {
	restrict(c, "Namespaces", "namespace", false)
	restrict(c, "Clusters", "cluster", true)
	setSelector(c)
	setParts(c)
	readSelector(c)
	readClusters(c)
	c.Min("only", 4)
}

// restrict: the methods that restrict a search to given values of a key.
func restrict(c *Ctx, method, key string, noEmpty bool) {
	in, fn := c.opaqueRun(pageM + method)
	recv, vals := in.Entry.params[0], in.Entry.params[1]
	parsed := func(t *Term) bool {
		return t.Op == "extract" && t.Aux == "0" && isCallTo(t.Args[0], pageM+"SearchSelector") && t.Args[0].Args[0] == recv
	}
	failed := in.Not(in.testAtom(isNilCmp(func(t *Term) bool {
		return t.Op == "extract" && t.Aux == "1" && isCallTo(t.Args[0], pageM+"SearchSelector")
	})))
	var sets []*Event
	for _, e := range in.calls(pageM + "SetSearchSelector") {
		sets = append(sets, e)
		c.Ob(key, e, e.Args[0] == recv && e.inner() == nil, "the search of another page is set")
		c.Ob(key, e, !in.Sat(in.And(e.Guard, failed)), "a search that does not parse is overwritten")
		in.each(e.Vals1(1), e.Guard, func(t *Term, g B) {
			var expr, lab *Term
			if t.Op == "ptrto" || deref(t.Typ) != t.Typ {
				expr, lab = in.selectorArg(t)
			} else {
				expr, lab = in.fieldOf(t, "MatchExpressions"), in.fieldOf(t, "MatchLabels")
			}
			for _, m := range in.kind("mapset", "mapdel") {
				c.Ob(key, m, !mentions(m.Args[0], parsed), "the equality requirements of the search are changed")
			}
			c.Ob(key, e, in.all(lab, g, func(t *Term, g B) bool { return ofSelector(t, parsed, "MatchLabels") }), "the equality requirements of the search are not kept")
			added, why := in.replaced(expr, g, parsed, key)
			c.Ob(key, e, why == "", "%s", why)
			for _, a := range added {
				why := in.requirement(a.elem, a.g, key, "In", func(t *Term, g B) bool { return t == vals || in.copyOf(t, vals) })
				c.Ob(key, e, why == "", "%s", why)
			}
			c.Ob(key, e, len(added) == 1, "the search does not get the one requirement for %s", key)
		})
	}
	c.Ob(key, fn, len(sets) > 0, "the search is not set")
	c.onlyCalls(in, func(e *Event) bool { return e.Name == pageM+"SetSearchSelector" })
	// an empty name among the values
	empty := bFalse
	for _, l := range in.Loops {
		s := in.seqOf(l)
		if s == nil || s.seq != vals {
			continue
		}
		for v, a := range in.atoms {
			if a.Op == "nonempty" && s.isElem(a.Args[0]) {
				empty = in.Or(empty, in.Not(in.Var(v)))
			}
			if a.Op == "eq" && s.isElem(a.Args[0]) && a.Args[1].Aux == `""` {
				empty = in.Or(empty, in.Var(v))
			}
		}
		if noEmpty {
			for _, b := range l.Backs {
				c.Ob("no-empty", l, !in.Sat(in.And(b.abs, empty)), "an empty name of a cluster is passed over")
			}
			for _, e := range sets {
				c.Ob("no-empty", e, in.Implies(e.Guard, in.And(l.AbsEntry, in.Not(s.more))), "the search is set before all names were looked at")
			}
		}
	}
	if noEmpty {
		c.Ob("no-empty", fn, empty != bFalse, "the names of clusters are not checked for empty ones")
		c.Min("no-empty", 3)
	}
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[0], r.g, func(t *Term, g B) {
			for _, e := range sets {
				if t == e.Result {
					c.Ob(key, r.in, in.Implies(g, e.Guard), "the result of something that did not happen is returned")
					return
				}
			}
			if in.isErr(t, g) {
				c.Ob(key, r.in, in.Implies(g, in.Or(failed, empty)), "%s is refused although there is nothing wrong", method)
				return
			}
			ok := bFalse
			for _, e := range sets {
				ok = in.Or(ok, in.And(e.Guard, in.anyAtom(isNilCmp(func(t *Term) bool { return t == e.Result }))))
			}
			c.Ob(key, r.in, in.Implies(g, ok), "%s succeeds without setting the search", method)
		})
	}
	c.Min(key, 6)
}

// Vals1: argument k with what it points to, if known.
func (e *Event) Vals1(k int) *Term {
	if k < len(e.Vals) && e.Vals[k] != nil {
		return e.Vals[k]
	}
	return e.Args[k]
}

// copyOf: t is a copy of the sequence src.
func (in *Interp) copyOf(t, src *Term) bool {
	if t.Op == "append" && t.Args[1] == src {
		e, ok := in.emptySeq(t.Args[0])
		return ok && e
	}
	if isCallTo(t, "slices.Clone") {
		return t.Args[0] == src
	}
	s, adds := in.mapped(t)
	if s == nil || s.seq != src || !in.complete(s) {
		return false
	}
	for _, a := range adds {
		if !s.isElem(a.elem) {
			return false
		}
	}
	return true
}

// advanced: the current part of a search is a selector.
func (in *Interp) advanced(isPart func(*Term) bool) B {
	return in.testAtom(func(t *Term) bool {
		if !isCallTo(t, "strings.HasPrefix") || !isPart(t.Args[0]) {
			return false
		}
		s, ok := t.Args[1].constStr()
		return ok && s == advancedPart
	})
}

func setSelector(c *Ctx) {
	in, fn := c.opaqueRun(pageM + "SetSearchSelector")
	recv, sel := in.Entry.params[0], in.Entry.params[1]
	isParts := func(t *Term) bool { return isCallTo(t, pageM+"SearchParts") && t.Args[0] == recv }
	isText := func(t *Term) bool { return isCallTo(t, formatSel) && (t.Args[0] == sel || in.ptrOf(t.Args[0]) == sel) }
	bad := in.anyAtom(eqConst("<error>", isText))
	var sets []*Event
	for _, e := range in.calls(pageM + "SetSearchWithParts") {
		sets = append(sets, e)
		c.Ob("selector", e, e.Args[0] == recv && e.inner() == nil, "the search of another page is set")
		c.Ob("selector", e, !in.Sat(in.And(e.Guard, bad)), "a selector that cannot be written out is set")
		in.each(e.Args[1], e.Guard, func(t *Term, g B) {
			why, n := in.otherParts(t, g, isParts, isText)
			c.Ob("selector", e, why == "", "%s", why)
			c.Ob("selector", e, n == 1, "the selector is not one part of the search")
		})
	}
	c.Ob("selector", fn, len(sets) > 0, "the search is not set")
	c.onlyCalls(in, func(e *Event) bool { return e.Name == pageM+"SetSearchWithParts" })
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[0], r.g, func(t *Term, g B) {
			if in.isErr(t, g) {
				c.Ob("selector", r.in, in.Implies(g, bad), "a selector is refused although there is nothing wrong with it")
				return
			}
			any := bFalse
			for _, e := range sets {
				any = in.Or(any, e.Guard)
			}
			c.Ob("selector", r.in, in.Implies(g, any), "setting the selector succeeds without setting it")
		})
	}
	c.Min("selector", 6)
}

func (in *Interp) ptrOf(t *Term) *Term {
	for t.Op == "ptrto" || t.Op == "ptrver" {
		t = t.Args[0]
		if t.Op == "load" {
			return t.Args[0]
		}
	}
	return t
}

// otherParts: t holds one part made of the selector, and every part of the old
// search but the one the selector was read from.
func (in *Interp) otherParts(t *Term, g B, isParts, isText func(*Term) bool) (why string, news int) {
	isNew := func(e *Term, g B) bool {
		return in.all(e, g, func(e *Term, g B) bool {
			if e.Op != "concat" || len(e.Args) != 2 {
				return false
			}
			s, ok := e.Args[0].constStr()
			return ok && s == advancedPart && isText(e.Args[1])
		})
	}
	peel := func(t *Term, g B) *Term {
		for t.Op == "append" && t.Args[1].Op == "slicelit" {
			for _, e := range t.Args[1].Args {
				if isNew(e, g) {
					news++
				} else {
					why = "something else becomes part of the search"
				}
			}
			t = t.Args[0]
		}
		if t.Op == "slicelit" {
			for _, e := range t.Args {
				if isNew(e, g) {
					news++
				} else {
					why = "something else becomes part of the search"
				}
			}
			t = nil
		}
		return t
	}
	t = peel(t, g)
	if t == nil {
		return "the other parts of the search are lost", news
	}
	li := in.loopInfo[t]
	if li == nil {
		return "the other parts of the search are not kept one by one", news
	}
	if rest := peel(li.Init, g); rest != nil {
		if e, ok := in.emptySeq(rest); !ok || !e {
			return "the parts do not start from the new one", news
		}
	}
	l := li.Loop
	s := in.seqOf(l)
	if s == nil || !isParts(s.seq) {
		return "the parts kept are not those of the search", news
	}
	if in.Sat(in.And(g, s.more)) {
		why = "a part of the search is left out"
	}
	isPart := s.isElem
	adv := in.advanced(isPart)
	// the first one only: a flag tells whether it was met
	for _, b := range li.Back {
		in.each(b.T, b.G, func(v *Term, bg B) {
			switch {
			case v == t:
				if !in.Implies(bg, adv) {
					why = "a part that is no selector is dropped"
				} else if !in.firstOnly(l, bg, adv) {
					why = "a further selector among the parts is dropped too"
				}
			case v.Op == "append" && v.Args[0] == t && v.Args[1].Op == "slicelit" && len(v.Args[1].Args) == 1 && isPart(v.Args[1].Args[0]):
				if h := in.And(bg, adv); in.Sat(h) && !in.notFirst(l, h, adv) {
					why = "the old selector is kept"
				}
			default:
				why = "a part of the search is changed"
			}
		})
	}
	return
}

// firstOnly: an iteration under g is the first one in which p holds.
func (in *Interp) firstOnly(l *Loop, g, p B) bool {
	for f, val := range in.fixedFlags(l, g) {
		li := in.loopInfo[f]
		ok := true
		for _, b := range li.Back {
			// once it happened the flag has the other value, and keeps it
			if in.Sat(in.And(in.And(b.G, p), in.isB(b.T, val))) {
				ok = false
			}
			if in.Sat(in.And(in.And(b.G, in.isB(f, !val)), in.isB(b.T, val))) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// notFirst: there was an earlier iteration in which p held.
func (in *Interp) notFirst(l *Loop, g, p B) bool {
	for f, val := range in.fixedFlags(l, g) {
		li := in.loopInfo[f]
		if in.Sat(in.isB(li.Init, val)) {
			continue
		}
		ok := true
		for _, b := range li.Back {
			if in.Sat(in.And(in.And(b.G, in.isB(f, !val)), in.And(in.isB(b.T, val), in.Not(p)))) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func setParts(c *Ctx) {
	in, fn := c.opaqueRun(pageM + "SetSearchWithParts")
	recv, parts := in.Entry.params[0], in.Entry.params[1]
	n := bFalse
	for _, e := range in.kind("store") {
		root, p := fieldPath(e.Addr)
		if root != recv || len(p) != 1 || p[0] != "Search" {
			continue
		}
		n = in.Or(n, e.Guard)
		in.each(e.Args[len(e.Args)-1], e.Guard, func(t *Term, g B) {
			ok := isCallTo(t, "strings.Join")
			if ok {
				sep, isC := t.Args[1].constStr()
				ok = isC && sep == ";"
			}
			c.Ob("parts", e, ok, "the parts of a search are not joined by a separator")
			if !ok {
				return
			}
			s, adds := in.mapped(t.Args[0])
			ok = s != nil && in.complete(s) && in.spansWhole(s, parts)
			c.Ob("parts", e, ok, "not every part becomes part of the search")
			if !ok {
				return
			}
			for _, a := range adds {
				c.Ob("parts", e, in.all(a.elem, a.g, func(t *Term, g B) bool {
					return in.replacedAll(t, ";", ";;") != nil && s.elemOf(in.replacedAll(t, ";", ";;")) == parts
				}), "the separators within a part are not doubled")
			}
		})
	}
	for _, r := range in.Returns {
		c.Ob("parts", r.in, in.Implies(r.g, n), "the search is not set")
	}
	c.onlyCalls(in, func(e *Event) bool { return e.Kind == "store" && hasPathSuffix(e.Addr, "Search") })
	_ = fn
	c.Min("parts", 3)
}

// replacedAll: t is strings.ReplaceAll(x, from, to); x.
func (in *Interp) replacedAll(t *Term, from, to string) *Term {
	t = plain(t)
	if isCallTo(t, "strings.ReplaceAll") || isCallTo(t, "strings.Replace") && len(t.Args) == 4 {
		a, ok1 := t.Args[1].constStr()
		b, ok2 := t.Args[2].constStr()
		if len(t.Args) == 4 {
			if n, ok := t.Args[3].constInt(); !ok || n >= 0 {
				return nil
			}
		}
		if ok1 && ok2 && a == from && b == to {
			return t.Args[0]
		}
	}
	return nil
}

func readSelector(c *Ctx) {
	in, fn := c.opaqueRun(pageM + "SearchSelector")
	recv := in.Entry.params[0]
	isParts := func(t *Term) bool { return isCallTo(t, pageM+"SearchParts") && t.Args[0] == recv }
	var s *seqLoop
	for _, l := range in.Loops {
		if x := in.seqOf(l); x != nil && isParts(x.seq) {
			if s != nil {
				giveUp(l, "the parts of the search are visited twice")
			}
			s = x
		}
	}
	if s == nil {
		giveUp(fn, "the parts of the search are not visited")
	}
	adv := in.advanced(s.isElem)
	for _, b := range s.l.Backs {
		c.Ob("read", s.l, !in.Sat(in.And(b.abs, adv)), "the first selector of the search is passed over")
	}
	for _, x := range s.l.Exits {
		c.Ob("read", s.l, in.Implies(in.And(x.abs, s.more), adv), "the search for a selector ends at a part that is none")
	}
	// atoms that can only be one way
	real := in.partFacts(s)
	none := in.And(s.l.AbsEntry, in.Not(s.more))
	some := in.And(s.more, adv)
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[0], in.And(r.g, real), func(t *Term, g B) {
			if t.Op == "extract" && t.Aux == "0" && isCallTo(t.Args[0], parseSel) {
				x := t.Args[0].Args[0]
				ok := false
				switch {
				case x.Op == "slice" && len(x.Args) == 2:
					n, isC := x.Args[1].constInt()
					ok = isC && n == int64(len(advancedPart)) && s.isElem(x.Args[0])
				case isCallTo(x, "strings.TrimPrefix"):
					p, isC := x.Args[1].constStr()
					ok = isC && p == advancedPart && s.isElem(x.Args[0])
				}
				c.Ob("read", r.in, ok && in.Implies(g, some), "something else than the selector of the search is parsed: %s", in.S(x))
				c.Ob("read", r.in, in.all(r.vals[1], g, func(e *Term, g B) bool { return e.Op == "extract" && e.Aux == "1" && e.Args[0] == t.Args[0] }), "a selector that does not parse goes unnoticed")
				return
			}
			// an empty selector
			empty := in.anyAtom(func(t *Term) bool {
				if t.Op != "eq" {
					return false
				}
				n, ok := t.Args[1].constInt()
				return ok && n == int64(len(advancedPart)) && t.Args[0].Op == "len" && s.isElem(t.Args[0].Args[0])
			})
			c.Ob("read", r.in, in.Implies(g, in.Or(none, in.And(some, empty))), "the selector of the search is ignored")
			zero := true
			if t.isNil() {
				zero = false
			} else {
				v := in.load(r.mem, t, deref(t.Typ))
				for _, f := range []string{"MatchExpressions", "MatchLabels"} {
					zero = zero && in.all(in.fieldOf(v, f), g, func(t *Term, g B) bool { e, ok := in.emptySeq(t); return ok && e || t.Op == "makemap" })
				}
			}
			c.Ob("read", r.in, zero, "a search without selector has one")
			c.Ob("read", r.in, in.all(r.vals[1], g, func(e *Term, g B) bool { return e.isNil() }), "a search without selector is an error")
		})
	}
	c.onlyCalls(in, func(e *Event) bool { return false })
	c.Min("read", 5)
}

// partFacts: a part with the prefix of a selector is not empty.
func (in *Interp) partFacts(s *seqLoop) B {
	adv := in.advanced(s.isElem)
	r := bTrue
	for v, a := range in.atoms {
		if a.Op == "nonempty" && s.isElem(a.Args[0]) {
			r = in.And(r, in.Or(in.Not(adv), in.Var(v)))
		}
	}
	return r
}

func readClusters(c *Ctx) {
	in, fn := c.opaqueRun(pageM + "GetClusters")
	recv := in.Entry.params[0]
	parsed := func(t *Term) bool {
		return t.Op == "extract" && t.Aux == "0" && isCallTo(t.Args[0], pageM+"SearchSelector") && t.Args[0].Args[0] == recv
	}
	failed := in.Not(in.testAtom(isNilCmp(func(t *Term) bool {
		return t.Op == "extract" && t.Aux == "1" && isCallTo(t.Args[0], pageM+"SearchSelector")
	})))
	isNil := in.anyAtom(isNilCmp(func(t *Term) bool { return t == recv }))
	var s *seqLoop
	for _, l := range in.Loops {
		if x := in.seqOf(l); x != nil && ofSelector(x.seq, parsed, "MatchExpressions") {
			s = x
		}
	}
	if s == nil {
		giveUp(fn, "the requirements of the search are not visited")
	}
	is := in.anyAtom(func(t *Term) bool {
		if t.Op != "eq" || !hasPathSuffix(t.Args[0], "Key") || !mentions(t.Args[0], s.isElem) {
			return false
		}
		k, ok := plain(t.Args[1]).constStr()
		return ok && k == "cluster"
	})
	for _, b := range s.l.Backs {
		c.Ob("clusters", s.l, !in.Sat(in.And(b.abs, is)), "the clusters of the search are passed over")
	}
	for _, e := range in.calls(pageM + "SearchSelector") {
		c.Ob("clusters", e, in.Implies(e.Guard, in.Not(isNil)), "the search of no page is read")
	}
	some := 0
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[0], r.g, func(t *Term, g B) {
			root, p := fieldPath(t)
			if len(p) == 1 && p[0] == "Values" && s.isElem(root) {
				some++
				c.Ob("clusters", r.in, in.Implies(g, is), "the values of another requirement are taken for clusters")
				return
			}
			e, ok := in.emptySeq(t)
			c.Ob("clusters", r.in, ok && e && in.Implies(g, in.Or(in.Or(isNil, failed), in.And(s.l.AbsEntry, in.Not(s.more)))), "a search that names clusters is said to name none")
		})
	}
	c.Ob("clusters", fn, some > 0, "clusters are never returned")
	c.onlyCalls(in, func(e *Event) bool { return false })
	c.Min("clusters", 5)
}
