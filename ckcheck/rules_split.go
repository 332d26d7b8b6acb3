package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// ---- pieces of a value --------------------------------------------------------

// cursor says how far a loop over the text of a value got.
type cursor struct {
	v    *Term // loop variable
	li   *LoopVarInfo
	rest bool // it is the text that is left, otherwise an offset
}

// piece is one numbered part of the value.
type piece struct {
	num    *Term
	lo, hi *Term // hi nil: to the end
	width  int   // of the number
	ok     bool
}

const (
	labelValueMax = 63
	maxPieces     = 9999
)

type splitting struct {
	c     *Ctx
	in    *Interp
	value *Term
	self  *Term // the collection
	cur   *cursor
	l     *Loop
	facts []poly
}

func splitRule(c *Ctx) {
	splitting1(c)
	merging(c)
	safeBytes(c)
}

// number: "%04d." of n.
func numberFormat(f string) (width int, rest string, ok bool) {
	if !strings.HasPrefix(f, "%0") {
		return
	}
	i := strings.Index(f, "d.")
	if i < 3 {
		return
	}
	w, err := strconv.Atoi(f[2:i])
	return w, f[i+2:], err == nil
}

// pieces: the parts of the value t may be.
func (s *splitting) pieces(t *Term, g B, f func(p piece, g B)) {
	in := s.in
	in.each(t, g, func(t *Term, g B) {
		num, text, width := s.pieceText(t)
		if num == nil {
			f(piece{}, g)
			return
		}
		in.each(text, g, func(text *Term, g B) {
			in.each(unwrapIface(text), g, func(text *Term, g B) { f(s.piece(num, text, width), g) })
		})
	})
}

func (s *splitting) pieceText(t *Term) (num, text *Term, width int) {
	switch {
	case isCallTo(t, "fmt.Sprintf"):
		f, ok := t.Args[0].constStr()
		if !ok || t.Args[1].Op != "slicelit" || len(t.Args[1].Args) != 2 {
			return
		}
		w, rest, ok := numberFormat(f)
		if !ok || rest != "%s" && rest != "%v" {
			return nil, nil, 0
		}
		num, text, width = unwrapIface(t.Args[1].Args[0]), unwrapIface(t.Args[1].Args[1]), w
	case t.Op == "concat" && len(t.Args) == 2 && isCallTo(t.Args[0], "fmt.Sprintf"):
		f, ok := t.Args[0].Args[0].constStr()
		if !ok || t.Args[0].Args[1].Op != "slicelit" || len(t.Args[0].Args[1].Args) != 1 {
			return
		}
		w, rest, ok := numberFormat(f)
		if !ok || rest != "" {
			return nil, nil, 0
		}
		num, text, width = unwrapIface(t.Args[0].Args[1].Args[0]), t.Args[1], w
	}
	return
}

func (s *splitting) piece(num, text *Term, width int) piece {
	in := s.in
	base, lo, hi := sliceOf(text)
	if lo == nil {
		lo = in.Int(0)
	}
	want := s.value
	if s.cur.rest {
		want = s.cur.v
	}
	if base != want {
		return piece{}
	}
	if in.Len(base) == hi {
		hi = nil
	}
	return piece{num, lo, hi, width, true}
}

func splitting1(c *Ctx) {
	in, fn := c.opaqueRun(kubePkg + ".SplittingValue")
	s := &splitting{c: c, in: in, value: in.Entry.params[0]}
	n := 0
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[0], r.g, func(t *Term, g B) {
			n++
			lin := newLin(in)
			if t.Op == "slicelit" && len(t.Args) == 1 && t.Args[0] == s.value {
				c.Ob("length", r.in, lin.Impossible(g, []poly{above(lin.length(s.value), constPoly(labelValueMax))}, nil), "a value that is too long for a label stays in one piece")
				return
			}
			s.result(r, t, g)
		})
	}
	c.Ob("pieces", fn, s.self != nil, "long values are not split")
	c.Min("pieces", 3)
	c.Min("length", 3)
	c.Min("numbers", 3)
}

func (s *splitting) result(r *retState, t *Term, g B) {
	in, c := s.in, s.c
	var final []*Term
	for t.Op == "append" && t.Args[1].Op == "slicelit" {
		final = append(append([]*Term(nil), t.Args[1].Args...), final...)
		t = t.Args[0]
	}
	li := in.loopInfo[t]
	if li == nil {
		c.Ob("pieces", r.in, false, "the pieces are not collected in a loop: %s", in.S(t))
		return
	}
	if e, ok := in.emptySeq(li.Init); !ok || !e {
		c.Ob("pieces", r.in, false, "the pieces do not start empty")
		return
	}
	s.self, s.l = t, li.Loop
	for v, vi := range in.loopInfo {
		if vi.Loop != s.l || vi.Init == nil || v == t {
			continue
		}
		if vi.Init == s.value {
			s.cur = &cursor{v, vi, true}
		}
	}
	if s.cur == nil {
		// the offset is what the pieces are cut with
		for v, vi := range in.loopInfo {
			if vi.Loop != s.l || vi.Init == nil || v == t {
				continue
			}
			if n, ok := vi.Init.constInt(); ok && n == 0 && s.cutsAt(v) {
				s.cur = &cursor{v, vi, false}
			}
		}
	}
	if s.cur == nil {
		giveUp(s.l, "how far the loop got in the value is not known")
	}
	lin := newLin(in)
	total := lin.length(s.value)
	size := atLeast(constPoly(dataSize), total)
	at := constPoly(0) // start of the next piece
	left := lin.length(s.cur.v)
	var facts []poly
	if !s.cur.rest {
		at = lin.expr(s.cur.v)
		left = total.plus(at, -1)
		bound := total.plus(constPoly(labelValueMax), 1)
		facts = append(facts, atLeast(at, constPoly(0)), atLeast(bound, at), size)
		for bi, b := range s.l.Backs {
			in.each(in.backOf(s.cur.li, s.l, bi), b.abs, func(next *Term, g B) {
				c.Ob("pieces", s.l, lin.Impossible(g, []poly{above(lin.expr(next), bound)}, facts, next), "the loop runs behind the end of the value")
			})
		}
	}
	facts = append(facts, size)
	// something is left whenever the loop starts over, if it only goes on then
	if s.moreLeft(lin, left, total, facts) {
		facts = append(facts, above(left, constPoly(0)))
	}
	s.facts = facts
	// each iteration cuts one piece, where the last ended
	for bi, b := range s.l.Backs {
		in.each(in.backOf(li, s.l, bi), b.abs, func(v *Term, g B) {
			if v.Op != "append" || v.Args[0] != t || v.Args[1].Op != "slicelit" || len(v.Args[1].Args) != 1 {
				c.Ob("pieces", s.l, false, "an iteration does not add one piece")
				return
			}
			x := v.Args[1].Args[0]
			s.pieces(x, g, func(p piece, g B) {
				if !c.Ob("pieces", s.l, p.ok, "a piece is not a number and a part of the value: %s", in.S(x)) {
					return
				}
				in.each(in.backOf(s.cur.li, s.l, bi), g, func(next *Term, g B) {
					in.each(p.lo, g, func(lo *Term, g B) {
						in.each(orEnd(p.hi), g, func(hi *Term, g B) { s.cut(lin, lo, hi, next, g, facts, labelValueMax-p.width-1) })
					})
				})
				s.number(p, s.l)
			})
		})
	}
	// what is left is the last piece, or nothing
	var facts2 = facts
	if len(final) == 0 {
		c.Ob("pieces", r.in, lin.Impossible(g, []poly{above(left, constPoly(0))}, facts2), "the end of the value is lost")
	}
	for k, x := range final {
		s.pieces(x, g, func(p piece, g B) {
			if !c.Ob("pieces", r.in, p.ok && k == 0, "a piece is not a number and a part of the value: %s", in.S(x)) {
				return
			}
			whole := p.hi == nil
			if p.hi != nil {
				end := total
				if s.cur.rest {
					end = left
				}
				whole = lin.polyEquals(g, lin.expr(p.hi), end, facts, p.hi)
			}
			starts := p.lo == s.cur.v
			if s.cur.rest {
				n, isC := p.lo.constInt()
				starts = isC && n == 0
			}
			c.Ob("pieces", r.in, whole && starts, "the last piece is not what is left of the value")
			c.Ob("length", r.in, lin.Impossible(g, []poly{above(left, constPoly(int64(labelValueMax-p.width-1)))}, facts), "the last piece may be too long for a label")
			c.Ob("pieces", r.in, lin.Impossible(g, []poly{atLeast(constPoly(0), left)}, facts), "the last piece may be empty, which is no label value")
			s.number(p, r.in)
		})
	}
	// two at least, one alone is taken as it is
	one := append([]poly(nil), facts...)
	eq := func(a, b poly) { one = append(one, atLeast(a, b), atLeast(b, a)) }
	if s.cur.rest {
		eq(left, total)
	} else {
		eq(at, constPoly(0))
	}
	if len(final) > 0 {
		c.Ob("pieces", r.in, lin.Impossible(g, nil, one), "a value in a single piece gets a number, which is not taken off again")
	} else if !s.cur.rest {
		// after the first iteration
		ok := true
		for bi := range s.l.Backs {
			in.each(in.backOf(s.cur.li, s.l, bi), bTrue, func(next *Term, _ B) {
				d := lin.expr(next).plus(at, -1)
				first := append([]poly(nil), facts...)
				first = append(first, atLeast(at, d), atLeast(d, at))
				ok = ok && lin.Impossible(g, nil, first) && lin.Impossible(g, nil, one)
			})
		}
		c.Ob("pieces", r.in, ok, "a value in a single piece gets a number, which is not taken off again")
	} else {
		c.Ob("pieces", r.in, false, "a value in a single piece may get a number, which is not taken off again")
	}
}

func orEnd(t *Term) *Term {
	if t == nil {
		return &Term{Op: "end"}
	}
	return t
}

// cutsAt: a piece of the value starts at v.
func (s *splitting) cutsAt(v *Term) bool {
	for _, e := range s.in.kind("slice") {
		if e.Args[0] == s.value && len(e.Args) > 1 && e.Args[1] == v {
			return true
		}
	}
	return false
}

func (s *splitting) cut(lin *Lin, lo, hi, next *Term, g B, facts []poly, max int) {
	in, c := s.in, s.c
	total := lin.length(s.value)
	if s.cur.rest {
		n, isC := lo.constInt()
		base, from, to := sliceOf(next)
		ok := isC && n == 0 && base == s.cur.v && from != nil && to == nil && hi.Op != "end"
		c.Ob("pieces", s.l, ok && lin.polyEquals(g, lin.expr(from), lin.expr(hi), facts, from, hi), "the next piece does not start where this one ends")
		if ok {
			c.Ob("length", s.l, lin.Impossible(g, []poly{above(lin.expr(hi), constPoly(int64(max)))}, facts, hi), "a piece may be too long for a label")
			c.Ob("pieces", s.l, lin.Impossible(g, []poly{atLeast(constPoly(0), lin.expr(hi))}, facts, hi), "a piece may be empty")
		}
		return
	}
	start := lin.expr(s.cur.v)
	c.Ob("pieces", s.l, lo == s.cur.v, "a piece does not start where the last one ended")
	nx := lin.expr(next)
	end := total
	if hi.Op != "end" {
		end = lin.expr(hi)
	}
	// it ends where the next starts, or both are at the end
	ok := lin.Impossible(g, []poly{above(end, nx)}, facts, next) && (lin.Impossible(g, []poly{above(nx, end)}, facts, next) ||
		lin.Impossible(g, []poly{above(total, end)}, facts, next))
	c.Ob("pieces", s.l, ok, "the next piece does not start where this one ends")
	c.Ob("length", s.l, lin.Impossible(g, []poly{above(end.plus(start, -1), constPoly(int64(max)))}, facts, next), "a piece may be too long for a label")
	c.Ob("pieces", s.l, lin.Impossible(g, []poly{atLeast(start, nx)}, facts, next), "the loop may not get on")
	c.Ob("pieces", s.l, lin.Impossible(g, []poly{atLeast(start, end)}, facts, next), "a piece may be empty, which is no label value")
	_ = in
}

// moreLeft: each way back to the start of the loop leaves something of the value.
func (s *splitting) moreLeft(lin *Lin, left, total poly, facts []poly) bool {
	in := s.in
	facts = append(append([]poly(nil), facts...), above(left, constPoly(0)))
	ok := true
	for bi, b := range s.l.Backs {
		in.each(in.backOf(s.cur.li, s.l, bi), b.abs, func(next *Term, g B) {
			if s.cur.rest {
				base, from, to := sliceOf(next)
				ok = ok && base == s.cur.v && from != nil && to == nil && lin.Impossible(g, []poly{atLeast(lin.expr(from), left)}, facts, from)
				return
			}
			ok = ok && lin.Impossible(g, []poly{atLeast(lin.expr(next), total)}, facts, next)
		})
	}
	return ok
}

// number: the numbers of the pieces go up by one and fit their digits.
func (s *splitting) number(p piece, at any) {
	in, c := s.in, s.c
	c.Ob("numbers", at, p.width == 4 || p.width == 5, "the number of a piece has not enough digits")
	n := p.num
	ok := false
	switch li := in.loopInfo[n]; {
	case li != nil && li.Loop == s.l && li.Init != nil:
		first, isC := li.Init.constInt()
		ok = isC && first >= 0 && first <= 1
		for _, b := range li.Back {
			ok = ok && in.all(b.T, b.G, func(t *Term, g B) bool { return t == in.addOne(n) })
		}
	case n.Op == "len" && n.Args[0] == s.self:
		ok = true
	case n.Op == "bin" && n.Aux == "/" && n.Args[0] == s.cur.v && !s.cur.rest:
		d, isC := n.Args[1].constInt()
		ok = isC && d > 0
		for _, b := range s.cur.li.Back {
			lin := newLin(in)
			ok = ok && lin.polyEquals(b.G, lin.expr(b.T).plus(lin.expr(s.cur.v), -1), constPoly(d), s.facts, b.T)
		}
	}
	c.Ob("numbers", at, ok, "the pieces are not numbered one by one: %s", in.S(n))
}

func (in *Interp) addOne(t *Term) *Term { return in.Bin(tokADD, t, in.Int(1), typInt) }

// ---- putting them together ----------------------------------------------------

func merging(c *Ctx) {
	in, fn := c.opaqueRun(kubePkg + ".MergeValues")
	vals := in.Entry.params[0]
	// what the path condition says of the number of values
	n := newLin(in).length(vals)
	never := func(g B, p poly) bool {
		return newLin(in).Impossible(g, []poly{p, atLeast(n, constPoly(0))}, nil, vals)
	}
	noOne := func(g B) bool {
		return newLin(in).Impossible(g, []poly{atLeast(n, constPoly(1)), atLeast(constPoly(1), n)}, nil, vals)
	}
	var sorted *Event
	for _, e := range in.calls("sort.Strings", "slices.Sort") {
		sorted = e
	}
	merged := 0
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[1], r.g, func(err *Term, g B) {
			if !err.isNil() && in.isErr(err, g) {
				c.Ob("merge", r.in, noOne(g), "a single value is refused")
				if s := mergeLoop(in, vals); s != nil {
					c.Ob("merge", r.in, in.Implies(g, in.And(s.more, in.Not(in.wellFormed(s, vals)))), "pieces are refused although there is nothing wrong with them")
				}
				return
			}
			in.each(r.vals[0], g, func(t *Term, g B) {
				if t.Op == "index" && t.Args[0] == vals {
					k, ok := t.Args[1].constInt()
					c.Ob("merge", r.in, ok && k == 0 && never(g, atLeast(n, constPoly(2))), "a single piece is taken for the value")
					return
				}
				if x, ok := t.constStr(); ok && x == "" && never(g, atLeast(n, constPoly(1))) {
					return // nothing is made of nothing
				}
				merged++
				c.Ob("merge", r.in, noOne(g), "a number is cut off a value that has none")
				c.Ob("merge", r.in, sorted != nil && sorted.inner() == nil && in.Implies(g, sorted.Guard), "the pieces are not put in order")
				why := in.mergedText(r, t, g, vals)
				c.Ob("merge", r.in, why == "", "%s", why)
			})
		})
	}
	c.Ob("merge", fn, merged > 0, "pieces are never put together")
	c.Min("merge", 5)
}

func mergeLoop(in *Interp, vals *Term) *seqLoop {
	for _, l := range in.Loops {
		if s := in.seqOf(l); s != nil && (s.seq == vals || in.sortedCopy(s.seq, vals)) {
			return s
		}
	}
	return nil
}

func (in *Interp) sortedCopy(t, vals *Term) bool {
	return in.copyOf(t, vals) || t.Op == "out" && mentions(t, func(x *Term) bool { return x == vals })
}

// wellFormed: the current value has a number and a text.
func (in *Interp) wellFormed(s *seqLoop, vals *Term) B {
	cur := func(t *Term) bool { a := s.elemOf(plain(t)); return a != nil && (a == vals || in.sortedCopy(a, vals)) }
	r := bTrue
	for v, t := range in.atoms {
		switch {
		case t.Op == "eq" && t.Args[0].Op == "len" && (isCallTo(t.Args[0].Args[0], "strings.Split") || isCallTo(t.Args[0].Args[0], "strings.SplitN")) && cur(t.Args[0].Args[0].Args[0]):
			if n, ok := t.Args[1].constInt(); ok {
				r = in.And(r, in.isVar(v, n == 2))
			}
		case t.Op == "extract" && t.Aux == "2" && isCallTo(t.Args[0], "strings.Cut") && cur(t.Args[0].Args[0]):
			r = in.And(r, in.Var(v))
		case t.Op == "lt":
			// the length of the parts
			for k := range t.Args {
				if t.Args[k].Op == "len" && isCallTo(t.Args[k].Args[0], "strings.Split", "strings.SplitN") && cur(t.Args[k].Args[0].Args[0]) {
					if n, ok := t.Args[1-k].constInt(); ok {
						r = in.And(r, in.isVar(v, k == 0 && 2 < n || k == 1 && n < 2))
					}
				}
			}
		}
	}
	return r
}

// pieceText: t is the current value without its number.
func (in *Interp) pieceText(s *seqLoop, vals, t *Term, g B) bool {
	cur := func(t *Term) bool { a := s.elemOf(plain(t)); return a != nil && (a == vals || in.sortedCopy(a, vals)) }
	t = plain(t)
	switch {
	case t.Op == "index" && isCallTo(t.Args[0], "strings.Split", "strings.SplitN"):
		n, ok := t.Args[1].constInt()
		sep, ok2 := t.Args[0].Args[1].constStr()
		if !ok || !ok2 || n != 1 || sep != "." || !cur(t.Args[0].Args[0]) {
			return false
		}
		return in.Implies(g, in.anyAtom(func(a *Term) bool {
			if a.Op != "eq" || a.Args[0].Op != "len" || a.Args[0].Args[0] != t.Args[0] {
				return false
			}
			n, ok := a.Args[1].constInt()
			return ok && n == 2
		}))
	case t.Op == "extract" && t.Aux == "1" && isCallTo(t.Args[0], "strings.Cut"):
		sep, ok := t.Args[0].Args[1].constStr()
		return ok && sep == "." && cur(t.Args[0].Args[0]) && in.Implies(g, in.anyAtom(func(a *Term) bool {
			return a.Op == "extract" && a.Aux == "2" && a.Args[0] == t.Args[0]
		}))
	}
	return false
}

// mergedText: t is the text of all pieces in order.
func (in *Interp) mergedText(r *retState, t *Term, g B, vals *Term) string {
	check := func(s *seqLoop) string {
		if s == nil || s.seq != vals && !in.sortedCopy(s.seq, vals) {
			return "the pieces are not visited one by one"
		}
		if in.Sat(in.And(g, s.more)) {
			return "a piece is left out"
		}
		return ""
	}
	switch {
	case isCallTo(t, "(*strings.Builder).String") || isCallTo(t, "(*bytes.Buffer).String"):
		s := mergeLoop(in, vals)
		if why := check(s); why != "" {
			return why
		}
		wrote := bFalse
		for _, e := range in.kind("call") {
			if !strings.HasPrefix(e.Name, "(*strings.Builder).Write") && !strings.HasPrefix(e.Name, "(*bytes.Buffer).Write") {
				continue
			}
			if !strings.HasSuffix(e.Name, ".WriteString") || e.inner() != s.l {
				return "something else is written between the pieces"
			}
			if in.Sat(in.And(wrote, e.Guard)) {
				return "a piece is written twice"
			}
			wrote = in.Or(wrote, e.Guard)
			if !in.all(e.Args[1], e.Guard, func(t *Term, g B) bool { return in.pieceText(s, vals, t, g) }) {
				return "what is put together is not the pieces"
			}
		}
		for _, b := range s.l.Backs {
			if !in.Implies(b.abs, wrote) {
				return "a piece is left out"
			}
		}
		return ""
	case isCallTo(t, "strings.Join"):
		if sep, ok := t.Args[1].constStr(); !ok || sep != "" {
			return "something is put between the pieces"
		}
		s, adds := in.mapped(t.Args[0])
		if why := check(s); why != "" {
			return why
		}
		for _, a := range adds {
			if !in.all(a.elem, a.g, func(t *Term, g B) bool { return in.pieceText(s, vals, t, g) }) {
				return "what is put together is not the pieces"
			}
		}
		return ""
	case in.loopInfo[t] != nil:
		li := in.loopInfo[t]
		s := in.countOf(li.Loop)
		if why := check(s); why != "" {
			return why
		}
		if x, ok := li.Init.constStr(); !ok || x != "" {
			return "the text does not start empty"
		}
		for _, b := range li.Back {
			if !in.all(b.T, b.G, func(v *Term, g B) bool {
				return v.Op == "concat" && len(v.Args) == 2 && v.Args[0] == t && in.all(v.Args[1], g, func(t *Term, g B) bool { return in.pieceText(s, vals, t, g) })
			}) {
				return "what is put together is not the pieces"
			}
		}
		return ""
	}
	return "what is returned is not the pieces put together: " + in.S(t)
}

// ---- bytes whose encoding is allowed --------------------------------------------

// the base64 encoding of text of these bytes has no "+" or "/" in any position:
// the last six bits of none are 62 or 63, and the others of ASCII never are.
func safeByte(n int64) bool { return n >= 0 && n < 0x80 && n&63 < 62 }

func safeBytes(c *Ctx) {
	in, fn := c.opaqueRun(pagePkg + ".QueryListOptions")
	var enc *Event
	for _, e := range in.calls(b64 + "EncodeToString") {
		enc = e
	}
	if enc == nil {
		giveUp(fn, "the page is not encoded")
	}
	if strings.HasPrefix(flavour(enc.Args[0]), "url") {
		giveUp(enc, "values may start or end with characters that are not allowed there")
	}
	c.Ob("allowed", enc, flavour(enc.Args[0]) == "std unpadded", "the padding of the encoding is not allowed in a label")
	in.each(enc.Args[1], enc.Guard, func(t *Term, g B) {
		t = plain(t)
		if t.Op == "conv" && in.loopInfo[t.Args[0]] != nil {
			t = t.Args[0]
		}
		li := in.loopInfo[t]
		if li == nil || li.Loop.RangeM == nil {
			c.Ob("allowed", enc, false, "characters whose encoding is not allowed are not replaced: %s", in.S(t))
			return
		}
		if e, ok := in.emptySeq(li.Init); !ok || !e {
			if s, ok := li.Init.constStr(); !ok || s != "" {
				c.Ob("allowed", enc, false, "the text does not start empty")
			}
		}
		l := li.Loop
		c.Ob("allowed", enc, in.Implies(g, in.Not(in.moreOf(l))), "characters are left out")
		var cur *Term
		for x := range in.allTerms() {
			if x.Op == "runeat" && x.Args[0] == l.RangeM && (x.Aux == l.Key || x.hasLoop(l)) {
				cur = x
			}
		}
		if cur == nil {
			giveUp(l, "the characters are not visited")
		}
		isCur := func(x *Term) bool {
			for x.Op == "conv" || x.Op == "convert" {
				x = x.Args[0]
			}
			return x == cur
		}
		// the classes of characters the program tells apart
		points := map[int64]bool{0: true, 0x7f: true, 0x80: true, 0xff: true, 0x100: true, 0x7ff: true, 0x800: true, 0xfffd: true, 0xffff: true, 0x10000: true, 0x10ffff: true}
		for i := int64(0); i < 0x80; i++ {
			points[i] = true
		}
		for _, a := range in.atoms {
			if !mentions(a, func(x *Term) bool { return x == cur }) {
				continue
			}
			for _, x := range a.Args {
				if n, ok := x.constInt(); ok {
					for d := int64(-1); d <= 1; d++ {
						if n+d >= 0 && n+d <= 0x10ffff {
							points[n+d] = true
						}
					}
				}
			}
		}
		for n := range points {
			if n >= 0xd800 && n < 0xe000 {
				continue
			}
			val := bTrue
			for v, a := range in.atoms {
				if a.Op == "more" || !mentions(a, func(x *Term) bool { return x == cur }) {
					continue
				}
				num := func(x *Term) (int64, bool) {
					if isCur(x) {
						return n, true
					}
					return x.constInt()
				}
				if len(a.Args) != 2 {
					giveUp(l, "a test of the characters is not understood: %s", in.S(a))
				}
				x, ok1 := num(a.Args[0])
				y, ok2 := num(a.Args[1])
				if !ok1 || !ok2 || a.Op != "eq" && a.Op != "lt" {
					giveUp(l, "a test of the characters is not understood: %s", in.S(a))
				}
				val = in.And(val, in.isVar(v, a.Op == "eq" && x == y || a.Op == "lt" && x < y))
			}
			some := false
			for bi, b := range l.Backs {
				h := in.And(b.abs, val)
				if !in.Sat(h) {
					continue
				}
				some = true
				in.each(in.backOf(li, l, bi), h, func(v *Term, g B) {
					if v.Op != "append" && v.Op != "concat" || v.Args[0] != t {
						c.Ob("allowed", l, false, "the character %#x is dropped", n)
						return
					}
					c.Ob("allowed", l, in.writesRune(v.Args[1], n, isCur), "the character %#x is not written as itself or escaped, or its encoding may not be allowed in a label", n)
				})
			}
			c.Ob("allowed", l, some, "the character %#x ends the loop", n)
		}
	})
	c.Min("allowed", 100)
}

// writesRune: what is added stands for the character n and is safe.
func (in *Interp) writesRune(t *Term, n int64, isCur func(*Term) bool) bool {
	t = plain(t)
	for t.Op == "conv" || t.Op == "str2bytes" {
		if isCur(t) { // string(r)
			return safeByte(n)
		}
		t = t.Args[0]
	}
	if t.Op == "slicelit" && len(t.Args) == 1 {
		// '>' is escaped by the encoder of JSON already
		return isCur(plain(t.Args[0])) && (safeByte(n) || n == '>')
	}
	if !isCallTo(t, "fmt.Sprintf") || t.Args[1].Op != "slicelit" {
		return false
	}
	f, ok := t.Args[0].constStr()
	if !ok {
		return false
	}
	as := t.Args[1].Args
	switch f {
	case `\u%04x`, `\u%04X`:
		return len(as) == 1 && isCur(unwrapIface(as[0])) && n <= 0xffff
	case `\u%04x\u%04x`, `\u%04X\u%04X`:
		half := func(t *Term, i string) bool {
			t = unwrapIface(t)
			return t.Op == "extract" && t.Aux == i && isCallTo(t.Args[0], "unicode/utf16.EncodeRune") && isCur(t.Args[0].Args[0])
		}
		return len(as) == 2 && n > 0xffff && half(as[0], "0") && half(as[1], "1")
	}
	return false
}

// ---- the parts of a search ------------------------------------------------------

func partsRule(c *Ctx) {
	in, fn := c.opaqueRun(pageM + "SearchParts")
	recv := in.Entry.params[0]
	isText := func(t *Term) bool {
		root, p := fieldPath(t)
		return root == recv && len(p) == 1 && p[0] == "Search"
	}
	// the scanner: a loop with a position, the start of the current part and the parts found
	var l *Loop
	var start, pos, parts *Term
	for _, e := range in.kind("slice") {
		if !isText(e.Args[0]) || len(e.Args) < 3 || e.Args[2] == nil {
			continue
		}
		if il := e.inner(); il != nil && in.loopInfo[e.Args[1]] != nil && in.loopInfo[e.Args[2]] != nil {
			if l != nil && (l != il || start != e.Args[1] || pos != e.Args[2]) {
				giveUp(e, "parts are cut in two places")
			}
			l, start, pos = il, e.Args[1], e.Args[2]
		}
	}
	if l == nil {
		giveUp(fn, "the parts are not cut out of the search")
	}
	part := func(t *Term, lo *Term, hi *Term) bool {
		x := in.replacedAll(t, ";;", ";")
		if x == nil || x.Op != "slice" || !isText(x.Args[0]) || x.Args[1] != lo {
			return false
		}
		if hi == nil {
			return len(x.Args) == 2 || x.Args[2] == in.Len(x.Args[0])
		}
		return len(x.Args) == 3 && x.Args[2] == hi
	}
	zero := func(t *Term) bool { n, ok := t.constInt(); return ok && n == 0 }
	c.Ob("scan", l, zero(in.loopInfo[start].Init) && zero(in.loopInfo[pos].Init), "the search is not read from its start")
	for t, li := range in.loopInfo {
		if li.Loop == l && li.Init != nil {
			if e, ok := in.emptySeq(li.Init); ok && e {
				parts = t
			}
		}
	}
	if parts == nil {
		giveUp(l, "the parts are not collected")
	}
	next := in.addOne(pos)
	sepAt := func(i *Term) B {
		return in.anyAtom(func(t *Term) bool {
			if t.Op != "eq" || t.Args[0].Op != "index" || !isText(t.Args[0].Args[0]) || t.Args[0].Args[1] != i {
				return false
			}
			n, ok := t.Args[1].constInt()
			return ok && n == ';'
		})
	}
	sep, sep2 := sepAt(pos), sepAt(next)
	if sep == bFalse || sep2 == bFalse {
		giveUp(l, "separators are not looked for")
	}
	for bi, b := range l.Backs {
		in.each(in.backOf(in.loopInfo[parts], l, bi), b.abs, func(ps *Term, g B) {
			in.each(in.backOf(in.loopInfo[start], l, bi), g, func(st *Term, g B) {
				in.each(in.backOf(in.loopInfo[pos], l, bi), g, func(po *Term, g B) {
					step := po.Op == "addc" && po.Args[0] == pos
					c.Ob("scan", l, step && (po == next || po == in.addOne(next)), "the scan does not go on by one or two bytes")
					two := po == in.addOne(next)
					if ps == parts && st == start {
						c.Ob("scan", l, in.Implies(g, in.Or(in.Not(sep), sep2)), "a separator is passed over")
						c.Ob("scan", l, two == in.Sat(in.And(g, in.And(sep, sep2))) && (!two || in.Implies(g, in.And(sep, sep2))), "a doubled separator is not passed over as a whole, or something else is")
						return
					}
					ok := ps.Op == "append" && ps.Args[0] == parts && ps.Args[1].Op == "slicelit" && len(ps.Args[1].Args) == 1 && part(ps.Args[1].Args[0], start, pos)
					c.Ob("scan", l, ok, "what is cut out is not the part up to the separator")
					c.Ob("scan", l, st == next && !two, "the next part does not start behind the separator")
					c.Ob("scan", l, in.Implies(g, in.And(sep, in.Not(sep2))), "the search is cut at something else than a single separator")
				})
			})
		})
	}
	// the end: positions with a byte behind them are looked at
	lin := newLin(in)
	var text *Term
	for _, e := range in.kind("slice") {
		if isText(e.Args[0]) {
			text = e.Args[0]
		}
	}
	L := lin.length(text)
	at := lin.expr(pos)
	facts := []poly{atLeast(constPoly(dataSize), L), atLeast(at, constPoly(0)), atLeast(L.plus(constPoly(1), 1), at)}
	for bi, b := range l.Backs {
		in.each(in.backOf(in.loopInfo[pos], l, bi), b.abs, func(n *Term, g B) {
			c.Ob("scan", l, lin.Impossible(g, []poly{above(lin.expr(n), L.plus(constPoly(1), 1))}, facts, n), "the scan runs behind the end of the search")
		})
	}
	for _, x := range l.Exits {
		c.Ob("scan", l, lin.Impossible(x.abs, []poly{above(L.plus(constPoly(1), -1), at)}, facts), "the scan ends before the end of the search")
	}
	// what is returned: the parts that are not empty, and the rest
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[0], r.g, func(t *Term, g B) { partsResult(c, in, r, t, g, l, parts, start, part) })
	}
	c.Min("scan", 6)
	c.Min("result", 3)
}

func partsResult(c *Ctx, in *Interp, r *retState, t *Term, g B, scan *Loop, parts, start *Term, part func(t, lo, hi *Term) bool) {
	li := in.loopInfo[t]
	if li == nil {
		giveUp(r.in, "the parts that are not empty are not collected: %s", in.S(t))
	}
	if e, ok := in.emptySeq(li.Init); !ok || !e {
		c.Ob("result", r.in, false, "the parts do not start empty")
	}
	s := in.seqOf(li.Loop)
	if s == nil {
		giveUp(li.Loop, "the parts are not visited one by one")
	}
	c.Ob("result", li.Loop, s.seq.Op == "append" && s.seq.Args[0] == parts && s.seq.Args[1].Op == "slicelit" && len(s.seq.Args[1].Args) == 1 && part(s.seq.Args[1].Args[0], start, nil), "the last part is not what is left of the search")
	c.Ob("result", r.in, in.Implies(g, in.And(li.Loop.AbsEntry, in.Not(s.more))), "parts are left out")
	full := in.anyAtom(func(t *Term) bool { return t.Op == "nonempty" && s.isElem(t.Args[0]) })
	for _, b := range li.Back {
		in.each(b.T, b.G, func(v *Term, g B) {
			if v == t {
				c.Ob("result", li.Loop, in.Implies(g, in.Not(full)), "a part of the search is dropped")
				return
			}
			c.Ob("result", li.Loop, v.Op == "append" && v.Args[0] == t && v.Args[1].Op == "slicelit" && len(v.Args[1].Args) == 1 && s.isElem(v.Args[1].Args[0]) && in.Implies(g, full), "an empty or another part is returned")
		})
	}
}

const tokADD = token.ADD

var typInt = types.Typ[types.Int]
