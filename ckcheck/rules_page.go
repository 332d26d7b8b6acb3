package main

import (
	"strconv"

	"golang.org/x/tools/go/ssa"
)

const (
	labelsPkg    = "k8s.io/apimachinery/pkg/labels"
	reqMethod    = "(*" + labelsPkg + ".Requirement)."
	parseReqs    = labelsPkg + ".ParseToRequirements"
	formatSel    = metav1 + ".FormatLabelSelector"
	parseSel     = kubePkg + ".ParseToLabelSelector"
	advancedPart = "__ckube_as__:"
)

func init() {
	register(&Rule{ID: "C23", Rule: "for every operator a parsed requirement can have, each path of an iteration over the requirements adds exactly the equivalent requirement to the selector and never replaces another; the loop ends early only with an error",
		Trust: []string{"labels.ParseToRequirements"},
		Run:   parseRule})
}

// parsing is what is known about the conversion of a selector.
type parsing struct {
	c    *Ctx
	in   *Interp
	s    *seqLoop
	reqs *Term
	call *Event
}

// ofReq: t is a method call on the current requirement.
func (p *parsing) ofReq(t *Term, method string) bool {
	t = plain(t)
	if !isCallTo(t, reqMethod+method) {
		return false
	}
	x := t.Args[0]
	for x.Op == "ptrto" || x.Op == "ptrver" {
		x = x.Args[0]
	}
	return p.s.elemOf(plain(x)) == p.reqs
}

func (p *parsing) single(t *Term) bool {
	t = plain(t)
	if t.Op == "extract" {
		t = t.Args[0]
	}
	switch {
	case t.Op == "call" && isMethodCall(t, "PopAny"):
		return p.ofReq(t.Args[0], "Values")
	case t.Op == "index" && len(t.Args) == 2:
		n, ok := t.Args[1].constInt()
		return ok && n == 0 && p.list(t.Args[0])
	case t.Op == "mapkey":
		return p.ofReq(t.Args[0], "Values")
	}
	return false
}

func (p *parsing) list(t *Term) bool {
	t = plain(t)
	return t.Op == "call" && (isMethodCall(t, "List") || isMethodCall(t, "UnsortedList")) && p.ofReq(t.Args[0], "Values")
}

// operator: what the program tests about the operator, if it is op.
func (p *parsing) operator(op string) B {
	in := p.in
	g := bTrue
	for v, t := range in.atoms {
		if t.Op != "eq" || !mentions(t, func(x *Term) bool { return p.ofReq(x, "Operator") }) {
			continue
		}
		s, ok := plain(t.Args[1]).constStr()
		if !ok || !p.ofReq(t.Args[0], "Operator") {
			giveUp(p.call, "a test of the operator is not understood: %s", in.S(t))
		}
		if s == op {
			g = in.And(g, in.Var(v))
		} else {
			g = in.And(g, in.Not(in.Var(v)))
		}
	}
	return g
}

// operators of parsed requirements and the ones of the selector that mean the same.
var sameOperator = map[string]string{"=": "", "==": "", "in": "In", "!=": "NotIn", "notin": "NotIn", "exists": "Exists", "!": "DoesNotExist"}

func parseRule(c *Ctx) {
	fn := c.P.Func(parseSel)
	if fn == nil {
		giveUp(nil, "the parser of label selectors was not found")
	}
	in := newInterp(c.P)
	in.Opaque = func(f2 *ssa.Function) bool { return f2 != fn && defaultOpaque(f2) }
	c.Analyse(in, fn, nil)
	p := &parsing{c: c, in: in}
	for _, e := range in.calls(parseReqs) {
		if p.call != nil {
			giveUp(e, "the selector is parsed twice")
		}
		p.call = e
	}
	if p.call == nil {
		giveUp(fn, "the selector is not parsed")
	}
	c.Ob("input", p.call, in.all(p.call.Args[0], p.call.Guard, func(t *Term, g B) bool { return t == in.Entry.params[0] }), "something else than the selector given is parsed")
	p.reqs = in.extractOf(p.call.Result, 0)
	perr := in.extractOf(p.call.Result, 1)
	failed := in.Not(in.Truth(in.eq(perr, in.Nil(), nil)))
	good := 0
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[1], r.g, func(t *Term, g B) {
			if in.isErr(t, g) {
				p.errorReturn(r, g, failed)
				return
			}
			good++
			c.Ob("parse-error", r.in, t.isNil() || t == perr, "what is returned as error is not understood")
			c.Ob("parse-error", r.in, !in.Sat(in.And(g, failed)), "a selector that does not parse is accepted")
			p.result(r, g)
		})
	}
	c.Ob("result", fn, good > 0, "no selector is ever returned")
	c.Min("operator", len(sameOperator)+3)
	c.Min("result", 2)
	c.Min("parse-error", 2)
}

// errorReturn: an error is only due to the parser, or to operators a selector does not have.
func (p *parsing) errorReturn(r *retState, g, failed B) {
	in := p.in
	c := p.c
	g = in.And(g, in.Not(failed))
	if !in.Sat(g) {
		return
	}
	if p.s == nil {
		for _, l := range in.Loops {
			if s := in.countOf(l); s != nil && in.spansWhole(s, p.reqs) {
				p.s = s
			}
		}
	}
	if p.s == nil {
		giveUp(r.in, "the requirements are not visited one by one")
	}
	// an equality always has one value
	one := bTrue
	for v, t := range in.atoms {
		switch {
		case t.Op == "eq" && isMethodCall(plain(t.Args[0]), "Len") && p.ofReq(plain(t.Args[0]).Args[0], "Values"):
			if n, ok := t.Args[1].constInt(); ok {
				if n == 1 {
					one = in.And(one, in.Var(v))
				} else {
					one = in.And(one, in.Not(in.Var(v)))
				}
			}
		case t.Op == "extract" && isMethodCall(t.Args[0], "PopAny") && p.ofReq(t.Args[0].Args[0], "Values"):
			one = in.And(one, in.Var(v))
		case t.Op == "lt" && t.Args[0].Op == "len" && p.list(t.Args[0].Args[0]):
			n, ok := t.Args[1].constInt()
			if ok {
				one = in.And(one, in.isVar(v, n > 1))
			}
		}
	}
	for op, to := range sameOperator {
		h := in.And(g, p.operator(op))
		if to == "" {
			h = in.And(h, one)
		}
		p.c.Ob("operator", r.in, !in.Sat(h), "a selector with the operator %q is refused", op)
	}
	c.Ob("operator", r.in, in.Implies(g, p.s.more), "an error is returned although there is nothing wrong")
}

func (p *parsing) result(r *retState, g B) {
	in, c := p.in, p.c
	in.each(r.vals[0], g, func(ptr *Term, g B) {
		if ptr.isNil() {
			c.Ob("result", r.in, false, "no selector is returned and no error")
			return
		}
		v := in.load(r.mem, ptr, deref(ptr.Typ))
		// requirements
		exprs := in.fieldOf(v, "MatchExpressions")
		labels := in.mapContent(r.mem, in.fieldOf(v, "MatchLabels"))
		cl := in.collected(exprs)
		if cl.why != "" || len(cl.loops) != 1 {
			giveUp(r.in, "the requirements of the selector are not collected in one loop: %s", cl.why)
		}
		l := cl.loops[0]
		s := in.countOf(l)
		if s == nil || !in.spansWhole(s, p.reqs) {
			giveUp(l, "the loop does not visit all parsed requirements")
		}
		p.s = s
		c.Ob("result", r.in, in.Implies(g, in.And(l.AbsEntry, in.Not(s.more))), "a selector is returned before all requirements were visited")
		li := in.loopInfo[labels]
		if li != nil && li.Loop != l {
			giveUp(l, "labels are collected in another loop")
		}
		if li != nil {
			c.Ob("result", l, in.all(li.Init, bTrue, func(t *Term, g B) bool { return t.Op == "emptymap" }), "the labels do not start empty")
		} else {
			c.Ob("result", r.in, labels.Op == "emptymap", "the labels of the selector are not understood")
		}
		ops := []string{"gt", "lt", "?"}
		for op := range sameOperator {
			ops = append(ops, op)
		}
		for _, op := range ops {
			val := p.operator(op)
			any := false
			for bi, b := range l.Backs {
				h := in.And(b.abs, val)
				if !in.Sat(h) {
					continue
				}
				any = true
				to, ok := sameOperator[op]
				if !ok {
					c.Ob("operator", l, false, "a requirement with the operator %q is passed over", op)
					continue
				}
				p.effect(l, cl, labels, bi, h, op, to)
			}
			if _, ok := sameOperator[op]; ok {
				c.Ob("operator", l, any, "a requirement with the operator %q ends the loop", op)
			} else {
				c.Ob("operator", l, !any, "a requirement with the operator %q is accepted", op)
			}
		}
	})
}

// effect: what one iteration adds under h.
func (p *parsing) effect(l *Loop, cl *collection, labels *Term, bi int, h B, op, to string) {
	in, c := p.in, p.c
	none := h
	// expressions
	ei := in.loopInfo[cl.t]
	in.each(in.backOf(ei, l, bi), h, func(v *Term, g B) {
		if v == cl.t {
			return
		}
		none = in.And(none, in.Not(g))
		c.Ob("operator", l, !in.Sat(in.And(g, p.labelled(l, labels, bi))), "a requirement with the operator %q is added twice", op)
		if v.Op != "append" || v.Args[0] != cl.t || v.Args[1].Op != "slicelit" || len(v.Args[1].Args) != 1 {
			c.Ob("operator", l, false, "a requirement with the operator %q does not become one requirement", op)
			return
		}
		x := v.Args[1].Args[0]
		c.Ob("operator", l, in.all(in.fieldOf(x, "Key"), g, func(t *Term, g B) bool { return p.ofReq(t, "Key") }), "a requirement with the operator %q gets another key", op)
		want := to
		if to == "" {
			want = "In"
		}
		c.Ob("operator", l, in.all(in.fieldOf(x, "Operator"), g, func(t *Term, g B) bool {
			s, ok := plain(t).constStr()
			return ok && s == want
		}), "a requirement with the operator %q does not become %q", op, want)
		c.Ob("operator", l, in.all(in.fieldOf(x, "Values"), g, func(t *Term, g B) bool {
			if p.list(t) {
				return true
			}
			if e, ok := in.emptySeq(t); ok && e {
				return op == "exists" || op == "!"
			}
			return to == "" && t.Op == "slicelit" && len(t.Args) == 1 && in.all(t.Args[0], g, func(t *Term, g B) bool { return p.single(t) })
		}), "a requirement with the operator %q gets other values", op)
	})
	// labels
	if li := in.loopInfo[labels]; li != nil {
		in.each(in.backOf(li, l, bi), h, func(v *Term, g B) {
			if v == labels {
				return
			}
			none = in.And(none, in.Not(g))
			ok := v.Op == "mapupd" && v.Args[0] == labels
			ok = ok && in.all(v.Args[1], g, func(t *Term, g B) bool { return p.ofReq(t, "Key") })
			ok = ok && in.all(v.Args[2], g, func(t *Term, g B) bool { return p.single(t) })
			c.Ob("operator", l, ok && to == "", "a requirement with the operator %q becomes another label requirement", op)
			if !ok {
				return
			}
			// an earlier requirement for the key with another value must stay
			has, same := p.earlier(labels)
			c.Ob("kept", l, in.Implies(in.And(g, has), same), "an equality replaces an earlier one of the same key")
		})
	}
	if to == "" {
		// it holds already
		has, same := p.earlier(labels)
		none = in.And(none, in.Not(in.And(has, same)))
	}
	c.Ob("operator", l, !in.Sat(none), "a requirement with the operator %q is dropped", op)
}

// earlier: there is a label requirement for the key, and it has the same value.
func (p *parsing) earlier(labels *Term) (has, same B) {
	in := p.in
	has = in.testAtom(func(t *Term) bool {
		return t.Op == "has" && t.Args[0] == labels && p.ofReq(t.Args[1], "Key")
	})
	same = in.anyAtom(func(t *Term) bool {
		if t.Op != "eq" {
			return false
		}
		for i := range t.Args {
			if o := plain(t.Args[i]); o.Op == "lookup" && o.Args[0] == labels && p.ofReq(o.Args[1], "Key") && p.single(t.Args[1-i]) {
				return true
			}
		}
		return false
	})
	return
}

// labelled: the iteration sets a label requirement.
func (p *parsing) labelled(l *Loop, labels *Term, bi int) B {
	in := p.in
	li := in.loopInfo[labels]
	r := bFalse
	if li != nil {
		in.each(in.backOf(li, l, bi), bTrue, func(v *Term, g B) {
			if v != labels {
				r = in.Or(r, g)
			}
		})
	}
	return r
}

// backOf: the value of a loop-carried location at the end of an iteration.
func (in *Interp) backOf(li *LoopVarInfo, l *Loop, bi int) *Term {
	for _, a := range li.Back {
		if a.G == l.Backs[bi].abs {
			return a.T
		}
	}
	giveUp(l, "the value carried around the loop is not known")
	return nil
}

func (in *Interp) isVar(v int, val bool) B {
	if val {
		return in.Var(v)
	}
	return in.Not(in.Var(v))
}

// extractOf: result number i of a call.
func (in *Interp) extractOf(call *Term, i int) *Term {
	for t := range in.allTerms() {
		if t.Op == "extract" && t.Args[0] == call && t.Aux == strconv.Itoa(i) {
			return t
		}
	}
	giveUp(nil, "result %d of %s is not used", i, in.S(call))
	return nil
}

// spansWhole: the loop visits the whole of seq in order.
func (in *Interp) spansWhole(s *seqLoop, seq *Term) bool {
	if n, ok := s.first.constInt(); !ok || n != 0 || len(s.bound) == 0 {
		return false
	}
	for _, b := range s.bound {
		if !in.all(b.T, b.G, func(t *Term, g B) bool { return t == in.Len(seq) || t.Op == "len" && t.Args[0] == seq }) {
			return false
		}
	}
	return true
}
