package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C33", Rule: "a list, table or object is answered only where the reads and selectors it comes from reported no error; every status that is answered is a Failure of kind Status and version v1 (or one the API server sent), with a code of an error that is also the code written to the client, after its content type",
		Run: func(c *Ctx) { failureRule(proxyOf(c)) }})
}

func failureRule(f *proxyFacts) {
	c, in := f.c, f.in
	isStatus := func(t *Term) bool { return t.Op == "iface" && typeIs(t.Args[0].Typ, metav1+".Status") }
	writes := in.calls("(net/http.ResponseWriter).WriteHeader")
	sets := in.calls("(net/http.Header).Set")
	sels := in.calls(metav1 + ".LabelSelectorAsSelector")
	unwrapConv := func(t *Term) *Term {
		for t.Op == "conv" || t.Op == "convert" {
			t = t.Args[0]
		}
		return t
	}
	// the errors of what is read
	type failing struct {
		e    *Event
		fail B
		what string
	}
	var fs []failing
	for _, e := range f.query {
		fs = append(fs, failing{e, in.Not(in.Truth(in.eq(in.fieldOf(e.Result, "Error"), in.Nil(), nil))), "the query of the cache"})
	}
	for _, e := range sels {
		failed := bFalse
		in.each(in.Extract(e.Result, 1, nil), e.Guard, func(t *Term, g B) {
			failed = in.Or(failed, in.And(g, in.Not(in.Truth(in.eq(t, in.Nil(), nil)))))
		})
		fs = append(fs, failing{e, failed, "the label selector"})
	}
	nstat, nlist := 0, 0
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[0], r.g, func(t *Term, g B) {
			if !in.Sat(g) {
				return
			}
			if isStatus(t) {
				nstat++
				f.status(r.in, in.fieldsOf(t.Args[0]), g, writes, sets, unwrapConv)
				for _, e := range f.get {
					if in.Implies(g, e.Guard) {
						v := in.fieldOf(t.Args[0], "Reason")
						c.Ob("status", r.in, in.all(v, g, func(x *Term, _ B) bool {
							s, ok := unwrapConv(x).constStr()
							return ok && s == "NotFound"
						}), "clients learn from the reason that an object is not found: %s", in.S(v))
					}
				}
				return
			}
			if t.Op == "iface" && t.Args[0].Typ != nil && isErrorType(t.Args[0].Typ) || t.Typ != nil && isErrorType(t.Typ) {
				return // answered 500 (C20)
			}
			for _, x := range fs {
				if !in.Sat(in.And(g, x.e.Guard)) {
					continue
				}
				nlist++
				c.Ob("failed", r.in, !in.Sat(in.And(in.And(g, x.e.Guard), x.fail)), "no objects are answered when %s failed: %s", x.what, in.GS(in.And(in.And(g, x.e.Guard), x.fail)))
			}
		})
	}
	for _, x := range fs {
		c.Ob("failed", x.e, in.Sat(x.fail), "a failure of %s is looked at", x.what)
	}
	c.Min("status", 4)
	c.Ob("failed", f.fn, nlist >= 2 && nstat >= 4, "failures of reads and statuses are found (%d, %d)", nlist, nstat)
}

// isErrorType: the type is error itself.
func isErrorType(t types.Type) bool { return t.String() == "error" }

type statusFields func(...string) *Term

func (in *Interp) fieldsOf(t *Term) statusFields {
	return func(n ...string) *Term { return in.fieldOf(t, n...) }
}

// status: one status that is answered.
func (f *proxyFacts) status(at ssa.Instruction, field statusFields, g B, writes, sets []*Event, unconv func(*Term) *Term) {
	c, in := f.c, f.in
	upstream := func(t *Term) bool {
		return mentions(t, func(x *Term) bool {
			return strings.Contains(x.Aux, "ErrStatus") || x.Op == "field" && x.Aux == "ErrStatus"
		})
	}
	text := func(want string, up bool, path ...string) {
		v, name := field(path...), path[len(path)-1]
		c.Ob("status", at, in.all(v, g, func(t *Term, _ B) bool {
			s, ok := unconv(t).constStr()
			return ok && s == want || up && upstream(t)
		}), "the %s of a status is %s: %s", name, want, in.S(in.Simp(v, g)))
	}
	text("Status", false, "TypeMeta", "Kind")
	text("v1", false, "TypeMeta", "APIVersion")
	text("Failure", true, "Status")
	code := field("Code")
	c.Ob("status", at, in.all(code, g, func(t *Term, _ B) bool {
		n, ok := t.constInt()
		return ok && n >= 400 && n < 600 || !ok && upstream(t)
	}), "the code of a status is that of an error: %s", in.S(in.Simp(code, g)))
	for _, w := range writes {
		h := in.And(g, w.Guard)
		if !in.Sat(h) {
			continue
		}
		in.each(w.Args[1], h, func(x *Term, h B) {
			x = unconv(x)
			c.Ob("status", w, in.all(code, h, func(t *Term, _ B) bool {
				t = unconv(t)
				a, ok1 := t.constInt()
				b, ok2 := x.constInt()
				return t == x || ok1 && ok2 && a == b
			}), "the code written is that of the status")
		})
		var typed []*Event
		for _, s := range sets {
			k, ok1 := s.Args[1].constStr()
			v, ok2 := s.Args[2].constStr()
			if ok1 && ok2 && strings.EqualFold(k, "Content-Type") && isJSONType(v) {
				typed = append(typed, s)
			}
		}
		c.Ob("status", w, in.before(w, h, typed), "the content type is set before the code is written")
	}
}
