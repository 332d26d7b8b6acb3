package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C24", Rule: "every return of the options writer either leaves them alone (empty page) or carries exactly the page given next to every other requirement; both decoders read the value the encoder writes, in the same encoding",
		Trust: []string{"encoding/base64, encoding/json, FormatLabelSelector"},
		Run:   listOptionsRule})
	register(&Rule{ID: "C25", Rule: "value flow through each method of the search: what is written is the old search with exactly the one entry replaced",
		Run: searchRule})
	register(&Rule{ID: "C35", Rule: "the pieces of a value are contiguous from its start to its end (linear arithmetic over the loop), numbered in order and short enough; merging concatenates what follows the number; no byte given to the encoder leads to a character that is not allowed, decided per class of characters",
		Trust: []string{"encoding/base64, encoding/json, fmt, sort.Strings"},
		Run:   splitRule})
	register(&Rule{ID: "C36", Rule: "every effect of an iteration of the scanner is the one of a separator, of a doubled separator or of an ordinary byte, by path condition",
		Run: partsRule})
}

// opaqueRun analyses an exported function with every other exported function
// of the same packages as a unit.
func (c *Ctx) opaqueRun(name string) (*Interp, *ssa.Function) {
	var fn *ssa.Function
	for _, f := range c.P.AllFuncs {
		if f.Blocks != nil && f.Synthetic == "" && funcName(f) == name {
			fn = f
		}
	}
	if fn == nil {
		giveUp(nil, "%s was not found", name)
	}
	in := newInterp(c.P)
	in.Opaque = func(g *ssa.Function) bool { return g != fn && defaultOpaque(g) }
	c.Analyse(in, fn, nil)
	return in, fn
}

// selectorArg: the requirements and labels of a selector handed to a call.
func (in *Interp) selectorArg(x *Term) (expr, lab *Term) {
	v := x
	for v.Op == "ptrver" {
		v = v.Args[0]
	}
	if v.Op == "ptrto" {
		for _, m := range v.Args[1:] {
			if m.Aux == "MatchLabels" {
				lab = m.Args[0]
			}
		}
		v = v.Args[0]
	} else {
		v = in.load(newMem(), v, deref(v.Typ))
	}
	expr = in.fieldOf(v, "MatchExpressions")
	if lab == nil {
		lab = in.mapContent(newMem(), in.fieldOf(v, "MatchLabels"))
	}
	return
}

// ofSelector: t is this field of the selector sel (a pointer), unchanged.
func ofSelector(t *Term, sel func(*Term) bool, field string) bool {
	if t.Op == "map0" {
		t = t.Args[0]
	}
	root, p := fieldPath(t)
	return len(p) == 1 && p[0] == field && sel(root)
}

// replaced: t holds every requirement of the old selector whose key is not the
// one given, once, and further ones, which are returned.
func (in *Interp) replaced(t *Term, g B, old func(*Term) bool, key string) (added []growth, why string) {
	take := func(t *Term, g B) (*Term, B) {
		for t.Op == "append" && t.Args[1].Op == "slicelit" {
			for _, e := range t.Args[1].Args {
				added = append(added, growth{e, g, nil})
			}
			t = t.Args[0]
		}
		return t, g
	}
	in.each(t, g, func(t *Term, g B) {
		t, g = take(t, g)
		li := in.loopInfo[t]
		if li == nil {
			// all of them at once
			why = "the other requirements are not kept"
			return
		}
		in.each(li.Init, g, func(t *Term, g B) {
			t, g = take(t, g)
			switch {
			case t.Op == "slicelit":
				for _, e := range t.Args {
					added = append(added, growth{e, g, nil})
				}
			default:
				if e, ok := in.emptySeq(t); !ok || !e {
					why = "the requirements do not start from the new one"
				}
			}
		})
		s := in.countOf(li.Loop)
		if s == nil || len(s.bound) != 1 || s.seq == nil || !ofSelector(s.seq, old, "MatchExpressions") {
			why = "the requirements kept are not those of the selector"
			return
		}
		if in.Sat(in.And(g, s.more)) {
			why = "a requirement is left out"
		}
		is := bFalse
		for v, a := range in.atoms {
			if a.Op == "eq" && hasPathSuffix(a.Args[0], "Key") && mentions(a.Args[0], s.isElem) {
				if k, ok := plain(a.Args[1]).constStr(); ok && k == key {
					is = in.Or(is, in.Var(v))
				}
			}
		}
		for _, b := range li.Back {
			in.each(b.T, b.G, func(v *Term, g B) {
				switch {
				case v == t:
					if !in.Implies(g, is) {
						why = "a requirement for another key is dropped"
					}
				case v.Op == "append" && v.Args[0] == t && v.Args[1].Op == "slicelit" && len(v.Args[1].Args) == 1 && s.isElem(stripLoad(v.Args[1].Args[0])):
					if in.Sat(in.And(g, is)) {
						why = "the old requirement for the key is kept"
					}
				default:
					why = "a requirement is changed"
				}
			})
		}
	})
	return
}

func stripLoad(t *Term) *Term {
	if t.Op == "load" {
		return t.Args[0]
	}
	return t
}

// requirement: e is the requirement with this key and operator and values.
func (in *Interp) requirement(e *Term, g B, key, op string, values func(*Term, B) bool) string {
	str := func(f, want string) bool {
		return in.all(in.fieldOf(e, f), g, func(t *Term, g B) bool {
			s, ok := plain(t).constStr()
			return ok && s == want
		})
	}
	switch {
	case !str("Key", key):
		return "the new requirement is for another key than " + key
	case !str("Operator", op):
		return "the operator of the new requirement is not " + op
	case !in.all(in.fieldOf(e, "Values"), g, values):
		return "the new requirement has other values"
	}
	return ""
}

// flavour of a base64 encoding.
func flavour(t *Term) string {
	s := ""
	pad := "padded"
	for {
		switch {
		case t.Op == "call" && isMethodCall(t, "WithPadding") && len(t.Args) == 2:
			if n, ok := t.Args[1].constInt(); ok && pad == "padded" {
				pad = map[int64]string{-1: "unpadded", '=': "padded"}[n]
			}
			t = t.Args[0]
			continue
		case t.Op == "ptrto" || t.Op == "load" || t.Op == "ptrver":
			t = t.Args[0]
			continue
		case t.Op == "global":
			s = t.Aux
		}
		break
	}
	switch {
	case strings.HasSuffix(s, "base64.StdEncoding"):
		return "std " + pad
	case strings.HasSuffix(s, "base64.RawStdEncoding"):
		return "std unpadded"
	case strings.HasSuffix(s, "base64.URLEncoding"):
		return "url " + pad
	case strings.HasSuffix(s, "base64.RawURLEncoding"):
		return "url unpadded"
	}
	return ""
}

const b64 = "(*encoding/base64.Encoding)."

func structFields(t types.Type) []string {
	var out []string
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			out = append(out, st.Field(i).Name())
		}
	}
	return out
}

func listOptionsRule(c *Ctx) {
	in, fn := c.opaqueRun(pagePkg + ".QueryListOptions")
	opts, page := in.Entry.params[0], in.Entry.params[1]
	var enc *Event
	for _, e := range in.calls(b64 + "EncodeToString") {
		if enc != nil {
			giveUp(e, "the page is encoded in two places")
		}
		enc = e
	}
	if enc == nil {
		giveUp(fn, "the page is not encoded")
	}
	isJSON := func(t *Term) bool {
		t = plain(t)
		for t.Op == "conv" || t.Op == "convert" {
			t = t.Args[0]
		}
		return t.Op == "extract" && t.Aux == "0" && isCallTo(t.Args[0], "encoding/json.Marshal") && unwrapIface(t.Args[0].Args[0]) == page
	}
	empty := in.anyAtom(eqConst("{}", isJSON))
	zero := bTrue
	for _, f := range structFields(page.Typ) {
		z := in.anyAtom(func(t *Term) bool {
			if t.Op == "nonempty" {
				return false
			}
			return t.Op == "eq" && t.Args[0] == in.fieldOf(page, f) && (t.Args[1].Aux == "0" || t.Args[1].Aux == `""`)
		})
		for _, b := range in.atomsWhere(func(t *Term) bool { return t.Op == "nonempty" && t.Args[0] == in.fieldOf(page, f) }) {
			z = in.Or(z, in.Not(b))
		}
		zero = in.And(zero, z)
	}
	empty = in.Or(empty, zero)
	empty = in.Or(empty, in.anyAtom(func(t *Term) bool {
		return t.Op == "eq" && t.Args[0] == page && t.Args[1].Op == "zero"
	}))
	parsed := func(t *Term) bool {
		if t.Op != "extract" || t.Aux != "0" || !isCallTo(t.Args[0], parseSel) {
			return false
		}
		return t.Args[0].Args[0] == in.fieldOf(opts, "LabelSelector")
	}
	c.Ob("page", enc, in.all(enc.Args[1], enc.Guard, func(t *Term, g B) bool { return mentions(t, isJSON) || in.builtFrom(t, isJSON) }), "what is encoded is not the page given")
	parseFailed := in.Not(in.anyAtom(isNilCmp(func(t *Term) bool { return t.Op == "extract" && t.Aux == "1" && isCallTo(t.Args[0], parseSel) })))
	carried := 0
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[1], r.g, func(err *Term, g B) {
			if !err.isNil() && in.isErr(err, g) {
				bad := in.Or(parseFailed, in.anyAtom(eqConst("<error>", func(t *Term) bool { return isCallTo(t, formatSel) })))
				bad = in.Or(bad, in.Not(in.anyAtom(isNilCmp(func(t *Term) bool {
					return t.Op == "extract" && t.Aux == "1" && isCallTo(t.Args[0], "encoding/json.Marshal")
				}))))
				c.Ob("error", r.in, in.Implies(g, bad), "a page is refused although there is nothing wrong")
				return
			}
			in.each(r.vals[0], g, func(t *Term, g B) {
				if t == opts {
					c.Ob("kept", r.in, in.Implies(g, empty), "a page is not put into the options")
					return
				}
				for _, f := range structFields(opts.Typ) {
					if f != "LabelSelector" {
						c.Ob("options", r.in, in.all(in.fieldOf(t, f), g, func(x *Term, _ B) bool { return x == in.fieldOf(opts, f) }), "the option %s is changed", f)
					}
				}
				in.each(in.fieldOf(t, "LabelSelector"), g, func(x *Term, g B) {
					if x == in.fieldOf(opts, "LabelSelector") {
						c.Ob("kept", r.in, in.Implies(g, empty), "a page is not put into the options")
						return
					}
					carried++
					if !isCallTo(x, formatSel) {
						c.Ob("carried", r.in, false, "the label selector is not a selector written out: %s", in.S(x))
						return
					}
					c.Ob("error", r.in, in.Implies(g, in.Not(in.testAtom(eqConst("<error>", func(t *Term) bool { return t == x })))), "a selector that cannot be written out becomes one")
					c.Ob("error", r.in, !in.Sat(in.And(g, parseFailed)), "the selector given does not parse, and that goes unnoticed")
					expr, lab := in.selectorArg(x.Args[0])
					c.Ob("carried", r.in, in.all(lab, g, func(t *Term, g B) bool { return ofSelector(t, parsed, "MatchLabels") }), "the label requirements of the options are not kept")
					added, why := in.replaced(expr, g, parsed, searchKey)
					c.Ob("carried", r.in, why == "", "%s", why)
					for _, a := range added {
						why := in.requirement(a.elem, a.g, searchKey, "NotIn", func(t *Term, g B) bool {
							return isCallTo(t, kubePkg+".SplittingValue") && t.Args[0] == enc.Result
						})
						c.Ob("carried", r.in, why == "", "%s", why)
					}
					c.Ob("carried", r.in, len(added) == 1, "the page is not put into the selector exactly once")
				})
			})
		})
	}
	c.Ob("carried", fn, carried > 0, "a page is never put into the options")
	c.Min("carried", 4)
	c.Min("kept", 1)
	c.Min("error", 3)

	// the decoder of the proxy
	f := proxyOf(c)
	decoder(c, f.in, f.fn, flavour(enc.Args[0]), true)
	c.Min("decoded", 4)
	pageRead(c, f)
	c.Min("read", 3)
}

// pageRead: a list is read from the cache without a page only if the selector
// carries none.
func pageRead(c *Ctx, f *proxyFacts) {
	in := f.in
	absent := bFalse
	for _, e := range in.calls(parseSel) {
		in.each(e.Args[0], e.Guard, func(t *Term, _ B) {
			absent = in.Or(absent, in.Not(in.nonemptyAtom(t)))
		})
	}
	n := 0
	for _, e := range in.calls(b64 + "DecodeString") {
		n++
		absent = in.Or(absent, in.Truth(in.Bin(token.EQL, e.Args[1], in.Str(""), types.Typ[types.Bool])))
	}
	if n == 0 {
		giveUp(f.fn, "the page of a request is not decoded")
	}
	for _, q := range f.query {
		c.Ob("read", q, in.Implies(in.And(q.Guard, in.Not(f.decoded())), absent), "a list is read without the page its selector carries")
	}
}

// decoder: the page a handler works with is the one of the request, in the same encoding.
func decoder(c *Ctx, in *Interp, at any, fl string, must bool) {
	n := 0
	for _, e := range in.calls("encoding/json.Unmarshal") {
		a := unwrapIface(e.Args[1])
		if a.Typ == nil || !typeIs(a.Typ, paginateTy) {
			continue
		}
		n++
		in.each(e.Args[0], e.Guard, func(t *Term, g B) {
			if t.Op != "extract" || t.Aux != "0" || !isCallTo(t.Args[0], b64+"DecodeString") {
				c.Ob("decoded", e, false, "the page is not decoded from base64: %s", in.S(t))
				return
			}
			d := t.Args[0]
			got := flavour(d.Args[0])
			c.Ob("decoded", e, got != "" && got == fl, "the page is written in the encoding %q and read in %q", fl, got)
			c.Ob("decoded", e, in.Implies(g, in.anyAtom(isNilCmp(func(t *Term) bool { return t.Op == "extract" && t.Aux == "1" && t.Args[0] == d }))), "a page that does not decode is used")
			in.each(d.Args[1], g, func(t *Term, g B) { in.pageValue(c, e, t, g, map[*Term]bool{}) })
		})
	}
	if must {
		c.Ob("decoded", at, n > 0, "the page of a request is not decoded")
	}
}

// pageValue: t is the value of the search entry of a selector.
func (in *Interp) pageValue(c *Ctx, e *Event, t *Term, g B, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if li := in.loopInfo[t]; li != nil {
		in.each(li.Init, g, func(t *Term, g B) { in.pageValue(c, e, t, g, seen) })
		is, some := bFalse, bTrue
		sl := in.seqOf(li.Loop)
		for vr, a := range in.atoms {
			if a.Op == "eq" && a.hasLoop(li.Loop) && hasPathSuffix(a.Args[0], "Key") {
				if k, ok := plain(a.Args[1]).constStr(); ok && k == searchKey {
					is = in.Or(is, in.Var(vr))
				}
			}
			if a.Op == "nonempty" && a.hasLoop(li.Loop) && hasPathSuffix(a.Args[0], "Values") {
				some = in.And(some, in.Var(vr))
			}
		}
		failed := in.Not(in.testAtom(isNilCmp(func(x *Term) bool {
			return x.Op == "extract" && x.Aux == "1" && isCallTo(x.Args[0], kubePkg+".MergeValues") && sl != nil && mentions(x, sl.isElem)
		})))
		all := sl != nil
		for _, x := range li.Loop.Exits {
			all = all && !in.Sat(in.And(in.And(x.abs, sl.more), in.Not(failed)))
		}
		c.Ob("read", e, all, "not every requirement is looked at for the page")
		for _, b := range li.Back {
			in.each(b.T, b.G, func(v *Term, g B) {
				if v == t {
					c.Ob("read", e, !in.Sat(in.And(g, in.And(is, some))), "the page of a requirement is passed over")
					return
				}
				if v.Op == "extract" && v.Aux == "0" && isCallTo(v.Args[0], kubePkg+".MergeValues") {
					c.Ob("read", e, in.Implies(g, in.anyAtom(isNilCmp(func(x *Term) bool { return x.Op == "extract" && x.Aux == "1" && x.Args[0] == v.Args[0] }))), "values that cannot be put together count as no page")
				}
				in.pageValue(c, e, v, g, seen)
			})
		}
		return
	}
	if s, ok := t.constStr(); ok && s == "" {
		return // nothing found
	}
	if t.Op == "lookup" && hasPathSuffix(stripMap0(t.Args[0]), "MatchLabels") {
		k, ok := t.Args[1].constStr()
		c.Ob("decoded", e, ok && k == searchKey, "the page is read from another label than %s", searchKey)
		return
	}
	if t.Op == "extract" && t.Aux == "0" && isCallTo(t.Args[0], kubePkg+".MergeValues") {
		v := t.Args[0].Args[0]
		root, p := fieldPath(v)
		ok := len(p) > 0 && p[len(p)-1] == "Values" && (root.Op == "index" || len(p) > 1)
		c.Ob("decoded", e, ok, "the page is not put together from the values of a requirement: %s", in.S(v))
		key := bFalse
		for vr, a := range in.atoms {
			if a.Op == "eq" && hasPathSuffix(a.Args[0], "Key") {
				ar, _ := fieldPath(a.Args[0])
				if k, ok := plain(a.Args[1]).constStr(); ok && k == searchKey && ar == root {
					key = in.Or(key, in.Var(vr))
				}
			}
		}
		for _, m := range in.calls(kubePkg + ".MergeValues") {
			if m.Result == t.Args[0] {
				c.Ob("decoded", m, in.Implies(m.Guard, key), "the page is read from a requirement for another key than %s", searchKey)
			}
		}
		return
	}
	c.Ob("decoded", e, false, "the page is read from something else: %s", in.S(t))
}

func stripMap0(t *Term) *Term {
	for t.Op == "map0" || t.Op == "mapupd" || t.Op == "mapdel" {
		t = t.Args[0]
	}
	return t
}

// builtFrom: a loop-carried value whose loop ranges over something satisfying f.
func (in *Interp) builtFrom(t *Term, f func(*Term) bool) bool {
	li := in.loopInfo[t]
	if li == nil {
		return false
	}
	if li.Loop.RangeM != nil && mentions(li.Loop.RangeM, f) {
		return true
	}
	s := in.countOf(li.Loop)
	return s != nil && s.seq != nil && mentions(s.seq, f)
}
