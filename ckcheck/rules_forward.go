package main

import (
	"go/types"
	"strings"
)

// peelUpd removes field updates from a struct content or pointer to one.
func peelUpd(t *Term) (*Term, map[string]*Term) {
	ups := map[string]*Term{}
	for {
		switch t.Op {
		case "upd":
			if _, ok := ups[t.Aux]; !ok {
				ups[t.Aux] = t.Args[1]
			}
			t = t.Args[0]
			continue
		case "ptrto", "ptrver":
			t = t.Args[0]
			continue
		}
		return t, ups
	}
}

// forwardURI: the request URI of a forward is the URL of the request with an
// updated query; returns the raw query.
func (f *proxyFacts) forwardURI(t *Term) (raw *Term, ok bool) {
	if t.Op != "call" || !(isCallTo(t, "(*net/url.URL).String") || isCallTo(t, "(*net/url.URL).RequestURI")) {
		return nil, false
	}
	b, ups := peelUpd(t.Args[0])
	for k := range ups {
		if k != "RawQuery" {
			return nil, false
		}
	}
	if !isReqField(b, "URL") {
		return nil, false
	}
	if ups["RawQuery"] == nil {
		return nil, true
	}
	return ups["RawQuery"], true
}

// bodyIs tells what the forwarded body is made of.
func (f *proxyFacts) bodyContent(t *Term, g B) *Term {
	in := f.in
	for i := 0; i < 12; i++ {
		t = in.Simp(t, g)
		switch {
		case t.Op == "iface":
			t = t.Args[0]
			continue
		case t.Op == "call" && (strings.HasPrefix(callName(t), "bytes.NewReader") || strings.HasPrefix(callName(t), "bytes.NewBuffer") || strings.HasPrefix(callName(t), "strings.NewReader") || strings.HasSuffix(callName(t), ".NopCloser")):
			t = t.Args[0]
			continue
		case t.Op == "ptrto", t.Op == "ptrver", t.Op == "str2bytes", t.Op == "convert":
			t = t.Args[0]
			continue
		case t.Op == "upd" && t.Args[0].Op == "zero": // a wrapper with one field
			t = t.Args[1]
			continue
		}
		break
	}
	return t
}

func init() {
	register(&Rule{ID: "C04", Rule: "for every way a forward can be built the path condition entails the verb equals the request's method, the URI is the request's URL, requests other than GET carry the request's body; the bytes and the error status of the API server reach the client unchanged",
		Run: func(c *Ctx) {
			f := proxyOf(c)
			in := f.in
			for _, e := range f.fwd {
				for _, ch := range f.chains(e) {
					if ch.bad != "" {
						c.Ob("request", e, false, "%s", ch.bad)
						continue
					}
					switch {
					case ch.vt != nil:
						c.Ob("verb", e, in.all(ch.vt, ch.g, func(t *Term, g B) bool {
							if isReqField(t, "Method") {
								return true
							}
							s, ok := t.constStr()
							return ok && in.Implies(g, f.methodIs(s))
						}), "the verb is the method of the request")
					case ch.verb != "":
						c.Ob("verb", e, in.Implies(ch.g, f.methodIs(ch.verb)), "a %s is only sent for a %s request", ch.verb, ch.verb)
					default:
						c.Ob("verb", e, false, "the verb of the forward is unknown")
					}
					if ch.pt != nil {
						c.Ob("patch-type", e, in.all(ch.pt, ch.g, func(t *Term, g B) bool {
							return mentions(t, func(x *Term) bool { s, ok := x.constStr(); return ok && strings.EqualFold(s, "Content-Type") }) && mentions(t, func(x *Term) bool { return isReqField(x, "Header") })
						}), "a patch is sent with the content type of the request")
					}
					if ch.uri == nil {
						c.Ob("uri", e, false, "no URI is set")
					} else {
						c.Ob("uri", e, in.all(ch.uri, ch.g, func(t *Term, g B) bool { _, ok := f.forwardURI(t); return ok }), "the URI is that of the request")
					}
					get := f.methodIs("GET")
					ng := in.And(ch.g, in.Not(get))
					if !in.Sat(ng) {
						continue
					}
					if ch.body == nil {
						c.Ob("body", e, false, "a request other than GET is sent without its body")
						continue
					}
					del := f.methodIs("DELETE")
					c.Ob("body", e, in.all(ch.body, ng, func(t *Term, g B) bool {
						b := f.bodyContent(t, g)
						if isReqField(b, "Body") {
							// the original reader: unread, or failed to read
							read := in.calls("io.ReadAll", "io/ioutil.ReadAll")
							for _, r := range read {
								if !isReqField(r.Args[0], "Body") {
									continue
								}
								failed := in.Not(in.testAtom(isNilCmp(func(x *Term) bool {
									return x.Op == "extract" && x.Args[0] == r.Result || x.Op == "extract" && isBodyRead(x.Args[0])
								})))
								if in.Sat(in.And(in.And(g, r.Guard), in.Not(failed))) {
									return false
								}
							}
							return true
						}
						if b.Op == "extract" && isBodyRead(b.Args[0]) && b.Aux == "0" {
							return true
						}
						if b.Op == "extract" && b.Aux == "0" && isCallTo(b.Args[0], "encoding/json.Marshal") {
							return in.Implies(g, del) // its content is decided with the markers
						}
						return false
					}), "requests other than GET are sent with the body they came with")
				}
				if strings.HasSuffix(e.Name, ".DoRaw") {
					c.rawResult(f, e)
				}
				c.errResult(f, e)
			}
			c.Min("verb", 6)
			c.Min("raw", 1)
			c.Min("status", 2)
		}})

	register(&Rule{ID: "C05", Rule: "on every path to a forward the query loses exactly the marker parameters, the delete options lose exactly the marker entry; the helpers that write markers use the prefix and the parameters the handler reads",
		Run: markerRule})
}

// rawResult: the bytes read are what is returned.
func (c *Ctx) rawResult(f *proxyFacts, e *Event) {
	in := f.in
	errT := in.Extract(e.Result, 1, nil)
	okG := in.And(e.Guard, in.Truth(in.eq(errT, in.Nil(), nil)))
	d := bFalse
	for _, r := range in.Returns {
		g := in.And(r.g, okG)
		if !in.Sat(g) {
			continue
		}
		d = in.Or(d, r.g)
		c.Ob("raw", r.in, in.all(r.vals[0], g, func(t *Term, g B) bool {
			t = unwrapIface(t)
			return t.Op == "extract" && t.Aux == "0" && t.Args[0] == e.Result
		}), "the bytes of the API server are what is answered")
	}
	c.Ob("raw", e, in.Implies(okG, d), "a successful forward returns")
}

// errResult: a status error is answered as that status, other errors are returned.
func (c *Ctx) errResult(f *proxyFacts, e *Event) {
	in := f.in
	errT := in.Extract(e.Result, 1, nil)
	failed := in.And(e.Guard, in.Not(in.Truth(in.eq(errT, in.Nil(), nil))))
	isStatus := func(t *Term) bool {
		_, p := fieldPath(t)
		return len(p) > 0 && p[0] == "ErrStatus" && mentions(t, func(x *Term) bool { return x == errT })
	}
	d := bFalse
	for _, r := range in.Returns {
		g := in.And(r.g, failed)
		if !in.Sat(g) {
			continue
		}
		d = in.Or(d, r.g)
		c.Ob("status", r.in, in.all(r.vals[0], g, func(t *Term, g B) bool {
			if t == errT {
				return true
			}
			u := unwrapIface(t)
			b, ups := peelUpd(u)
			for k := range ups {
				if k != "TypeMeta" {
					return false
				}
			}
			if !isStatus(b) {
				return false
			}
			// and with its own code
			return in.all2(in.calls("(net/http.ResponseWriter).WriteHeader"), g, func(w *Event) bool {
				return in.all(w.Args[1], in.And(g, w.Guard), func(t *Term, g B) bool {
					for t.Op == "convert" {
						t = t.Args[0]
					}
					_, p := fieldPath(t)
					return len(p) > 0 && p[len(p)-1] == "Code" && isStatus(t)
				})
			})
		}), "the error of the API server is answered with its own status and code, or returned")
	}
	c.Ob("status", e, in.Implies(failed, d), "a failed forward returns")
}

// ---- C05 -------------------------------------------------------------------------

// markerCond: under which condition is key k of the query a marker?
func (f *proxyFacts) markerCond(l *Loop, k *Term) B {
	in := f.in
	r := bFalse
	for n, p := range markerKeys {
		if !p {
			continue
		}
		r = in.Or(r, in.And(in.Truth(in.eq(k, in.Str(n), nil)), in.anyAtom(func(x *Term) bool {
			if x.Op != "call" || callName(x) != "strings.HasPrefix" {
				return false
			}
			kk, ok := f.queryFirst(x.Args[0])
			c, okc := x.Args[1].constStr()
			return ok && kk == k && okc && c == clusterPrefixText
		})))
	}
	return r
}

func markerRule(c *Ctx) {
	f := proxyOf(c)
	in := f.in
	seen := map[*Term]bool{}
	for _, e := range f.fwd {
		for _, ch := range f.chains(e) {
			if ch.uri == nil {
				continue
			}
			in.each(ch.uri, ch.g, func(u *Term, g B) {
				raw, ok := f.forwardURI(u)
				if !ok || raw == nil {
					c.Ob("query", e, false, "the query of a forward is rebuilt without the markers")
					return
				}
				in.each(raw, g, func(raw *Term, g B) {
					if !isCallTo(raw, "(net/url.Values).Encode") {
						c.Ob("query", e, false, "the query of a forward is not an encoding of the cleaned parameters")
						return
					}
					in.each(raw.Args[0], g, func(m *Term, g B) { f.cleanQuery(e, m, g, seen) })
				})
			})
			if ch.body == nil {
				continue
			}
			ng := in.And(ch.g, in.Not(f.methodIs("GET")))
			in.each(ch.body, ng, func(t *Term, g B) { f.cleanBody(e, f.bodyContent(t, g), g) })
		}
	}
	c.Min("query", 2)
	c.Min("selector", 3)
	c.Min("body", 2)
	markerWriters(c)
}

// cleanQuery: m is the request's query minus the markers, with changes only to
// parameters the proxy rewrites.
func (f *proxyFacts) cleanQuery(e *Event, m *Term, g B, seen map[*Term]bool) {
	f.cleanQueryFrom(e, m, g, seen, nil)
}

func (f *proxyFacts) cleanQueryFrom(e *Event, m *Term, g B, seen map[*Term]bool, sel *Term) {
	c, in := f.c, f.in
	watch := strings.HasSuffix(e.Name, ".Stream")
	if !in.Sat(g) {
		return
	}
	if m.Op == "mapupd" || m.Op == "mapdel" {
		k, _ := m.Args[1].constStr()
		if p, ok := markerKeys[k]; !(ok && p) {
			okKey := k == "labelSelector" || watch && (k == "timeout" || k == "timeoutSeconds")
			if !okKey {
				c.Ob("query", e, false, "parameter %s of a forward is changed", in.S(m.Args[1]))
				return
			}
			if k == "labelSelector" && sel == nil {
				sel = m
			}
			in.each(m.Args[0], g, func(t *Term, g B) { f.cleanQueryFrom(e, t, g, seen, sel) })
			return
		}
	}
	f.forwardedSelector(e, sel, g)
	li := in.loopInfo[m]
	if li == nil {
		// direct deletions of constant keys
		cond := map[string]bool{}
		for m.Op == "mapdel" {
			k, _ := m.Args[1].constStr()
			cond[k] = true
			m = m.Args[0]
		}
		if m.Op == "parsedquery" {
			for n, p := range markerKeys {
				if !p || cond[n] {
					continue
				}
				hp := in.anyAtom(func(x *Term) bool {
					if x.Op != "call" || callName(x) != "strings.HasPrefix" {
						return false
					}
					kk, ok := f.queryFirst(x.Args[0])
					cs, okc := x.Args[1].constStr()
					ks, _ := kk.constStr()
					return ok && okc && cs == clusterPrefixText && ks == n
				})
				c.Ob("query", e, hp != bFalse && !in.Sat(in.And(g, hp)), "marker %s does not reach the API server", n)
			}
			return
		}
		c.Ob("query", e, false, "the query of a forward is not that of the request: %s", in.S(m))
		return
	}
	if seen[m] {
		return
	}
	seen[m] = true
	ok := li.Init.Op == "parsedquery" && hasPathSuffix(li.Init.Args[0], "RawQuery")
	c.Ob("query", li.Loop, ok, "the forwarded query starts from the query of the request")
	k := in.mapKeyOf(li.Loop)
	if k == nil {
		c.Ob("query", li.Loop, false, "the loop does not look at the parameters")
		return
	}
	mc := f.markerCond(li.Loop, k)
	for _, a := range li.Back {
		in.each(a.T, a.G, func(t *Term, g B) {
			switch {
			case t == m:
				c.Ob("query", li.Loop, !in.Sat(in.And(g, mc)), "a marker parameter does not reach the API server")
			case t.Op == "mapdel" && t.Args[0] == m && t.Args[1] == k:
				c.Ob("query", li.Loop, in.Implies(g, mc), "only marker parameters are removed from the query")
			default:
				c.Ob("query", li.Loop, false, "the query is changed otherwise: %s", in.S(t))
			}
		})
	}
}

// forwardedSelector: sel is the last change to the label selector of a
// forward, nil for none.
func (f *proxyFacts) forwardedSelector(e *Event, sel *Term, g B) {
	c, in := f.c, f.in
	if sel == nil {
		c.Ob("selector", e, !in.Sat(in.And(g, f.rest())), "a selector that holds more than the search is forwarded without the search")
		return
	}
	if sel.Op == "mapdel" {
		none := in.anyAtom(func(x *Term) bool {
			if x.Op != "eq" {
				return false
			}
			s, ok := x.Args[1].constStr()
			return ok && s == "<none>"
		})
		c.Ob("selector", e, none != bFalse && in.Implies(g, none), "the label selector of a watch is taken away only if it is <none>")
		return
	}
	v := sel.Args[2]
	if v.Op == "slicelit" && len(v.Args) == 1 {
		v = v.Args[0]
	}
	in.each(v, g, func(v *Term, g B) {
		if !isCallTo(v, metav1+".FormatLabelSelector") {
			c.Ob("selector", e, false, "the label selector of a forward is not that of the request: %s", in.S(v))
			return
		}
		s := in.selectorOf(v, &Event{Guard: g})
		why := f.cleanSelector(s)
		c.Ob("selector", e, why == "", "the forwarded label selector is that of the request without the search: %s", why)
		c.Ob("selector", e, in.Implies(g, in.restOf(s)), "a label selector is written only if something is left of it")
	})
}

// restOf: something is left of the selector.
func (in *Interp) restOf(s selector) B {
	r := bFalse
	for _, x := range []*Term{s.lab, s.expr} {
		in.each(x, bTrue, func(t *Term, g B) { r = in.Or(r, in.And(g, in.nonemptyB(t))) })
	}
	return r
}

// rest: the selector of the request was read and holds more than the search.
func (f *proxyFacts) rest() B {
	in := f.in
	r := bFalse
	for _, e := range in.calls(metav1 + ".FormatLabelSelector") {
		r = in.Or(r, in.restOf(in.selectorOf(e.Result, e)))
	}
	read := bFalse
	for _, e := range in.calls(kubePkg + ".ParseToLabelSelector") {
		read = in.Or(read, e.Guard)
	}
	return in.And(in.And(r, read), f.selectorRead())
}

// selectorRead: no step of reading the selector of the request failed.
func (f *proxyFacts) selectorRead() B {
	in := f.in
	r := bTrue
	for _, e := range in.calls(kubePkg+".ParseToLabelSelector", kubePkg+".MergeValues", "(*encoding/base64.Encoding).DecodeString") {
		in.each(e.Result, e.Guard, func(t *Term, g B) {
			x := in.Truth(in.eq(in.Extract(t, 1, types.Universe.Lookup("error").Type()), in.Nil(), nil))
			r = in.And(r, in.Or(in.Not(g), x))
		})
	}
	return r
}

// cleanBody: the options of a delete lose their first dry-run entry if and only
// if it is a marker.
func (f *proxyFacts) cleanBody(e *Event, b *Term, g B) {
	c, in := f.c, f.in
	dry := bFalse
	for _, t := range in.terms {
		s, p, ok := in.stripped(t)
		if ok && isDryRun0(s) && p == clusterPrefixText {
			l, _ := isFirst(s)
			dry = in.Or(dry, in.And(in.hasPrefixAtom(s, p), in.nonemptyAtom(l)))
		}
	}
	del := f.methodIs("DELETE")
	dry = in.And(dry, del)
	for _, x := range in.atomsWhere(isNilCmp(func(t *Term) bool { return t.Op == "extract" && isBodyRead(t.Args[0]) })) {
		dry = in.And(dry, x)
	}
	if b.Op == "extract" && isCallTo(b.Args[0], "encoding/json.Marshal") {
		o := b.Args[0].Args[0]
		c.Ob("body", e, in.Implies(g, dry), "the delete options are rewritten only if they carry a marker")
		ok := in.all(o, g, func(o *Term, g B) bool {
			base, ups := peelUpd(unwrapIface(o))
			for k := range ups {
				if k != "DryRun" {
					return false
				}
			}
			if !mentions(base, func(x *Term) bool { return isCallTo(x, "encoding/json.Unmarshal") && mentions(x, isBodyRead) }) {
				return false
			}
			d := ups["DryRun"]
			if d == nil {
				return false
			}
			return in.all(d, g, func(d *Term, g B) bool {
				if d.Op != "slice" || len(d.Args) != 2 {
					return false
				}
				n, ok := d.Args[1].constInt()
				return ok && n == 1 && hasPathSuffix(d.Args[0], "DryRun")
			})
		})
		c.Ob("body", e, ok, "rewritten delete options lose their first dry-run entry and nothing else")
		return
	}
	c.Ob("body", e, dry != bFalse && !in.Sat(in.And(g, dry)), "delete options that carry a marker are not sent as they are")
}

// markerWriters: the client side helpers write what the handler reads.
func markerWriters(c *Ctx) {
	for _, w := range [][2]string{{"QueryGetOptions", "ResourceVersion"}, {"QueryCreateOptions", "FieldManager"}, {"QueryUpdateOptions", "FieldManager"}, {"QueryPatchOptions", "FieldManager"}, {"QueryDeleteOptions", "DryRun"}} {
		fn := c.P.Func("page." + w[0])
		if fn == nil {
			giveUp("page", "page.%s was not found", w[0])
		}
		in := newInterp(c.P)
		c.Analyse(in, fn, nil)
		opts, cluster := in.Entry.params[0], in.Entry.params[1]
		set := false
		for _, r := range in.Returns {
			okG := in.And(r.g, in.Truth(in.eq(r.vals[1], in.Nil(), nil)))
			if !in.Sat(okG) {
				continue
			}
			set = true
			c.Ob("writer", r.in, in.all(r.vals[0], okG, func(o *Term, g B) bool {
				base, ups := peelUpd(o)
				if base != opts || len(ups) != 1 || ups[w[1]] == nil {
					return false
				}
				// nothing the caller had set is lost
				if !in.Implies(g, in.Not(in.anyAtom(func(t *Term) bool {
					return t.Op == "nonempty" && hasPathSuffix(t.Args[0], w[1])
				}))) || in.anyAtom(func(t *Term) bool { return t.Op == "nonempty" && hasPathSuffix(t.Args[0], w[1]) }) == bFalse {
					return false
				}
				return in.all(ups[w[1]], g, func(v *Term, g B) bool {
					if v.Op == "slicelit" && len(v.Args) == 1 {
						v = v.Args[0]
					} else if w[1] == "DryRun" {
						return false
					}
					return in.all(v, g, func(v *Term, g B) bool {
						p := flatConcat(v)
						if len(p) != 2 || p[1] != cluster {
							return false
						}
						s, ok := p[0].constStr()
						return ok && s == clusterPrefixText
					})
				})
			}), "%s marks the options with the prefix and the cluster and refuses to overwrite a value", w[0])
		}
		c.Ob("writer", fn, set, "%s can succeed", w[0])
	}
	_ = types.Typ
}
