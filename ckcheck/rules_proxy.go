package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- facts about the request handler ------------------------------------------

type proxyFacts struct {
	c     *Ctx
	in    *Interp
	fn    *ssa.Function
	query []*Event // list reads of the cache
	get   []*Event // single reads of the cache
	fwd   []*Event // requests sent to an API server
}

const (
	storeIface = modPath + "/store.Store"
	apiPkg     = modPath + "/api"
	restReq    = "k8s.io/client-go/rest.Request"
)

var sendNames = []string{"(*" + restReq + ").DoRaw", "(*" + restReq + ").Stream", "(*" + restReq + ").Do", "(*" + restReq + ").Watch"}

func proxyOf(c *Ctx) *proxyFacts {
	fn := c.P.Func("api.Proxy")
	if fn == nil || fn.Blocks == nil {
		giveUp("api", "the request handler api.Proxy was not found")
	}
	f := &proxyFacts{c: c, in: newInterp(c.P), fn: fn}
	c.Analyse(f.in, fn, nil)
	f.query = f.in.calls("(" + storeIface + ").Query")
	f.get = f.in.calls("(" + storeIface + ").Get")
	f.fwd = f.in.calls(sendNames...)
	if len(f.query) == 0 || len(f.get) == 0 || len(f.fwd) == 0 {
		giveUp(fn, "the handler must read the cache (Query, Get) and forward requests; found %d Query, %d Get, %d forwards", len(f.query), len(f.get), len(f.fwd))
	}
	return f
}

func (f *proxyFacts) cacheReads() []*Event { return append(append([]*Event{}, f.query...), f.get...) }

// isStore is the condition that the cache holds resource type gvr.
func (f *proxyFacts) isStore(gvr *Term, g B) B {
	return f.in.anyAtom(func(t *Term) bool {
		return isMethodCall(t, "IsStoreGVR") && t.Op == "call" && (gvr == nil || f.in.Simp(t.Args[len(t.Args)-1], g) == gvr)
	})
}

func (f *proxyFacts) methodIs(m string) B {
	return f.in.anyAtom(eqConst(m, func(t *Term) bool { return isReqField(t, "Method") }))
}

// isReqQuery: the decoded query of the request, possibly edited.
func (f *proxyFacts) isReqQuery(m *Term) bool {
	bs := f.in.mapBases(m)
	for _, b := range bs {
		if b.Op != "parsedquery" || !hasPathSuffix(b.Args[0], "RawQuery") {
			return false
		}
	}
	return len(bs) > 0
}

// queryLoops are the loops over the keys of the request query.
func (f *proxyFacts) queryLoops() []*Loop {
	var out []*Loop
	for _, l := range f.in.Loops {
		if l.RangeM != nil && f.isReqQuery(l.RangeM) {
			out = append(out, l)
		}
	}
	return out
}

func (in *Interp) mapKeyOf(l *Loop) *Term {
	for _, t := range in.terms {
		if t.Op == "mapkey" && t.Aux == l.Key {
			return t
		}
	}
	return nil
}

// keyIn: the current key of l is one of the names.
func (in *Interp) keyIn(l *Loop, names ...string) B {
	k := in.mapKeyOf(l)
	if k == nil {
		return bFalse
	}
	r := bFalse
	for _, n := range names {
		r = in.Or(r, in.Truth(in.eq(k, in.Str(n), nil)))
	}
	return r
}

// parseErr: one of the failing steps of decoding the selector failed.
func (f *proxyFacts) parseErr() B {
	r := bFalse
	for _, b := range f.in.atomsWhere(isNilCmp(func(t *Term) bool {
		return mentions(t, func(x *Term) bool {
			return x.Op == "call" && (isCallTo(x, modPath+"/kube.ParseToLabelSelector", modPath+"/kube.MergeValues") || strings.HasSuffix(callName(x), ".DecodeString"))
		})
	})) {
		r = f.in.Or(r, f.in.Not(b))
	}
	return r
}

var cacheableParams = []string{"labelSelector", "timeoutSeconds", "timeout", "limit"}

func init() {
	register(&Rule{ID: "C01", Rule: "gate: at every cache read the path condition entails the same resource type is cached, the method is GET and every key of the request query is one the cache implements; pass: a forward of a cached GET is only reachable after a key outside that set or a selector that does not decode",
		Run: func(c *Ctx) {
			f := proxyOf(c)
			in := f.in
			for _, e := range f.cacheReads() {
				gvr := in.Simp(e.Args[1], e.Guard)
				c.Ob("gate-type", e, in.Implies(e.Guard, f.isStore(gvr, e.Guard)), "the cache is read for a resource type only after the store said it holds that type")
				c.Ob("gate-method", e, in.Implies(e.Guard, f.methodIs("GET")), "the cache is read for GET requests only")
				ok := false
				for _, l := range f.queryLoops() {
					if in.Implies(e.Guard, in.Not(in.moreOf(l))) && in.everyIteration(l, e.Guard, in.keyIn(l, cacheableParams...)) {
						ok = true
					}
				}
				c.Ob("gate-params", e, ok, "the cache is read only if every query parameter is one of %s", strings.Join(cacheableParams, ", "))
			}
			c.Min("gate-type", 2)
			for _, e := range f.fwd {
				g := in.And(e.Guard, in.And(in.And(f.isStore(nil, e.Guard), f.methodIs("GET")), in.Not(f.parseErr())))
				ok := !in.Sat(g)
				for _, l := range f.queryLoops() {
					if !ok && in.someIteration(l, g, in.Not(in.keyIn(l, cacheableParams...))) {
						ok = true
					}
				}
				c.Ob("pass", e, ok, "a GET of a cached type is forwarded only because of a parameter the cache does not implement or an undecodable selector")
			}
		}})
}

func isMux(name string) func(t *Term, g B) bool {
	return func(t *Term, g B) bool { return isMuxVar(t, name) }
}

// clusterOfClient: the key with which the client of a forward was chosen.
type chain struct {
	g    B
	uri  *Term
	body *Term
	verb string // "" when given by term
	vt   *Term
	pt   *Term
	key  *Term // cluster
	bad  string
}

var verbNames = map[string]string{"Get": "GET", "Post": "POST", "Put": "PUT", "Patch": "PATCH", "Delete": "DELETE"}

// contentOf is what argument k of call term t points to when it is made.
func (f *proxyFacts) contentOf(t *Term, k int, g B, before *Event) *Term {
	r := t.Args[k]
	for _, e := range f.in.calls(callName(t)) {
		if e.ID > before.ID || !f.in.Sat(f.in.And(g, e.Guard)) {
			continue
		}
		for _, a := range f.in.Alts(e.Result) {
			if a.T == t {
				r = e.Vals[k]
			}
		}
	}
	return r
}

// chains enumerates the alternatives of how a request is built.
func (f *proxyFacts) chains(e *Event) []*chain {
	in := f.in
	var out []*chain
	var walk func(t *Term, g B, c chain)
	walk = func(t *Term, g B, c chain) {
		in.each(t, g, func(t *Term, g B) {
			c := c
			c.g = g
			if t.Op == "lookup" && hasPathSuffix(t.Args[0], "ClusterClients") {
				in.each(t.Args[1], g, func(k *Term, g B) {
					c := c
					c.g, c.key = g, k
					out = append(out, &c)
				})
				return
			}
			if t.Op == "as" || t.Op == "extract" || t.Op == "iface" {
				walk(t.Args[0], g, c)
				return
			}
			if t.Op == "call" && len(t.Args) > 0 {
				n := callName(t)
				m := n[strings.LastIndex(n, ".")+1:]
				switch {
				case strings.HasPrefix(n, "(*"+restReq+")."):
					switch m {
					case "RequestURI":
						if c.uri == nil {
							c.uri = t.Args[1]
						}
					case "Body":
						if c.body == nil {
							c.body = f.contentOf(t, 1, g, e)
						}
					case "Timeout", "SetHeader", "MaxRetries", "Throttle", "WarningHandler", "BackOff":
					default:
						c.bad = "the request is changed by " + m
					}
				case m == "Verb":
					c.vt = t.Args[1]
				case verbNames[m] != "":
					c.verb = verbNames[m]
					if m == "Patch" {
						c.pt = t.Args[1]
					}
				case m == "RESTClient", m == "Discovery":
				default:
					c.bad = "unknown step " + m
					out = append(out, &c)
					return
				}
				walk(t.Args[0], g, c)
				return
			}
			c.bad = "the client does not come from the configured clusters: " + in.S(t)
			out = append(out, &c)
		})
	}
	walk(e.Args[0], e.Guard, chain{})
	return out
}

func init() {
	register(&Rule{ID: "C02", Rule: "every cache read takes group, version, resource, namespace and name from the path variables of the same name; a single read answers with exactly the object read or a 404; the list envelope carries the apiVersion and the kind configured for that resource type",
		Run: func(c *Ctx) {
			f := proxyOf(c)
			in := f.in
			for _, e := range f.cacheReads() {
				for _, p := range [][2]string{{"Group", "group"}, {"Version", "version"}, {"Resource", "resourceType"}} {
					c.Ob("type", e, in.all(in.fieldOf(e.Args[1], p[0]), e.Guard, isMux(p[1])), "%s of the resource type read from the cache is path variable %q", p[0], p[1])
				}
			}
			for _, e := range f.query {
				c.Ob("list-namespace", e, in.all(in.fieldOf(e.Args[2], "Namespace"), e.Guard, isMux("namespace")), "a list is restricted to the namespace of the path")
				c.Ob("list-only", e, in.Implies(e.Guard, in.Not(f.muxNonempty("resource"))), "a list is only made when the path names no object")
			}
			for _, e := range f.get {
				c.Ob("get-namespace", e, in.all(e.Args[3], e.Guard, isMux("namespace")), "a single object is read from the namespace of the path")
				c.Ob("get-name", e, in.all(e.Args[4], e.Guard, isMux("resource")), "a single object is read by the name of the path")
				c.Ob("get-only", e, in.Implies(e.Guard, f.muxNonempty("resource")), "a single object is only read when the path names one")
			}
			c.Min("list-namespace", 1)
			c.Min("get-name", 1)
			// the answer to a single read
			nret := 0
			for _, r := range in.Returns {
				for _, e := range f.get {
					if !in.Sat(in.And(r.g, e.Guard)) {
						continue
					}
					g := in.And(r.g, e.Guard)
					res := e.Result
					isNil := in.Truth(in.eq(res, in.Nil(), nil))
					found := in.And(g, in.Not(isNil))
					missing := in.And(g, isNil)
					if in.Sat(found) {
						nret++
						c.Ob("get-answer", r.in, in.all(r.vals[0], found, func(t *Term, g B) bool { return t == res }), "the object read is what is answered")
					}
					if in.Sat(missing) {
						nret++
						c.Ob("get-missing", r.in, in.all(r.vals[0], missing, func(t *Term, g B) bool { return in.statusCode(t, g) == 404 }), "a missing object is answered with a 404 status")
						c.Ob("get-missing-header", r.in, in.all2(in.calls("(net/http.ResponseWriter).WriteHeader"), missing, func(w *Event) bool { return in.constUnder(w.Args[1], in.And(missing, w.Guard)) == "404" }), "a missing object is answered with HTTP status 404")
					}
				}
			}
			c.Min("get-answer", 1)
			c.Min("get-missing", 1)
			// the list envelope
			n := 0
			for _, r := range in.Returns {
				in.each(r.vals[0], r.g, func(t *Term, g B) {
					if t.Op != "iface" || !strings.HasPrefix(t.Aux, "map[string]") {
						return
					}
					n++
					m := in.mapContent(r.mem, t.Args[0])
					kind := in.unwrap(in.mapEntry(m, "kind"))
					c.Ob("kind", r.in, in.all(kind, g, func(t *Term, g B) bool {
						return isCallTo(t, modPath+"/common.GetGVRKind") && in.all(t.Args[0], g, isMux("group")) && in.all(t.Args[1], g, isMux("version")) && in.all(t.Args[2], g, isMux("resourceType"))
					}), "the kind of a list is the one configured for its resource type")
					av := in.unwrap(in.mapEntry(m, "apiVersion"))
					c.Ob("apiVersion", r.in, in.all(av, g, func(t *Term, g B) bool {
						grp := f.muxNonempty("group")
						if isMuxVar(t, "version") {
							return in.Implies(g, in.Not(grp))
						}
						if t.Op == "concat" && len(flatConcat(t)) == 3 {
							p := flatConcat(t)
							s, _ := p[1].constStr()
							return isMuxVar(p[0], "group") && s == "/" && isMuxVar(p[2], "version") && in.Implies(g, grp)
						}
						return false
					}), "the apiVersion of a list is version, or group/version for a group")
				})
			}
			c.Ob("envelope", f.fn, n > 0, "lists are answered with an envelope")
		}})

	register(&Rule{ID: "C03", Rule: "the cluster used for a forward or a single read is, by path condition, the marker of the request if it carries one, else the first cluster of its search, else the configured default; a forward is dominated by a lookup of that very cluster in the configured clusters, whose failure answers 404",
		Run: func(c *Ctx) { clusterChoice(proxyOf(c)) }})
}

func (f *proxyFacts) muxNonempty(name string) B {
	return f.in.anyAtom(func(t *Term) bool { return t.Op == "nonempty" && isMuxVar(t.Args[0], name) })
}

func unwrapIface(t *Term) *Term {
	if t == nil {
		return nil
	}
	if t.Op == "iface" {
		return t.Args[0]
	}
	return t
}

func (in *Interp) unwrap(t *Term) *Term { return in.lift(t, unwrapIface) }

func flatConcat(t *Term) []*Term {
	if t.Op == "concat" {
		var out []*Term
		for _, a := range t.Args {
			out = append(out, flatConcat(a)...)
		}
		return out
	}
	return []*Term{t}
}

// statusCode is the code of a metav1.Status value (0: unknown).
func (in *Interp) statusCode(t *Term, g B) int64 {
	t = unwrapIface(t)
	v := in.Simp(in.fieldOf(t, "Code"), g)
	n, _ := v.constInt()
	return n
}

func (in *Interp) constUnder(t *Term, g B) string {
	t = in.Simp(t, g)
	for t.Op == "convert" {
		t = t.Args[0]
	}
	if t.Op == "const" {
		return t.Aux
	}
	return ""
}

// all2: the events possible under g satisfy p, and one of them happens.
func (in *Interp) all2(es []*Event, g B, p func(*Event) bool) bool {
	d := bFalse
	for _, e := range es {
		if !in.Sat(in.And(e.Guard, g)) {
			continue
		}
		if !p(e) {
			return false
		}
		d = in.Or(d, e.Guard)
	}
	return in.Implies(g, d)
}

// ---- C03 ---------------------------------------------------------------------

// marker describes how requests name their cluster.
type markers struct {
	prefix string
	dry    *Term // DryRun[0] of the delete options
	dryB   B     // a delete that carries a marker naming a cluster
	loop   *Loop
	v      *Term // loop variable holding the cluster
}

func isFirst(t *Term) (*Term, bool) {
	if t.Op == "index" {
		if n, ok := t.Args[1].constInt(); ok && n == 0 {
			return t.Args[0], true
		}
	}
	return nil, false
}

// stripped: t is s without the constant prefix p that s starts with.
func (in *Interp) stripped(t *Term) (s *Term, p string, ok bool) {
	if t.Op == "slice" && len(t.Args) == 2 {
		n, ok1 := t.Args[1].constInt()
		if !ok1 {
			return nil, "", false
		}
		// the matching prefix test decides which constant was meant
		for _, a := range in.atoms {
			if a.Op == "call" && callName(a) == "strings.HasPrefix" && a.Args[0] == t.Args[0] {
				if c, ok2 := a.Args[1].constStr(); ok2 && int64(len(c)) == n {
					return t.Args[0], c, true
				}
			}
		}
		return nil, "", false
	}
	if isCallTo(t, "strings.TrimPrefix") {
		if c, ok2 := t.Args[1].constStr(); ok2 {
			return t.Args[0], c, true
		}
	}
	return nil, "", false
}

func (in *Interp) hasPrefixAtom(s *Term, p string) B {
	return in.anyAtom(func(t *Term) bool {
		if t.Op != "call" || callName(t) != "strings.HasPrefix" || t.Args[0] != s {
			return false
		}
		c, ok := t.Args[1].constStr()
		return ok && c == p
	})
}

func (in *Interp) nonemptyAtom(x *Term) B {
	return in.anyAtom(func(t *Term) bool { return t.Op == "nonempty" && t.Args[0] == x })
}

// isDryRun0: the first dry-run entry of the decoded delete options.
func isDryRun0(t *Term) bool {
	b, ok := isFirst(t)
	if !ok || !hasPathSuffix(b, "DryRun") {
		return false
	}
	return mentions(b, func(x *Term) bool { return isCallTo(x, "encoding/json.Unmarshal") && mentions(x, isBodyRead) })
}

func isBodyRead(t *Term) bool {
	return t.Op == "call" && (callName(t) == "io.ReadAll" || callName(t) == "io/ioutil.ReadAll") && isReqField(t.Args[0], "Body")
}

// queryValue: the first value of key k in the request query; const keys only.
func (f *proxyFacts) queryFirst(t *Term) (*Term, bool) {
	b, ok := isFirst(t)
	if !ok {
		return nil, false
	}
	if b.Op == "lookup" && f.isReqQuery(b.Args[0]) {
		return b.Args[1], true
	}
	if b.Op == "mapelem" || b.Op == "mapvalue" {
		return nil, false
	}
	return nil, false
}

var markerKeys = map[string]bool{"cluster": false, "fieldManager": true, "resourceVersion": true} // needs prefix?

const clusterPrefixText = "dsm-cluster-"

// markerValue: v is a cluster named by the request under g: the value of key
// "cluster", or a prefixed value of one of the option parameters.
func (f *proxyFacts) markerValue(v *Term, g B) bool {
	in := f.in
	if k, ok := f.queryFirst(v); ok {
		return f.keyOneOf(k, g, false)
	}
	s, p, ok := in.stripped(v)
	if !ok || p == "" {
		return false
	}
	k, ok := f.queryFirst(s)
	return ok && in.Implies(g, in.hasPrefixAtom(s, p)) && f.keyOneOf(k, g, true)
}

// keyOneOf: under g the key is one of those carrying a marker of that sort.
func (f *proxyFacts) keyOneOf(k *Term, g B, prefixed bool) bool {
	in := f.in
	if s, ok := k.constStr(); ok {
		p, known := markerKeys[s]
		return known && p == prefixed
	}
	r := bFalse
	for n, p := range markerKeys {
		if p == prefixed {
			r = in.Or(r, in.Truth(in.eq(k, in.Str(n), nil)))
		}
	}
	return in.Implies(g, r)
}

// markerVar: t carries the marker out of the loop over the query: it starts
// empty, takes the value of every marker the loop meets and nothing else.
func (f *proxyFacts) markerVar(t *Term) (why string, ok bool) {
	in := f.in
	li := in.loopInfo[t]
	if li == nil || li.Loop.RangeM == nil || !f.isReqQuery(li.Loop.RangeM) {
		return "not carried by a loop over the query", false
	}
	if s, isS := li.Init.constStr(); !isS || s != "" {
		return "the marker does not start empty", false
	}
	k := in.mapKeyOf(li.Loop)
	if k == nil {
		return "the loop does not look at the key", false
	}
	for _, a := range li.Back {
		why := ""
		in.each(a.T, a.G, func(v *Term, g B) {
			if v != t {
				if !f.markerValue(v, g) {
					why = "an iteration takes the cluster from something that is no marker"
				}
				return
			}
			// unchanged: this key is no marker
			for n, p := range markerKeys {
				kg := in.And(g, in.Truth(in.eq(k, in.Str(n), nil)))
				if !in.Sat(kg) {
					continue
				}
				if !p {
					why = "key " + n + " is ignored"
					continue
				}
				// must be because the value has no prefix
				hp := in.anyAtom(func(x *Term) bool {
					if x.Op != "call" || callName(x) != "strings.HasPrefix" {
						return false
					}
					kk, ok := f.queryFirst(x.Args[0])
					c, okc := x.Args[1].constStr()
					return ok && kk == k && okc && c == clusterPrefixText
				})
				if hp == bFalse || in.Sat(in.And(kg, hp)) {
					why = "a prefixed value of " + n + " is ignored"
				}
			}
		})
		if why != "" {
			return why, false
		}
	}
	return "", true
}

func clusterChoice(f *proxyFacts) {
	c, in := f.c, f.in
	type use struct {
		e    *Event
		key  *Term
		g    B
		what string
	}
	var uses []use
	for _, e := range f.fwd {
		for _, ch := range f.chains(e) {
			if ch.bad != "" || ch.key == nil {
				c.Ob("client", e, false, "the client of a forward is not one of the configured clusters: %s", ch.bad)
				continue
			}
			uses = append(uses, use{e, ch.key, ch.g, "forward"})
			has := in.anyAtom(func(t *Term) bool {
				return t.Op == "has" && hasPathSuffix(t.Args[0], "ClusterClients") && in.Simp(t.Args[1], ch.g) == ch.key
			})
			nn := in.Not(in.anyAtom(isNilCmp(func(t *Term) bool {
				return t.Op == "lookup" && hasPathSuffix(t.Args[0], "ClusterClients") && t.Args[1] == ch.key
			})))
			if nn == bTrue {
				nn = bFalse
			}
			c.Ob("configured", e, in.Implies(ch.g, in.Or(has, nn)), "a request is only sent to a cluster that is configured")
		}
	}
	for _, e := range f.get {
		in.each(e.Args[2], e.Guard, func(k *Term, g B) { uses = append(uses, use{e, k, g, "single read"}) })
	}
	// a delete whose body names a cluster
	dry, dryMarked := bFalse, bFalse // naming a cluster / carrying a marker at all
	for _, t := range in.terms {
		s, p, ok := in.stripped(t)
		if ok && isDryRun0(s) && p == clusterPrefixText {
			l, _ := isFirst(s)
			m := in.And(in.hasPrefixAtom(s, p), in.nonemptyAtom(l))
			dryMarked = in.Or(dryMarked, m)
			dry = in.Or(dry, in.And(m, in.nonemptyAtom(t)))
		}
	}
	del := f.methodIs("DELETE")
	for _, b := range append(in.atomsWhere(isNilCmp(func(t *Term) bool { return t.Op == "extract" && isBodyRead(t.Args[0]) })), del) {
		dry, dryMarked = in.And(dry, b), in.And(dryMarked, b)
	}
	vars := map[*Term]bool{}
	badVar := map[*Term]bool{}
	isVar := func(t *Term) bool {
		if vars[t] || badVar[t] {
			return vars[t]
		}
		if t.Op == "loopvar" || t.Op == "loopmem" {
			why, ok := f.markerVar(t)
			if ok {
				vars[t] = true
			} else {
				badVar[t] = true
				if isString(t.Typ) {
					c.Ob("marker", in.loopInfo[t].Loop, false, "%s", why)
				}
			}
			return ok
		}
		return false
	}
	for _, u := range uses {
		isVar(u.key)
	}
	// naming: the request names a cluster in its query
	named := bFalse
	for v := range vars {
		named = in.Or(named, in.nonemptyAtom(v))
		c.Ob("marker", in.loopInfo[v].Loop, true, "the loop over the query takes the cluster of every marker")
	}
	direct := map[string]B{}
	for n, p := range markerKeys {
		b := bFalse
		for _, t := range in.atoms {
			var s *Term
			if p && t.Op == "call" && callName(t) == "strings.HasPrefix" {
				if cs, ok := t.Args[1].constStr(); ok && cs == clusterPrefixText {
					s = t.Args[0]
				}
			}
			if !p && t.Op == "nonempty" {
				s = t.Args[0]
			}
			if s == nil {
				continue
			}
			if k, ok := f.queryFirst(s); ok {
				if ks, ok := k.constStr(); ok && ks == n {
					b = in.Or(b, in.Truth(t))
				}
			}
		}
		direct[n] = b
	}
	if len(vars) == 0 {
		all := true
		for _, b := range direct {
			if b == bFalse {
				all = false
			}
			named = in.Or(named, b)
		}
		c.Ob("marker", f.fn, all, "the cluster is taken from every marker parameter of the query")
	}
	named = in.And(named, in.Not(dryMarked))
	paged := bFalse
	for _, u := range uses {
		if l, ok := isFirst(u.key); ok && isCallTo(l, "(*"+modPath+"/page.Paginate).GetClusters") {
			b := in.nonemptyAtom(l)
			if ne := in.nonemptyAtom(u.key); ne != bFalse {
				b = in.And(b, ne)
			}
			paged = in.Or(paged, b)
		}
	}
	c.Ob("search-cluster", f.fn, paged != bFalse, "the first cluster of the search is a choice")
	marked := dry != bFalse
	for _, u := range uses {
		if s, p, ok := in.stripped(u.key); ok && isDryRun0(s) && p == clusterPrefixText && marked {
			marked = false
			c.Ob("delete-cluster", u.e, true, "the marker of delete options is a choice")
		}
	}
	c.Ob("delete-cluster", f.fn, dry != bFalse && !marked, "the marker of delete options is a choice")
	perr := f.parseErr()
	for _, u := range uses {
		k, g := u.key, u.g
		ok, why := false, ""
		s, p, isStrip := in.stripped(k)
		switch {
		case isStrip && isDryRun0(s):
			ok = p == clusterPrefixText && in.Implies(g, in.And(del, in.hasPrefixAtom(s, p)))
			why = "the marker of the delete options is used for deletes carrying one"
		case isVar(k) || f.markerValue(k, g):
			ok = !in.Sat(in.And(g, dry)) && (in.Implies(g, in.nonemptyAtom(k)) || !isVar(k))
			why = "the marker of the query is used unless the delete options carry one"
		case isFirstOf(k, "(*"+modPath+"/page.Paginate).GetClusters"):
			ok = !in.Sat(in.And(g, in.Or(dry, named)))
			why = "the cluster of the search is used only if the request carries no marker"
		case isConfigField(k, "DefaultCluster"):
			ok = !in.Sat(in.And(g, in.Or(in.Or(dry, named), in.And(paged, in.Not(perr)))))
			why = "the default cluster is used only if the request names none"
		default:
			why = "unexpected origin " + in.S(k)
		}
		c.Ob("choice", u.e, ok, "%s: %s", u.what, why)
	}
	c.Min("choice", 6)
	// 404
	n := 0
	for _, w := range in.calls("(net/http.ResponseWriter).WriteHeader") {
		all := bTrue
		for _, b := range in.atomsWhere(func(t *Term) bool { return t.Op == "has" && hasPathSuffix(t.Args[0], "ClusterClients") }) {
			all = in.And(all, b)
		}
		nh := all != bTrue && in.Implies(w.Guard, in.Not(all))
		if nh {
			n++
			c.Ob("unknown-404", w, in.constUnder(w.Args[1], w.Guard) == "404", "a request for an unknown cluster is answered with 404")
		}
	}
	c.Ob("unknown-404", f.fn, n > 0, "requests for unknown clusters are answered")
}

func isFirstOf(t *Term, call string) bool {
	b, ok := isFirst(t)
	return ok && isCallTo(b, call)
}
