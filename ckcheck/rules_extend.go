package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C26", Rule: "value flow from the path to the two reads of the cache and back: the labels a service is compared with are those of a pod owned by exactly this deployment, and a service is added if and only if its selector is a subset of them",
		Trust: []string{"the store (C07, C12), Paginate.Clusters (C25)"},
		Run:   servicesRule})
}

const mapsPkg = modPath + "/utils"

func (in *Interp) isNilB(t *Term) B { return in.Truth(in.Bin(token.EQL, t, in.Nil(), t.Typ)) }

type services struct {
	c  *Ctx
	in *Interp
	fn *ssa.Function
}

func servicesRule(c *Ctx) {
	in, fn := c.opaqueRun(modPath + "/api/extend.Deploy2Service")
	s := &services{c, in, fn}
	reads := map[string]*Event{}
	for _, e := range in.kind("call") {
		if !isMethodName(e.Name, "Query") || len(e.Args) != 3 {
			continue
		}
		r := s.resource(e)
		c.Ob("read", e, r != "" && reads[r] == nil, "something else than the pods and the services is read from the cache")
		reads[r] = e
		c.Ob("read", e, e.inner() == nil, "the cache is read more than once")
		s.restricted(e, r)
	}
	pods, svcs := reads["pods"], reads["services"]
	if pods == nil || svcs == nil {
		giveUp(fn, "the pods or the services are not read from the cache")
	}
	s.result(pods, svcs)
	subsetRule(c)
	c.Min("read", 10)
	c.Min("labels", 3)
	c.Min("services", 4)
	c.Min("subset", 3)
}

func (s *services) resource(e *Event) string {
	in := s.in
	str := func(f string) string {
		v, _ := in.fieldOf(e.Args[1], f).constStr()
		return v
	}
	if str("Group") != "" || str("Version") != "v1" || str("Resource") != "pods" && str("Resource") != "services" {
		return ""
	}
	return str("Resource")
}

func (s *services) variable(name string) func(*Term) bool {
	return func(t *Term) bool {
		if t.Op != "lookup" || !isCallTo(t.Args[0], "github.com/gorilla/mux.Vars") {
			return false
		}
		k, ok := t.Args[1].constStr()
		return ok && k == name
	}
}

// restricted: the read is for the namespace and cluster of the request, all of it.
func (s *services) restricted(e *Event, r string) {
	c, in := s.c, s.in
	c.Ob("read", e, in.all(in.fieldOf(e.Args[2], "Namespace"), e.Guard, func(t *Term, g B) bool { return s.variable("namespace")(t) }), "the %s are not read for the namespace of the request", r)
	for _, f := range []string{"Page", "PageSize"} {
		c.Ob("read", e, in.all(in.fieldOf(e.Args[2], "Paginate", f), e.Guard, func(t *Term, g B) bool { n, ok := t.constInt(); return ok && n == 0 }), "only a page of the %s is read", r)
	}
	none := in.Not(in.anyAtom(func(t *Term) bool { return t.Op == "nonempty" && s.variable("cluster")(t.Args[0]) }))
	in.each(in.fieldOf(e.Args[2], "Paginate", "Search"), e.Guard, func(t *Term, g B) {
		root, p := fieldPath(t)
		if root.Op != "out" || len(p) != 1 || p[0] != "Search" || !isCallTo(root.Args[0], pageM+"Clusters") {
			c.Ob("read", e, false, "the %s are not restricted to a cluster", r)
			return
		}
		cl := root.Args[0]
		ok := in.all(cl.Args[1], g, func(a *Term, g B) bool {
			return a.Op == "slicelit" && len(a.Args) == 1 && in.all(a.Args[0], g, func(x *Term, g B) bool {
				if isConfigField(x, "DefaultCluster") {
					return in.Implies(g, none)
				}
				return s.variable("cluster")(x) && !in.Sat(in.And(g, none))
			})
		})
		c.Ob("read", e, ok, "the %s are not those of the cluster of the request, or of the default one if it names none", r)
		for _, ce := range in.calls(pageM + "Clusters") {
			if ce.Result != cl {
				continue
			}
			// what is searched for before
			in.each(in.fieldOf(ce.Vals1(0), "Search"), ce.Guard, func(x *Term, g B) {
				if v, ok := x.constStr(); ok && v == "" {
					return
				}
				ok := false
				if x.Op == "concat" && len(x.Args) == 2 && r == "pods" {
					v, isC := x.Args[0].constStr()
					ok = isC && v == "name=" && s.variable("deployment")(x.Args[1])
				}
				c.Ob("read", ce, ok, "the %s are searched for something that may leave some out: %s", r, in.S(x))
			})
		}
	})
}

// elemOfItems: the loop over what a read returned.
func (s *services) loopOf(e *Event) *seqLoop {
	for _, l := range s.in.Loops {
		q := s.in.seqOf(l)
		if q == nil {
			continue
		}
		if root, p := fieldPath(q.seq); len(p) == 1 && p[0] == "Items" && root == e.Result {
			return q
		}
	}
	return nil
}

// owned: the current pod belongs to the deployment.
func (s *services) owned(l *seqLoop) B {
	in := s.in
	isPod := func(t *Term) bool { return l.isElem(podOf(t)) }
	owner := func(t *Term, field string) bool {
		root, p := fieldPath(t)
		if len(p) == 0 || p[len(p)-1] != field {
			return false
		}
		if len(p) > 1 {
			return false
		}
		if root.Op != "index" && root.Op != "indexaddr" {
			return false
		}
		n, ok := root.Args[1].constInt()
		return ok && n == 0 && isMethodCall(root.Args[0], "GetOwnerReferences") && isPod(root.Args[0].Args[0])
	}
	kind := in.anyAtom(eqConst("ReplicaSet", func(t *Term) bool { return owner(t, "Kind") }))
	minusOne := func(t, of *Term) bool {
		return t.Op == "addc" && t.Aux == "-1" && t.Args[0] == in.Len(of)
	}
	cut := func(t *Term) bool {
		switch {
		case isCallTo(t, "strings.Join"):
			sep, ok := t.Args[1].constStr()
			base, lo, hi := sliceOf(t.Args[0])
			if !ok || sep != "-" || hi == nil || !minusOne(hi, base) || !isCallTo(base, "strings.Split") {
				return false
			}
			if lo != nil {
				if n, ok := lo.constInt(); !ok || n != 0 {
					return false
				}
			}
			sep, ok = base.Args[1].constStr()
			return ok && sep == "-" && owner(base.Args[0], "Name")
		case t.Op == "slice" && len(t.Args) == 3:
			n, ok := t.Args[1].constInt()
			hi := t.Args[2]
			if !ok || n != 0 || !isCallTo(hi, "strings.LastIndex") && !isCallTo(hi, "strings.LastIndexByte") {
				return false
			}
			dash := false
			if v, ok := hi.Args[1].constStr(); ok {
				dash = v == "-"
			} else if v, ok := hi.Args[1].constInt(); ok {
				dash = v == '-'
			}
			return dash && hi.Args[0] == t.Args[0] && owner(t.Args[0], "Name")
		}
		return false
	}
	name := in.anyAtom(func(t *Term) bool {
		return t.Op == "eq" && (cut(plain(t.Args[0])) && s.variable("deployment")(plain(t.Args[1])) || cut(plain(t.Args[1])) && s.variable("deployment")(plain(t.Args[0])))
	})
	return in.And(kind, name)
}

// named: the path names a deployment (the routes see to that).
func (s *services) named() B {
	in := s.in
	r := bTrue
	for v, t := range in.atoms {
		if t.Op == "nonempty" && s.variable("deployment")(t.Args[0]) {
			r = in.And(r, in.Var(v))
		}
		if t.Op == "eq" && s.variable("deployment")(t.Args[0]) && t.Args[1].Aux == `""` {
			r = in.And(r, in.Not(in.Var(v)))
		}
	}
	return r
}

// podOf strips conversions of an object.
func podOf(t *Term) *Term {
	for t.Op == "convert" || t.Op == "as" || t.Op == "ptrver" || t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

func (s *services) labels(t *Term, g B, l *seqLoop, owned B, at any) {
	c, in := s.c, s.in
	in.each(t, g, func(t *Term, g B) {
		if e, ok := in.emptySeq(t); t.isNil() || ok && e || t.Op == "emptymap" || t.Op == "makemap" {
			c.Ob("labels", at, in.Implies(g, in.And(l.l.AbsEntry, in.Not(l.more))), "the pods of the deployment are passed over")
			return
		}
		if li := in.loopInfo[t]; li != nil && li.Loop == l.l {
			// the last pod, or the first: any pod of the deployment will do
			c.Ob("labels", at, in.all(li.Init, g, func(t *Term, _ B) bool { return t.isNil() || t.Op == "makemap" || t.Op == "emptymap" }), "the labels do not start empty")
			c.Ob("labels", at, in.Implies(g, in.Not(l.more)), "the pods of the deployment are passed over")
			for _, b := range li.Back {
				in.each(b.T, b.G, func(v *Term, g B) {
					if v == t {
						c.Ob("labels", l.l, !in.Sat(in.And(g, owned)), "a pod of the deployment is passed over")
						return
					}
					c.Ob("labels", l.l, isMethodCall(v, "GetLabels") && l.isElem(podOf(v.Args[0])) && in.Implies(in.And(g, s.named()), owned), "the labels of another pod are used: %s", in.S(v))
				})
			}
			return
		}
		c.Ob("labels", at, isMethodCall(t, "GetLabels") && in.all(t.Args[0], g, func(x *Term, _ B) bool { return l.isElem(podOf(x)) }) && in.Implies(in.And(g, s.named()), owned), "the services are compared with the labels of something that may not be a pod of the deployment: %s", in.S(t))
	})
}

func (s *services) result(pods, svcs *Event) {
	c, in := s.c, s.in
	pl, sl := s.loopOf(pods), s.loopOf(svcs)
	if pl == nil || sl == nil {
		giveUp(s.fn, "the pods or the services are not visited one by one")
	}
	owned := s.owned(pl)
	c.Ob("labels", pl.l, owned != bFalse, "the owner of a pod is not compared with the deployment")
	carried := false
	for _, e := range in.kind("call") {
		if isMethodName(e.Name, "IsSubsetOf") || e.Name == mapsPkg+".IsSubsetOf" {
			for t := range in.loopInfo {
				if in.loopInfo[t].Loop == pl.l && mentions(e.Args[1], func(x *Term) bool { return x == t }) {
					carried = true
				}
			}
		}
	}
	for _, b := range pl.l.Backs {
		if !carried {
			c.Ob("labels", pl.l, !in.Sat(in.And(b.abs, owned)), "a pod of the deployment is passed over")
		}
	}
	failed := func(e *Event) B {
		return in.Not(in.testAtom(isNilCmp(func(t *Term) bool {
			root, p := fieldPath(t)
			return len(p) == 1 && p[0] == "Error" && root == e.Result
		})))
	}
	bad := in.Or(failed(pods), failed(svcs))
	n := 0
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[0], r.g, func(t *Term, g B) {
			t = unwrapIface(t)
			root, p := fieldPath(t)
			if len(p) == 1 && p[0] == "Error" && (root == pods.Result || root == svcs.Result) {
				c.Ob("services", r.in, in.Implies(g, in.Or(in.And(pods.Guard, failed(pods)), in.And(svcs.Guard, failed(svcs)))), "there are no services although nothing failed")
				return
			}
			c.Ob("services", r.in, !in.Sat(in.And(g, bad)), "a failed read of the cache goes unnoticed")
			n++
			li := in.loopInfo[t]
			if li == nil || li.Loop != sl.l {
				c.Ob("services", r.in, false, "the result is not the services of the deployment: %s", in.S(t))
				return
			}
			if e, ok := in.emptySeq(li.Init); !ok || !e {
				c.Ob("services", r.in, false, "the services do not start empty")
			}
			c.Ob("services", r.in, in.Implies(g, in.And(sl.l.AbsEntry, in.Not(sl.more))), "services are left out")
			for _, b := range li.Back {
				in.each(b.T, b.G, func(v *Term, g B) { s.service(t, v, g, sl, pl, owned) })
			}
		})
	}
	c.Ob("services", s.fn, n > 0, "services are never returned")
}

// service: one service is added, or not.
func (s *services) service(t, v *Term, g B, sl, pl *seqLoop, owned B) {
	c, in := s.c, s.in
	// the service itself, or what it decodes to
	isSvc := func(x *Term) bool {
		return mentions(x, func(y *Term) bool { return sl.isElem(y) }) || s.decodedFrom(x, sl)
	}
	cond := bFalse
	for _, e := range in.calls(mapsPkg + ".IsSubsetOf") {
		if e.inner() != sl.l {
			continue
		}
		sel := in.all(e.Args[0], e.Guard, func(x *Term, g B) bool {
			root, p := fieldPath(x)
			return len(p) >= 1 && p[len(p)-1] == "Selector" && isSvc(root)
		})
		if !c.Ob("services", e, sel, "something else than the selector of the service is compared") {
			return
		}
		s.labels(e.Args[1], e.Guard, pl, owned, e)
		cond = in.Or(cond, in.And(in.And(e.Guard, in.Truth(e.Result)), in.Not(in.isNilB(e.Args[0]))))
	}
	switch {
	case v == t:
		c.Ob("services", sl.l, !in.Sat(in.And(g, cond)), "a service of the deployment is left out")
		// only because there is no selector, or it is another
		c.Ob("services", sl.l, in.Implies(g, in.Not(cond)) && s.decided(g, sl), "a service is passed over without comparing its selector")
	case v.Op == "append" && v.Args[0] == t && v.Args[1].Op == "slicelit" && len(v.Args[1].Args) == 1:
		ok := in.all(v.Args[1].Args[0], g, func(x *Term, gx B) bool {
			if !isSvc(x) || !s.decodedFrom(x, sl) {
				return isSvc(x)
			}
			done := bFalse // the decoding into this object
			for _, e := range in.calls(decoders...) {
				if e.inner() == sl.l && unwrapIface(e.Args[1]) == x && s.encoded(e.Args[0], sl) {
					done = in.Or(done, e.Guard)
				}
			}
			return x.Op == "alloc" && x.hasLoop(sl.l) && in.Implies(gx, done)
		})
		c.Ob("services", sl.l, ok, "something else than the service is added")
		c.Ob("services", sl.l, in.Implies(g, cond), "a service that does not select the pods of the deployment is added")
	default:
		c.Ob("services", sl.l, false, "the services found before are changed")
	}
}

// decided: under g the selector was compared, or is nil.
func (s *services) decided(g B, sl *seqLoop) bool {
	in := s.in
	done := bFalse
	for _, e := range in.calls(mapsPkg + ".IsSubsetOf") {
		if e.inner() == sl.l {
			done = in.Or(done, e.Guard)
			// the selector is that of the service, not one that was never filled in
			own := bFalse
			in.each(e.Args[0], bTrue, func(x *Term, gx B) {
				if !x.isNil() {
					own = in.Or(own, gx)
				}
			})
			done = in.Or(done, in.And(own, in.isNilB(e.Args[0])))
		}
	}
	return in.Implies(g, done)
}

var decoders = []string{"k8s.io/apimachinery/pkg/util/json.Unmarshal", "encoding/json.Unmarshal"}

// decodedFrom: x is a new object the current element was decoded into.
func (s *services) decodedFrom(x *Term, sl *seqLoop) bool {
	in := s.in
	if x.Op == "out" {
		return isCallTo(x.Args[0], decoders...) && s.encoded(x.Args[0].Args[0], sl)
	}
	for _, e := range in.calls(decoders...) {
		if unwrapIface(e.Args[1]) == x {
			return s.encoded(e.Args[0], sl)
		}
	}
	return false
}

func (s *services) encoded(t *Term, sl *seqLoop) bool {
	return mentions(t, func(y *Term) bool {
		return isCallTo(y, "k8s.io/apimachinery/pkg/util/json.Marshal", "encoding/json.Marshal") && mentions(y, sl.isElem)
	})
}

// ---- subsets --------------------------------------------------------------------

func subsetRule(c *Ctx) {
	in, fn := c.opaqueRun(mapsPkg + ".IsSubsetOf")
	sub, sup := in.Entry.params[0], in.Entry.params[1]
	var l *Loop
	for _, x := range in.Loops {
		if x.RangeM != nil && stripMap0(x.RangeM) == sub || x.RangeM == sub {
			l = x
		}
	}
	if l == nil {
		giveUp(fn, "the entries are not visited one by one")
	}
	isMap := func(t, m *Term) bool { return t == m || stripMap0(t) == m }
	isKey := func(t *Term) bool { return t.Op == "mapkey" && t.hasLoop(l) }
	other := func(t *Term) bool { // the value of the other map for the key
		return t.Op == "lookup" && isMap(t.Args[0], sup) && isKey(t.Args[1]) ||
			t.Op == "extract" && t.Aux == "0" && t.Args[0].Op == "lookup2" && isMap(t.Args[0].Args[0], sup) && isKey(t.Args[0].Args[1])
	}
	own := func(t *Term) bool {
		return t.Op == "mapelem" && t.hasLoop(l) || t.Op == "lookup" && isMap(t.Args[0], sub) && isKey(t.Args[1])
	}
	has := in.anyAtom(func(t *Term) bool {
		return t.Op == "has" && isMap(t.Args[0], sup) && isKey(t.Args[1]) || t.Op == "extract" && t.Aux == "1" && t.Args[0].Op == "lookup2" && isMap(t.Args[0].Args[0], sup) && isKey(t.Args[0].Args[1])
	})
	eq := in.anyAtom(func(t *Term) bool {
		return t.Op == "eq" && (other(t.Args[0]) && own(t.Args[1]) || other(t.Args[1]) && own(t.Args[0]))
	})
	c.Ob("subset", l, has != bFalse && eq != bFalse, "the entries are not compared")
	in2 := in.And(has, eq)
	for _, b := range l.Backs {
		c.Ob("subset", l, in.Implies(b.abs, in2), "an entry the other map does not have is passed over")
	}
	shorter := func(g B) bool { // more entries than the other has
		return in.Implies(g, in.anyAtom(func(t *Term) bool {
			return t.Op == "lt" && t.Args[0].Op == "len" && isMap(t.Args[0].Args[0], sup) && t.Args[1].Op == "len" && isMap(t.Args[1].Args[0], sub)
		}))
	}
	for i := range in.Returns {
		r := &in.Returns[i]
		yes, no := in.And(r.g, in.isB(r.vals[0], true)), in.And(r.g, in.isB(r.vals[0], false))
		if in.Sat(yes) {
			c.Ob("subset", r.in, in.Implies(yes, in.And(l.AbsEntry, in.Not(in.moreOf(l)))), "entries are left out")
		}
		if in.Sat(no) {
			c.Ob("subset", r.in, in.Implies(no, in.And(in.moreOf(l), in.Not(in2))) || shorter(no), "a map is said not to be a subset although its entries are there")
		}
	}
}
