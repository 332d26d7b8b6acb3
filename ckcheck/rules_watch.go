package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const watcherIface = modPath + "/watcher.Watcher"

// pieces: the parts a text is put together from, constants merged.
func (in *World) pieces(t *Term) []*Term {
	var out []*Term
	t = plain(t)
	switch {
	case t.Op == "concat":
		for _, a := range t.Args {
			out = append(out, in.pieces(a)...)
		}
	case isCallTo(t, "fmt.Sprintf") && len(t.Args) == 2:
		f, ok := t.Args[0].constStr()
		var args []*Term
		if t.Args[1].Op == "slicelit" {
			args = t.Args[1].Args
		}
		if !ok {
			return []*Term{t}
		}
		w := in
		for f != "" {
			i := strings.IndexByte(f, '%')
			if i < 0 {
				out = append(out, w.Str(f))
				break
			}
			if i > 0 {
				out = append(out, w.Str(f[:i]))
			}
			if i+1 >= len(f) {
				return []*Term{t}
			}
			switch f[i+1] {
			case '%':
				out = append(out, w.Str("%"))
			case 's', 'v':
				if len(args) == 0 || !isStringType(unwrapIface(args[0]).Typ) {
					return []*Term{t}
				}
				out = append(out, in.pieces(unwrapIface(args[0]))...)
				args = args[1:]
			default:
				return []*Term{t}
			}
			f = f[i+2:]
		}
	default:
		return []*Term{t}
	}
	var m []*Term
	for _, p := range out {
		if s, ok := p.constStr(); ok {
			if s == "" {
				continue
			}
			if len(m) > 0 {
				if l, ok := m[len(m)-1].constStr(); ok {
					m[len(m)-1] = in.Str(l + s)
					continue
				}
			}
		}
		m = append(m, p)
	}
	return m
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// isText: t is put together from these parts (strings are constants).
func (in *World) isText(t *Term, parts ...any) bool {
	ps := in.pieces(t)
	if len(ps) != len(parts) {
		return false
	}
	for i, p := range parts {
		switch p := p.(type) {
		case string:
			if s, ok := ps[i].constStr(); !ok || s != p {
				return false
			}
		case func(*Term) bool:
			if !p(ps[i]) {
				return false
			}
		}
	}
	return true
}

// watching is the analysis of what the watcher's Start starts.
type watching struct {
	c       *Ctx
	in      *Interp
	fn      *ssa.Function
	w       *Term
	gos     []*Event
	r, cl   *Term // the resource and cluster of a stream
	resLoop *Loop
	clLoop  *Loop
	outer   *Loop    // attempts to open a stream
	inner   *Loop    // events of a stream
	open    *Event   // the stream is opened
	recv    []*Event // events of the stream
	stops   []*Event
}

// rangedField: the loop ranges over this field of the receiver.
func (w *watching) rangedField(t *Term) bool {
	root, p := fieldPath(t)
	return root == w.w && len(p) == 1
}

func watchFacts(c *Ctx) *watching {
	fn := c.P.implMethod(watcherIface, "Start")
	if fn == nil {
		giveUp(nil, "no implementation of the watcher's Start was found")
	}
	in := newInterp(c.P)
	c.Analyse(in, fn, nil)
	w := &watching{c: c, in: in, fn: fn, w: in.Entry.params[0]}
	for _, e := range in.calls("(*k8s.io/client-go/rest.Request).Watch") {
		if w.open != nil {
			giveUp(e, "streams are opened in more than one place")
		}
		w.open = e
	}
	if w.open == nil {
		giveUp(fn, "the place where streams are opened was not found")
	}
	if !w.open.InGo {
		giveUp(w.open, "streams are not opened in a goroutine")
	}
	for _, e := range in.kind("recv") {
		in.each(e.Args[0], e.Guard, func(ch *Term, g B) {
			switch {
			case isMethodCall(ch, "ResultChan") && mentions(ch, func(t *Term) bool { return t.Op == "extract" && t.Aux == "0" && t.Args[0] == w.open.Result }):
				w.recv = append(w.recv, e)
			case isMethodCall(ch, "ResultChan"):
				w.recv = append(w.recv, e)
			}
		})
		if w.isStop(e.Args[0]) {
			w.stops = append(w.stops, e)
		}
	}
	if len(w.recv) != 1 {
		giveUp(w.open, "streams are read in %d places", len(w.recv))
	}
	// the loops: resources and clusters outside the goroutine, attempts and
	// events inside
	var inside []*Loop
	for _, e := range in.kind("go") {
		if len(e.Loops) < len(w.open.Loops) && w.prefix(e.Loops, w.open.Loops) && !e.InGo {
			w.gos = append(w.gos, e)
		}
	}
	if len(w.gos) != 1 {
		giveUp(fn, "streams are started in %d places", len(w.gos))
	}
	inside = w.open.Loops[len(w.gos[0].Loops):]
	if len(inside) != 1 {
		giveUp(w.open, "the loop over the attempts to open a stream was not found")
	}
	w.outer = inside[0]
	for _, l := range w.recv[0].Loops {
		if l.Parent == w.outer {
			w.inner = l
		}
	}
	if w.inner == nil {
		giveUp(w.recv[0], "the loop over the events of a stream was not found")
	}
	for _, l := range w.gos[0].Loops {
		s := in.countOf(l)
		switch {
		case s != nil && s.seq != nil && w.rangedField(s.seq):
			w.resLoop = l
		case l.RangeM != nil && w.rangedField(l.RangeM):
			w.clLoop = l
		}
	}
	return w
}

func (w *watching) prefix(a, b []*Loop) bool {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return false
		}
	}
	return true
}

// isStop: the channel Stop closes.
func (w *watching) isStop(ch *Term) bool {
	root, p := fieldPath(ch)
	if root != w.w || len(p) != 1 {
		return false
	}
	fn := w.c.P.implMethod(watcherIface, "Stop")
	if fn == nil {
		return false
	}
	in := newInterp(w.c.P)
	w.c.Analyse(in, fn, nil)
	ok := false
	for _, e := range in.kind("close") {
		r, q := fieldPath(e.Args[0])
		ok = ok || r == in.Entry.params[0] && len(q) == 1 && q[0] == p[0]
	}
	return ok
}

// event: the term of the event read, and whether the stream is open.
func (w *watching) event(t *Term) bool {
	if t.Op != "recv" || t.Args[0] != w.recv[0].Result {
		return false
	}
	if len(t.Args) < 2 {
		return true
	}
	for _, a := range w.in.Alts(w.recv[0].Args[0]) {
		if a.T == t.Args[1] {
			return true
		}
	}
	return false
}

func (w *watching) openB() B {
	return w.in.anyAtom(func(t *Term) bool { return t.Op == "recvok" && t.Args[0] == w.recv[0].Result })
}

func (w *watching) typeIs(names ...string) B {
	r := bFalse
	for _, n := range names {
		r = w.in.Or(r, w.in.anyAtom(eqConst(n, func(t *Term) bool {
			root, p := fieldPath(plain(t))
			return len(p) == 1 && p[0] == "Type" && w.event(root)
		})))
	}
	return r
}

// types: what is known about the type of an event.
func (w *watching) typeAxioms() B {
	in := w.in
	ax := bTrue
	var all []B
	for _, n := range []string{"ADDED", "MODIFIED", "DELETED", "ERROR", "BOOKMARK"} {
		if b := w.typeIs(n); b != bFalse {
			all = append(all, b)
		}
	}
	for i, a := range all {
		for _, b := range all[i+1:] {
			ax = in.And(ax, in.Not(in.And(a, b)))
		}
		if o := w.openB(); o != bFalse {
			ax = in.And(ax, in.Or(o, in.Not(a))) // what is read from a closed stream has no type
		}
	}
	return ax
}

// isResource: t is the resource of the stream.
func (w *watching) isResource(t *Term) bool {
	s := w.in.countOf(w.resLoop)
	return s != nil && w.resLoop != nil && (s.isElem(t) || t.Op == "load" && s.isElem(t.Args[0]))
}

func (w *watching) isCluster(t *Term) bool {
	return w.clLoop != nil && w.in.loopKey(plain(t), w.clLoop)
}

// resourceField: t is this part of the resource of the stream.
func (w *watching) resourceField(name string) func(*Term) bool {
	return func(t *Term) bool {
		t = plain(t)
		if t.Op == "field" && t.Aux == name {
			return w.isResource(t.Args[0])
		}
		return t.Op == "load" && t.Args[0].Op == "fieldaddr" && t.Args[0].Aux == name && w.isResource(t.Args[0].Args[0])
	}
}

// storeCalls: calls of the store's operation.
func (w *watching) storeCalls(names ...string) []*Event {
	var out []*Event
	for _, e := range w.in.kind("call") {
		for _, n := range names {
			if e.Name == "("+storeIface+")."+n {
				out = append(out, e)
			}
		}
	}
	return out
}

func init() {
	register(&Rule{ID: "C14", Rule: "each event read from a stream reaches, on every path, exactly the store operation its type calls for, with the resource and cluster the stream was opened for; one stream is started per configured resource and cluster",
		Run: watchDispatch})
	register(&Rule{ID: "C15", Rule: "the store is purged only after an event (or the end) of a stream was read, at most once per stream, and always before the first event of the stream is applied",
		Run: watchPurge})
	register(&Rule{ID: "C16", Rule: "the loop that opens streams is only left when the watcher is stopped; every iteration tries to open one, pauses before the next and releases what it opened; no wait ignores the stop",
		Run: watchLife})
}

func watchDispatch(c *Ctx) {
	c.made("made", "watcher.NewWatcher", 0, 1, 2)
	w := watchFacts(c)
	in := w.in
	// one stream per resource and cluster
	g0 := w.gos[0]
	c.Ob("streams", g0, w.resLoop != nil && w.clLoop != nil && len(g0.Loops) == 2, "streams are started for every resource and every cluster")
	if w.resLoop == nil || w.clLoop == nil {
		return
	}
	body := g0.Guard
	for i := len(g0.Loops) - 1; i >= 0; i-- {
		l := g0.Loops[i]
		more := in.moreOf(l)
		if s := in.countOf(l); s != nil {
			more = s.more
			n, isC := s.first.constInt()
			c.Ob("streams", l, isC && n == 0, "no resource is left out")
		}
		for _, e := range l.Exits {
			c.Ob("streams", l, !in.Sat(in.And(e.abs, more)), "all resources and clusters are visited")
		}
		for _, b := range l.Backs {
			c.Ob("streams", l, in.Implies(b.abs, body), "a stream is started for each resource and cluster")
		}
		body = in.And(l.AbsEntry, in.Not(more))
	}
	for i := range in.Returns {
		r := &in.Returns[i]
		c.Ob("streams", r.in, in.Implies(r.g, body), "Start starts the streams")
	}
	// the path
	n := 0
	for _, e := range in.calls("(*k8s.io/client-go/rest.Request).RequestURI") {
		if !mentions(w.open.Args[0], func(t *Term) bool { return t == e.Result }) {
			continue
		}
		in.each(e.Args[1], e.Guard, func(u *Term, g B) {
			n++
			core := in.testAtom(func(t *Term) bool { return t.Op == "nonempty" && w.resourceField("Group")(t.Args[0]) })
			group, version, res := w.resourceField("Group"), w.resourceField("Version"), w.resourceField("Resource")
			switch {
			case in.isText(u, "/api/", version, "/", res, "?watch=true"):
				c.Ob("path", e, in.Implies(g, in.Not(core)), "resources of the core group are watched at /api")
			case in.isText(u, "/apis/", group, "/", version, "/", res, "?watch=true"):
				c.Ob("path", e, in.Implies(g, core), "resources of named groups are watched at /apis")
			default:
				c.Ob("path", e, false, "the stream is opened for the group, version and resource")
			}
		})
		c.Ob("path", e, in.Implies(w.open.Guard, e.Guard), "every stream has a path")
	}
	c.Ob("path", w.open, n >= 2, "the path of the stream was found")
	// the client
	for _, e := range in.calls("k8s.io/client-go/rest.RESTClientFor") {
		if !mentions(w.open.Args[0], func(t *Term) bool { return t == e.Result }) {
			continue
		}
		cfg := e.Vals[0]
		in.each(cfg, e.Guard, func(t *Term, g B) {
			base := t
			for base.Op == "upd" {
				c.Ob("client", e, base.Aux == "ContentConfig" || base.Aux == "GroupVersion" || base.Aux == "NegotiatedSerializer", "the client keeps the configuration of the cluster (%s)", base.Aux)
				base = base.Args[0]
			}
			root, p := fieldPath(w.clLoop.RangeM)
			ok := false
			if base.Op == "lookup" && w.isCluster(base.Args[1]) {
				r2, p2 := fieldPath(base.Args[0])
				ok = r2 == root && len(p) == 1 && len(p2) == 1 && p[0] == p2[0]
			}
			if base.Op == "mapelem" || base.Op == "rangeval" {
				ok = true
			}
			c.Ob("client", e, ok || in.loopValue(base, w.clLoop), "a stream is opened at the API server of its cluster")
		})
	}
	c.Min("client", 1)
	// decoding
	w.decodable()
	// the events
	ax := w.typeAxioms()
	for _, e := range w.storeCalls("OnResourceAdded", "OnResourceModified", "OnResourceDeleted") {
		g := in.And(e.Guard, ax)
		del := strings.HasSuffix(e.Name, "Deleted")
		want := w.typeIs("ADDED", "MODIFIED")
		if del {
			want = w.typeIs("DELETED")
		}
		c.Ob("dispatch", e, in.Implies(g, want), "an event is applied as what it is")
		c.Ob("dispatch", e, in.Implies(g, w.recv[0].Guard) && w.in.inLoop(e, w.inner), "only events of the stream are applied")
		c.Ob("dispatch", e, in.all(e.Args[1], g, func(t *Term, g B) bool { return w.isResource(t) }), "events are applied to the resource of the stream")
		c.Ob("dispatch", e, in.all(e.Args[2], g, func(t *Term, g B) bool { return w.isCluster(t) }), "events are applied to the cluster of the stream")
		c.Ob("dispatch", e, in.all(e.Args[3], g, func(t *Term, g B) bool {
			root, p := fieldPath(unwrapIface(t))
			return len(p) == 1 && p[0] == "Object" && w.event(root)
		}), "the object applied is the one of the event")
	}
	for typ, ops := range map[string][]string{"ADDED": {"OnResourceAdded", "OnResourceModified"}, "MODIFIED": {"OnResourceAdded", "OnResourceModified"}, "DELETED": {"OnResourceDeleted"}} {
		applied := bFalse
		for _, e := range w.storeCalls(ops...) {
			applied = in.Or(applied, e.Guard)
		}
		is := w.typeIs(typ)
		c.Ob("dispatch", w.recv[0], is != bFalse, "%s events are recognised", typ)
		// without an open test a closed stream has no type
		got := in.And(in.And(w.recv[0].Guard, is), ax)
		for _, b := range append(append([]*edgeState{}, w.inner.Backs...), w.inner.Exits...) {
			c.Ob("dispatch", w.inner, in.Implies(in.And(b.abs, got), applied), "every %s event is applied", typ)
		}
	}
	c.Min("dispatch", 15)
}

// decodable: the client of a stream decodes with a scheme of its own that knows
// the kind of the resource.
func (w *watching) decodable() {
	in, c := w.in, w.c
	var client *Event
	for _, e := range in.calls("k8s.io/client-go/rest.RESTClientFor") {
		client = e
	}
	if client == nil {
		return
	}
	var schemes []*Event
	for _, e := range in.calls("k8s.io/apimachinery/pkg/runtime.NewScheme") {
		if e.InGo {
			schemes = append(schemes, e)
		}
	}
	isScheme := func(t *Term) bool {
		for _, e := range schemes {
			if e.Result == t {
				return true
			}
		}
		return false
	}
	ser := in.fieldOf(client.Vals[0], "ContentConfig", "NegotiatedSerializer")
	c.Ob("decode", client, in.all(ser, client.Guard, func(t *Term, g B) bool { return mentions(t, isScheme) }), "a stream decodes with a scheme no other stream changes")
	gv := in.fieldOf(client.Vals[0], "ContentConfig", "GroupVersion")
	c.Ob("decode", client, in.all(gv, client.Guard, func(t *Term, g B) bool { return t.Op == "alloc" || t.Op == "ptrto" || t.Op == "ptrver" }), "the client of a stream has a version (there is none without)")
	kind := func(t *Term) bool {
		t = plain(t)
		if !isCallTo(t, "strings.TrimSuffix") || !isCallTo(t.Args[0], modPath+"/common.GetGVRKind") {
			return false
		}
		s, ok := t.Args[1].constStr()
		k := t.Args[0]
		return ok && s == "List" && w.resourceField("Group")(k.Args[0]) && w.resourceField("Version")(k.Args[1]) && w.resourceField("Resource")(k.Args[2])
	}
	// ofResource: a group and version (and kind) of the resource
	ofResource := func(t *Term, withKind bool) bool {
		if !in.all(in.fieldOf(t, "Group"), bTrue, func(t *Term, g B) bool { return w.resourceField("Group")(t) }) ||
			!in.all(in.fieldOf(t, "Version"), bTrue, func(t *Term, g B) bool { return w.resourceField("Version")(t) }) {
			return false
		}
		return !withKind || in.all(in.fieldOf(t, "Kind"), bTrue, func(t *Term, g B) bool { return kind(t) })
	}
	known := bFalse
	var registered []*Event
	for _, e := range in.calls("(*k8s.io/apimachinery/pkg/runtime.Scheme).AddKnownTypeWithName") {
		ok := in.all(e.Args[1], e.Guard, func(t *Term, g B) bool {
			return in.all(in.fieldOf(t, "Group"), g, func(t *Term, g B) bool { return w.resourceField("Group")(t) }) &&
				in.all(in.fieldOf(t, "Version"), g, func(t *Term, g B) bool { return w.resourceField("Version")(t) }) &&
				in.all(in.fieldOf(t, "Kind"), g, func(t *Term, g B) bool { return kind(t) })
		})
		c.Ob("decode", e, ok, "the kind of the resource is registered")
		if ok && isScheme(e.Args[0]) {
			known = in.Or(known, e.Guard)
			registered = append(registered, e)
		}
	}
	const schemeM = "(*k8s.io/apimachinery/pkg/runtime.Scheme)."
	had := in.atomsWhere(func(t *Term) bool {
		switch {
		case t.Op == "has":
			return kind(t.Args[1]) && mentions(t.Args[0], func(x *Term) bool {
				return isCallTo(x, schemeM+"KnownTypes") && isScheme(x.Args[0]) && ofResource(x.Args[1], false)
			})
		case t.Op == "eq" && t.Args[1].isNil():
			x := t.Args[0]
			return x.Op == "extract" && x.Aux == "1" && isCallTo(x.Args[0], schemeM+"New") && isScheme(x.Args[0].Args[0]) && ofResource(x.Args[0].Args[1], true)
		}
		return isCallTo(t, schemeM+"Recognizes") && isScheme(t.Args[0]) && ofResource(t.Args[1], true)
	})
	for _, e := range registered {
		ok := false
		for _, h := range had {
			ok = ok || in.Implies(e.Guard, in.Not(h))
		}
		c.Ob("decode", e, ok, "a kind the scheme knows already is not registered again (that panics)")
	}
	for _, h := range had {
		known = in.Or(known, h)
	}
	c.Ob("decode", client, in.Implies(client.Guard, known), "the scheme of a stream knows the kind of its resource")
	c.Min("decode", 3)
}

func watchPurge(c *Ctx) {
	w := watchFacts(c)
	in := w.in
	cleans := w.storeCalls("Clean")
	c.Ob("purge", w.recv[0], len(cleans) > 0, "a new stream purges the store")
	clean := bFalse
	for _, e := range cleans {
		c.Ob("purge", e, in.all(e.Args[1], e.Guard, func(t *Term, g B) bool { return w.isResource(t) }), "a new stream purges its resource only")
		c.Ob("purge", e, in.all(e.Args[2], e.Guard, func(t *Term, g B) bool { return w.isCluster(t) }), "a new stream purges its cluster only")
		c.Ob("purge", e, in.inLoop(e, w.inner) && in.Implies(e.Guard, w.recv[0].Guard), "the store is purged when a stream delivers, not before")
		clean = in.Or(clean, e.Guard)
	}
	if len(cleans) > 1 {
		for i, a := range cleans {
			for _, b := range cleans[i+1:] {
				c.Ob("once", b, !in.Sat(in.And(a.Guard, b.Guard)), "the store is purged once")
			}
		}
	}
	// a flag that tells whether the stream was purged for
	flag, val := w.purgeFlag(clean)
	c.Ob("once", w.inner, flag != nil, "a stream purges the store at most once: it remembers that it did")
	if flag == nil {
		return
	}
	todo := in.isB(flag, val)
	for _, e := range cleans {
		c.Ob("once", e, in.Implies(e.Guard, todo), "the store is purged at most once per stream")
	}
	for _, e := range w.storeCalls("OnResourceAdded", "OnResourceModified", "OnResourceDeleted") {
		done := bFalse
		for _, k := range cleans {
			if k.ID < e.ID || !in.reaches(e, k) {
				done = in.Or(done, k.Guard)
			}
		}
		c.Ob("before", e, in.Implies(in.And(e.Guard, todo), done), "the store is purged before the first event of a stream is applied")
	}
	c.Min("purge", 3)
	c.Min("before", 2)
}

// reaches: a comes before b in the same block or a block that leads to it.
func (in *Interp) reaches(a, b *Event) bool { return a.ID < b.ID }

// purgeFlag: a variable of the event loop that has one value until the store is
// purged and the other ever after.
func (w *watching) purgeFlag(clean B) (*Term, bool) {
	in := w.in
	for _, v := range w.inner.Vars {
		li := in.loopInfo[v]
		if li == nil || v.Typ == nil {
			continue
		}
		if b, ok := v.Typ.Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
			continue
		}
		for _, val := range []bool{true, false} {
			todo := in.isB(v, val)
			if in.Sat(in.And(w.inner.AbsEntry, in.isB(li.Init, !val))) {
				continue
			}
			ok := true
			for _, b := range li.Back {
				next := in.isB(b.T, val)
				// purged: done for good; not purged: unchanged
				if in.Sat(in.And(b.G, in.And(in.Or(clean, in.Not(todo)), next))) {
					ok = false
				}
				if in.Sat(in.And(b.G, in.And(in.And(in.Not(clean), todo), in.Not(next)))) {
					ok = false
				}
			}
			if ok {
				return v, val
			}
		}
	}
	return nil, false
}

func watchLife(c *Ctx) {
	w := watchFacts(c)
	in := w.in
	stopped := bFalse
	for _, e := range w.stops {
		stopped = in.Or(stopped, e.Guard)
	}
	c.Ob("stop", w.fn, len(w.stops) > 0, "streams end when the watcher is stopped")
	for _, l := range []*Loop{w.outer, w.inner} {
		for _, b := range l.Backs {
			c.Ob("stop", l, !in.Sat(in.And(b.abs, stopped)), "nothing is read or opened after the stop")
		}
	}
	for _, x := range w.outer.Exits {
		c.Ob("endless", w.outer, in.Implies(x.abs, stopped), "streams are reopened until the watcher is stopped")
	}
	// the stop is looked at whenever a stream is waited for or opened
	for _, e := range w.recv {
		same := false
		for _, s := range w.stops {
			same = same || s.Instr == e.Instr && in.inLoop(s, w.inner)
		}
		c.Ob("stop", e, same, "waiting for an event ends with the stop")
	}
	looked := bFalse
	for _, e := range in.kind("select") {
		if len(e.Loops) > 0 && e.Loops[len(e.Loops)-1] == w.outer {
			for _, s := range w.stops {
				if s.Instr == e.Instr {
					looked = in.Or(looked, e.Guard)
				}
			}
		}
	}
	for _, s := range w.stops {
		if s.Name != "select" && len(s.Loops) > 0 && s.Loops[len(s.Loops)-1] == w.outer {
			looked = in.Or(looked, s.Guard)
		}
	}
	c.Ob("stop", w.open, in.Implies(w.open.Guard, looked), "no stream is opened after the stop")
	// attempts
	paused := bFalse
	for _, e := range in.calls("time.Sleep") {
		if e.Loops[len(e.Loops)-1] == w.outer || in.inLoop(e, w.inner) {
			in.each(e.Args[0], e.Guard, func(t *Term, g B) {
				if n, ok := t.constInt(); ok && n >= 1e8 {
					paused = in.Or(paused, g)
				}
			})
		}
	}
	for _, e := range in.kind("recv") {
		if mentions(e.Args[0], func(t *Term) bool { return isCallTo(t, "time.After", "time.NewTimer", "time.Tick") }) {
			paused = in.Or(paused, e.Guard)
		}
	}
	// released only once it is over
	over := in.Or(stopped, in.And(w.recv[0].Guard, in.Not(w.openB())))
	early := func(e *Event) {
		ok := e.InDefer
		switch {
		case in.inLoop(e, w.inner):
			ok = ok || in.Implies(e.Guard, over)
		case e.ID < w.recv[0].ID:
			ok = ok || !in.Sat(in.And(e.Guard, w.recv[0].Guard))
		default:
			ok = true
		}
		c.Ob("release", e, ok, "a stream is not released before it ended")
	}
	released := bFalse
	for _, e := range in.kind("call") {
		if e.Name == "dynamic" && mentions(e.Args[0], func(t *Term) bool {
			return isCallTo(t, "context.WithTimeout", "context.WithCancel", "context.WithDeadline")
		}) {
			released = in.Or(released, e.Guard)
			early(e)
		}
	}
	made := bFalse
	for _, e := range in.calls("context.WithTimeout", "context.WithCancel", "context.WithDeadline") {
		made = in.Or(made, e.Guard)
	}
	closed := bFalse
	for _, e := range in.kind("call") {
		if isMethodName(e.Name, "Stop") && len(e.Args) > 0 && mentions(e.Args[0], func(t *Term) bool { return t == w.open.Result }) {
			closed = in.Or(closed, e.Guard)
			early(e)
		}
	}
	ends := append(append([]*edgeState{}, w.outer.Backs...), w.outer.Exits...)
	for _, b := range ends {
		g := in.And(b.abs, made)
		c.Ob("release", w.outer, in.Implies(g, in.Or(released, closed)), "every stream is released when it ends")
	}
	for _, b := range w.outer.Backs {
		c.Ob("endless", w.outer, in.Implies(b.abs, w.open.Guard), "every attempt opens a stream")
		c.Ob("pause", w.outer, in.Implies(b.abs, paused), "an ended or failed stream is not reopened at once")
	}
	// a stream that ended is left
	if o := w.openB(); o != bFalse {
		for _, b := range w.inner.Backs {
			c.Ob("ended", w.inner, !in.Sat(in.And(b.abs, in.And(w.recv[0].Guard, in.Not(o)))), "a stream that ended is left")
		}
	} else {
		c.Ob("ended", w.recv[0], false, "the end of a stream is noticed")
	}
	for _, x := range w.inner.Exits {
		c.Ob("ended", w.inner, in.Implies(x.abs, in.Or(stopped, in.And(w.recv[0].Guard, in.Not(w.openB())))), "a stream is read until it ends")
	}
	c.Min("endless", 2)
	c.Min("pause", 1)
	c.Min("release", 2)
	c.Min("stop", 4)
	c.Min("ended", 2)
}
