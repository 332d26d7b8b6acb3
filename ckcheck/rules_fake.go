package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The server for tests (pkg/client/fake): what it does with the objects given to
// it and whom it tells.

const fakePkg = modPath + "/pkg/client/fake"

type fakeServer struct {
	c        *Ctx
	register *ssa.Function
	routes   *serverFacts
	change   *ssa.Function // the handler that changes objects
	watch    *ssa.Function // the handler that streams changes
	ctor     *Interp
	mux      *Event // the server it is made of
	store    string // the field that holds the objects
	feed     string // the field that holds the channel of events
	watchers string // the field that holds the channels of watches
	watchKey []*Term
}

// handlerFn: the function a handler term stands for (the method behind a bound
// method value).
func handlerFn(t *Term) *ssa.Function {
	t = unwrapIface(t)
	for t.Op == "convert" {
		t = unwrapIface(t.Args[0])
	}
	fn, _ := t.Obj.(*ssa.Function)
	if fn != nil && fn.Synthetic != "" {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c := callCommon(i); c != nil && c.StaticCallee() != nil {
					return c.StaticCallee()
				}
			}
		}
	}
	return fn
}

func isHTTPHandler(fn *ssa.Function) bool {
	n := len(fn.Params)
	return n >= 2 && typeIs(fn.Params[n-2].Type(), "net/http.ResponseWriter") && typeIs(fn.Params[n-1].Type(), "*net/http.Request", "net/http.Request")
}

func fakeOf(c *Ctx) *fakeServer {
	f := &fakeServer{c: c}
	ctor := c.P.Func(fakePkg + ".NewFakeCKubeServer")
	if ctor == nil {
		giveUp(nil, "NewFakeCKubeServer was not found")
	}
	mk := c.P.Func(serverPkg + ".NewMuxServer")
	in := newInterp(c.P)
	old := in.Opaque
	in.Opaque = func(fn *ssa.Function) bool {
		return old(fn) || fn == mk
	}
	c.Analyse(in, ctor, nil)
	made := in.calls(modPath + "/server.NewMuxServer")
	if len(made) != 1 || made[0].Args[3].Op != "slicelit" || len(made[0].Args[3].Args) != 1 {
		giveUp(ctor, "the server is not made in one place with one function that registers routes")
	}
	f.register = handlerFn(made[0].Args[3].Args[0])
	if f.register == nil {
		giveUp(made[0], "the function that registers the routes is not known")
	}
	f.made(in, made[0])
	f.configured(ctor, old)

	rin := newInterp(c.P)
	rin.Unroll = 60
	old2 := rin.Opaque
	rin.Opaque = func(fn *ssa.Function) bool { return old2(fn) || isHTTPHandler(fn) }
	c.Analyse(rin, f.register, nil)
	f.routes = &serverFacts{c: c, in: rin, fn: f.register, handlers: map[string]*ssa.Function{}, cells: map[string]*Term{}}
	f.routes.findRoutes()
	return f
}

// made: what the server changes is what it serves.
func (f *fakeServer) made(in *Interp, e *Event) {
	c := f.c
	c.Ob("made", e, in.all(e.Args[0], e.Guard, func(t *Term, _ B) bool { return t == in.Entry.params[0] }), "the server listens at the address given")
	for _, x := range in.calls(modPath + "/common.InitConfig") {
		v := x.Vals1(0)
		c.Ob("made", x, v != nil && in.all(in.fieldOf(v, "Token"), x.Guard, func(t *Term, _ B) bool { s, ok := t.constStr(); return ok && s == "" }), "the server for tests asks for no token")
		c.Ob("made", x, x.ID < e.ID && in.Implies(e.Guard, x.Guard), "the configuration is the one given")
	}
	f.ctor, f.mux = in, e
}

func bool2B(b bool) B {
	if b {
		return bTrue
	}
	return bFalse
}

// asked: the clusters are those the marker of the selector of the request
// names, and only where there is none, or no selector, none are.
func (f *fakeServer) asked(in *Interp, e *Event) {
	c := f.c
	parse := func(t *Term) bool {
		return mentions(t, func(x *Term) bool {
			return isCallTo(x, modPath+"/kube.ParseToLabelSelector", modPath+"/kube.MergeValues")
		})
	}
	option := in.anyAtom(eqConst("labelSelector", func(t *Term) bool { return strings.HasPrefix(t.Op, "mapkey") }))
	// the current requirement is the marker; it has no values
	current := func(t *Term, l *Loop, name string) bool {
		_, p := fieldPath(t)
		return len(p) > 0 && p[len(p)-1] == name && parse(t) && mentions(t, func(x *Term) bool {
			li := in.loopInfo[x]
			return x.hasLoop(l) || li != nil && li.Loop == l
		})
	}
	own := func(l *Loop) B {
		return in.anyAtom(eqConst(searchKey, func(t *Term) bool { return current(t, l, "Key") }))
	}
	empty := func(l *Loop) B {
		some := in.anyAtom(func(t *Term) bool { return t.Op == "nonempty" && current(t.Args[0], l, "Values") })
		return in.And(in.Not(some), bool2B(some != bFalse))
	}
	// the text of the selector, or of the marker in it
	var text func(t *Term) bool
	text = func(t *Term) bool {
		li := in.loopInfo[t]
		if li == nil {
			return parse(t) || mentions(t, func(x *Term) bool {
				return x.Op == "urlquery" || x.Op == "parsedquery" || isMethodName(x.Aux, "FormValue")
			})
		}
		ok := true
		for _, b := range li.Back {
			in.each(b.T, b.G, func(v *Term, g B) {
				switch {
				case v == t && li.Loop.RangeM != nil:
					ok = ok && !in.Sat(in.And(g, option))
				case v == t:
					ok = ok && !in.Sat(in.And(in.And(g, own(li.Loop)), in.Not(empty(li.Loop))))
				default:
					ok = ok && (in.Implies(g, option) || in.Implies(g, own(li.Loop)) && parse(v))
				}
			})
		}
		return ok
	}
	none := bFalse
	for v, t := range in.atoms {
		switch {
		case t.Op == "nonempty" && text(t.Args[0]):
			none = in.Or(none, in.Not(in.Var(v)))
		case t.Op == "eq" && t.Args[1].Aux == `""` && text(t.Args[0]):
			none = in.Or(none, in.Var(v))
		}
	}
	inLabels := func(t *Term) bool {
		return (t.Op == "has" || t.Op == "lookup") && parse(t.Args[0]) && t.Args[1].Aux == strconv.Quote(searchKey)
	}
	looked := false
	for _, d := range in.calls("(*encoding/base64.Encoding).DecodeString") {
		in.each(d.Args[1], d.Guard, func(t *Term, g B) { looked = looked || in.Sat(g) && mentions(t, inLabels) })
	}
	c.Ob("asked", e, looked, "the marker of a watch is not looked for in the labels")
	in.each(in.fieldOf(e.Vals1(0), "Search"), e.Guard, func(t *Term, g B) {
		if root, _ := fieldPath(t); root.Op == "out" || root.Op == "outfield" {
			c.Ob("asked", e, isCallTo(root.Args[0], "encoding/json.Unmarshal") && mentions(root.Args[0], func(x *Term) bool {
				return isCallTo(x, "(*encoding/base64.Encoding).DecodeString") && (parse(x.Args[1]) || text(plain(x.Args[1])))
			}), "the clusters of a watch are decoded from something else than the marker of its selector")
			return
		}
		s, ok := t.constStr()
		c.Ob("asked", e, ok && s == "" && in.Implies(g, none), "the clusters the selector of a watch names are not regarded")
	})
}

// configured: the configuration in force and the cache are those of the
// configuration given.
func (f *fakeServer) configured(ctor *ssa.Function, old func(*ssa.Function) bool) {
	c := f.c
	mk := c.P.Func(serverPkg + ".NewMuxServer")
	in := newInterp(c.P)
	in.Opaque = func(fn *ssa.Function) bool { return old(fn) || fn == mk || fn.String() == newMemStoreFn }
	c.Analyse(in, ctor, nil)
	given := func(t *Term, field string) bool {
		root, p := fieldPath(plain(t))
		return len(p) == 1 && p[0] == field && mentions(root, func(x *Term) bool { return x == in.Entry.params[1] })
	}
	for _, x := range in.calls(modPath + "/common.InitConfig") {
		v := x.Vals1(0)
		for _, field := range []string{"Proxies", "DefaultCluster"} {
			c.Ob("configured", x, v != nil && in.all(in.fieldOf(v, field), x.Guard, func(t *Term, _ B) bool { return given(t, field) }), "%s is not as configured", field)
		}
	}
	n := 0
	for _, st := range in.calls(newMemStoreFn) {
		n++
		in.storeIndexes(c, "configured", st, nil, func(t *Term) bool { return isConfigField(plain(t), "Proxies") || given(t, "Proxies") }, func(g, x B) bool { return in.Implies(in.dropAll(g), x) || in.Implies(g, x) })
	}
	if n == 0 {
		giveUp(ctor, "the cache is not made by NewMemoryStore")
	}
	f.fromFile(ctor, old)
	c.Min("configured", 8)
}

// fromFile: a server made from a file is the one made from what the file says.
func (f *fakeServer) fromFile(ctor *ssa.Function, old func(*ssa.Function) bool) {
	c := f.c
	fn := c.P.Func(fakePkg + ".NewFakeCKubeServerWithConfigPath")
	if fn == nil {
		giveUp(nil, "NewFakeCKubeServerWithConfigPath was not found")
	}
	in := newInterp(c.P)
	in.Opaque = func(fn *ssa.Function) bool { return old(fn) || fn == ctor }
	c.Analyse(in, fn, nil)
	listen, file := in.Entry.params[0], in.Entry.params[1]
	var made []*Event
	for _, e := range in.kind("call") {
		if e.Name != ctor.String() && e.Name != modPath+"/pkg/client/fake.NewFakeCKubeServer" {
			continue
		}
		made = append(made, e)
		c.Ob("configured", e, in.all(e.Args[0], e.Guard, func(t *Term, _ B) bool { return plain(t) == listen }), "the server listens somewhere else than asked")
		c.Ob("configured", e, in.all(e.Args[1], e.Guard, func(t *Term, g B) bool {
			for _, r := range in.calls("os.ReadFile", "io/ioutil.ReadFile") {
				if plain(r.Args[0]) != file || !mentions(t, func(x *Term) bool { return x == r.Result }) {
					continue
				}
				return in.Implies(g, in.anyAtom(isNilCmp(func(t *Term) bool { return t.Op == "extract" && t.Aux == "1" && t.Args[0] == r.Result })))
			}
			return false
		}), "the configuration is not what the file says")
	}
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[0], r.g, func(t *Term, g B) {
			if !t.isNil() {
				c.Ob("configured", r.in, in.from(t, g, made...), "the server is not the one made from the file")
				return
			}
			c.Ob("configured", r.in, in.isErr(r.vals[1], g), "there is neither a server nor an error")
		})
	}
}

// find the handlers by the paths they are registered for.
func (f *fakeServer) find() {
	c := f.c
	type hit struct {
		r  *srvRoute
		fn *ssa.Function
	}
	find := func(method string, path []string) (*hit, map[string]string) {
		for _, r := range f.routes.routes {
			t := parseTmpl(r)
			v, ok := t.match(path)
			if !ok || r.methods != nil && !r.methods[method] {
				continue
			}
			return &hit{r, handlerFn(r.with.Args[len(r.with.Args)-1])}, v
		}
		return nil, nil
	}
	check := func(what **ssa.Function, name, method string, path []string, want map[string]string) {
		h, vars := find(method, path)
		p := method + " /" + strings.Join(path, "/")
		if h == nil || h.fn == nil {
			c.Ob("paths", f.register, false, "%s is not %s by the server for tests", p, name)
			return
		}
		if *what == nil {
			*what = h.fn
		}
		c.Ob("paths", h.r.at, *what == h.fn, "%s is %s", p, name)
		for _, k := range []string{"group", "version", "namespace", "resourceType", "resourceName"} {
			c.Ob("paths", h.r.at, vars[k] == want[k], "%s: the %s is bound wrongly", p, k)
		}
	}
	for _, group := range []string{"", "g"} {
		for _, ns := range []string{"", "n"} {
			for _, name := range []string{"", "o"} {
				mk := func(watch bool) ([]string, map[string]string) {
					w := map[string]string{"version": "v", "resourceType": "r"}
					p := []string{"api", "v"}
					if group != "" {
						p = []string{"apis", group, "v"}
						w["group"] = group
					}
					if watch {
						p = append(p, "watch")
					}
					if ns != "" {
						p = append(p, "namespaces", ns)
						w["namespace"] = ns
					}
					p = append(p, "r")
					if name != "" {
						p = append(p, name)
						w["resourceName"] = name
					}
					return p, w
				}
				for _, m := range []string{"POST", "PUT", "DELETE"} {
					p, w := mk(false)
					check(&f.change, "a change", m, p, w)
				}
				if name == "" {
					p, w := mk(true)
					check(&f.watch, "watched", "GET", p, w)
				}
			}
		}
	}
	if f.change == nil || f.watch == nil {
		giveUp(f.register, "the handlers are not known")
	}
}

var fakeOps = []struct{ method, op, action string }{
	{"POST", "OnResourceAdded", "EventActionAdd"},
	{"PUT", "OnResourceModified", "EventActionUpdate"},
	{"DELETE", "OnResourceDeleted", "EventActionDelete"},
}

// kept: what the field of the server returned holds is want.
func (f *fakeServer) kept() {
	in, c := f.ctor, f.c
	n := 0
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[0], r.g, func(t *Term, g B) {
			t = unwrapIface(t)
			if t.isNil() {
				c.Ob("made", r.in, in.all(r.vals[1], g, func(x *Term, h B) bool { return in.isErr(x, h) }), "no server is an error")
				return
			}
			n++
			field := func(name string) *Term {
				ft := structField(deref(t.Typ), name)
				if ft == nil {
					giveUp(r.in, "the server has no field %s", name)
				}
				return in.load(r.mem, in.FieldAddr(t, name, ft), ft)
			}
			c.Ob("made", r.in, in.all(field(f.store), g, func(x *Term, _ B) bool { return x == f.mux.Args[2] }), "the objects that are changed are those that are served")
			c.Ob("made", r.in, in.all(field(f.feed), g, func(x *Term, _ B) bool { return x.Op == "makechan" }), "there is a channel of events")
			c.Ob("made", r.in, in.all(field(f.watchers), g, func(x *Term, _ B) bool { return isFreshMap(x) }), "there is a place for watches")
		})
	}
	c.Ob("made", f.mux, n > 0, "a server is returned")
	// Events, Clean
	ev := c.P.implMethod(fakePkg+".CkubeServer", "Events")
	cl := c.P.implMethod(fakePkg+".CkubeServer", "Clean")
	if ev == nil || cl == nil {
		giveUp(nil, "the server for tests has no Events or no Clean")
	}
	in = newInterp(c.P)
	c.Analyse(in, ev, nil)
	for i := range in.Returns {
		r := &in.Returns[i]
		c.Ob("events", r.in, in.all(r.vals[0], r.g, func(t *Term, _ B) bool {
			for t.Op == "convert" {
				t = t.Args[0]
			}
			root, p := fieldPath(t)
			return root == in.Entry.params[0] && len(p) == 1 && p[0] == f.feed
		}), "Events is the channel changes are told to")
	}
	in = newInterp(c.P)
	old := in.Opaque
	in.Opaque = func(fn *ssa.Function) bool {
		return old(fn) || fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath+"/server"
	}
	c.Analyse(in, cl, nil)
	var fresh *Term
	for _, e := range in.kind("store") {
		root, p := fieldPath(e.Addr)
		if root == in.Entry.params[0] && len(p) == 1 && p[0] == f.store {
			fresh = e.Args[1]
			c.Ob("clean", e, in.Implies(bTrue, in.dropAll(e.Guard)), "Clean replaces the objects")
		}
	}
	n = 0
	for _, e := range in.calls("("+serverPkg+".Server).ResetStore", "("+modPath+"/server.Server).ResetStore") {
		n++
		c.Ob("clean", e, fresh != nil && e.Args[1] == fresh, "after Clean the objects that are changed are those that are served")
	}
	c.Ob("clean", cl, fresh != nil && n == 1 && unwrapIface(fresh).Op == "alloc", "Clean starts with an empty cache")
	in2 := newInterp(c.P)
	in2.Opaque = func(fn *ssa.Function) bool { return in.Opaque(fn) || fn.String() == newMemStoreFn }
	c.Analyse(in2, cl, nil)
	in = in2
	for _, st := range in.calls(newMemStoreFn) {
		in.storeIndexes(c, "clean", st, nil, func(t *Term) bool { return isConfigField(plain(t), "Proxies") }, func(g, x B) bool { return in.Implies(in.dropAll(g), x) })
	}
}

// past: when e happens, once the loops before it are over.
func (in *Interp) past(e *Event) B {
	g := e.Guard
	for _, l := range in.Loops {
		if !inLoop(e, l) {
			g = in.dropLoop(g, l)
		}
	}
	return g
}

// dropAll quantifies the loops away.
func (in *Interp) dropAll(g B) B {
	for _, l := range in.Loops {
		g = in.dropLoop(g, l)
	}
	return g
}

// cluster: the cluster a change is for.
func (f *fakeServer) cluster(p *proxyFacts, t *Term, g B, del bool) string {
	in := p.in
	why := ""
	dry := func(x *Term) bool {
		return x.Op == "call" && callName(x) == "strings.HasPrefix" && isDryRun0(x.Args[0])
	}
	dryB := in.anyAtom(dry)
	one := in.anyAtom(func(x *Term) bool {
		isDry := func(y *Term) bool { return hasPathSuffix(y, "DryRun") }
		switch x.Op {
		case "nonempty":
			return isDry(x.Args[0])
		case "eq":
			for i := range x.Args {
				if n, ok := x.Args[i].constInt(); ok && n == 1 && x.Args[1-i].Op == "len" && isDry(x.Args[1-i].Args[0]) {
					return true
				}
			}
		}
		return false
	})
	if one != bFalse {
		dryB = in.And(dryB, one)
	}
	in.each(t, g, func(t *Term, g B) {
		if s, p, ok := in.stripped(t); ok && isDryRun0(s) {
			if !del || p != clusterPrefixText || !in.Implies(g, dryB) {
				why = "the delete options name the cluster of something else"
			}
			return
		}
		if del && (dryB == bFalse || in.Sat(in.And(g, dryB))) {
			why = "the cluster the delete options name is ignored"
		}
		li := in.loopInfo[t]
		if li == nil || li.Loop.RangeM == nil || !p.isReqQuery(li.Loop.RangeM) {
			why = "the cluster is not that of the request: " + in.S(t)
			return
		}
		if !isConfigField(li.Init, "DefaultCluster") {
			why = "the cluster is not the configured default if none is named"
		}
		k := in.mapKeyOf(li.Loop)
		named := func(x *Term) bool { kk, ok := p.queryFirst(x); return ok && kk == k }
		for _, a := range li.Back {
			in.each(a.T, a.G, func(v *Term, g B) {
				has := in.anyAtom(func(x *Term) bool {
					if x.Op != "call" || callName(x) != "strings.HasPrefix" || !named(x.Args[0]) {
						return false
					}
					s, ok := x.Args[1].constStr()
					return ok && s == clusterPrefixText
				})
				option := in.keyIn(li.Loop, "fieldManager", "resourceVersion")
				if v == t {
					if has == bFalse || in.Sat(in.And(g, in.And(option, has))) {
						why = "a cluster the request names is ignored"
					}
					return
				}
				s, pre, ok := in.stripped(v)
				if !ok || pre != clusterPrefixText || !named(s) || !in.Implies(g, in.And(option, has)) {
					why = "the cluster is taken from something that does not name it"
				}
			})
		}
	})
	return why
}

// changes: what the handler of POST, PUT and DELETE does.
func (f *fakeServer) changes() {
	c := f.c
	in := newInterp(c.P)
	old := in.Opaque
	in.Opaque = func(fn *ssa.Function) bool { return old(fn) || fn == f.watch }
	c.Analyse(in, f.change, nil)
	p := &proxyFacts{c: c, in: in, fn: f.change}
	isVar := func(name string) func(*Term, B) bool {
		return func(t *Term, _ B) bool { return isMuxVar(t, name) }
	}
	gvr := func(t *Term, g B) bool {
		return in.all(in.fieldOf(t, "Group"), g, isVar("group")) && in.all(in.fieldOf(t, "Version"), g, isVar("version")) && in.all(in.fieldOf(t, "Resource"), g, isVar("resourceType"))
	}
	isBody := func(t *Term) bool { return t.Op == "extract" && t.Aux == "0" && isBodyRead(t.Args[0]) }
	decoded := func(t *Term) bool {
		return mentions(t, func(x *Term) bool { return isCallTo(x, "encoding/json.Unmarshal") && mentions(x, isBodyRead) })
	}
	unnamed := in.Not(in.nonemptyVar("resourceName"))
	name := func(t *Term, g B) bool {
		return in.all(t, g, func(t *Term, g B) bool {
			if isMuxVar(t, "resourceName") {
				return !in.Sat(in.And(g, unnamed))
			}
			return in.Implies(g, unnamed) && hasPathSuffix(t, "Name") && decoded(t)
		})
	}
	field := func(t *Term) string {
		root, path := fieldPath(t)
		if root != in.Entry.params[0] || len(path) != 1 {
			return ""
		}
		return path[0]
	}
	ops := map[string]*Event{}
	any := bFalse
	for _, k := range fakeOps {
		es := in.calls("(" + storeIface + ")." + k.op)
		if len(es) != 1 {
			giveUp(f.change, "%s is not done in one place (%d)", k.op, len(es))
		}
		ops[k.method] = es[0]
		any = in.Or(any, es[0].Guard)
	}
	for _, o := range in.calls("("+storeIface+").Clean", "("+storeIface+").Query") {
		c.Ob("change", o, false, "a change of one object touches others")
	}
	// what is there already
	reads := in.calls("(" + storeIface + ").Get")
	readBody := bFalse
	for _, b := range in.atomsWhere(isNilCmp(func(t *Term) bool { return t.Op == "extract" && t.Aux == "1" && isBodyRead(t.Args[0]) })) {
		readBody = in.Or(readBody, b)
	}
	status := func(code int64, g B) bool {
		d := bFalse
		for _, e := range in.calls(respIface + "WriteHeader") {
			if in.Sat(in.And(e.Guard, g)) {
				if !in.statusIs(e, code) && in.constUnder(e.Args[1], in.And(e.Guard, g)) != fmt.Sprint(code) {
					return false
				}
				d = in.Or(d, in.past(e))
			}
		}
		return in.Implies(g, d)
	}
	for _, k := range fakeOps {
		o := ops[k.method]
		g := o.Guard
		if s := field(o.Args[0]); f.store == "" {
			f.store = s
		} else {
			c.Ob("change", o, s == f.store, "all changes go to the same cache")
		}
		c.Ob("change", o, f.store != "", "the cache that is changed is the server's")
		c.Ob("change", o, in.Implies(g, p.methodIs(k.method)), "%s is only done for a %s", k.op, k.method)
		c.Ob("change", o, gvr(o.Args[1], g), "%s: the type is that of the path", k.op)
		why := f.cluster(p, o.Args[2], g, k.method == "DELETE")
		c.Ob("change", o, why == "", "%s: %s", k.op, orText(why, "the cluster is the one the request names, or the default"))
		obj := o.Vals[3]
		if obj == nil {
			giveUp(o, "the object is not known")
		}
		for obj.Op == "ptrver" || obj.Op == "ptrto" {
			obj = obj.Args[0]
		}
		c.Ob("change", o, in.all(in.fieldOf(obj, "ObjectMeta", "Namespace"), g, isVar("namespace")), "%s: the namespace is that of the path", k.op)
		nm := in.fieldOf(obj, "ObjectMeta", "Name")
		if k.method == "DELETE" {
			c.Ob("change", o, name(nm, g), "%s: the object is the one that is named", k.op)
		} else {
			c.Ob("change", o, in.all(nm, g, func(t *Term, _ B) bool { return decoded(t) }) && in.all(obj, g, func(t *Term, _ B) bool { return decoded(t) }), "%s: the object is the one given", k.op)
		}
		// only if it is (not) there
		exists, at := bFalse, bFalse
		for _, r := range reads {
			if r.ID > o.ID || !in.Sat(in.And(r.Guard, p.methodIs(k.method))) {
				continue
			}
			here := in.And(r.Guard, p.methodIs(k.method))
			ok := field(r.Args[0]) == f.store && gvr(r.Args[1], here) && f.cluster(p, r.Args[2], here, k.method == "DELETE") == "" &&
				in.all(r.Args[3], here, isVar("namespace")) && name(r.Args[4], here)
			if !ok {
				continue
			}
			at = in.Or(at, here)
			for _, b := range in.atomsWhere(isNilCmp(func(t *Term) bool { return t == r.Result })) {
				exists = in.Or(exists, in.Not(b))
			}
		}
		c.Ob("exists", o, exists != bFalse && in.Implies(g, at), "%s: whether the object is there is looked up", k.op)
		do, refuse, code := in.And(at, exists), in.And(at, in.Not(exists)), int64(404)
		if k.method == "POST" {
			do, refuse, code = refuse, do, 400
		}
		c.Ob("exists", o, in.Implies(g, do), "%s: not if the object is there (POST) or is not (PUT, DELETE)", k.op)
		c.Ob("done", o, in.Implies(do, g), "%s: what can be done is done", k.op)
		c.Ob("answer", o, status(code, refuse), "a %s that cannot be done is answered %d", k.method, code)
		c.Ob("answer", o, status(200, g), "a %s that was done is answered 200", k.method)
		// it is looked up whenever the request could be read
		all := in.And(readBody, p.methodIs(k.method))
		early := bFalse
		for _, w := range in.calls(funcName(f.watch)) {
			early = in.Or(early, w.Guard)
		}
		for _, r := range in.Returns {
			left := in.And(r.g, all)
			if !in.Sat(left) || in.Implies(left, at) {
				continue
			}
			watched := false
			for _, w := range in.calls(funcName(f.watch)) {
				if in.Implies(left, w.Guard) {
					watched = true
				}
			}
			c.Ob("done", r.in, watched, "a %s is answered without being looked at", k.method)
		}
		_ = early
	}
	c.Ob("answer", f.change, readBody != bFalse && status(500, in.And(in.Not(readBody), in.bodyRead())), "a body that cannot be read is answered 500")
	// who is told
	changing := bFalse
	for _, k := range fakeOps {
		changing = in.Or(changing, p.methodIs(k.method))
	}
	told := map[string]B{"feed": bFalse, "watchers": bFalse}
	for _, e := range in.kind("send", "select") {
		if e.Kind == "send" && e.Name != "select" {
			c.Ob("told", e, false, "telling of a change waits for the one who is told")
			continue
		}
		sel, isSel := e.Instr.(*ssa.Select)
		if !isSel {
			continue
		}
		if e.Kind == "select" {
			sends := false
			for _, s := range sel.States {
				sends = sends || s.Send != nil
			}
			if !sends {
				continue
			}
			c.Ob("told", e, !sel.Blocking && len(sel.States) == 1, "telling of a change does not wait")
			ch := e.Args[0]
			if n := field(ch); n != "" {
				f.feed = n
				told["feed"] = in.Or(told["feed"], e.Guard)
				continue
			}
			var l *Loop
			for _, x := range e.Loops {
				if x.RangeM != nil && field(x.RangeM) != "" {
					l = x
				}
			}
			if l == nil {
				giveUp(e, "who is told of a change is not known")
			}
			f.watchers = field(l.RangeM)
			k := in.mapKeyOf(l)
			c.Ob("told", e, mentions(ch, func(x *Term) bool { return x == k }) && mentions(ch, func(x *Term) bool { return field(x) == f.watchers }), "every watch is told")
			c.Ob("told", e, in.Implies(in.And(in.moreOf(l), in.outerOf(l)), e.Guard), "every watch is told of every change")
			for _, x := range l.Exits {
				c.Ob("told", e, !in.Sat(in.And(x.abs, in.moreOf(l))), "every watch is told, not just some")
			}
			told["watchers"] = in.Or(told["watchers"], in.outerOf(l))
			continue
		}
		f.event(p, e, e.Args[1], ops, name, isBody, reads)
	}
	for _, k := range sortedKeys(told) {
		c.Ob("told", f.change, told[k] != bFalse && in.Implies(any, told[k]), "every change is told to the %s", k)
		c.Ob("told", f.change, in.Implies(in.And(told[k], changing), any), "only changes are told to the %s", k)
	}
	c.Min("told", 6)
	c.Min("change", 15)
}

func orText(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// bodyRead: the body of the request is read.
func (in *Interp) bodyRead() B {
	r := bFalse
	for _, e := range in.kind("call") {
		if e.Result != nil && isBodyRead(e.Result) {
			r = in.Or(r, e.Guard)
		}
	}
	return r
}

// outerOf: the loop is reached.
func (in *Interp) outerOf(l *Loop) B { return in.dropLoop(l.AbsEntry, l) }

func (in *Interp) nonemptyVar(name string) B {
	return in.anyAtom(func(t *Term) bool { return t.Op == "nonempty" && isMuxVar(t.Args[0], name) })
}

// event: what is told is what was done.
func (f *fakeServer) event(p *proxyFacts, e *Event, v *Term, ops map[string]*Event, name func(*Term, B) bool, isBody func(*Term) bool, reads []*Event) {
	in, c := p.in, f.c
	isVar := func(n string) func(*Term, B) bool {
		return func(t *Term, _ B) bool { return isMuxVar(t, n) }
	}
	for fl, n := range map[string]string{"Group": "group", "Version": "version", "Resource": "resourceType", "Namespace": "namespace"} {
		c.Ob("event", e, in.all(in.fieldOf(v, fl), e.Guard, isVar(n)), "the %s of an event is that of the path", fl)
	}
	c.Ob("event", e, name(in.fieldOf(v, "Name"), e.Guard), "the name of an event is that of the object")
	for _, k := range fakeOps {
		g := in.And(e.Guard, ops[k.method].Guard)
		c.Ob("event", e, in.Sat(g), "a %s is told", k.method)
		want := f.constOf(k.action)
		c.Ob("event", e, in.all(in.fieldOf(v, "EventAction"), g, func(t *Term, _ B) bool { n, ok := t.constInt(); return ok && n == want }), "the event of a %s is %s", k.method, k.action)
		why := f.cluster(p, in.fieldOf(v, "Cluster"), g, k.method == "DELETE")
		c.Ob("event", e, why == "", "the event of a %s: %s", k.method, orText(why, "its cluster is the one the request names"))
		c.Ob("event", e, in.all(in.fieldOf(v, "Raw"), g, func(t *Term, _ B) bool {
			for t.Op == "convert" || t.Op == "conv" {
				t = t.Args[0]
			}
			if k.method != "DELETE" {
				return isBody(t)
			}
			if t.Op != "extract" || t.Aux != "0" || !isCallTo(t.Args[0], "encoding/json.Marshal") {
				return false
			}
			for _, r := range reads {
				if unwrapIface(t.Args[0].Args[0]) == r.Result {
					return true
				}
			}
			return false
		}), "the event of a %s carries the object", k.method)
	}
}

// constOf: the value of a constant of the package.
func (f *fakeServer) constOf(name string) int64 {
	pk := f.c.P.PkgInfo[fakePkg]
	if pk == nil {
		giveUp(nil, "the package of the server for tests is not known")
	}
	k, ok := pk.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		giveUp(nil, "the constant %s was not found", name)
	}
	n, _ := constant.Int64Val(k.Val())
	return n
}

func init() {
	register(&Rule{ID: "C39", Rule: "symbolic execution of the server for tests: each change is done once, guarded by a lookup of the same object, answered, and told to the channel of events and to every watch; each watch writes exactly the events its path and selector name",
		Run: func(c *Ctx) {
			f := fakeOf(c)
			f.find()
			f.changes()
			f.kept()
			f.watches()
			f.middleware()
		}})
}

// watches: what the handler of a watch writes.
func (f *fakeServer) watches() {
	c := f.c
	in := newInterp(c.P)
	c.Analyse(in, f.watch, nil)
	p := &proxyFacts{c: c, in: in, fn: f.watch}
	recv := in.Entry.params[0]
	if n := len(in.Entry.params); n == 2 {
		giveUp(f.watch, "the handler of watches has no server")
	}
	field := func(t *Term) string {
		root, path := fieldPath(t)
		if root != recv || len(path) != 1 {
			return ""
		}
		return path[0]
	}
	// the watch is made known, with a channel of its own
	var reg *Event
	for _, e := range in.kind("mapset") {
		if field(e.Args[0]) == f.watchers && f.watchers != "" {
			if reg != nil {
				giveUp(e, "a watch is made known in several places")
			}
			reg = e
		}
	}
	if reg == nil {
		giveUp(f.watch, "a watch is not made known to those who change objects")
	}
	ch := reg.Args[2]
	c.Ob("watch", reg, ch.Op == "makechan", "a watch has a channel of its own")
	// a selector that does not decode
	bad := p.parseErr()
	refused := bFalse
	for _, e := range in.calls(respIface + "WriteHeader") {
		c.Ob("refused", e, in.statusIs(e, 400) && in.Implies(e.Guard, bad), "only a selector that does not decode is refused")
		refused = in.Or(refused, e.Guard)
	}
	for _, e := range in.kind("call") {
		if e.Result == nil || e.Name != modPath+"/kube.ParseToLabelSelector" && e.Name != modPath+"/kube.MergeValues" && !strings.HasSuffix(e.Name, ".DecodeString") {
			continue
		}
		arg := e.Args[len(e.Args)-1]
		in.each(arg, e.Guard, func(arg *Term, g B) {
			failed := bFalse
			for _, b := range in.atomsWhere(isNilCmp(func(t *Term) bool {
				return t.Op == "extract" && t.Args[0].Op == "call" && callName(t.Args[0]) == e.Name && t.Args[0].Args[len(t.Args[0].Args)-1] == arg
			})) {
				failed = in.Or(failed, in.And(g, in.Not(b)))
			}
			c.Ob("refused", e, failed != bFalse, "whether the selector decodes is looked at")
			ok := !in.Sat(in.And(reg.Guard, failed))
			for _, l := range e.Loops {
				for _, x := range l.Backs {
					ok = ok && !in.Sat(in.And(x.abs, failed))
				}
			}
			c.Ob("refused", e, in.Implies(failed, refused), "a selector that does not decode is answered as that")
			c.Ob("refused", reg, ok, "a watch goes on with a selector that does not decode")
		})
	}
	for i := range in.Returns {
		r := &in.Returns[i]
		answered := in.Or(refused, reg.Guard)
		c.Ob("refused", r.in, in.Implies(in.dropAll(r.g), in.dropAll(answered)), "every watch is served or refused")
	}
	// told to the client before it is answered
	for _, e := range in.calls("(net/http.Flusher).Flush", respIface+"Write") {
		if !in.Sat(in.And(e.Guard, in.Not(refused))) {
			continue
		}
		c.Ob("watch", e, reg.ID < e.ID, "a watch is known before its client is told it is there")
	}
	// received
	var recvE *Event
	done := bFalse
	for _, e := range in.kind("recv") {
		if in.Sat(e.Guard) && e.Args[0] == ch {
			recvE = e
			continue
		}
		if mentions(e.Args[0], func(t *Term) bool {
			return t.Op == "call" && callName(t) == "(context.Context).Done" || isMethodCall(t, "Done")
		}) {
			of := mentions(e.Args[0], func(t *Term) bool {
				return isMethodCall(t, "Context") && typeIs(t.Args[0].Typ, "*net/http.Request", "net/http.Request")
			})
			c.Ob("watch", e, of, "a watch ends when its client is gone")
			done = in.Or(done, e.Guard)
		}
	}
	if recvE == nil {
		giveUp(f.watch, "a watch does not receive what it is told")
	}
	var l *Loop
	for _, x := range recvE.Loops {
		l = x
	}
	if l == nil {
		giveUp(recvE, "a watch does not go on")
	}
	var ev *Term
	for _, t := range in.terms {
		if t.Op == "recv" && t.Args[1] == ch {
			ev = t
		}
	}
	if ev == nil {
		giveUp(recvE, "what a watch is told is not used")
	}
	is := func(fl string) func(*Term) bool {
		return func(t *Term) bool { r, path := fieldPath(t); return r == ev && len(path) == 1 && path[0] == fl }
	}
	eq := func(fl, v string) B {
		return in.anyAtom(func(t *Term) bool {
			return t.Op == "eq" && (is(fl)(t.Args[0]) && isMuxVar(t.Args[1], v) || is(fl)(t.Args[1]) && isMuxVar(t.Args[0], v))
		})
	}
	type cond struct {
		what string
		b    B
	}
	conds := []cond{
		{"group", eq("Group", "group")}, {"version", eq("Version", "version")}, {"type", eq("Resource", "resourceType")},
		{"namespace", in.Or(eq("Namespace", "namespace"), in.Not(in.nonemptyVar("namespace")))},
	}
	match := bTrue
	for _, k := range conds {
		match = in.And(match, k.b)
	}
	// the clusters its selector names
	ofClusters := func(t *Term) bool { return isCallTo(t, "(*"+modPath+"/page.Paginate).GetClusters") }
	named := in.anyAtom(func(t *Term) bool { return t.Op == "nonempty" && ofClusters(t.Args[0]) })
	isOne := in.anyAtom(func(t *Term) bool {
		if t.Op != "eq" {
			return false
		}
		for i := range t.Args {
			x := t.Args[1-i]
			if is("Cluster")(t.Args[i]) && (x.Op == "index" || x.Op == "indexaddr") && ofClusters(x.Args[0]) {
				return true
			}
		}
		return false
	})
	more := bFalse
	for _, x := range in.Loops {
		q := in.seqOf(x)
		if q == nil || !ofClusters(q.seq) {
			continue
		}
		more = in.Or(more, q.more)
		for _, e := range x.Exits {
			c.Ob("filter", reg, !in.Sat(in.And(e.abs, in.And(q.more, in.Not(isOne)))), "every cluster the selector names is looked at")
		}
	}
	c.Ob("filter", reg, named != bFalse && isOne != bFalse && more != bFalse, "a watch looks at the clusters its selector names")
	for _, e := range in.calls("(*" + modPath + "/page.Paginate).GetClusters") {
		f.asked(in, e)
	}
	// written
	wrote := bFalse
	for _, e := range in.calls(respIface + "Write") {
		if !inLoop(e, l) {
			continue
		}
		c.Ob("filter", e, in.Implies(e.Guard, recvE.Guard) || in.Implies(e.Guard, in.dropClusters(recvE.Guard)), "what is written was told")
		for _, k := range conds {
			c.Ob("filter", e, in.Implies(e.Guard, k.b), "only events of the %s of the watch are written", k.what)
		}
		c.Ob("filter", e, in.Implies(e.Guard, in.Or(in.Not(named), isOne)), "only events of the clusters the selector names are written")
		flushed := bFalse
		for _, x := range in.calls("(net/http.Flusher).Flush") {
			if x.ID > e.ID && inLoop(x, l) {
				flushed = in.Or(flushed, x.Guard)
			}
		}
		c.Ob("filter", e, in.Implies(e.Guard, flushed), "an event is sent at once")
		f.line(in, e, ev)
		wrote = in.Or(wrote, e.Guard)
	}
	left := in.And(in.And(recvE.Guard, match), in.Not(wrote))
	for _, b := range l.Backs {
		g := in.And(b.abs, left)
		c.Ob("filter", recvE, !in.Sat(g) || in.Implies(g, in.And(named, in.Not(more))), "every event the watch is for is written")
	}
	for i := range in.Returns {
		r := &in.Returns[i]
		if !in.Sat(in.And(in.dropAll(r.g), in.dropAll(reg.Guard))) || in.Implies(r.g, refused) {
			continue
		}
		gone := false
		for _, e := range in.kind("mapdel") {
			if field(e.Args[0]) == f.watchers && e.Args[1] == reg.Args[1] && in.Implies(r.g, in.past(e)) {
				gone = true
			}
		}
		c.Ob("watch", r.in, gone, "a watch that ended is forgotten")
		c.Ob("watch", r.in, in.Implies(r.g, in.dropAll(done)), "a watch ends when its client is gone or its time is over")
	}
	c.Min("watch", 4)
	c.Min("refused", 5)
	c.Min("filter", 8)
}

// dropClusters: g without the conditions of inner loops.
func (in *Interp) dropClusters(g B) B { return in.dropAll(g) }

// line: what is written for an event is a line with its kind and its object.
func (f *fakeServer) line(in *Interp, e *Event, ev *Term) {
	in.each(e.Args[1], e.Guard, func(t *Term, g B) {
		for t.Op == "str2bytes" || t.Op == "convert" || t.Op == "conv" {
			t = t.Args[0]
		}
		in.each(t, g, func(t *Term, g B) { f.lineIs(in, e, ev, t, g) })
	})
	f.c.Min("line", 4)
}

func (f *fakeServer) lineIs(in *Interp, e *Event, ev, t *Term, g B) {
	c := f.c
	var text strings.Builder
	var kinds []*Term
	var add func(t *Term)
	add = func(t *Term) {
		t = unwrapIface(t)
		if s, ok := t.constStr(); ok {
			text.WriteString(s)
			return
		}
		if r, path := fieldPath(t); r == ev && len(path) == 1 && path[0] == "Raw" {
			text.WriteString("<object>")
			return
		}
		if isCallTo(t, "fmt.Sprintf") {
			s, ok := t.Args[0].constStr()
			if !ok || t.Args[1].Op != "slicelit" {
				giveUp(e, "what is written is not understood")
			}
			n := 0
			for i := 0; i < len(s); i++ {
				if s[i] != '%' || i+1 == len(s) {
					text.WriteByte(s[i])
					continue
				}
				i++
				if n >= len(t.Args[1].Args) || !strings.ContainsRune("qsv", rune(s[i])) {
					giveUp(e, "what is written is not understood")
				}
				if s[i] == 'q' {
					text.WriteByte('"')
				}
				add(t.Args[1].Args[n])
				if s[i] == 'q' {
					text.WriteByte('"')
				}
				n++
			}
			return
		}
		if t.Op == "concat" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		kinds = append(kinds, t)
		text.WriteString("<kind>")
	}
	add(t)
	got := strings.ReplaceAll(strings.ReplaceAll(text.String(), " ", ""), "\t", "")
	kind, ok := "", strings.HasPrefix(got, "{\"type\":\"")
	if ok {
		kind, got, ok = strings.Cut(got[len("{\"type\":\""):], "\"")
	}
	c.Ob("line", e, ok && got == ",\"object\":<object>}\n", "an event is one line with its kind and its object")
	if !ok || len(kinds) > 1 {
		return
	}
	which := in.Str(kind)
	if kind == "<kind>" {
		which = kinds[0]
	}
	action := func(name string) B {
		n := f.constOf(name)
		return in.anyAtom(func(t *Term) bool {
			if t.Op != "eq" {
				return false
			}
			for i := range t.Args {
				r, path := fieldPath(t.Args[i])
				k, ok := t.Args[1-i].constInt()
				if r == ev && len(path) > 0 && path[len(path)-1] == "EventAction" && ok && k == n {
					return true
				}
			}
			return false
		})
	}
	for k, a := range map[string]string{"ADDED": "EventActionAdd", "MODIFIED": "EventActionUpdate", "DELETED": "EventActionDelete"} {
		b := action(a)
		c.Ob("line", e, b != bFalse, "the kind of an event follows from what was done")
		in.each(which, in.And(g, b), func(t *Term, g B) {
			s, _ := unwrapIface(t).constStr()
			c.Ob("line", e, s == k, "the event %s is written as %s", a, k)
		})
	}
}

// middleware: requests with the parameter watch are watches, all others are
// handled as they are.
func (f *fakeServer) middleware() {
	c, in := f.c, f.routes.in
	for _, e := range in.calls(muxRouter + "Use") {
		if e.Args[1].Op != "slicelit" {
			giveUp(e, "the middleware is not known")
		}
		for _, a := range e.Args[1].Args {
			fn := handlerFn(a)
			if fn == nil {
				giveUp(e, "the middleware is not known")
			}
			for _, h := range fn.AnonFuncs {
				if isHTTPHandler(h) {
					f.wrapper(h)
				}
			}
		}
	}
	c.Min("middleware", 3)
}

func (f *fakeServer) wrapper(fn *ssa.Function) {
	c := f.c
	in := newInterp(c.P)
	old := in.Opaque
	in.Opaque = func(fn *ssa.Function) bool { return old(fn) || fn == f.watch }
	c.Analyse(in, fn, nil)
	param := func(t *Term) bool {
		return mentions(t, func(x *Term) bool { return x.Op == "parsedquery" })
	}
	first := func(t *Term) bool {
		b, ok := isFirst(t)
		return ok && b.Op == "lookup" && param(b.Args[0]) && b.Args[1] == in.Str("watch")
	}
	asked := in.Or(in.anyAtom(eqConst("true", first)), in.anyAtom(eqConst("1", first)))
	watched, next := bFalse, bFalse
	for _, e := range in.calls(funcName(f.watch)) {
		c.Ob("middleware", e, in.Implies(e.Guard, asked), "only requests with the parameter watch are watches")
		watched = in.Or(watched, e.Guard)
	}
	for _, e := range in.calls("(net/http.Handler).ServeHTTP") {
		next = in.Or(next, e.Guard)
	}
	c.Ob("middleware", fn, in.Sat(watched) && !in.Sat(in.And(watched, next)), "a request is a watch or it is not")
	for i := range in.Returns {
		r := &in.Returns[i]
		c.Ob("middleware", r.in, in.Implies(r.g, in.Or(watched, next)), "every request is handled")
	}
	single := in.anyAtom(func(t *Term) bool {
		if t.Op != "eq" {
			return false
		}
		for i := range t.Args {
			if n, ok := t.Args[i].constInt(); ok && n == 1 && t.Args[1-i].Op == "len" && param(t.Args[1-i].Args[0]) {
				return true
			}
		}
		return false
	})
	if single == bFalse {
		single = bTrue
	}
	c.Ob("middleware", fn, in.Implies(in.And(single, asked), watched), "a request with the parameter watch is a watch")
}
