package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	muxRouter = "(*github.com/gorilla/mux.Router)."
	muxRoute  = "(*github.com/gorilla/mux.Route)."
	respIface = "(net/http.ResponseWriter)."
	serverPkg = modPath + "/server"

	proxyHandler  = modPath + "/api.Proxy"
	deployHandler = modPath + "/api/extend.Deploy2Service"
)

// handlerFuncs: the functions that answer requests (they get a request context).
// Ones that only wrap another handler are looked into.
func handlerFuncs(P *Program) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, fn := range P.AllFuncs {
		if !isHandlerSig(fn.Signature) || fn.Blocks == nil {
			continue
		}
		wraps := false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && !c.Common().IsInvoke() && isHandlerSig(c.Common().Signature()) {
					wraps = true
				}
			}
		}
		if n := funcName(fn); !wraps || n == proxyHandler || n == deployHandler {
			out[fn] = true
		}
	}
	return out
}

func isHandlerSig(sig *types.Signature) bool {
	if sig.Params().Len() != 1 || sig.Results().Len() != 1 || !typeIs(sig.Params().At(0).Type(), modPath+"/api.ReqContext") {
		return false
	}
	_, ok := sig.Results().At(0).Type().Underlying().(*types.Interface)
	return ok
}

// srvRoute is one registered route.
type srvRoute struct {
	at      *Event // the call that began it
	path    string
	prefix  bool
	methods map[string]bool // nil: any
	cb      *Loop           // the function that answers
	opaque  bool            // a handler from outside the repository
	with    *Event          // the call that gives it its handler
	handler []*Event        // calls of request handlers
}

func (r *srvRoute) String() string {
	s := r.path
	if r.prefix {
		s += "*"
	}
	return s
}

type serverFacts struct {
	c        *Ctx
	in       *Interp
	fn       *ssa.Function
	handlers map[string]*ssa.Function
	routes   []*srvRoute
	reset    *ssa.Function
	cells    map[string]*Term // fields ResetStore replaces -> with what
	rin      *Interp
}

func serverOf(c *Ctx) *serverFacts {
	fn := c.P.Func(serverPkg + ".NewMuxServer")
	if fn == nil {
		giveUp(nil, "server.NewMuxServer was not found")
	}
	s := &serverFacts{c: c, fn: fn, handlers: map[string]*ssa.Function{}, cells: map[string]*Term{}}
	hs := handlerFuncs(c.P)
	for h := range hs {
		s.handlers[funcName(h)] = h
	}
	s.reset = c.P.implMethod(serverPkg+".Server", "ResetStore")
	if s.reset == nil {
		giveUp(fn, "the server has no ResetStore")
	}
	s.rin = newInterp(c.P)
	c.Analyse(s.rin, s.reset, nil)
	recv := s.rin.Entry.params[0]
	for _, e := range s.rin.kind("store") {
		root, p := fieldPath(e.Addr)
		if root != recv || len(p) == 0 {
			continue
		}
		s.cells[strings.Join(p, ".")] = e.Args[len(e.Args)-1]
	}
	in := newInterp(c.P)
	s.in = in
	in.Unroll = 60
	old := in.Opaque
	in.Opaque = func(fn *ssa.Function) bool { return old(fn) || hs[fn] }
	st := deref(s.reset.Params[0].Type())
	in.CbMem = func(ev *Event, mem *Mem) *Mem {
		if !strings.HasPrefix(ev.Name, muxRoute) && !strings.HasPrefix(ev.Name, muxRouter) {
			return mem
		}
		mem = mem.clone()
		var bases []*Term
		seen := map[*Term]bool{}
		for k := range mem.m {
			for k.Op == "fieldaddr" || k.Op == "indexaddr" {
				k = k.Args[0]
			}
			if k.Op == "alloc" && !seen[k] && types.Identical(deref(k.Typ), st) {
				seen[k] = true
				bases = append(bases, k)
			}
		}
		for _, b := range bases {
			for _, p := range sortedKeys(s.cells) {
				addr, T := b, st
				for _, f := range strings.Split(p, ".") {
					T = structField(T, f)
					addr = in.FieldAddr(addr, f, T)
				}
				in.store(mem, addr, in.mkT("current", p, T))
			}
		}
		return mem
	}
	c.Analyse(in, fn, nil)
	s.findRoutes()
	return s
}

func (s *serverFacts) findRoutes() {
	in := s.in
	groups := map[*Term]*srvRoute{}
	exit := bFalse
	for _, r := range in.Returns {
		exit = in.Or(exit, r.g)
	}
	strs := func(e *Event, t *Term) map[string]bool {
		out := map[string]bool{}
		if t.Op != "slicelit" {
			giveUp(e, "the methods of a route are not known")
		}
		for _, a := range t.Args {
			m, ok := a.constStr()
			if !ok {
				giveUp(e, "the methods of a route are not known")
			}
			out[strings.ToUpper(m)] = true
		}
		return out
	}
	for _, e := range in.kind("call") {
		n := e.Name
		var name string
		var begin bool
		switch {
		case strings.HasPrefix(n, muxRouter):
			name, begin = n[len(muxRouter):], true
		case strings.HasPrefix(n, muxRoute):
			name = n[len(muxRoute):]
		default:
			continue
		}
		if begin && name == "Use" {
			continue
		}
		if !in.Implies(exit, e.Guard) {
			giveUp(e, "a route is registered only sometimes")
		}
		if len(e.Loops) > 0 {
			giveUp(e, "routes are registered in a loop that was not unrolled")
		}
		var r *srvRoute
		if begin {
			r = &srvRoute{at: e}
			groups[e.Result] = r
			s.routes = append(s.routes, r)
			if strings.Contains(name, "StrictSlash") || strings.Contains(name, "UseEncodedPath") || strings.Contains(name, "SkipClean") {
				giveUp(e, "the router does not match paths the usual way (%s)", name)
			}
		} else {
			t := plain(e.Args[0])
			for i := 0; i < 30 && groups[t] == nil; i++ {
				if t.Op != "call" || !strings.HasPrefix(callName(t), muxRoute) {
					break
				}
				t = plain(t.Args[0])
			}
			if r = groups[t]; r == nil {
				giveUp(e, "the route this belongs to is not known")
			}
		}
		template := func(t *Term) {
			p, ok := t.constStr()
			if !ok || r.path != "" {
				giveUp(e, "the path of a route is not known")
			}
			r.path = p
		}
		answer := func() {
			if r.cb != nil || r.opaque {
				giveUp(e, "a route has more than one handler")
			}
			r.with = e
			for _, l := range in.Loops {
				if l.Callback && l.Call == e {
					r.cb = l
				}
			}
			r.opaque = r.cb == nil
		}
		switch name {
		case "Path":
			template(e.Args[1])
		case "PathPrefix":
			template(e.Args[1])
			r.prefix = true
		case "HandleFunc", "Handle":
			template(e.Args[1])
			answer()
		case "NewRoute":
		case "Methods":
			if r.methods != nil {
				giveUp(e, "a route has methods more than once")
			}
			r.methods = strs(e, e.Args[1])
		case "HandlerFunc", "Handler":
			answer()
		case "Name":
		default:
			giveUp(e, "route condition %s is not understood", name)
		}
	}
	if len(s.routes) == 0 {
		giveUp(s.fn, "no routes were found")
	}
	for _, r := range s.routes {
		if r.path == "" || r.cb == nil && !r.opaque {
			giveUp(r.at, "a route has no path or handler")
		}
		if r.cb == nil {
			continue
		}
		for _, e := range in.kind("call") {
			if s.handlers[e.Name] != nil && inLoop(e, r.cb) {
				r.handler = append(r.handler, e)
			}
		}
	}
}

func inLoop(e *Event, l *Loop) bool {
	for _, x := range e.Loops {
		if x == l {
			return true
		}
	}
	return false
}

// handlerOf is the one request handler of the route.
func (s *serverFacts) handlerOf(r *srvRoute) (*Event, *ssa.Function) {
	if len(r.handler) != 1 {
		giveUp(r.at, "route %s has %d handlers", r, len(r.handler))
	}
	return r.handler[0], s.handlers[r.handler[0].Name]
}

// readsCluster: the function (or one it calls) uses the cache or the clients of a request.
func readsCluster(P *Program, fn *ssa.Function, busy map[*ssa.Function]bool) bool {
	if busy[fn] || fn.Blocks == nil {
		return false
	}
	busy[fn] = true
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.FieldAddr:
				n, _ := fieldName(x.X.Type(), x.Field)
				if typeIs(x.X.Type(), modPath+"/api.ReqContext") && (n == "Store" || n == "ClusterClients") {
					return true
				}
			case *ssa.Field:
				n, _ := fieldName(x.X.Type(), x.Field)
				if typeIs(x.X.Type(), modPath+"/api.ReqContext") && (n == "Store" || n == "ClusterClients") {
					return true
				}
			}
			for _, op := range i.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok && P.inRepo(f) && readsCluster(P, f, busy) {
					return true
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		if readsCluster(P, a, busy) {
			return true
		}
	}
	return false
}

// readsToken: the result of this call is read for its token.
func readsToken(v ssa.Value, busy map[ssa.Value]bool) bool {
	if v == nil || busy[v] {
		return false
	}
	busy[v] = true
	if v.Referrers() == nil {
		return true
	}
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.FieldAddr:
			if n, _ := fieldName(x.X.Type(), x.Field); n == "Token" {
				return true
			}
		case *ssa.Field:
			if n, _ := fieldName(x.X.Type(), x.Field); n == "Token" {
				return true
			}
		case *ssa.Store:
			if x.Val == v {
				if readsToken(x.Addr, busy) {
					return true
				}
			}
		case *ssa.UnOp:
			if readsToken(x, busy) {
				return true
			}
		case *ssa.Phi:
			if readsToken(x, busy) {
				return true
			}
		case *ssa.DebugRef:
		case ssa.CallInstruction, *ssa.Return, *ssa.MakeInterface, *ssa.MakeClosure:
			return true
		}
	}
	return false
}

// authorised: the configured token is empty or the request carries it.
func (s *serverFacts) authorised(r *srvRoute) B {
	in := s.in
	mine := map[*Term]bool{}
	for _, e := range in.calls(cfgGet) {
		if inLoop(e, r.cb) {
			mine[e.Result] = true
		}
	}
	tok := func(t *Term) bool {
		b, _ := fieldPath(plain(t))
		return isConfigField(plain(t), "Token") && mine[b]
	}
	var req *Term
	for _, a := range r.cb.CbArgs {
		if typeIs(a.Typ, "net/http.Request") {
			req = a
		}
	}
	auth := func(t *Term) bool {
		t = plain(t)
		if !isCallTo(t, "(net/http.Header).Get") || !hasSub(t.Args[0], req) {
			return false
		}
		if k, ok := t.Args[1].constStr(); !ok || !strings.EqualFold(k, "Authorization") {
			return false
		}
		b, p := fieldPath(t.Args[0])
		return b == req && len(p) == 1 && p[0] == "Header"
	}
	index := func(t *Term) bool { return isCallTo(t, "strings.Index") && auth(t.Args[0]) && tok(t.Args[1]) }
	carries := in.anyAtom(func(t *Term) bool {
		return isCallTo(t, "strings.Contains") && auth(t.Args[0]) && tok(t.Args[1])
	})
	missing := in.anyAtom(func(t *Term) bool {
		if t.Op == "eq" && index(t.Args[0]) {
			n, ok := t.Args[1].constInt()
			return ok && n == -1
		}
		if t.Op == "lt" && index(t.Args[0]) {
			n, ok := t.Args[1].constInt()
			return ok && n == 0
		}
		return false
	})
	if missing != bFalse {
		carries = in.Or(carries, in.Not(missing))
	}
	carries = in.Or(carries, in.anyAtom(func(t *Term) bool {
		if t.Op != "lt" || !index(t.Args[1]) {
			return false
		}
		n, ok := t.Args[0].constInt()
		return ok && n == -1
	}))
	none := in.Not(in.testAtom(func(t *Term) bool { return t.Op == "nonempty" && tok(t.Args[0]) }))
	return in.Or(none, carries)
}

// constStatus: the status code is this constant on every path.
func (in *Interp) statusIs(e *Event, code int64) bool {
	return in.all(e.Args[1], e.Guard, func(t *Term, _ B) bool {
		n, ok := unwrapIface(t).constInt()
		return ok && n == code
	})
}

// answers: what is written to the client in this callback.
func (s *serverFacts) answers(r *srvRoute, name string) []*Event {
	var out []*Event
	for _, e := range s.in.calls(respIface + name) {
		if inLoop(e, r.cb) {
			out = append(out, e)
		}
	}
	return out
}

func (s *serverFacts) afterRecover(g B) bool {
	in := s.in
	rec := in.atomsWhere(isNilCmp(func(t *Term) bool { return t.Op == "recover" }))
	for _, b := range rec {
		if in.Implies(g, in.Not(b)) {
			return true
		}
	}
	return false
}

func init() {
	register(&Rule{ID: "C19", Rule: "every request handler that (transitively) reads the cache or the cluster clients is called only under 'no token is configured, or the Authorization header contains it', evaluated on one configuration snapshot; when that fails the path writes status 401 and nothing else; the liveness and metrics handlers are called unconditionally",
		Run: func(c *Ctx) {
			s := serverOf(c)
			in := s.in
			open := map[string]bool{"/healthy": true, "/metrics": true}
			for _, r := range s.routes {
				if r.opaque {
					c.Ob("outside", r.at, open[r.path], "the handler of %s is not part of the repository", r)
					continue
				}
				h, fn := s.handlerOf(r)
				base := r.cb.AbsEntry
				if open[r.path] {
					c.Ob("open", h, in.Implies(base, h.Guard), "%s is served without conditions", r)
					continue
				}
				if !readsCluster(c.P, fn, map[*ssa.Function]bool{}) {
					continue
				}
				ok := s.authorised(r)
				c.Ob("guard", h, in.Implies(h.Guard, ok), "%s is served only without a configured token or with the token in the Authorization header", r)
				c.Ob("served", h, in.Implies(in.And(base, ok), h.Guard), "%s is served to every authorised request", r)
				n := 0
				for _, g := range in.calls(cfgGet) {
					v, _ := g.Instr.(ssa.Value)
					if inLoop(g, r.cb) && readsToken(v, map[ssa.Value]bool{}) {
						n++
					}
				}
				c.Ob("snapshot", h, n == 1, "the token is read once per request (%s: %d times)", r, n)
				bad := in.And(base, in.Not(ok))
				refused := bFalse
				for _, e := range s.answers(r, "WriteHeader") {
					if s.afterRecover(e.Guard) {
						continue
					}
					if in.statusIs(e, 401) {
						refused = in.Or(refused, e.Guard)
						c.Ob("only-refused", e, in.Implies(e.Guard, bad), "401 is written only to a request without the token (%s)", r)
					} else {
						c.Ob("refused-status", e, !in.Sat(in.And(e.Guard, bad)), "a request without the token gets no other status than 401 (%s)", r)
					}
				}
				c.Ob("refused", r.at, in.Implies(bad, refused), "a request without the token is answered 401 (%s)", r)
				for _, e := range s.answers(r, "Write") {
					if s.afterRecover(e.Guard) {
						continue
					}
					g := in.And(e.Guard, bad)
					if !in.Sat(g) {
						continue
					}
					in.each(e.Args[1], g, func(t *Term, g B) {
						if t.Op != "extract" || !isCallTo(t.Args[0], "encoding/json.Marshal") {
							return
						}
						st := unwrapIface(t.Args[0].Args[0])
						if ft := structField(st.Typ, "Code"); ft != nil && typeIs(st.Typ, "k8s.io/apimachinery/pkg/apis/meta/v1.Status") {
							c.Ob("refused", e, in.all(in.Field(st, "Code", ft), g, func(t *Term, _ B) bool { k, ok := t.constInt(); return ok && k == 401 }), "the status of a refusal has the code 401 (%s)", r)
						}
					})
					first := false
					for _, wh := range s.answers(r, "WriteHeader") {
						if wh.ID < e.ID && in.Implies(g, wh.Guard) {
							first = true
						}
					}
					c.Ob("refused-first", e, first, "the 401 is written before the body of the refusal (%s)", r)
				}
			}
			c.Min("guard", 5)
			c.Min("open", 2)
		}})

	register(&Rule{ID: "C20", Rule: "per registered route: a deferred function that recovers and answers 500 is registered before the handler runs; the path from the handler's result to the client is decided per dynamic type of the result (nothing for nil, raw bytes/string, status with its code, error as 500, everything else 200 with its JSON); the context handed to the handler holds the store and clients ResetStore set last",
		Run: func(c *Ctx) {
			s := serverOf(c)
			c.made("made", "server.NewMuxServer", 0, 1, 2)
			serverLife(c, s)
			for _, r := range s.routes {
				if !r.opaque {
					s.answerRules(r)
				}
			}
			s.resetRules()
			s.writerRules()
			c.Min("result-json", 5)
			c.Min("recover", 5)
			c.Min("store", 5)
		}})
}

// onlyNil: the handler's result is always nil.
func onlyNil(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if r, ok := i.(*ssa.Return); ok {
				c, ok := r.Results[0].(*ssa.Const)
				if !ok || c.Value != nil {
					return false
				}
			}
		}
	}
	return true
}

func (s *serverFacts) answerRules(r *srvRoute) {
	c, in := s.c, s.in
	h, fn := s.handlerOf(r)
	res := h.Result
	wh, wr := s.answers(r, "WriteHeader"), s.answers(r, "Write")
	// the panic of a handler is answered 500
	var def *Event
	for _, e := range in.kind("defer") {
		if inLoop(e, r.cb) && e.ID < h.ID && in.Implies(h.Guard, e.Guard) {
			for _, rec := range in.kind("recover") {
				if inLoop(rec, r.cb) && rec.Fn != nil && e.Name == funcName(rec.Fn) {
					def = e
				}
			}
		}
	}
	if c.Ob("recover", h, def != nil, "a panic of the handler of %s is recovered", r) {
		got500 := bFalse
		for _, e := range wh {
			if in.statusIs(e, 500) {
				got500 = in.Or(got500, e.Guard)
			} else if s.afterRecover(e.Guard) {
				c.Ob("recover-status", e, false, "a recovered panic is answered with another status than 500")
			}
		}
		n := 0
		for _, e := range in.kind("recover") {
			if !inLoop(e, r.cb) {
				continue
			}
			nn := isNilCmp(func(t *Term) bool { return t == e.Result })
			g := in.And(e.Guard, in.Not(in.testAtom(nn)))
			n++
			c.Ob("recover-500", e, in.Implies(g, got500), "a recovered panic is answered 500 (%s)", r)
		}
		if n == 0 {
			c.Ob("recover-500", h, false, "no recover was analysed")
		}
	}
	if onlyNil(fn) {
		return
	}
	norec := func(es []*Event) (out []*Event) {
		for _, e := range es {
			if !s.afterRecover(e.Guard) {
				out = append(out, e)
			}
		}
		return
	}
	wh, wr = norec(wh), norec(wr)
	isType := func(names ...string) B {
		b := in.anyAtom(func(t *Term) bool {
			if t.Op != "istype" || t.Args[0] != res {
				return false
			}
			for _, n := range names {
				if t.Aux == n {
					return true
				}
			}
			return false
		})
		return b
	}
	const st = "k8s.io/apimachinery/pkg/apis/meta/v1.Status"
	kinds := []struct {
		name string
		b    B
	}{
		{"nil", in.anyAtom(isNilCmp(func(t *Term) bool { return t == res }))},
		{"error", isType("error")},
		{"status", isType(st)},
		{"*status", isType("*" + st)},
		{"string", isType("string")},
		{"bytes", isType("[]byte", "[]uint8")},
	}
	rest := h.Guard
	isRes := func(t *Term) bool { return mentions(t, func(x *Term) bool { return x == res }) }
	// event es happens (once) exactly when g
	always := func(es []*Event, g B) bool {
		d := bFalse
		for _, e := range es {
			d = in.Or(d, e.Guard)
		}
		return in.Implies(g, d)
	}
	once := func(es []*Event, g B) bool {
		for i, a := range es {
			for _, b := range es[i+1:] {
				if in.Sat(in.And(g, in.And(a.Guard, b.Guard))) {
					return false
				}
			}
		}
		return true
	}
	under := func(es []*Event, g B) (out []*Event) {
		for _, e := range es {
			if e.ID > h.ID && in.Sat(in.And(e.Guard, g)) {
				out = append(out, e)
			}
		}
		return
	}
	isJSON := func(t *Term) bool {
		t = plain(t)
		return t.Op == "extract" && t.Aux == "0" && isCallTo(t.Args[0], "encoding/json.Marshal") && isRes(t.Args[0].Args[0])
	}
	// the content type set for the answer
	var typed []*Event
	for _, e := range in.calls("(net/http.Header).Set", "(net/http.Header).Add") {
		k, ok1 := e.Args[1].constStr()
		v, ok2 := e.Args[2].constStr()
		if ok1 && ok2 && strings.EqualFold(k, "Content-Type") && isJSONType(v) {
			typed = append(typed, e)
		}
	}
	jsonBody := func(rule string, g B, code func(t *Term, g B) bool) {
		uh, uw := under(wh, g), under(wr, g)
		ok := always(uh, g) && once(uh, g)
		for _, e := range uh {
			ok = ok && in.all(e.Args[1], in.And(e.Guard, g), code)
		}
		c.Ob(rule+"-status", h, ok, "the status of the answer (%s)", r)
		ok = always(uw, g) && once(uw, g)
		for _, e := range uw {
			ok = ok && in.all(e.Args[1], in.And(e.Guard, g), func(t *Term, _ B) bool { return isJSON(t) })
			for _, x := range uh {
				if in.Sat(in.And(g, in.And(x.Guard, e.Guard))) && x.ID > e.ID {
					ok = false
				}
			}
		}
		c.Ob(rule, h, ok, "the JSON of the result is written once, after the status (%s)", r)
		for _, e := range uh {
			c.Ob(rule+"-type", e, in.before(e, in.And(e.Guard, g), typed), "a JSON answer is declared as JSON before its status is written (%s)", r)
		}
	}
	for _, k := range kinds {
		g := in.And(rest, k.b)
		rest = in.And(rest, in.Not(k.b))
		if k.b == bFalse || !in.Sat(g) {
			c.Ob("result-kind", h, false, "results of kind %s get no answer of their own (%s)", k.name, r)
			continue
		}
		uh, uw := under(wh, g), under(wr, g)
		switch k.name {
		case "nil":
			c.Ob("result-nil", h, len(uh) == 0 && len(uw) == 0, "nothing is added when the handler answered itself (%s)", r)
		case "error":
			ok := bFalse
			for _, e := range in.kind("panic") {
				if inLoop(e, r.cb) {
					ok = in.Or(ok, e.Guard)
				}
			}
			for _, e := range uh {
				if in.statusIs(e, 500) {
					ok = in.Or(ok, e.Guard)
				} else {
					c.Ob("result-error", e, false, "an error is answered with another status than 500")
				}
			}
			c.Ob("result-error", h, in.Implies(g, ok), "an error is answered 500 (%s)", r)
		case "string", "bytes":
			ok := len(uh) == 0 && always(uw, g) && once(uw, g)
			for _, e := range uw {
				ok = ok && in.all(e.Args[1], in.And(e.Guard, g), func(t *Term, _ B) bool {
					for t.Op == "str2bytes" || t.Op == "convert" {
						t = t.Args[0]
					}
					return t.Op == "as" && t.Args[0] == res
				})
			}
			c.Ob("result-raw", h, ok, "bytes and strings are written as they are (%s)", r)
		default:
			jsonBody("result-status", g, func(t *Term, _ B) bool {
				for t.Op == "convert" {
					t = t.Args[0]
				}
				b, p := fieldPath(t)
				return isRes(b) && len(p) == 1 && p[0] == "Code"
			})
		}
	}
	jsonBody("result-json", rest, func(t *Term, _ B) bool {
		n, ok := t.constInt()
		return ok && n == 200
	})
	// the request context
	ctx := h.Vals[0]
	want := map[string]int{}
	for k, p := range s.reset.Params {
		switch {
		case typeIs(p.Type(), modPath+"/store.Store"):
			want["Store"] = k
		case k > 0:
			want["ClusterClients"] = k
		}
	}
	for _, f := range sortedKeys(want) {
		ok := in.all(in.fieldOf(ctx, f), h.Guard, func(t *Term, _ B) bool {
			if b, p := fieldPath(t); b.Op == "current" {
				v := s.cells[b.Aux]
				if len(p) > 0 {
					v = s.rin.fieldOf(v, p...)
				}
				return v == s.rin.Entry.params[want[f]]
			}
			// a snapshot behind an atomic pointer
			return s.loadedFrom(t, want[f])
		})
		c.Ob("store", h, ok, "the handler of %s gets the %s set by the last ResetStore", r, f)
	}
	for f, T := range map[string]string{"Request": "net/http.Request", "Writer": "net/http.ResponseWriter"} {
		ok := in.all(in.fieldOf(ctx, f), h.Guard, func(t *Term, _ B) bool {
			for _, a := range r.cb.CbArgs {
				if t == a && typeIs(a.Typ, T) {
					return true
				}
			}
			return false
		})
		c.Ob("context", h, ok, "the handler of %s gets the %s it is to answer", r, f)
	}
}

// loadedFrom: t is part of a value loaded from an atomic cell of the server that
// ResetStore fills with its parameter k.
func (s *serverFacts) loadedFrom(t *Term, k int) bool {
	var cell []string
	found := mentions(t, func(x *Term) bool {
		if isMethodCall(x, "Load") && strings.Contains(callName(x), "sync/atomic.") {
			_, cell = fieldPath(x.Args[0])
			return len(cell) > 0
		}
		return false
	})
	if !found || mentions(t, func(x *Term) bool { return x.Op == "param" }) {
		return false
	}
	_, p := fieldPath(t)
	for _, e := range s.rin.kind("call") {
		if !strings.HasSuffix(e.Name, ").Store") || !strings.Contains(e.Name, "sync/atomic.") {
			continue
		}
		_, q := fieldPath(e.Args[0])
		if strings.Join(q, ".") != strings.Join(cell, ".") {
			continue
		}
		if len(p) == 0 || len(e.Vals) < 2 {
			return false
		}
		v := s.rin.fieldOf(e.Vals[1], p[len(p)-1])
		return v == s.rin.Entry.params[k]
	}
	return false
}

// resetRules: ResetStore replaces both on every path.
func (s *serverFacts) resetRules() {
	c, in := s.c, s.rin
	for _, k := range []int{1, 2} {
		if k >= len(in.Entry.params) {
			continue
		}
		set := bFalse
		for _, e := range in.kind("store") {
			if root, p := fieldPath(e.Addr); root == in.Entry.params[0] && len(p) > 0 && mentions(e.Args[len(e.Args)-1], func(x *Term) bool { return x == in.Entry.params[k] }) {
				set = in.Or(set, e.Guard)
			}
		}
		for _, e := range in.kind("call") {
			if strings.HasSuffix(e.Name, ").Store") && strings.Contains(e.Name, "sync/atomic.") && len(e.Vals) == 2 && mentions(e.Vals[1], func(x *Term) bool { return x == in.Entry.params[k] }) {
				set = in.Or(set, e.Guard)
			}
		}
		c.Ob("reset", s.reset, in.Implies(bTrue, set), "ResetStore replaces what requests are served with (parameter %d)", k)
	}
}

// writerRules: what stands between the handlers and the client passes everything on.
func (s *serverFacts) writerRules() {
	c, in := s.c, s.in
	for _, e := range in.calls(muxRouter + "Use") {
		var fns []*ssa.Function
		for _, l := range in.Loops {
			if l.Callback && l.Call == e {
				fns = append(fns, l.Fn)
			}
		}
		if len(fns) == 0 {
			giveUp(e, "the middleware is not known")
		}
		for _, fn := range fns {
			s.middleware(fn)
		}
	}
	for _, fn := range c.P.AllFuncs {
		if fn.Name() == "WriteHeader" && fn.Signature.Recv() != nil && fn.Synthetic == "" && fn.Blocks != nil {
			s.wrapper(fn.Signature.Recv().Type())
		}
	}
}

// middleware: the returned handler calls the next one once, with its request.
func (s *serverFacts) middleware(fn *ssa.Function) {
	c := s.c
	in := newInterp(c.P)
	c.Analyse(in, fn, nil)
	next := in.Entry.params[0]
	for _, r := range in.Returns {
		in.each(r.vals[0], r.g, func(t *Term, g B) {
			t = unwrapIface(t)
			for t.Op == "convert" {
				t = t.Args[0]
			}
			f, ok := t.Obj.(*ssa.Function)
			if !ok || t.Op != "closure" {
				c.Ob("middleware", fn, t == next, "the middleware hands on to the next handler")
				return
			}
			in2 := in
			args := make([]*Term, len(f.Params))
			for k, p := range f.Params {
				args[k] = in2.mkT("param", "mw:"+p.Name(), p.Type())
			}
			n0 := len(in2.Events)
			st := &State{bTrue, r.mem.clone()}
			in2.inline(&Frame{fn: fn, ctx: "mw", abs: bTrue, env: map[ssa.Value]*Term{}, info: in.Entry.info}, st, r.in, f, t, args, nil)
			called := bFalse
			n := 0
			for _, e := range in2.Events[n0:] {
				if e.Kind != "call" || e.Name != "(net/http.Handler).ServeHTTP" || unwrapIface(e.Args[0]) != next {
					continue
				}
				n++
				if in2.Sat(in2.And(called, e.Guard)) {
					c.Ob("middleware", e, false, "the next handler may run more than once")
				}
				called = in2.Or(called, e.Guard)
				okReq := false
				okW := false
				for k, a := range args {
					if typeIs(f.Params[k].Type(), "net/http.Request") {
						okReq = e.Args[2] == a
					} else {
						okW = unwrapIface(e.Args[1]) == a || mentions(e.Vals[1], func(x *Term) bool { return x == a })
					}
				}
				c.Ob("middleware-args", e, okReq && okW, "the next handler gets the request and (a wrapper of) the writer")
			}
			c.Ob("middleware", fn, in2.Implies(bTrue, called), "the middleware calls the next handler on every path")
		})
	}
}

// wrapper: a response writer of the repository passes on what it is given.
func (s *serverFacts) wrapper(T types.Type) {
	c := s.c
	for _, m := range []string{"WriteHeader", "Write"} {
		fn := c.P.MethodOf(T, m)
		if fn == nil || fn.Synthetic != "" || fn.Blocks == nil {
			continue
		}
		in := newInterp(c.P)
		c.Analyse(in, fn, nil)
		recv, arg := in.Entry.params[0], in.Entry.params[1]
		done := bFalse
		var es []*Event
		for _, e := range in.calls(respIface + m) {
			root, _ := fieldPath(unwrapIface(e.Args[0]))
			if root != recv {
				continue
			}
			c.Ob("wrapper", e, e.Args[1] == arg, "%s passes on what it was given", m)
			c.Ob("wrapper", e, !in.Sat(in.And(done, e.Guard)), "%s passes on once", m)
			done = in.Or(done, e.Guard)
			es = append(es, e)
		}
		c.Ob("wrapper", fn, in.Implies(bTrue, done), "%s passes on on every path", m)
		if m == "Write" {
			for _, r := range in.Returns {
				ok := false
				for _, e := range es {
					a, b := in.Simp(r.vals[0], r.g), in.Simp(r.vals[1], r.g)
					if a == in.Extract(e.Result, 0, a.Typ) && b == in.Extract(e.Result, 1, b.Typ) {
						ok = true
					}
				}
				c.Ob("wrapper", r.in, ok, "Write returns what the client's writer returned")
			}
		}
	}
}

// isJSONType: the media type of JSON, with or without parameters.
func isJSONType(v string) bool {
	t, _, _ := strings.Cut(v, ";")
	return strings.EqualFold(strings.TrimSpace(t), "application/json")
}
