package main

import (
	"strings"
)

// serverLife: a server that runs answers with its routes at its address until
// it is stopped.
func serverLife(c *Ctx, s *serverFacts) {
	runFn, stopFn := c.P.implMethod(serverPkg+".Server", "Run"), c.P.implMethod(serverPkg+".Server", "Stop")
	if runFn == nil || stopFn == nil {
		giveUp(nil, "the server has no Run or no Stop")
	}
	own := func(recv *Term) func(t *Term) (string, bool) {
		return func(t *Term) (string, bool) {
			root, p := fieldPath(unwrapIface(t))
			return strings.Join(p, "."), root == recv && len(p) > 0
		}
	}
	in := newInterp(c.P)
	c.Analyse(in, runFn, nil)
	field := own(in.Entry.params[0])
	var serve *Event
	var handler, addr *Term
	kept := map[string]bool{}
	for _, e := range in.kind("call") {
		switch e.Name {
		case "(*net/http.Server).ListenAndServe", "(*net/http.Server).ListenAndServeTLS":
			if serve != nil {
				giveUp(e, "the server serves in several places")
			}
			serve = e
			srv := e.Vals[0]
			if srv == nil || srv == e.Args[0] {
				giveUp(e, "what is served is not known")
			}
			for srv.Op == "ptrver" {
				srv = srv.Args[0]
			}
			handler, addr = in.fieldOf(srv, "Handler"), in.fieldOf(srv, "Addr")
			for _, st := range in.kind("store") {
				f, ok := field(st.Addr)
				if ok && st.Args[1] == e.Args[0] {
					c.Ob("runs", st, st.ID < e.ID && in.Implies(e.Guard, st.Guard), "the server that runs is known to Stop")
					kept[f] = true
				}
			}
		case "net/http.ListenAndServe":
			giveUp(e, "the server that runs cannot be stopped")
		}
	}
	if serve == nil {
		giveUp(runFn, "nothing is served")
	}
	ctor, cfn := s.in, s.fn
	if ctor == nil {
		giveUp(cfn, "the constructor of the server is not known")
	}
	fieldOf := func(t *Term, what string) string {
		name := ""
		in.each(t, serve.Guard, func(t *Term, g B) {
			f, ok := field(t)
			c.Ob("runs", serve, ok && (name == "" || name == f), "the server uses the %s it was made with", what)
			name = f
		})
		return name
	}
	router, address := fieldOf(handler, "routes"), fieldOf(addr, "address")
	for i := range ctor.Returns {
		r := &ctor.Returns[i]
		ctor.each(r.vals[0], r.g, func(t *Term, g B) {
			t = unwrapIface(t)
			if t.isNil() || router == "" || address == "" {
				return
			}
			st := deref(t.Typ)
			ft := structField(st, router)
			at := structField(st, address)
			if ft == nil || at == nil {
				return
			}
			rv := ctor.load(r.mem, ctor.FieldAddr(t, router, ft), ft)
			for _, k := range s.routes {
				ok := ctor.all(rv, g, func(x *Term, _ B) bool { return !x.isNil() && x.Op != "zero" && plain(k.at.Args[0]) == plain(x) })
				c.Ob("runs", k.at, ok, "a route is registered with another router than the one that is served")
			}
			av := ctor.load(r.mem, ctor.FieldAddr(t, address, at), at)
			c.Ob("runs", cfn, ctor.all(av, g, func(x *Term, _ B) bool { return x == ctor.Entry.params[0] }), "the server listens at the address given")
		})
	}
	for i := range in.Returns {
		r := &in.Returns[i]
		c.Ob("runs", r.in, in.all(r.vals[0], r.g, func(t *Term, g B) bool { return t == serve.Result || in.isErr(t, g) }), "Run tells how serving ended")
	}

	in = newInterp(c.P)
	c.Analyse(in, stopFn, nil)
	field = own(in.Entry.params[0])
	stopped := bFalse
	var downs []*Event
	for _, e := range in.calls("(*net/http.Server).Shutdown", "(*net/http.Server).Close") {
		f, ok := field(e.Args[0])
		c.Ob("stops", e, ok && kept[f], "what is stopped is the server that runs")
		c.Ob("stops", e, !in.Sat(in.And(e.Guard, in.Truth(in.eq(e.Args[0], in.Nil(), nil)))), "a server that does not run is not stopped")
		if len(e.Args) > 1 {
			early := bFalse
			for _, x := range in.calls("dynamic") {
				if f := x.Args[0]; f.Op == "extract" && f.Aux == "1" && e.Args[1].Op == "extract" && e.Args[1].Args[0] == f.Args[0] && x.ID < e.ID {
					early = in.Or(early, x.Guard)
				}
			}
			c.Ob("stops", e, !in.Sat(in.And(e.Guard, early)), "requests under way are waited for: the wait is not over before it starts")
		}
		stopped = in.Or(stopped, e.Guard)
		downs = append(downs, e)
	}
	if len(downs) == 0 {
		giveUp(stopFn, "Stop does not stop the server")
	}
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[0], r.g, func(t *Term, g B) {
			if in.isErr(t, g) {
				return
			}
			c.Ob("stops", r.in, in.Implies(g, stopped), "Stop succeeds without stopping the server")
		})
		running := in.Not(in.Truth(in.eq(downs[0].Args[0], in.Nil(), nil)))
		c.Ob("stops", r.in, in.Implies(in.And(r.g, running), stopped), "a server that runs is stopped")
	}
	c.Min("runs", 6)
	c.Min("stops", 3)
}
