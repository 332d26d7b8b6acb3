package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// bootOpaque: only the program's own package is looked into, what it puts
// together (watcher, store, server, file watcher) is decided elsewhere.
func bootOpaque(in *Interp) {
	in.Fresh = func(fn *ssa.Function) bool { return in.P.inRepo(fn) }
	old := in.Opaque
	in.Opaque = func(fn *ssa.Function) bool {
		if old(fn) {
			return true
		}
		n := fnPkg(fn)
		for _, p := range []string{"/server", "/store", "/watcher", "/utils", "/api", "/page"} {
			if strings.HasPrefix(n, modPath+p) {
				return true
			}
		}
		return false
	}
}

const (
	newMuxServer  = modPath + "/server.NewMuxServer"
	newWatcherFn  = modPath + "/watcher.NewWatcher"
	newMemStoreFn = modPath + "/store/memory.NewMemoryStore"
	newFileWatch  = modPath + "/utils.NewFixedFileWatcher"
	initConfigFn  = modPath + "/common.InitConfig"
	serverIface   = modPath + "/server.Server"
	fileIface     = modPath + "/utils.FixedFileWatcher"
	utilsEvent    = modPath + "/utils.Event"
)

// load is one attempt to load the configuration: what puts a watcher together.
type load struct {
	l      *Loop // the loop of the reloads, nil for the first one
	init   *Event
	watch  *Event
	start  *Event
	stores []*Event
	reads  []*Event
}

type booting struct {
	c      *Ctx
	in     *Interp
	fn     *ssa.Function
	server *Event // NewMuxServer
	run    *Event
	reset  *Event
	stop   []*Event
	files  *Event // NewFixedFileWatcher
	recv   *Event
	l      *Loop
	loads  [2]*load
	ax     B
}

func (in *Interp) within(e *Event, l *Loop) bool {
	if l == nil {
		return true
	}
	for _, m := range e.Loops {
		if m == l {
			return true
		}
	}
	return false
}

// inner: the innermost loop e is in.
func (e *Event) inner() *Loop {
	if len(e.Loops) == 0 {
		return nil
	}
	return e.Loops[len(e.Loops)-1]
}

func bootOf(c *Ctx) *booting {
	var fn *ssa.Function
	for _, f := range c.P.AllFuncs {
		if f.Name() != "main" || f.Parent() != nil || f.Pkg == nil || f.Pkg.Pkg.Name() != "main" || f.Signature.Recv() != nil || f.Blocks == nil {
			continue
		}
		if reachesCall(c.P, f, newMuxServer, map[*ssa.Function]bool{}) {
			if fn != nil {
				giveUp(f, "more than one program starts a server")
			}
			fn = f
		}
	}
	if fn == nil {
		giveUp(nil, "no program starts the server")
	}
	in := newInterp(c.P)
	bootOpaque(in)
	c.Analyse(in, fn, nil)
	b := &booting{c: c, in: in, fn: fn}
	one := func(what string, es []*Event) *Event {
		if len(es) != 1 {
			giveUp(fn, "%d calls of %s", len(es), what)
		}
		return es[0]
	}
	b.server = one("NewMuxServer", in.calls(newMuxServer))
	b.run = one("Server.Run", in.calls("("+serverIface+").Run"))
	b.reset = one("Server.ResetStore", in.calls("("+serverIface+").ResetStore"))
	b.files = one("NewFixedFileWatcher", in.calls(newFileWatch))
	b.stop = in.calls("(" + watcherIface + ").Stop")
	b.l = b.reset.inner()
	if b.l == nil {
		giveUp(b.reset, "the store is replaced only once")
	}
	for _, e := range in.kind("recv") {
		ch := e.Args[0]
		if e.inner() == b.l && isMethodCall(ch, "Events") && typeIs(plain(ch.Args[0]).Typ, fileIface) {
			if b.recv != nil {
				giveUp(e, "the events of the file watcher are read in two places")
			}
			b.recv = e
		}
	}
	if b.recv == nil {
		giveUp(b.l, "the loop that reloads does not read the events of the file watcher")
	}
	for k := range b.loads {
		ld := &load{}
		if k == 1 {
			ld.l = b.l
		}
		mine := func(e *Event) bool { return in.within(e, b.l) == (k == 1) }
		at := func(es []*Event) []*Event {
			var out []*Event
			for _, e := range es {
				if mine(e) {
					if e.inner() != ld.l {
						giveUp(e, "the configuration is loaded in a loop")
					}
					out = append(out, e)
				}
			}
			return out
		}
		what := [2]string{"when the program starts", "when it reloads"}[k]
		ld.init = one("InitConfig "+what, at(in.calls(initConfigFn)))
		ld.watch = one("NewWatcher "+what, at(in.calls(newWatcherFn)))
		ld.start = one("Watcher.Start "+what, at(in.calls("("+watcherIface+").Start")))
		ld.stores = at(in.calls(newMemStoreFn))
		for _, e := range in.calls("os.ReadFile", "io/ioutil.ReadFile", "os.Open", "os.OpenFile") {
			if mine(e) {
				if e.inner() != ld.l {
					giveUp(e, "a configuration file is read in a loop")
				}
				ld.reads = append(ld.reads, e)
			}
		}
		b.loads[k] = ld
	}
	// looking at a file twice tells the same
	b.ax = bTrue
	var stats []int
	for v, t := range in.atoms {
		if t.Op == "eq" && t.Args[1].isNil() && t.Args[0].Op == "extract" && isCallTo(t.Args[0].Args[0], "os.Stat") && len(t.loops) == 0 {
			stats = append(stats, v)
		}
	}
	for i, v := range stats {
		for _, u := range stats[i+1:] {
			if in.atoms[v].Args[0].Args[0].Args[0] == in.atoms[u].Args[0].Args[0].Args[0] {
				p, q := in.Var(v), in.Var(u)
				b.ax = in.And(b.ax, in.Or(in.And(p, q), in.And(in.Not(p), in.Not(q))))
			}
		}
	}
	// loops over finite sequences are left
	for _, l := range in.Loops {
		if l.Callback || len(l.Exits) == 0 || in.countOf(l) == nil && l.RangeM == nil {
			continue
		}
		out := bFalse
		for _, x := range l.Exits {
			out = in.Or(out, x.abs)
		}
		b.ax = in.And(b.ax, in.Or(in.Not(l.AbsEntry), out))
	}
	// joining something gives something
	for v, t := range in.atoms {
		if t.Op == "nonempty" && isCallTo(t.Args[0], "path.Join", "path/filepath.Join") && t.Args[0].Args[0].Op == "slicelit" {
			for _, e := range t.Args[0].Args[0].Args {
				if s, ok := e.constStr(); ok && s != "" {
					b.ax = in.And(b.ax, in.Var(v))
				}
			}
		}
	}
	return b
}

// implies under what is known about the program.
func (b *booting) implies(p, q B) bool { return b.in.Implies(b.in.And(p, b.ax), q) }

// reachesCall: fn, or what it calls, may call the function.
func reachesCall(P *Program, fn *ssa.Function, name string, busy map[*ssa.Function]bool) bool {
	if busy[fn] || fn == nil {
		return false
	}
	busy[fn] = true
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if f := c.Common().StaticCallee(); f != nil {
				if funcName(f) == name || P.inRepo(f) && reachesCall(P, f, name, busy) {
					return true
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		if reachesCall(P, a, name, busy) {
			return true
		}
	}
	return false
}

func init() {
	register(&Rule{ID: "C21", Rule: "every event of the watched files reaches a new load; the store, the clients and the watcher in use are replaced, and the old watcher is stopped, exactly on the paths on which the load succeeded; the files watched are the files read",
		Run: reloadRule})
	register(&Rule{ID: "C32", Rule: "the configs, clients and resources handed to the watcher, the store and the server are, element by element, those of the contexts and proxies of the files read",
		Run: connectRule})
}

// names a place of the result tuple or value of a call.
func (in *Interp) from(t *Term, g B, es ...*Event) bool {
	return in.all(t, g, func(t *Term, g B) bool {
		t = plain(t)
		for _, e := range es {
			if t == e.Result || t.Op == "extract" && t.Args[0] == e.Result {
				return true
			}
		}
		return false
	})
}

func reloadRule(c *Ctx) {
	b := bootOf(c)
	in := b.in
	first, re := b.loads[0], b.loads[1]

	// the first load
	fatal := bFalse
	for _, e := range in.kind("call", "panic") {
		if e.Kind == "call" && e.Name != "os.Exit" && !strings.HasPrefix(e.Name, "log.Fatal") {
			continue
		}
		if in.within(e, b.l) {
			c.Ob("keeps-serving", e, false, "the program ends because of a file event")
			continue
		}
		ok := true
		if e.Name == "os.Exit" {
			ok = in.all(e.Args[0], e.Guard, func(t *Term, g B) bool { n, is := t.constInt(); return is && n != 0 })
		}
		c.Ob("first-load", e, ok, "the program ends with status 0 on a path that does not serve")
		fatal = in.Or(fatal, e.Guard)
	}
	c.Ob("first-load", first.init, b.implies(in.Not(fatal), b.server.Guard), "the program neither serves nor fails")
	c.Ob("first-load", b.server, b.implies(b.server.Guard, first.init.Guard) && b.implies(b.server.Guard, first.start.Guard), "a server is started although the configuration was not loaded")
	c.Ob("first-load", b.run, b.implies(in.And(b.server.Guard, in.Not(fatal)), b.run.Guard), "the server is created but not run")
	c.Ob("first-load", b.run, in.from(b.run.Args[0], b.run.Guard, b.server), "the server that runs is not the one that was created")
	c.Ob("first-load", b.server, in.from(b.server.Args[2], b.server.Guard, first.stores...), "the server does not start with the store of the first load")

	b.readable(first, in.And(b.server.Guard, in.Not(fatal)))
	b.readable(re, b.reset.Guard)

	// reloads happen next to serving
	c.Ob("keeps-serving", b.reset, b.reset.InGo != b.run.InGo || b.run.InGo, "reloading waits for the server to end")
	c.Ob("keeps-serving", b.reset, in.from(b.reset.Args[0], b.reset.Guard, b.server), "the store is replaced in another server than the one that runs")

	// the files
	ok := in.all(b.files.Args[0], in.And(b.files.Guard, b.ax), func(t *Term, g B) bool {
		els, known := in.literalElems(t)
		if !known {
			giveUp(b.files, "the files that are watched are not known")
		}
		all := true
		for _, r := range first.reads {
			in.each(r.Args[0], in.And(in.And(g, r.Guard), first.init.Guard), func(p *Term, g B) {
				has := bFalse
				for _, e := range els {
					in.each(e, g, func(e *Term, g B) {
						if e == p {
							has = in.Or(has, g)
						}
					})
				}
				if !b.implies(g, has) {
					all = false
				}
			})
		}
		return all
	})
	c.Ob("watched-files", b.files, ok, "a file the configuration is read from is not watched")
	c.Min("watched-files", 1)
	c.Ob("watched-files", b.files, b.implies(b.server.Guard, in.Or(fatal, b.files.Guard)), "no file is watched on some path that serves")
	for _, s := range in.calls("(" + fileIface + ").Start") {
		c.Ob("watched-files", s, in.from(s.Args[0], s.Guard, b.files), "another file watcher is started")
	}
	started := bFalse
	for _, s := range in.calls("(" + fileIface + ").Start") {
		started = in.Or(started, s.Guard)
	}
	noErr := in.anyAtom(isNilCmp(func(t *Term) bool { return t.Op == "extract" && t.Args[0] == b.files.Result }))
	c.Ob("watched-files", b.files, b.implies(in.And(b.files.Guard, noErr), started), "the file watcher is created but not started")
	c.Ob("watched-files", b.recv, in.from(b.recv.Args[0].Args[0], b.recv.Guard, b.files), "the events are not those of the watched files")
	c.Ob("watched-files", b.l, b.implies(in.And(started, in.Not(fatal)), b.l.AbsEntry), "the events of the file watcher are not read")

	// each event loads
	open := in.anyAtom(func(t *Term) bool { return t.Op == "recvok" && t.Args[0] == b.recv.Result })
	for _, x := range b.l.Exits {
		c.Ob("every-event", b.l, !in.Sat(in.And(x.abs, open)), "after some event no further one is read")
	}
	changed := in.typeOfEvent(b.recv)
	for _, k := range re.reads {
		if !in.sameRead(in.And(k.Guard, b.ax), k, first.reads) {
			c.Ob("every-event", k, false, "a reload reads another file than the first load")
		}
	}
	var cfg []*Event
	for _, r := range re.reads {
		if in.isConfigRead(r, re) {
			cfg = append(cfg, r)
		}
	}
	if len(cfg) == 0 {
		giveUp(re.init, "the configuration of a reload does not come from a file read then")
	}
	read := bFalse
	for _, r := range cfg {
		read = in.Or(read, r.Guard)
	}
	for _, x := range b.l.Backs {
		c.Ob("every-event", b.l, b.implies(in.And(x.abs, changed), read), "an event of a changed file does not lead to a reload")
	}
	c.Min("every-event", 2)

	// all or nothing
	done := b.reset.Guard
	both := func(e *Event, what string) {
		if e == nil {
			return
		}
		c.Ob("all-or-nothing", e, e.inner() == b.l && b.implies(done, e.Guard), "%s is skipped on some path that replaces the store", what)
		c.Ob("all-or-nothing", e, b.implies(e.Guard, done), "%s happens on a path on which the store is not replaced", what)
	}
	both(re.init, "replacing the configuration")
	both(re.watch, "building the new watcher")
	both(re.start, "starting the new watcher")
	var stops []*Event
	for _, s := range b.stop {
		if in.within(s, b.l) {
			stops = append(stops, s)
		} else {
			c.Ob("all-or-nothing", s, s.InDefer, "the first watcher is stopped outside of a reload")
		}
	}
	if len(stops) != 1 {
		c.Ob("all-or-nothing", b.reset, false, "%d calls stop a watcher when reloading", len(stops))
		return
	}
	both(stops[0], "stopping the old watcher")
	for _, e := range in.calls(").Reset") {
		if in.within(e, b.l) && strings.Contains(e.Name, "prometheus") {
			c.Ob("all-or-nothing", e, b.implies(e.Guard, done), "metrics are reset although nothing was replaced")
		}
	}
	c.Ob("all-or-nothing", b.reset, in.from(b.reset.Args[1], done, re.stores...), "the store that is installed is not the one of this reload")
	c.Ob("all-or-nothing", re.start, in.from(re.start.Args[0], re.start.Guard, re.watch), "the watcher that is started is not the new one")
	c.Ob("all-or-nothing", re.watch, in.from(re.watch.Args[2], re.watch.Guard, re.stores...), "the new watcher does not fill the new store")
	c.Ob("all-or-nothing", first.start, in.from(first.start.Args[0], first.start.Guard, first.watch), "the watcher that is started is not the new one")
	c.Ob("all-or-nothing", first.watch, in.from(first.watch.Args[2], first.watch.Guard, first.stores...), "the watcher does not fill the store of the server")

	// which watcher is stopped
	old := plain(stops[0].Args[0])
	li := in.loopInfo[old]
	if li == nil || li.Loop != b.l {
		c.Ob("old-watcher", stops[0], false, "what is stopped is not the watcher of the previous load")
		return
	}
	c.Ob("old-watcher", stops[0], in.from(li.Init, in.And(b.l.AbsEntry, first.init.Guard), first.watch), "the first reload does not stop the first watcher")
	for _, a := range li.Back {
		c.Ob("old-watcher", stops[0], !in.Sat(in.And(a.G, done)) || in.from(a.T, in.And(a.G, done), re.watch), "after a reload the next one does not stop this reload's watcher")
		c.Ob("old-watcher", stops[0], in.all(a.T, a.G, func(t *Term, g B) bool { return !in.Sat(in.And(g, in.Not(done))) || plain(t) == old }), "a failed reload forgets the running watcher")
	}
	c.Min("old-watcher", 3)
}

// readable: what is loaded was read, and decoded, without an error.
func (b *booting) readable(ld *load, goOn B) {
	in, c := b.in, b.c
	for _, r := range ld.reads {
		g := in.And(goOn, r.Guard)
		read := in.anyAtom(isNilCmp(func(t *Term) bool { return t.Op == "extract" && t.Aux == "1" && t.Args[0] == r.Result }))
		c.Ob("readable", r, b.implies(g, read), "the load goes on with a file that could not be read")
		decoded, found := bFalse, false
		for _, e := range in.kind("call") {
			if !strings.Contains(e.Name, "nmarshal") && !strings.HasSuffix(e.Name, ".Decode") || e.Result == nil || len(e.Args) == 0 {
				continue
			}
			if mentions(e.Args[0], func(x *Term) bool { return x == r.Result }) {
				found = true
				decoded = in.Or(decoded, in.And(e.Guard, in.anyAtom(isNilCmp(func(t *Term) bool { return t == e.Result }))))
			}
		}
		if found {
			c.Ob("readable", r, b.implies(g, decoded), "the load goes on with a file that could not be decoded")
		}
	}
	c.Min("readable", 2)
}

// typeOfEvent: the event says a file changed.
func (in *Interp) typeOfEvent(recv *Event) B {
	g := bTrue
	for v, t := range in.atoms {
		if t.Op != "eq" {
			continue
		}
		n, ok := t.Args[1].constInt()
		root, p := fieldPath(plain(t.Args[0]))
		if !ok || len(p) != 1 || p[0] != "Type" || root.Op != "recv" || root.Args[0] != recv.Result {
			continue
		}
		if n == 0 {
			g = in.And(g, in.Var(v))
		} else {
			g = in.And(g, in.Not(in.Var(v)))
		}
	}
	return g
}

// sameRead: the file is one the first load may read, under the same choice.
func (in *Interp) sameRead(g B, r *Event, first []*Event) bool {
	return in.all(r.Args[0], g, func(p *Term, g B) bool {
		for _, f := range first {
			for _, a := range in.Alts(f.Args[0]) {
				if a.T == p {
					return true
				}
			}
		}
		return false
	})
}

// decodedFrom: an Unmarshal of (only) what r read wrote t.
func (in *Interp) decodedFrom(t *Term, r *Event) bool {
	if t.Op != "out" {
		return false
	}
	u := t.Args[0]
	if u.Op != "call" || !strings.Contains(callName(u), "nmarshal") && !strings.HasSuffix(callName(u), ".Decode") {
		return false
	}
	return mentions(u.Args[0], func(x *Term) bool { return x == r.Result })
}

func (in *Interp) isConfigRead(r *Event, ld *load) bool {
	return in.all(in.fieldOf(ld.init.Vals[0], "Proxies"), ld.init.Guard, func(t *Term, g B) bool {
		root, p := fieldPath(t)
		return len(p) == 1 && p[0] == "Proxies" && in.decodedFrom(root, r)
	})
}

func connectRule(c *Ctx) {
	b := bootOf(c)
	b.flags()
	for k, ld := range b.loads {
		if k == 0 {
			b.connects(ld, b.server.Args[1], b.server.Guard, b.server)
		} else {
			b.connects(ld, b.reset.Args[2], b.reset.Guard, b.reset)
		}
	}
	c.Min("resources", 12)
	c.Min("clusters", 16)
	c.Min("default-cluster", 4)
	c.Min("flags", 3)
}

// isFlag: the value of a command line flag.
func isFlag(t *Term, name string) bool {
	if t.Op == "load" {
		t = t.Args[0]
	}
	var u *Term
	switch {
	case t.Op == "out":
		u = t.Args[0]
	case t.Op == "call":
		u = t
	default:
		return false
	}
	if u.Op != "call" || !strings.HasPrefix(callName(u), "flag.String") {
		return false
	}
	for _, a := range u.Args {
		if s, ok := a.constStr(); ok {
			return s == name
		}
	}
	return false
}

func (b *booting) flags() {
	in, c := b.in, b.c
	c.Ob("flags", b.server, in.all(b.server.Args[0], b.server.Guard, func(t *Term, g B) bool { return isFlag(t, "a") }), "the server does not listen where -a says")
	for _, ld := range b.loads {
		for _, r := range ld.reads {
			if in.isConfigRead(r, ld) {
				c.Ob("flags", r, in.all(r.Args[0], r.Guard, func(t *Term, g B) bool { return isFlag(t, "c") }), "the configuration is not read from the file given by -c")
				continue
			}
			given := in.anyAtom(func(t *Term) bool { return t.Op == "nonempty" && isFlag(t.Args[0], "k") })
			c.Ob("flags", r, in.all(r.Args[0], b.in.And(r.Guard, given), func(t *Term, g B) bool { return isFlag(t, "k") }), "the clusters are not read from the file given by -k")
		}
	}
}

// elemField: t is field name of the current element of the loop over (all of) a
// sequence satisfying isSeq.
func (in *Interp) elemField(s *seqLoop, t *Term, g B, name string, isSeq func(*Term) bool) bool {
	root, p := fieldPath(plain(t))
	if root.Op == "index" || root.Op == "indexaddr" {
		return len(p) == 1 && p[0] == name && in.current(s, root, g, isSeq)
	}
	return false
}

func (in *Interp) current(s *seqLoop, root *Term, g B, isSeq func(*Term) bool) bool {
	x := s.elemOf(root)
	if x == nil || !isSeq(x) {
		return false
	}
	if n, ok := s.first.constInt(); !ok || n != 0 {
		return false
	}
	for _, bd := range s.bound {
		if !in.all(bd.T, in.And(g, bd.G), func(t *Term, g B) bool { return t == in.Len(x) }) && in.Sat(in.And(g, bd.G)) {
			return false
		}
	}
	return true
}

func (b *booting) connects(ld *load, clients *Term, use B, user *Event) {
	in, c := b.in, b.c
	if len(ld.stores) != 1 {
		giveUp(ld.watch, "the store of the watcher is built in %d places", len(ld.stores))
	}
	st := ld.stores[0]
	var cfgRead []*Event
	var kubeRead []*Event
	for _, r := range ld.reads {
		if in.isConfigRead(r, ld) {
			cfgRead = append(cfgRead, r)
		} else {
			kubeRead = append(kubeRead, r)
		}
	}
	seqFrom := func(rs []*Event, field string) func(t *Term) bool {
		return func(t *Term) bool {
			root, p := fieldPath(plain(t))
			if len(p) != 1 || p[0] != field {
				return false
			}
			for _, r := range rs {
				if in.decodedFrom(root, r) {
					return true
				}
			}
			return false
		}
	}
	proxies := seqFrom(cfgRead, "Proxies")
	contexts := seqFrom(kubeRead, "Contexts")

	// the configuration in use is the one that was read
	for _, f := range []string{"Proxies", "Token"} {
		isF := seqFrom(cfgRead, f)
		c.Ob("resources", ld.init, in.all(in.fieldOf(ld.init.Vals[0], f), ld.init.Guard, func(t *Term, g B) bool { return isF(t) }), "%s of the configuration in use is not what the file says", f)
	}

	// resources and their indexes
	gvr := func(s *seqLoop, t *Term, g B) bool { return in.gvrOf(s, t, g, proxies) }
	overAll := func(rule string, l *Loop, what string, done B, g B) {
		in.overAll(c, rule, l, what, done, g, b.implies)
	}
	in.storeIndexes(c, "resources", st, ld.l, proxies, b.implies)
	listed := false
	in.each(ld.watch.Args[1], ld.watch.Guard, func(t *Term, g B) {
		li := in.loopInfo[t]
		if li == nil {
			giveUp(ld.watch, "the resources that are watched are not collected in a loop")
		}
		listed = true
		s := in.countOf(li.Loop)
		c.Ob("resources", ld.watch, s != nil && emptySeq(li.Init), "the watched resources are not those of the configured proxies")
		if s == nil {
			return
		}
		done := bFalse
		for _, a := range li.Back {
			in.each(a.T, a.G, func(v *Term, g B) {
				if v.Op == "append" && v.Args[0] == t && v.Args[1].Op == "slicelit" && len(v.Args[1].Args) == 1 && in.all(v.Args[1].Args[0], g, func(x *Term, g B) bool { return gvr(s, x, g) }) {
					done = in.Or(done, g)
				}
			})
		}
		overAll("resources", li.Loop, "configured proxies", done, ld.watch.Guard)
	})
	c.Ob("resources", ld.watch, listed, "the watcher gets no resources")

	// clusters
	cells := map[string]*Term{"config": ld.watch.Args[0], "client": clients}
	wg := map[string]B{"config": ld.watch.Guard, "client": in.And(use, ld.init.Guard)}
	for _, what := range []string{"config", "client"} {
		es := in.entries(cells[what], wg[what])
		perLoop := map[*Loop]B{}
		alone := bFalse
		for _, e := range es {
			e := e
			if e.inner() == ld.l {
				// without a kubeconfig
				alone = in.Or(alone, e.Guard)
				c.Ob("clusters", e, in.all(e.Args[2], e.Guard, func(t *Term, g B) bool {
					return b.connectsTo(t, g, what, e, func(p *Term, g B) bool { s, ok := p.constStr(); return ok && s == "" || isFlag(p, "k") }, func(n *Term, g B) bool { s, ok := n.constStr(); return ok && s == "" })
				}), "the %s for running in a pod is not that of the service account", what)
				c.Ob("clusters", e, !in.Sat(in.And(e.Guard, in.anyAtom(func(t *Term) bool { return t.Op == "nonempty" && isFlag(t.Args[0], "k") }))), "the service account is used although -k names a kubeconfig")
				// or there is one where kubectl looks for it
				missing := false
				for _, st := range in.atomsWhere(isNilCmp(func(t *Term) bool {
					return t.Op == "extract" && isCallTo(t.Args[0], "os.Stat", "os.Lstat", "os.Open", "os.ReadFile") && mentions(callArg(t.Args[0], 0), func(x *Term) bool {
						s, ok := x.constStr()
						return ok && strings.HasSuffix(s, ".kube/config")
					})
				})) {
					missing = missing || in.Implies(e.Guard, in.Not(st))
				}
				c.Ob("clusters", e, missing, "the service account is used although there is a default kubeconfig")
				k := in.Simp(e.Args[1], e.Guard)
				c.Ob("default-cluster", e, in.all(k, in.And(e.Guard, ld.init.Guard), func(t *Term, g B) bool {
					return in.all(in.fieldOf(ld.init.Vals[0], "DefaultCluster"), g, func(d *Term, g B) bool { return d == t })
				}), "the only cluster is not filed under the name of the default cluster")
				isD := seqFrom(cfgRead, "DefaultCluster")
				c.Ob("default-cluster", e, in.all(k, e.Guard, func(t *Term, g B) bool {
					unset := in.Not(in.anyAtom(func(t *Term) bool { return t.Op == "nonempty" && isD(t.Args[0]) }))
					s, ok := t.constStr()
					if ok {
						return s == "default" && in.Implies(g, unset)
					}
					return isD(t) && !in.Sat(in.And(g, unset))
				}), "the only cluster is not named as configured")
				continue
			}
			s := in.countOf(e.inner())
			if s == nil {
				c.Ob("clusters", e, false, "the %ss are not built from the contexts of the kubeconfig", what)
				continue
			}
			addGuard(in, perLoop, e.inner(), e.Guard)
			ok := in.all(e.Args[1], e.Guard, func(k *Term, g B) bool {
				if !in.elemField(s, k, g, "Name", contexts) {
					return false
				}
				root, _ := fieldPath(plain(s.elemOf(elemRoot(k))))
				return in.all(e.Args[2], g, func(t *Term, g B) bool {
					return b.connectsTo(t, g, what, e, func(p *Term, g B) bool {
						if v, ok := p.constStr(); ok && v == "" {
							return in.unreadable(g, e.inner())
						}
						for _, r := range kubeRead {
							if in.decodedFrom(root, r) && in.all(r.Args[0], g, func(q *Term, g B) bool { return q == p }) {
								return true
							}
						}
						return false
					}, func(n *Term, g B) bool { return n == k })
				})
			})
			c.Ob("clusters", e, ok, "the %s filed under the name of a context is not the one of this context of the kubeconfig that was read", what)
		}
		some := alone
		for l, g := range perLoop {
			in.overContexts(c, l, g, wg[what], what)
			some = in.Or(some, l.AbsEntry)
			c.Ob("default-cluster", ld.init, in.all(in.fieldOf(ld.init.Vals[0], "DefaultCluster"), in.And(ld.init.Guard, l.AbsEntry), func(t *Term, g B) bool {
				isC := seqFrom(kubeRead, "CurrentContext")
				return isC(t)
			}), "the default cluster is not the current context of the kubeconfig")
		}
		c.Ob("clusters", user, b.implies(wg[what], some), "on some path there is no %s for any cluster", what)
	}
}

// gvrOf: t names the resource of the current element of the sequence.
func (in *Interp) gvrOf(s *seqLoop, t *Term, g B, isSeq func(*Term) bool) bool {
	for _, f := range []string{"Group", "Version", "Resource"} {
		f := f
		if !in.all(in.fieldOf(t, f), g, func(t *Term, g B) bool { return in.elemField(s, t, g, f, isSeq) }) {
			return false
		}
	}
	return true
}

// overAll: the loop visits every element, and does done for each.
func (in *Interp) overAll(c *Ctx, rule string, l *Loop, what string, done, g B, implies func(g, x B) bool) {
	s := in.countOf(l)
	for _, x := range l.Exits {
		c.Ob(rule, l, !in.Sat(in.And(in.And(x.abs, s.more), g)), "%s are not all visited", what)
	}
	for _, x := range l.Backs {
		c.Ob(rule, l, in.Implies(x.abs, done), "some of the %s are skipped", what)
	}
	c.Ob(rule, l, implies(g, l.AbsEntry), "the %s are not visited on some path", what)
}

// storeIndexes: the store made by st holds the resources of the configured
// proxies, each with its own index.
func (in *Interp) storeIndexes(c *Ctx, rule string, st *Event, around *Loop, proxies func(*Term) bool, implies func(g, x B) bool) {
	perLoop := map[*Loop]B{}
	entries := in.entries(st.Args[0], st.Guard)
	if len(entries) == 0 {
		giveUp(st, "what the store is to hold is not built here")
	}
	for _, e := range entries {
		s := in.countOf(e.inner())
		if e.inner() == around || s == nil {
			c.Ob(rule, e, false, "the indexes of the store are not built from the configured proxies")
			continue
		}
		e := e
		c.Ob(rule, e, in.all(e.Args[1], e.Guard, func(t *Term, g B) bool { return in.gvrOf(s, t, g, proxies) }), "an index is filed under another resource than its own")
		c.Ob(rule, e, in.all(e.Args[2], e.Guard, func(t *Term, g B) bool { return in.elemField(s, t, g, "Index", proxies) }), "a resource does not get its own index")
		addGuard(in, perLoop, e.inner(), e.Guard)
	}
	for l, g := range perLoop {
		in.overAll(c, rule, l, "configured proxies", g, st.Guard, implies)
	}
}

func (in *Interp) overContexts(c *Ctx, l *Loop, done, g B, what string) {
	s := in.countOf(l)
	for _, x := range l.Exits {
		c.Ob("clusters", l, !in.Sat(in.And(in.And(x.abs, s.more), g)), "a context is left without its %s but the load goes on", what)
	}
	for _, x := range l.Backs {
		c.Ob("clusters", l, in.Implies(x.abs, done), "some context gets no %s", what)
	}
}

func elemRoot(t *Term) *Term { r, _ := fieldPath(plain(t)); return r }

func addGuard(in *Interp, m map[*Loop]B, l *Loop, g B) {
	if old, ok := m[l]; ok {
		g = in.Or(old, g)
	}
	m[l] = g
}

func emptySeq(t *Term) bool {
	return t.isNil() || t.Op == "emptyslice" || t.Op == "slicelit" && len(t.Args) == 0
}

// entries: the writes to the map(s) a term can be.
func (in *Interp) entries(m *Term, g B) []*Event {
	refs := map[*Term]bool{}
	in.each(m, g, func(t *Term, g B) {
		t = plain(t)
		if t.Op != "makemap" {
			giveUp(nil, "a map is not built here: %s", in.S(t))
		}
		refs[t] = true
	})
	var out []*Event
	for _, e := range in.kind("mapset", "mapdel") {
		for _, a := range in.Alts(e.Args[0]) {
			if refs[a.T] {
				if e.Kind == "mapdel" {
					giveUp(e, "an entry is removed again")
				}
				out = append(out, e)
				break
			}
		}
	}
	return out
}

// unreadable: the file turned out to be missing or empty.
func (in *Interp) unreadable(g B, l *Loop) bool {
	for _, st := range in.atomsWhere(isNilCmp(func(t *Term) bool { return t.Op == "extract" && isCallTo(t.Args[0], "os.Stat") })) {
		if in.Implies(g, in.Not(st)) {
			return true
		}
		for _, sz := range in.atomsWhere(func(t *Term) bool { return t.Op == "eq" && isMethodCall(t.Args[0], "Size") }) {
			if in.Implies(g, in.Or(in.Not(st), sz)) {
				return true
			}
		}
	}
	return false
}

// connectsTo: t is the config (or a client) for a context of a kubeconfig.
func (b *booting) connectsTo(t *Term, g B, what string, at *Event, path, name func(*Term, B) bool) bool {
	in := b.in
	t = plain(t)
	if what == "client" {
		if t.Op == "iface" {
			t = t.Args[0]
		}
		if t.Op != "extract" || !isCallTo(t.Args[0], "k8s.io/client-go/kubernetes.NewForConfig") {
			return false
		}
		return in.all(t.Args[0].Args[0], g, func(t *Term, g B) bool { return b.connectsTo(t, g, "config", at, path, name) })
	}
	for t.Op == "upd" && tuning[t.Aux] {
		t = t.Args[0]
	}
	if t.Op == "load" {
		t = t.Args[0]
	}
	if t.Op == "ptrto" {
		t = t.Args[0]
	}
	if t.Op != "extract" {
		return false
	}
	call := t.Args[0]
	if isCallTo(call, "k8s.io/client-go/rest.InClusterConfig") {
		return path(in.Str(""), g) && name(in.Str(""), g)
	}
	if !isMethodCall(call, "ClientConfig") {
		return false
	}
	return in.all(call.Args[0], g, func(x *Term, g B) bool {
		if !isCallTo(x, "k8s.io/client-go/tools/clientcmd.NewNonInteractiveDeferredLoadingClientConfig") {
			return false
		}
		var ev *Event
		for _, e := range in.calls("k8s.io/client-go/tools/clientcmd.NewNonInteractiveDeferredLoadingClientConfig") {
			if e.Result == x {
				ev = e
			}
		}
		if ev == nil || ev.Vals[1] == nil {
			return false
		}
		if !in.all(in.fieldOf(ev.Vals[1], "CurrentContext"), g, name) {
			return false
		}
		// the path in the rules when they are used
		rules := plain(ev.Args[0])
		if rules.Op == "iface" {
			rules = rules.Args[0]
		}
		set := bFalse
		for _, e := range in.kind("store") {
			if e.ID < ev.ID && e.Addr.Op == "fieldaddr" && e.Addr.Aux == "ExplicitPath" && e.Addr.Args[0] == rules {
				set = in.Or(set, e.Guard)
				if in.Sat(in.And(g, e.Guard)) && !in.all(e.Args[len(e.Args)-1], in.And(g, e.Guard), path) {
					return false
				}
			}
		}
		return in.Implies(g, set) || path(in.Str(""), in.And(g, in.Not(set)))
	})
}

// how fast a client may be, not where it connects to.
var tuning = map[string]bool{"QPS": true, "Burst": true, "RateLimiter": true, "Timeout": true, "UserAgent": true}
