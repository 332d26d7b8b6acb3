package main

import (
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const fsWatcher = "(*github.com/fsnotify/fsnotify.Watcher)."

const (
	fsWrite  = 2
	fsRemove = 4
	fsRename = 8
)

func init() {
	register(&Rule{ID: "C22", Rule: "on every path of the watching loop, for every set of operations an event can carry, a notification is sent for a write or removal and a removed file is watched again, now or on a later tick; the loop ends only with the watcher",
		Run: filesRule})
}

type filesFacts struct {
	c    *Ctx
	in   *Interp
	w    *Term
	recv *Event // reading a file event
	l    *Loop
	ev   *Term
	open B
	got  B // an event was read
	out  *Term
}

// opValue: what the program tests about the operations of the event, for one set of them.
func (f *filesFacts) opValue(ops int64) B {
	in := f.in
	isOp := func(t *Term) bool {
		root, p := fieldPath(plain(t))
		return len(p) == 1 && p[0] == "Op" && root == f.ev
	}
	var eval func(t *Term) (int64, bool)
	eval = func(t *Term) (int64, bool) {
		t = plain(t)
		if isOp(t) {
			return ops, true
		}
		if n, ok := t.constInt(); ok {
			return n, true
		}
		if strings.HasPrefix(t.Op, "bin") && len(t.Args) == 2 {
			a, ok1 := eval(t.Args[0])
			b, ok2 := eval(t.Args[1])
			if ok1 && ok2 {
				op := map[string]token.Token{"&": token.AND, "|": token.OR, "^": token.XOR, "&^": token.AND_NOT}[t.Aux]
				if op == token.ILLEGAL {
					return 0, false
				}
				n, ok := constant.Int64Val(constant.BinaryOp(constant.MakeInt64(a), op, constant.MakeInt64(b)))
				return n, ok
			}
		}
		if t.Op == "convert" && len(t.Args) == 1 {
			return eval(t.Args[0])
		}
		return 0, false
	}
	g := bTrue
	for v, t := range in.atoms {
		if !mentions(t, isOp) {
			continue
		}
		var val, ok bool
		switch {
		case (t.Op == "eq" || t.Op == "lt") && len(t.Args) == 2:
			a, ok1 := eval(t.Args[0])
			b, ok2 := eval(t.Args[1])
			ok = ok1 && ok2
			val = a == b
			if t.Op == "lt" {
				val = a < b
			}
		case t.Op == "call" && isMethodCall(t, "Has") && len(t.Args) == 2:
			b, ok2 := eval(t.Args[1])
			ok = ok2
			val = ops&b == b
		}
		if !ok {
			giveUp(f.recv, "a test of the operations of an event is not understood: %s", in.S(t))
		}
		if val {
			g = in.And(g, in.Var(v))
		} else {
			g = in.And(g, in.Not(in.Var(v)))
		}
	}
	return g
}

// sends: the notifications, with the guard under which one is delivered (or the watcher closed).
func (f *filesFacts) sends(kind int64, isName func(*Term, B) bool, l *Loop) B {
	in := f.in
	r := bFalse
	for _, e := range in.kind("send") {
		if !f.isOut(e.Args[0]) || !in.within(e, l) {
			continue
		}
		g := e.Guard
		if s, ok := e.Instr.(*ssa.Select); ok {
			if !s.Blocking {
				continue // may be dropped
			}
			for _, sel := range in.kind("select") {
				if sel.Instr == e.Instr && sel.Ctx == e.Ctx && in.Implies(e.Guard, sel.Guard) {
					g = sel.Guard
				}
			}
		}
		v := e.Args[1]
		in.each(in.fieldOf(v, "Type"), g, func(t *Term, g B) {
			if n, ok := t.constInt(); !ok || n != kind {
				return
			}
			in.each(in.fieldOf(v, "Name"), g, func(t *Term, g B) {
				if isName(t, g) {
					r = in.Or(r, g)
				}
			})
		})
	}
	return r
}

func (f *filesFacts) isOut(ch *Term) bool { return plain(ch) == f.out }

func filesRule(c *Ctx) {
	start := c.P.implMethod(fileIface, "Start")
	events := c.P.implMethod(fileIface, "Events")
	if start == nil || events == nil {
		giveUp(nil, "the file watcher was not found")
	}
	in := newInterp(c.P)
	c.Analyse(in, start, nil)
	f := &filesFacts{c: c, in: in}
	recvArg := in.Entry.params[0]
	// the channel of the notifications
	ein := newInterp(c.P)
	c.Analyse(ein, events, nil)
	path := ""
	for _, r := range ein.Returns {
		root, p := fieldPath(plain(r.vals[0]))
		if root == ein.Entry.params[0] && len(p) == 1 {
			path = p[0]
		}
	}
	for _, e := range in.kind("send") {
		root, p := fieldPath(plain(e.Args[0]))
		if root == recvArg && len(p) == 1 && p[0] == path {
			f.out = plain(e.Args[0])
		}
	}
	if f.out == nil {
		giveUp(start, "no notification is sent on the channel Events gives out")
	}
	for _, e := range in.kind("recv") {
		if hasPathSuffix(e.Args[0], "Events") && mentions(e.Args[0], func(t *Term) bool { return isCallTo(t, "github.com/fsnotify/fsnotify.NewWatcher") }) {
			if f.recv != nil {
				giveUp(e, "file events are read in two places")
			}
			f.recv = e
		}
	}
	if f.recv == nil || f.recv.inner() == nil {
		giveUp(start, "file events are not read in a loop")
	}
	f.l = f.recv.inner()
	root, _ := fieldPath(plain(f.recv.Args[0]))
	f.w = root
	for t := range in.allTerms() {
		if t.Op == "recv" && t.Args[0] == f.recv.Result && typeIs(t.Typ, "github.com/fsnotify/fsnotify.Event") {
			f.ev = t
		}
	}
	if f.ev == nil {
		giveUp(f.recv, "the file event is not used")
	}
	f.open = in.anyAtom(func(t *Term) bool { return t.Op == "recvok" && t.Args[0] == f.recv.Result })
	f.got = in.And(f.recv.Guard, f.open)
	isW := func(t *Term, g B) bool {
		return in.all(t, g, func(t *Term, g B) bool {
			t = plain(t)
			return t == f.w || t.Op == "load" && in.storedOnce(t, f.w)
		})
	}
	isName := func(t *Term, g B) bool {
		root, p := fieldPath(plain(t))
		return root == f.ev && len(p) == 1 && p[0] == "Name"
	}

	// all the files are watched
	for _, r := range in.Returns {
		c.Ob("all-files", r.in, in.all(r.vals[0], r.g, func(t *Term, g B) bool {
			return !t.isNil() || in.Implies(g, f.l.AbsEntry)
		}), "starting succeeds but nothing is watched")
	}
	for _, e := range in.calls("github.com/fsnotify/fsnotify.NewWatcher") {
		if e.InGo || !mentions(f.w, func(t *Term) bool { return t == e.Result }) {
			continue
		}
		made := in.anyAtom(isNilCmp(func(t *Term) bool { return t.Op == "extract" && t.Aux == "1" && t.Args[0] == e.Result }))
		c.Ob("all-files", e, !in.Sat(in.And(in.And(f.l.AbsEntry, e.Guard), in.Not(made))), "starting goes on without a watcher")
	}
	added := false
	for _, e := range in.calls(fsWatcher + "Add") {
		s := in.countOf(e.inner())
		if e.inner() == nil || s == nil || in.within(e, f.l) {
			continue
		}
		x := s.elemOf(plain(e.Args[1]))
		if x == nil && plain(e.Args[1]).Op == "load" {
			x = s.elemOf(plain(e.Args[1]).Args[0])
		}
		root, p := fieldPath(plain(orNil(x)))
		if root != recvArg || len(p) != 1 || s.seq == nil {
			continue
		}
		added = true
		c.Ob("all-files", e, isW(e.Args[0], e.Guard), "the files are added to another watcher than the one that is read")
		for _, b := range s.l.Backs {
			c.Ob("all-files", e, in.Implies(b.abs, e.Guard), "some of the files are not watched")
			c.Ob("all-files", e, in.Implies(b.abs, in.Truth(in.eq(e.Result, in.Nil(), nil))), "starting goes on although a file cannot be watched")
		}
		for _, x := range s.l.Exits {
			c.Ob("all-files", e, !in.Sat(in.And(in.And(x.abs, s.more), f.l.AbsEntry)), "a file is left unwatched")
		}
		f.filesGiven(p[0])
	}
	c.Ob("all-files", start, added, "the files given are not added to the watcher")
	c.Min("all-files", 5)

	// every event
	retried := f.retries(isW)
	for ops := int64(1); ops < 32; ops++ {
		val := f.opValue(ops)
		for _, b := range f.l.Backs {
			g := in.And(in.And(b.abs, f.got), val)
			if !in.Sat(g) {
				continue
			}
			if ops&(fsWrite|fsRemove|fsRename) == 0 {
				continue
			}
			note := in.Or(f.sends(0, isName, f.l), f.sends(1, isName, f.l))
			c.Ob("notified", f.recv, in.Implies(g, note), "no notification is sent for an event with operations %#x", ops)
			if ops&(fsRemove|fsRename) == 0 {
				c.Ob("notified", f.recv, in.Implies(g, f.sends(0, isName, f.l)), "a write is not reported as a change (operations %#x)", ops)
				continue
			}
			// watched again
			again, ok := bFalse, bFalse
			for _, a := range in.calls(fsWatcher + "Add") {
				if a.inner() == f.l && isW(a.Args[0], a.Guard) && in.all(a.Args[1], a.Guard, isName) {
					again = in.Or(again, a.Guard)
					ok = in.Or(ok, in.And(a.Guard, in.anyAtom(isNilCmp(func(t *Term) bool { return t == a.Result }))))
				}
			}
			c.Ob("again", f.recv, in.Implies(g, in.Or(again, retried)), "a removed or renamed file is not watched again (operations %#x)", ops)
			c.Ob("again", f.recv, in.Implies(in.And(g, in.Not(ok)), retried), "a file that could not be watched again at once is given up (operations %#x)", ops)
			c.Ob("again", f.recv, in.Implies(in.And(g, ok), f.sends(0, isName, f.l)), "a replaced file is not reported as changed (operations %#x)", ops)
		}
	}
	c.Min("notified", 20)
	c.Min("again", 20)

	// the loop goes on
	errs := false
	for _, e := range in.kind("recv") {
		if e.inner() == f.l && hasPathSuffix(e.Args[0], "Errors") {
			errs = true
		}
	}
	c.Ob("goes-on", f.l, errs || in.errorsElsewhere(f.l), "errors of the watcher are not read and block its events")
	for _, x := range f.l.Exits {
		closed := in.Not(in.anyAtom(func(t *Term) bool { return t.Op == "recvok" && t.Args[0] == f.recv.Result }))
		done := bFalse
		for _, e := range in.kind("recv") {
			if e == f.recv {
				continue
			}
			if f.closedByClose(e.Args[0]) {
				done = in.Or(done, e.Guard)
			}
		}
		c.Ob("goes-on", f.l, in.Implies(x.abs, in.Or(closed, done)), "watching ends although the watcher is not closed")
	}
	for _, e := range in.kind("panic") {
		c.Ob("goes-on", e, false, "watching may panic")
	}
	for _, e := range in.calls("os.Exit", "log.Fatal", "log.Fatalf") {
		c.Ob("goes-on", e, false, "watching may end the program")
	}
	c.Min("goes-on", 2)

	// the channel of notifications is closed by its only sender, after the loop
	closes := 0
	for _, e := range in.kind("close") {
		if f.isOut(e.Args[0]) {
			closes++
			c.Ob("closing", e, e.InGo && !in.within(e, f.l) && e.ID > f.recv.ID, "the channel of the notifications is closed while they are sent")
		}
	}
	c.Ob("closing", f.l, closes > 0, "those who wait for notifications never learn that the watching has ended")
	for _, e := range in.kind("send") {
		if !f.isOut(e.Args[0]) {
			continue
		}
		free := false
		for _, x := range in.kind("recv") {
			free = free || x.Instr == e.Instr && f.closedByClose(x.Args[0])
		}
		c.Ob("closing", e, free, "a notification nobody takes keeps the watching from ending when it is closed")
	}
	c.made("all-files", strings.TrimPrefix(newFileWatch, modPath+"/"))
	f.closing(path)
	c.Min("closing", 2)
}

func orNil(t *Term) *Term {
	if t == nil {
		return &Term{Op: "none"}
	}
	return t
}

// storedOnce: a location that only ever gets this value (or nil).
func (in *Interp) storedOnce(ld, v *Term) bool {
	n := 0
	for _, e := range in.kind("store") {
		if e.Addr == ld.Args[0] {
			for _, a := range in.Alts(e.Args[len(e.Args)-1]) {
				if a.T == v {
					n++
				} else if !a.T.isNil() {
					return false
				}
			}
		}
	}
	return n > 0
}

// allTerms: all terms.
func (in *Interp) allTerms() map[*Term]bool {
	out := map[*Term]bool{}
	for _, t := range in.terms {
		out[t] = true
	}
	return out
}

// errorsElsewhere: another goroutine reads the errors.
func (in *Interp) errorsElsewhere(l *Loop) bool {
	for _, e := range in.kind("recv") {
		if e.InGo && e.inner() != nil && e.inner() != l && hasPathSuffix(e.Args[0], "Errors") {
			return true
		}
	}
	return false
}

// retries: files that could not be watched are remembered (guard), and tried again
// whenever a timer fires.
func (f *filesFacts) retries(isW func(*Term, B) bool) B {
	in, c := f.in, f.c
	remembered := bFalse
	for _, m := range in.kind("mapset") {
		root, p := fieldPath(plain(m.Args[1]))
		if m.inner() != f.l || root != f.ev || len(p) != 1 || p[0] != "Name" {
			continue
		}
		ref := plain(m.Args[0])
		for _, a := range in.calls(fsWatcher + "Add") {
			l := a.inner()
			if l == nil || l == f.l || l.RangeM == nil || !in.within(a, f.l) || !in.rangesOver(l, m.Args[1]) || !in.loopKey(plain(a.Args[1]), l) || !isW(a.Args[0], a.Guard) {
				continue
			}
			ok := in.anyAtom(isNilCmp(func(t *Term) bool { return t == a.Result }))
			// when: a timer fires
			timer := false
			for _, e := range in.kind("recv") {
				if e.inner() == f.l && isTimer(e.Args[0]) && in.Implies(e.Guard, l.AbsEntry) {
					timer = true
				}
			}
			all := true
			for _, x := range l.Exits {
				all = all && !in.Sat(in.And(x.abs, in.moreOf(l)))
			}
			for _, b := range l.Backs {
				all = all && in.Implies(b.abs, a.Guard)
			}
			c.Ob("again", a, timer && all, "files that are missing are not all tried again on every tick")
			sent := f.sends(0, func(t *Term, g B) bool { return in.loopKey(plain(t), l) }, l)
			c.Ob("again", a, in.Implies(in.And(a.Guard, ok), sent), "a file that is there again is not reported as changed")
			dropped, forgot := bFalse, bFalse
			for _, d := range in.kind("mapdel") {
				if plain(d.Args[0]) != ref {
					continue
				}
				if in.within(d, l) && in.loopKey(plain(d.Args[1]), l) {
					dropped = in.Or(dropped, d.Guard)
					forgot = in.Or(forgot, in.And(d.Guard, in.Not(ok)))
				} else if r2, p2 := fieldPath(plain(d.Args[1])); !(r2 == f.ev && len(p2) == 1) {
					forgot = bTrue
				}
			}
			c.Ob("again", a, !in.Sat(forgot), "a missing file is forgotten before it is watched again")
			c.Ob("again", a, in.Implies(in.And(a.Guard, ok), dropped), "a file that is watched again is reported on every tick")
			if timer && all {
				remembered = in.Or(remembered, m.Guard)
			}
		}
	}
	return remembered
}

// rangesOver: the loop ranges over a map that got this key in an earlier iteration
// of the loop around it.
func (in *Interp) rangesOver(l *Loop, key *Term) bool {
	ok := false
	li := in.loopInfo[l.RangeM]
	if li != nil && li.Loop == l {
		l2 := in.loopInfo[li.Init]
		if l2 != nil {
			li = l2
		}
	}
	if li != nil {
		for _, a := range li.Back {
			in.each(a.T, a.G, func(t *Term, g B) {
				for t.Op == "mapdel" || t.Op == "mapupd" {
					if t.Op == "mapupd" && t.Args[1] == key {
						ok = true
					}
					t = t.Args[0]
				}
			})
		}
	}
	return ok
}

func isTimer(ch *Term) bool {
	root, p := fieldPath(plain(ch))
	if len(p) == 1 && p[0] == "C" && isCallTo(root, "time.NewTicker") {
		return true
	}
	return isCallTo(plain(ch), "time.After", "time.Tick")
}

// filesGiven: the files watched are those the watcher was created for.
func (f *filesFacts) filesGiven(field string) {
	c := f.c
	fn := c.P.Func(newFileWatch)
	if fn == nil {
		giveUp(nil, "utils.NewFixedFileWatcher was not found")
	}
	in := newInterp(c.P)
	c.Analyse(in, fn, nil)
	n := 0
	for _, r := range in.Returns {
		in.each(r.vals[0], r.g, func(t *Term, g B) {
			if t.isNil() {
				return
			}
			n++
			if t.Op == "iface" {
				t = t.Args[0]
			}
			v := in.load(r.mem, in.FieldAddr(t, field, in.Entry.params[0].Typ), in.Entry.params[0].Typ)
			c.Ob("all-files", r.in, in.all(v, g, func(t *Term, g B) bool { return t == in.Entry.params[0] || copyOf(t, in.Entry.params[0]) }), "the watcher does not watch the files it was given")
		})
	}
	c.Ob("all-files", fn, n > 0, "no watcher is ever created")
}

// copyOf: a slice with all the elements of another.
func copyOf(t, s *Term) bool {
	return t.Op == "append" && emptySeq(t.Args[0]) && t.Args[1] == s || isCallTo(t, "slices.Clone") && t.Args[0] == s
}

// closedByClose: a channel Close closes.
func (f *filesFacts) closedByClose(ch *Term) bool {
	root, p := fieldPath(plain(ch))
	for _, e := range f.in.kind("store") { // made in place
		if e.Args[1] == plain(ch) {
			if r, q := fieldPath(e.Addr); r == f.in.Entry.params[0] {
				root, p = r, q
			}
		}
	}
	if root != f.in.Entry.params[0] || len(p) != 1 {
		return false
	}
	fn := f.c.P.implMethod(fileIface, "Close")
	if fn == nil {
		return false
	}
	in := newInterp(f.c.P)
	f.c.Analyse(in, fn, nil)
	for _, e := range in.kind("close") {
		r, q := fieldPath(plain(e.Args[0]))
		if r == in.Entry.params[0] && len(q) == 1 && q[0] == p[0] {
			return true
		}
	}
	return false
}

// closing: Close ends the watching and never closes a channel twice or under its sender.
func (f *filesFacts) closing(out string) {
	c := f.c
	fn := c.P.implMethod(fileIface, "Close")
	if fn == nil {
		giveUp(nil, "the file watcher cannot be closed")
	}
	in := newInterp(c.P)
	c.Analyse(in, fn, nil)
	ended := bFalse
	for _, e := range in.calls(fsWatcher + "Close") {
		ended = in.Or(ended, e.Guard)
	}
	for _, e := range in.kind("close") {
		r, q := fieldPath(plain(e.Args[0]))
		if r == in.Entry.params[0] && len(q) == 1 {
			c.Ob("closing", e, q[0] != out, "the channel of the notifications is closed while they may be sent")
			c.Ob("closing", e, in.onceOnly(e), "closing twice panics")
		}
	}
	set := in.anyAtom(isNilCmp(func(t *Term) bool { return typeIs(t.Typ, "github.com/fsnotify/fsnotify.Watcher") }))
	c.Ob("closing", fn, ended != bFalse && in.Implies(bTrue, in.Or(ended, set)), "closing does not end the watching")
}

// onceOnly: the event depends on a state its path leaves.
func (in *Interp) onceOnly(e *Event) bool {
	for _, s := range in.kind("store") {
		if !in.Implies(e.Guard, s.Guard) {
			continue
		}
		v := s.Args[len(s.Args)-1]
		for at, t := range in.atoms {
			if t.Op == "eq" && t.Args[1].isNil() && t.Args[0].Op == "load" && t.Args[0].Args[0] == s.Addr && v.isNil() && in.Implies(e.Guard, in.Not(in.Var(at))) {
				return true
			}
			if t.Op == "load" && t.Args[0] == s.Addr {
				if in.Implies(e.Guard, in.Not(in.Var(at))) && in.Truth(v) == bTrue || in.Implies(e.Guard, in.Var(at)) && in.Truth(v) == bFalse {
					return true
				}
			}
		}
	}
	for _, o := range in.calls("(*sync.Once).Do") {
		if o.ID < e.ID && e.InCb {
			return true
		}
	}
	return false
}
