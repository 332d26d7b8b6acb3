package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Rule{ID: "C31", Rule: "on every path of the loop that reads a forwarded watch the bytes of each read reach the client's writer unchanged and once, a finished line before the next read, the rest when the stream ends; the loop ends with the stream or the client, and closes and cancels the forward",
		Trust: []string{"(*rest.Request).Stream", "io.Reader.Read", "bytes.Buffer", "bufio.Reader.ReadBytes", "io.Copy"},
		Run:   streamRule})
}

// stream is what is known about the loop that passes a watch on.
type stream struct {
	c     *Ctx
	in    *Interp
	f     *proxyFacts
	open  *Event
	body  *Term // the stream's reader
	err   *Term
	ok    B // the stream was opened
	src   map[*Term]bool
	reads []*Event
}

func base(t *Term) *Term {
	for {
		switch t.Op {
		case "iface", "convert", "ptrver", "ptrto":
			t = t.Args[0]
			continue
		}
		return t
	}
}

// isSource: t is the stream or a buffered reader of it.
func (s *stream) isSource(t *Term) bool { return s.src[base(t)] }

// piece: the bytes a read event brings (the term written on) and whether it is
// known to hold them only when n is positive.
func (s *stream) isPiece(r *Event, t *Term) bool {
	t = base(t)
	if strings.HasSuffix(r.Name, ").Read") {
		n := s.in.Extract(r.Result, 0, types.Typ[types.Int])
		return t.Op == "slice" && len(t.Args) == 3 && base(t.Args[0]) == base(r.Args[1]) && t.Args[1].isZeroInt() && t.Args[2] == n
	}
	return t.Op == "extract" && t.Args[0] == r.Result && t.Aux == "0" || t.Op == "str2bytes" && s.isPiece(r, t.Args[0])
}

func (t *Term) isZeroInt() bool { n, ok := t.constInt(); return ok && n == 0 }

// empty: under g the read brought nothing.
func (s *stream) empty(r *Event, g B) bool {
	in := s.in
	if !in.Sat(g) {
		return true
	}
	n := func(t *Term) bool {
		if strings.HasSuffix(r.Name, ").Read") {
			return t.Op == "extract" && t.Args[0] == r.Result && t.Aux == "0"
		}
		return t.Op == "len" && base(t.Args[0]).Op == "extract" && base(t.Args[0]).Args[0] == r.Result
	}
	for v, t := range in.atoms {
		if len(t.Args) != 2 {
			continue
		}
		a, b := t.Args[0], t.Args[1]
		switch {
		case t.Op == "eq" && n(a) && b.isZeroInt() && in.Implies(g, in.Var(v)):
			return true
		case t.Op == "lt" && a.isZeroInt() && n(b) && in.Implies(g, in.Not(in.Var(v))):
			return true
		case t.Op == "lt" && n(a) && in.Implies(g, in.Var(v)):
			if k, ok := b.constInt(); ok && k <= 1 {
				return true
			}
		}
	}
	return false
}

// failed: the read came with an error.
func (s *stream) failed(r *Event) B {
	res := r.Result
	return s.in.Not(s.in.testAtom(isNilCmp(func(x *Term) bool { return x.Op == "extract" && x.Args[0] == res && x.Aux == "1" })))
}

// toClient: the writer is the one of the request.
func (s *stream) toClient(t *Term) bool {
	return mentions(base(t), func(x *Term) bool { return isReqCtxWriter(x) })
}

func isReqCtxWriter(t *Term) bool {
	if t.Op != "load" && t.Op != "field" {
		return false
	}
	_, p := fieldPath(t)
	return len(p) > 0 && p[len(p)-1] == "Writer"
}

func streamRule(c *Ctx) {
	f := proxyOf(c)
	in := f.in
	var opens []*Event
	for _, e := range in.calls("(*" + restReq + ").Stream") {
		opens = append(opens, e)
	}
	if len(opens) == 0 {
		giveUp(f.fn, "no watch is streamed")
	}
	watchesOnly(c, f)
	for _, e := range opens {
		s := &stream{c: c, in: in, f: f, open: e, src: map[*Term]bool{}}
		s.run()
	}
}

// watchesOnly: what is streamed is what the API server answers with a watch.
func watchesOnly(c *Ctx, f *proxyFacts) {
	in := f.in
	path := in.anyAtom(func(x *Term) bool {
		if x.Op != "call" || callName(x) != "strings.Contains" {
			return false
		}
		s, ok := x.Args[1].constStr()
		return ok && s == "/watch/" && hasPathSuffix(x.Args[0], "Path")
	})
	isParam := func(x *Term) bool { // the first value of watch, or "" without one
		some := false
		all := in.all(x, bTrue, func(x *Term, _ B) bool {
			if s, ok := x.constStr(); ok && s == "" {
				return true
			}
			k, ok := f.queryFirst(x)
			if !ok {
				return false
			}
			s, ok := k.constStr()
			some = ok && s == "watch"
			return some
		})
		return all && some
	}
	isList := func(x *Term) bool {
		if x.Op != "lookup" || !f.isReqQuery(x.Args[0]) {
			return false
		}
		s, ok := x.Args[1].constStr()
		return ok && s == "watch"
	}
	vals := bFalse
	c.Ob("watches", f.fn, path != bFalse, "requests are told to be watches by their path")
	for _, v := range []string{"1", "y", "true"} {
		b := in.anyAtom(func(x *Term) bool {
			switch {
			case x.Op == "eq":
				s, ok := x.Args[1].constStr()
				lower := x.Args[0].Op == "call" && callName(x.Args[0]) == "strings.ToLower" && isParam(x.Args[0].Args[0])
				return ok && s == v && (lower || v == "1" && isParam(x.Args[0]))
			case x.Op == "call" && callName(x) == "strings.EqualFold":
				a, ok := x.Args[1].constStr()
				p := x.Args[0]
				if !ok {
					a, ok = x.Args[0].constStr()
					p = x.Args[1]
				}
				return ok && strings.ToLower(a) == v && isParam(p)
			}
			return false
		})
		c.Ob("watches", f.fn, b != bFalse, "watch=%s asks for a watch, in any case", v)
		vals = in.Or(vals, b)
	}
	// where the program asks first whether there is a value, there is one
	present := bTrue
	for _, b := range in.atomsWhere(func(x *Term) bool {
		if x.Op == "has" {
			s, ok := x.Args[1].constStr()
			return ok && s == "watch" && f.isReqQuery(x.Args[0])
		}
		return x.Op == "nonempty" && (isList(x.Args[0]) || isParam(x.Args[0]))
	}) {
		present = in.And(present, b)
	}
	for _, e := range f.fwd {
		if strings.HasSuffix(e.Name, ".Stream") {
			c.Ob("watches", e, in.Implies(e.Guard, in.Or(path, vals)), "only watches are streamed")
		} else {
			c.Ob("watches", e, !in.Sat(in.And(e.Guard, in.Or(path, in.And(vals, present)))), "a watch is streamed")
		}
	}
}

func (s *stream) run() {
	c, in, e := s.c, s.in, s.open
	for _, t := range in.terms {
		if t.Op == "extract" && t.Args[0] == e.Result {
			if t.Aux == "0" {
				s.body = t
			} else {
				s.err = t
			}
		}
	}
	if s.body == nil || s.err == nil {
		giveUp(e, "the stream or its error is not used")
	}
	opened := in.testAtom(isNilCmp(func(x *Term) bool { return x == s.err }))
	s.ok = in.And(e.Guard, opened)

	s.context()

	// closed on every way out
	closed := bFalse
	for _, x := range in.kind("defer") {
		if strings.HasSuffix(x.Name, ").Close") && len(x.Args) > 0 && base(x.Args[len(x.Args)-1]) == s.body {
			closed = in.Or(closed, x.Guard)
		}
	}
	c.Ob("close", e, in.Implies(s.ok, closed), "the stream is closed when the watch ends (deferred)")

	s.src[s.body] = true
	for again := true; again; {
		again = false
		for _, x := range in.calls("bufio.NewReader", "bufio.NewReaderSize", "io.TeeReader") {
			if s.isSource(x.Args[0]) && !s.src[x.Result] && !strings.HasPrefix(x.Name, "io.Tee") {
				s.src[x.Result] = true
				again = true
			}
		}
	}
	for _, x := range in.kind("call") {
		for k, a := range x.Args {
			if !s.isSource(a) {
				continue
			}
			switch {
			case strings.HasSuffix(x.Name, ").Close"):
			case k == 0 && (x.Name == "bufio.NewReader" || x.Name == "bufio.NewReaderSize"):
			case k == 1 && x.Name == "io.Copy", k == 1 && x.Name == "io.CopyBuffer":
				s.reads = append(s.reads, x)
			case k == 0 && (strings.HasSuffix(x.Name, ").Read") || x.Name == "(*bufio.Reader).ReadBytes" || x.Name == "(*bufio.Reader).ReadString"):
				s.reads = append(s.reads, x)
			default:
				giveUp(x, "how the stream is read is not understood: %s", x.Name)
			}
		}
	}
	if len(s.reads) == 0 {
		giveUp(e, "the stream is not read")
	}
	if len(s.reads) > 1 {
		giveUp(s.reads[1], "the stream is read in more than one place")
	}
	s.loop(s.reads[0])
	s.headers()
}

// context: the forward ends with the request, and not before half an hour.
func (s *stream) context() {
	c, in, e := s.c, s.in, s.open
	c.Ob("context", e, in.all(e.Args[1], e.Guard, func(t *Term, g B) bool {
		for i := 0; i < 8; i++ {
			t = base(t)
			if isCallTo(t, "(*net/http.Request).Context") {
				return true
			}
			if t.Op != "extract" || t.Args[0].Op != "call" {
				return false
			}
			w := t.Args[0]
			switch {
			case isCallTo(w, "context.WithTimeout"):
				n, ok := w.Args[1].constInt()
				if !ok || n < 30*60*1000000000 {
					return false
				}
			case isCallTo(w, "context.WithCancel"):
			default:
				return false
			}
			cancelled := bFalse
			for _, x := range in.kind("defer") {
				for _, a := range x.Args {
					if a.Op == "extract" && a.Args[0] == w && a.Aux == "1" {
						cancelled = in.Or(cancelled, x.Guard)
					}
				}
			}
			for _, x := range in.calls("context.WithTimeout", "context.WithCancel") {
				if x.Result == w && !in.Implies(x.Guard, cancelled) {
					return false
				}
			}
			t = w.Args[0]
		}
		return false
	}), "the forward of a watch is given up when its request ends, and only then or after half an hour, and is cancelled when the handler returns")
}

// accepts: the client is sent what a term holds.
type emission struct {
	e    *Event
	data *Term
}

func (s *stream) emissions() []emission {
	var out []emission
	for _, x := range s.in.kind("call") {
		switch {
		case strings.HasSuffix(x.Name, "ResponseWriter).Write") || strings.HasSuffix(x.Name, "(io.Writer).Write"):
			if s.toClient(x.Args[0]) {
				out = append(out, emission{x, x.Args[1]})
			}
		case x.Name == "io.WriteString":
			if s.toClient(x.Args[0]) {
				out = append(out, emission{x, x.Args[1]})
			}
		case x.Name == "(*bytes.Buffer).WriteTo":
			if s.toClient(x.Args[1]) {
				out = append(out, emission{x, x.Args[0]})
			}
		}
	}
	return out
}

func (s *stream) loop(r *Event) {
	c, in := s.c, s.in
	if strings.HasPrefix(r.Name, "io.Copy") {
		c.Ob("read", r, s.toClient(r.Args[0]) && in.Implies(s.ok, r.Guard), "the whole stream is copied to the client")
		return
	}
	if len(r.Loops) == 0 {
		giveUp(r, "the stream is not read in a loop")
	}
	L := r.Loops[len(r.Loops)-1]
	c.Ob("read", r, in.Implies(s.ok, L.AbsEntry), "an opened stream is read")
	if r.Name == "(*bufio.Reader).ReadBytes" || r.Name == "(*bufio.Reader).ReadString" {
		d, ok := r.Args[1].constInt()
		c.Ob("read", r, ok && d == '\n', "a line ends with a line feed")
	}
	bad := s.failed(r)
	again := in.again(L, r.Guard)
	c.Ob("end", r, !in.Sat(in.And(again, bad)), "the loop does not go on after the stream has failed or ended")

	ems := s.emissions()
	// direct: what was read is written on
	direct := bFalse
	var via []emission
	var buf *Term
	for _, em := range ems {
		if !in.Sat(in.And(em.e.Guard, s.ok)) {
			continue
		}
		d := base(em.data)
		if s.isPiece(r, d) {
			c.Ob("once", em.e, !in.Sat(in.And(direct, em.e.Guard)), "what was read is written once")
			direct = in.Or(direct, em.e.Guard)
			continue
		}
		b := d
		if isCallTo(d, "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String") {
			for _, x := range in.calls("(*bytes.Buffer).Bytes", "(*bytes.Buffer).String") {
				if base(x.Result) == d {
					b = base(x.Args[0])
				}
			}
		} else if em.e.Name != "(*bytes.Buffer).WriteTo" {
			if s.isSliceBuffer(r, L, d) {
				via = append(via, em)
				continue
			}
			c.Ob("unchanged", em.e, false, "something else than what was read is written to the client: %s", cut(in.S(d), 80))
			continue
		}
		if buf != nil && buf != b {
			giveUp(em.e, "two buffers")
		}
		buf = b
		via = append(via, em)
	}
	if len(via) == 0 {
		c.Ob("written", r, s.empty(r, in.And(r.Guard, in.Not(direct))), "whatever is read is written to the client")
		s.leaving(r, L, bFalse, true)
		return
	}
	if buf == nil {
		s.sliceLoop(r, L, via)
		return
	}
	// gathered in a buffer: everything that touches it
	gathered, reset, sent := bFalse, bFalse, bFalse
	var sends []*Event
	for _, x := range in.kind("call") {
		if len(x.Args) == 0 || base(x.Args[0]) != buf || !strings.HasPrefix(x.Name, "(*bytes.Buffer).") {
			for k, a := range x.Args {
				if k > 0 && base(a) == buf && !strings.HasSuffix(x.Name, ").Write") {
					giveUp(x, "the buffer is handed to %s", x.Name)
				}
			}
			continue
		}
		switch m := x.Name[len("(*bytes.Buffer)."):]; m {
		case "Write", "WriteString":
			if !s.isPiece(r, x.Args[1]) {
				c.Ob("unchanged", x, false, "something else than what was read is put into the buffer: %s", cut(in.S(x.Args[1]), 80))
				continue
			}
			c.Ob("once", x, !in.Sat(in.And(gathered, x.Guard)), "what was read is gathered once")
			c.Ob("order", x, !in.Sat(in.And(in.Or(reset, sent), x.Guard)), "what was read is gathered before the buffer is sent on")
			gathered = in.Or(gathered, x.Guard)
		case "WriteByte":
			at := base(x.Args[1])
			ok := mentions(at, func(y *Term) bool { return y.Op == "out" && y.Args[0] == r.Result }) && s.oneByte(r)
			c.Ob("unchanged", x, ok, "the byte read is put into the buffer")
			c.Ob("unchanged", x, !s.mayBeEmpty(r, x.Guard), "a byte is only gathered when one was read")
			gathered = in.Or(gathered, x.Guard)
		case "Reset", "Truncate":
			if m == "Truncate" && !x.Args[1].isZeroInt() {
				giveUp(x, "part of the buffer is dropped")
			}
			c.Ob("unsent", x, in.Implies(x.Guard, sent), "only what was sent is dropped from the buffer")
			reset = in.Or(reset, x.Guard)
		case "Bytes", "String", "Len", "Cap", "Grow":
		case "WriteTo":
		default:
			giveUp(x, "what becomes of the buffer is not understood: %s", x.Name)
		}
		for _, em := range via {
			if em.e == x { // WriteTo
				sent = in.Or(sent, x.Guard)
				reset = in.Or(reset, x.Guard)
				sends = append(sends, x)
			}
		}
		if x.Name == "(*bytes.Buffer).Bytes" || x.Name == "(*bytes.Buffer).String" {
			for _, em := range via {
				if base(em.data) == base(x.Result) && !hasEvent(sends, em.e) {
					c.Ob("once", em.e, !in.Sat(in.And(sent, em.e.Guard)), "a line is written once")
					sent = in.Or(sent, em.e.Guard)
					sends = append(sends, em.e)
				}
			}
		}
	}
	for _, em := range via {
		if !hasEvent(sends, em.e) {
			sent = in.Or(sent, em.e.Guard)
		}
	}
	c.Ob("written", r, s.empty(r, in.And(r.Guard, in.Not(gathered))), "whatever is read is gathered")
	c.Ob("once", r, in.Implies(in.And(again, sent), reset), "what was sent is dropped from the buffer before the next read")
	line, known := s.lineEnd(r)
	c.Ob("line", r, in.Implies(in.And(again, line), sent) && (known || in.Implies(again, sent)), "a finished line is sent before the next read")
	s.leaving(r, L, sent, false)
}

func hasEvent(es []*Event, e *Event) bool {
	for _, x := range es {
		if x == e {
			return true
		}
	}
	return false
}

// oneByte: the read asks for one byte.
func (s *stream) oneByte(r *Event) bool {
	if !strings.HasSuffix(r.Name, ").Read") {
		return false
	}
	b := base(r.Args[1])
	if b.Op == "slice" && len(b.Args) == 3 {
		lo, ok1 := b.Args[1].constInt()
		hi, ok2 := b.Args[2].constInt()
		return ok1 && ok2 && hi-lo == 1
	}
	n, ok := s.in.Len(b).constInt()
	return ok && n == 1
}

// mayBeEmpty: nothing tells under g that the read brought a byte.
func (s *stream) mayBeEmpty(r *Event, g B) bool {
	in := s.in
	n := func(t *Term) bool { return t.Op == "extract" && t.Args[0] == r.Result && t.Aux == "0" }
	for v, t := range in.atoms {
		if len(t.Args) != 2 {
			continue
		}
		a, b := t.Args[0], t.Args[1]
		switch {
		case t.Op == "eq" && n(a) && b.isZeroInt() && in.Implies(g, in.Not(in.Var(v))):
			return false
		case t.Op == "eq" && n(a) && !b.isZeroInt() && b.isConst() && in.Implies(g, in.Var(v)):
			return false
		case t.Op == "lt" && a.isZeroInt() && n(b) && in.Implies(g, in.Var(v)):
			return false
		}
	}
	return true
}

// lineEnd: the condition that the bytes just read finish a line.
func (s *stream) lineEnd(r *Event) (B, bool) {
	in := s.in
	isNL := func(t *Term) bool {
		if n, ok := t.constInt(); ok && n == '\n' {
			return true
		}
		str, ok := t.constStr()
		return ok && str == "\n"
	}
	ofRead := func(t *Term) bool {
		return mentions(t, func(y *Term) bool {
			return y.Op == "out" && y.Args[0] == r.Result || y.Op == "extract" && y.Args[0] == r.Result && y.Aux == "0"
		})
	}
	g, known := bFalse, false
	for v, t := range in.atoms {
		if t.Op == "eq" && len(t.Args) == 2 && isNL(t.Args[1]) && ofRead(t.Args[0]) && s.oneByte(r) {
			g, known = in.Or(g, in.Var(v)), true
		}
	}
	return g, known
}

// leaving: the ways out of the loop: the stream has failed or ended and what is
// left was written, or the client is gone.
func (s *stream) leaving(r *Event, L *Loop, sent B, direct bool) {
	c, in := s.c, s.in
	gone := bFalse
	for _, x := range in.kind("recv") {
		if len(x.Args) == 1 && isCallTo(base(x.Args[0]), "(context.Context).Done") {
			gone = in.Or(gone, x.Guard)
		}
	}
	for v, t := range in.atoms {
		// the context's error, the error of a write to the client
		if t.Op == "eq" && t.Args[1].isNil() {
			x := base(t.Args[0])
			if isCallTo(x, "(context.Context).Err") || x.Op == "extract" && x.Aux == "1" && x.Args[0].Op == "call" && strings.Contains(x.Args[0].Aux, "ResponseWriter).Write") {
				gone = in.Or(gone, in.Not(in.Var(v)))
			}
		}
	}
	bad := s.failed(r)
	ended := bFalse
	for _, ret := range in.Returns {
		g := in.And(ret.g, s.ok)
		if !in.Sat(g) {
			continue
		}
		ended = in.Or(ended, g)
		c.Ob("leave", ret.in, !in.Sat(in.And(g, in.Not(gone))) || in.someIteration(L, in.And(g, in.Not(gone)), bad), "a watch ends with its stream or its client")
		if !direct {
			c.Ob("rest", ret.in, !in.Sat(in.And(g, in.Not(gone))) || in.someIteration(L, in.And(g, in.Not(gone)), sent), "what is left when the stream ends is written to the client")
		}
		if len(ret.vals) > 0 {
			c.Ob("answer", ret.in, in.all(ret.vals[0], g, func(t *Term, g B) bool { return t.isNil() || t == s.err }), "nothing is added behind a watch")
		}
	}
	c.Ob("leave", r, ended != bFalse, "a watch can end")
}

// isSliceBuffer: t is what a loop variable has gathered.
func (s *stream) isSliceBuffer(r *Event, L *Loop, t *Term) bool {
	in := s.in
	t = base(t)
	if t.Op == "append" && s.isPiece(r, t.Args[1]) {
		t = base(t.Args[0])
	}
	li := in.loopInfo[t]
	return li != nil && li.Loop == L
}

// sliceLoop: the bytes are gathered in a slice.
func (s *stream) sliceLoop(r *Event, L *Loop, via []emission) {
	c, in := s.c, s.in
	var v *Term
	sent := bFalse
	for _, em := range via {
		d := base(em.data)
		full := false
		if d.Op == "append" && s.isPiece(r, d.Args[1]) {
			d, full = base(d.Args[0]), true
		}
		if v != nil && v != d {
			giveUp(em.e, "two buffers")
		}
		v = d
		c.Ob("written", em.e, full || s.empty(r, in.And(em.e.Guard, r.Guard)), "what was just read is written along")
		c.Ob("once", em.e, !in.Sat(in.And(sent, em.e.Guard)), "a line is written once")
		sent = in.Or(sent, em.e.Guard)
	}
	li := in.loopInfo[v]
	emptyT := func(t *Term) bool {
		t = base(t)
		if t.isNil() || t.Op == "emptyslice" || t.Op == "slicelit" && len(t.Args) == 0 {
			return true
		}
		return t.Op == "slice" && len(t.Args) == 3 && t.Args[1].isZeroInt() && t.Args[2].isZeroInt()
	}
	c.Ob("unchanged", r, emptyT(li.Init), "nothing is put before the first line")
	for _, b := range li.Back {
		in.each(b.T, b.G, func(t *Term, g B) {
			t = base(t)
			switch {
			case emptyT(t):
				c.Ob("unsent", r, in.Implies(g, sent), "only what was sent is dropped from the buffer")
			case t == v:
				c.Ob("written", r, s.empty(r, in.And(g, r.Guard)), "whatever is read is gathered")
				c.Ob("once", r, !in.Sat(in.And(g, sent)), "what was sent is dropped from the buffer before the next read")
			case t.Op == "append" && base(t.Args[0]) == v && s.isPiece(r, t.Args[1]):
				c.Ob("once", r, !in.Sat(in.And(g, sent)), "what was sent is dropped from the buffer before the next read")
			default:
				c.Ob("unchanged", r, false, "what is gathered is not what was read: %s", cut(in.S(t), 80))
			}
		})
	}
	again := in.again(L, r.Guard)
	line, known := s.lineEnd(r)
	c.Ob("line", r, in.Implies(in.And(again, line), sent) && (known || in.Implies(again, sent)), "a finished line is sent before the next read")
	s.leaving(r, L, sent, false)
}

// headers: the answer to a watch is declared as JSON before its first byte, and
// every writer of the repository sends what it is given at once.
func (s *stream) headers() {
	c, in := s.c, s.in
	set := bFalse
	first := 1 << 30
	for _, em := range s.emissions() {
		if in.Sat(in.And(em.e.Guard, s.ok)) && em.e.ID < first {
			first = em.e.ID
		}
	}
	for _, x := range in.calls("(net/http.Header).Set") {
		k, _ := x.Args[1].constStr()
		v, ok := x.Args[2].constStr()
		if strings.EqualFold(k, "content-type") && ok && strings.HasPrefix(v, "application/json") && x.ID < first {
			set = in.Or(set, x.Guard)
		}
	}
	c.Ob("header", s.open, in.Implies(s.ok, set), "the content type of a watch is JSON")

	for _, fn := range c.P.AllFuncs {
		if fn.Name() != "Write" || fn.Signature.Recv() == nil || fn.Synthetic != "" || fn.Blocks == nil || c.P.MethodOf(fn.Signature.Recv().Type(), "WriteHeader") == nil {
			continue
		}
		s.flushes(fn)
	}
}

// flushes: a wrapping writer flushes after each write.
func (s *stream) flushes(fn *ssa.Function) {
	c := s.c
	in := newInterp(c.P)
	c.Analyse(in, fn, nil)
	var w *Event
	for _, e := range in.calls(respIface + "Write") {
		w = e
	}
	if w == nil {
		giveUp(fn, "the writer does not write")
	}
	done := bFalse
	for _, e := range in.calls("(net/http.Flusher).Flush", "(*net/http.ResponseController).Flush") {
		if e.ID > w.ID {
			done = in.Or(done, e.Guard)
		}
	}
	for v, t := range in.atoms {
		if t.Op == "istype" && strings.Contains(t.Aux, "net/http.Flusher") {
			done = in.Or(done, in.Not(in.Var(v)))
		}
	}
	c.Ob("flush", fn, in.Implies(bTrue, done), "what is written is sent to the client at once")
}
