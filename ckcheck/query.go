package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- describing terms ---------------------------------------------------------

// fieldPath peels loads, dereferences and field selections: *(&(*r).Request).Method
// has root r and path [Request Method].
func fieldPath(t *Term) (*Term, []string) {
	var rev []string
	for {
		switch t.Op {
		case "load", "ptrto":
			t = t.Args[0]
			continue
		case "fieldaddr", "field":
			rev = append(rev, t.Aux)
			t = t.Args[0]
			continue
		}
		break
	}
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	return t, rev
}

func hasPathSuffix(t *Term, suffix ...string) bool {
	_, p := fieldPath(t)
	if len(p) < len(suffix) {
		return false
	}
	for i := range suffix {
		if p[len(p)-len(suffix)+i] != suffix[i] {
			return false
		}
	}
	return true
}

func typeIs(t types.Type, names ...string) bool {
	if t == nil {
		return false
	}
	s := types.TypeString(t, nil)
	for _, n := range names {
		if s == n || s == "*"+n {
			return true
		}
	}
	return false
}

// isReqField: field name of the request being served.
func isReqField(t *Term, name string) bool {
	root, p := fieldPath(t)
	n := strings.Split(name, ".")
	if len(p) < len(n) {
		return false
	}
	for i := range n {
		if p[len(p)-len(n)+i] != n[i] {
			return false
		}
	}
	rest := p[:len(p)-len(n)]
	if len(rest) > 0 {
		return rest[len(rest)-1] == "Request"
	}
	return typeIs(root.Typ, "net/http.Request")
}

func isCallTo(t *Term, names ...string) bool {
	if t.Op != "call" {
		return false
	}
	cn := callName(t)
	for _, n := range names {
		if cn == n {
			return true
		}
	}
	return false
}

func isMuxVar(t *Term, name string) bool {
	if t.Op != "lookup" || !isCallTo(t.Args[0], "github.com/gorilla/mux.Vars") {
		return false
	}
	s, ok := t.Args[1].constStr()
	return ok && s == name
}

// isMethodCall: a call of interface or concrete method with this name.
func isMethodCall(t *Term, name string) bool {
	return t.Op == "call" && strings.HasSuffix(callName(t), ")."+name)
}

const (
	cfgGet = modPath + "/common.GetConfig"
)

func isConfigField(t *Term, name string) bool {
	root, p := fieldPath(t)
	return isCallTo(root, cfgGet) && len(p) == 1 && p[0] == name
}

// mentions: does t contain a subterm satisfying f?
func mentions(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func hasSub(t, sub *Term) bool { return mentions(t, func(x *Term) bool { return x == sub }) }

// sources walks through alternatives and loop-carried values and returns the
// leaves a value can come from.
func (in *Interp) sources(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "ite" {
			for _, a := range t.Obj.([]alt) {
				rec(a.T)
			}
			return
		}
		if as, ok := in.phiInfo[t]; ok {
			for _, a := range as {
				rec(a.T)
			}
			return
		}
		if li := in.loopInfo[t]; li != nil {
			if li.Init != nil {
				rec(li.Init)
			}
			for _, a := range li.Back {
				rec(a.T)
			}
			return
		}
		out = append(out, t)
	}
	rec(t)
	return out
}

// mapBases strips updates, merges and loops from a map content.
func (in *Interp) mapBases(m *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "mapupd", "mapdel":
			rec(t.Args[0])
			return
		}
		ss := in.sources(t)
		if len(ss) == 1 && ss[0] == t {
			out = append(out, t)
			return
		}
		for _, s := range ss {
			rec(s)
		}
	}
	rec(m)
	return out
}

// ---- finding events -------------------------------------------------------------

func (in *Interp) calls(names ...string) []*Event {
	var out []*Event
	for _, e := range in.Events {
		if e.Kind != "call" {
			continue
		}
		for _, n := range names {
			if e.Name == n || strings.HasPrefix(n, ").") && strings.HasSuffix(e.Name, n) {
				out = append(out, e)
				break
			}
		}
	}
	return out
}

func (in *Interp) kind(kinds ...string) []*Event {
	var out []*Event
	for _, e := range in.Events {
		for _, k := range kinds {
			if e.Kind == k {
				out = append(out, e)
			}
		}
	}
	return out
}

// atomsWhere returns the guard that some atom satisfying f holds.
func (in *Interp) atomsWhere(f func(*Term) bool) []B {
	var out []B
	for v, t := range in.atoms {
		if f(t) {
			out = append(out, in.Var(v))
		}
	}
	return out
}

func (in *Interp) anyAtom(f func(*Term) bool) B {
	r := bFalse
	for _, b := range in.atomsWhere(f) {
		r = in.Or(r, b)
	}
	return r
}

// testAtom: like anyAtom, but if the program never tests it, it may be either.
func (in *Interp) testAtom(f func(*Term) bool) B {
	if r := in.anyAtom(f); r != bFalse {
		return r
	}
	return in.Truth(in.mkT("untested", "", types.Typ[types.Bool]))
}

// impliesAnyAtom: g entails (one of) the atoms with polarity pos.
func (in *Interp) impliesAtom(g B, pos bool, f func(*Term) bool) bool {
	for _, b := range in.atomsWhere(f) {
		if !pos {
			b = in.Not(b)
		}
		if in.Implies(g, b) {
			return true
		}
	}
	return false
}

// eqConst matches the atom x == "c" with x satisfying f.
func eqConst(c string, f func(*Term) bool) func(*Term) bool {
	return func(t *Term) bool {
		if t.Op != "eq" {
			return false
		}
		if s, ok := t.Args[1].constStr(); ok && s == c {
			return f(t.Args[0])
		}
		return false
	}
}

func isNilCmp(f func(*Term) bool) func(*Term) bool {
	return func(t *Term) bool {
		return t.Op == "eq" && t.Args[1].isNil() && f(t.Args[0])
	}
}

// before: on every path to e (under guard g) one of the events in as came first.
func (in *Interp) before(e *Event, g B, as []*Event) bool {
	d := bFalse
	for _, a := range as {
		if a.ID < e.ID && !a.InGo || a.InGo == e.InGo && a.ID < e.ID {
			d = in.Or(d, in.outer(a, e))
		}
	}
	return in.Implies(g, d)
}

// outer: the guard under which event a happened, as seen from e: atoms of loops
// that e is not in are not stable, so only what holds outside them counts.
func (in *Interp) outer(a, e *Event) B {
	g := a.Guard
	for _, l := range a.Loops {
		inE := false
		if e != nil {
			for _, m := range e.Loops {
				if m == l {
					inE = true
				}
			}
		}
		if !inE {
			return bFalse // may not have been reached at all
		}
	}
	return g
}

// dropLoop quantifies the atoms that change within l.
func (in *Interp) dropLoop(g B, l *Loop) B {
	return in.Exists(g, func(v int) bool { return in.atoms[v].hasLoop(l) })
}

// ---- loops -----------------------------------------------------------------------

// flagFixed collects, for target guard g, the loop variables of l whose truth the
// guard fixes, with the value.
func (in *Interp) fixedFlags(l *Loop, g B) map[*Term]bool {
	out := map[*Term]bool{}
	for _, v := range in.Support(g) {
		t := in.atoms[v]
		li := in.loopInfo[t]
		if li == nil || li.Loop != l {
			continue
		}
		if in.Implies(g, in.Var(v)) {
			out[t] = true
		} else if in.Implies(g, in.Not(in.Var(v))) {
			out[t] = false
		}
	}
	return out
}

func (in *Interp) isB(t *Term, val bool) B {
	b := in.Truth(t)
	if !val {
		b = in.Not(b)
	}
	return b
}

// everyIteration: g (a guard after or in l) entails that each completed earlier
// iteration of l satisfied pred. A flag whose value g fixes is tracked backwards:
// if every iteration that fails pred leaves the flag at the other value for good,
// no iteration failed.
func (in *Interp) everyIteration(l *Loop, g B, pred B) bool {
	flags := in.fixedFlags(l, g)
	// strengthen: back edges on which the flag ends with the required value
	for _, e := range l.Backs {
		if in.Implies(e.abs, pred) {
			continue
		}
		ok := false
		for f, val := range flags {
			li := in.loopInfo[f]
			// sticky: once the flag is !val it stays
			sticky := true
			for bi, a := range li.Back {
				_ = bi
				stay := in.And(in.And(a.G, in.isB(f, !val)), in.isB(a.T, val))
				if in.Sat(stay) {
					sticky = false
				}
			}
			if !sticky {
				continue
			}
			// this back edge with the flag ending at val implies pred
			good := true
			for _, a := range li.Back {
				if a.G != e.abs {
					continue
				}
				if !in.Implies(in.And(a.G, in.isB(a.T, val)), pred) {
					good = false
				}
			}
			if good {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// someIteration: g entails that the current (for an exit from within) or some
// earlier iteration satisfied pred.
func (in *Interp) someIteration(l *Loop, g B, pred B) bool {
	if in.Implies(g, pred) {
		return true
	}
	for f, val := range in.fixedFlags(l, g) {
		li := in.loopInfo[f]
		if in.Sat(in.isB(li.Init, val)) {
			continue
		}
		ok := true
		for _, a := range li.Back {
			if in.Sat(in.And(in.And(a.G, in.And(in.isB(a.T, val), in.isB(f, !val))), in.Not(pred))) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// again: the conditions at the end of an iteration of l under which the next one
// gets to where g holds, as far as flags that g fixes tell.
func (in *Interp) again(l *Loop, g B) B {
	r := bFalse
	flags := in.fixedFlags(l, g)
	for _, e := range l.Backs {
		b := e.abs
		for f, val := range flags {
			for _, a := range in.loopInfo[f].Back {
				if a.G == e.abs {
					b = in.And(b, in.isB(a.T, val))
				}
			}
		}
		r = in.Or(r, b)
	}
	return r
}

// moreAtom of a range loop.
func (in *Interp) moreOf(l *Loop) B {
	r := bFalse
	for v, t := range in.atoms {
		if t.Op == "more" && t.Aux == l.Key {
			if l.RangeM != nil && len(t.Args) == 1 && t.Args[0] == l.RangeM {
				return in.Var(v) // others are from analysing an outer loop before
			}
			r = in.Or(r, in.Var(v))
		}
	}
	return r
}

// ---- small utilities ------------------------------------------------------------

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// implMethod finds the one repository implementation of an interface method.
func (P *Program) implMethod(iface, method string) *ssa.Function {
	for _, T := range P.Impls(iface) {
		if fn := P.MethodOf(T, method); fn != nil && fn.Blocks != nil && fn.Synthetic == "" {
			return fn
		}
	}
	return nil
}

// each visits the alternatives of t that are possible under g.
func (in *Interp) each(t *Term, g B, f func(t *Term, g B)) {
	for _, a := range in.Alts(t) {
		ag := in.And(g, a.G)
		if in.Sat(ag) {
			f(a.T, ag)
		}
	}
}

// all: every possible alternative satisfies p.
func (in *Interp) all(t *Term, g B, p func(t *Term, g B) bool) bool {
	ok := true
	n := 0
	in.each(t, g, func(t *Term, g B) {
		n++
		if !p(t, g) {
			ok = false
		}
	})
	return ok && n > 0
}

// structField reads a field of a struct term.
func (in *Interp) fieldOf(t *Term, names ...string) *Term {
	for _, n := range names {
		var ft = structField(t.Typ, n)
		t = in.Field(t, n, ft)
	}
	return t
}

// mapEntries lists the constant keys written to a map content.
func (in *Interp) mapEntry(m *Term, key string) *Term {
	v, _ := in.MapGet(m, in.Str(key), nil)
	return v
}

// seqLoop is a loop that visits the elements of a sequence in order: an index
// that starts at first, goes up by one and stays below bound.
type seqLoop struct {
	l     *Loop
	seq   *Term // the sequence visited from its first to its last element, if there is just one
	first *Term
	idx   *Term // index of the current element
	more  B     // there is a current element
	bound []alt // what the index stays below
}

// seqOf recognises a loop that visits one whole sequence.
func (in *Interp) seqOf(l *Loop) *seqLoop {
	s := in.countOf(l)
	if s == nil || s.seq == nil {
		return nil
	}
	return s
}

// countOf recognises a loop that counts an index up by one and goes on only
// while the index is below a bound.
func (in *Interp) countOf(l *Loop) *seqLoop {
	for t, li := range in.loopInfo {
		if li.Loop != l || li.Init == nil || len(li.Back) == 0 {
			continue
		}
		next := in.Bin(token.ADD, t, in.Int(1), types.Typ[types.Int])
		ok := true
		cont := bFalse
		for _, a := range li.Back {
			cont = in.Or(cont, a.G)
			if a.T != next {
				ok = false
			}
		}
		if !ok {
			continue
		}
		for _, cand := range []*Term{t, next} {
			s := &seqLoop{l: l, idx: cand, first: li.Init}
			if cand == next {
				s.first = in.Bin(token.ADD, li.Init, in.Int(1), types.Typ[types.Int])
			}
			any := bFalse
			for v, a := range in.atoms {
				if a.Op != "lt" || a.Args[0] != cand || a.Args[1].hasLoop(l) {
					continue
				}
				// where the loop depends on this bound
				d := in.Or(in.And(in.Cofactor(cont, v, true), in.Not(in.Cofactor(cont, v, false))), in.And(in.Cofactor(cont, v, false), in.Not(in.Cofactor(cont, v, true))))
				d = in.dropLoop(d, l)
				if d == bFalse {
					continue
				}
				s.bound = append(s.bound, alt{d, a.Args[1]})
				any = in.Or(any, in.And(d, in.Var(v)))
			}
			if len(s.bound) == 0 || !in.Implies(cont, any) {
				continue
			}
			s.more = any
			if len(s.bound) == 1 {
				for v, a := range in.atoms {
					if a.Op == "lt" && a.Args[0] == cand && a.Args[1] == s.bound[0].T {
						s.more = in.Var(v)
					}
				}
				if n, ok := s.first.constInt(); ok && n == 0 && s.bound[0].T.Op == "len" {
					s.seq = s.bound[0].T.Args[0]
				}
			}
			return s
		}
	}
	return nil
}

// complete: the loop is only left when the sequence is exhausted.
func (in *Interp) complete(s *seqLoop) bool {
	for _, e := range s.l.Exits {
		if in.Sat(in.And(e.abs, s.more)) {
			return false
		}
	}
	return true
}

// isElem: t is the current element of s.
func (s *seqLoop) isElem(t *Term) bool {
	return t != nil && (t.Op == "index" || t.Op == "indexaddr") && t.Args[0] == s.seq && t.Args[1] == s.idx
}

// elemOf: the sequence t is the current element of, if any.
func (s *seqLoop) elemOf(t *Term) *Term {
	if t != nil && (t.Op == "index" || t.Op == "indexaddr") && t.Args[1] == s.idx {
		return t.Args[0]
	}
	return nil
}

// span is a contiguous part of a sequence.
type span struct {
	g      B
	base   *Term
	lo, hi *Term // hi nil: to the end
}

// spans: the parts of sequences visited when seq is indexed with the index.
func (in *Interp) spans(s *seqLoop, seq *Term, g B) []span {
	var out []span
	for _, b := range s.bound {
		in.each(b.T, in.And(g, b.G), func(bound *Term, g B) {
			in.each(s.first, g, func(first *Term, g B) {
				base, lo, hi := sliceOf(seq)
				n, isConst := first.constInt()
				zero := isConst && n == 0
				whole := bound.Op == "len" && bound.Args[0] == seq || bound == in.Len(seq)
				switch {
				case zero && whole:
					out = append(out, span{g, base, lo, hi})
				case lo == nil && whole:
					out = append(out, span{g, base, first, nil})
				case lo == nil:
					out = append(out, span{g, base, first, bound})
				default:
					if bound.Op == "len" && bound.Args[0].Op == "slice" {
						return // another alternative's bound
					}
					out = append(out, span{g, nil, nil, nil})
				}
			})
		})
	}
	return out
}
