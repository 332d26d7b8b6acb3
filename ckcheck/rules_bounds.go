package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C30: no index, slice or conversion can fail, whatever comes in.
//
// Every such operation of the repository is found in its SSA form. The
// functions are interpreted from the entry points (exported functions and
// methods, main), and each operation reached is shown to be in range under its
// path condition, in every context it is reached in; what no entry point
// reaches is interpreted by itself, with unknown arguments.

func init() {
	register(&Rule{ID: "C30", Rule: "range: every index, slice, integer division, single-valued conversion and assignment to a map is in range by the differences along the dominating branches (induction over loops) or by linear arithmetic under the path condition of every context; nothing: what a failing call, conversion or look-up returned is dereferenced only behind a test of its error or flag",
		Trust: []string{"url.Values of a request hold at least one value per key", "sort calls its comparison with indices of the slice", "lengths and positions the standard library returns", "the server's response writers implement http.Flusher", "nil pointers without an error or a flag are not decided"},
		Run:   boundsRule})
}

// boundsRoot: an entry point of the program.
func boundsRoot(fn *ssa.Function) bool {
	if fn.Parent() != nil || fn.Synthetic != "" || fn.Blocks == nil {
		return false
	}
	if fn.Name() == "main" && fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" {
		return true
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		n, ok := t.(*types.Named)
		return ok && fn.Object() != nil && fn.Object().Exported() && (n.Obj().Exported() || true)
	}
	return fn.Object() != nil && fn.Object().Exported()
}

func ifaceOf(t types.Type) *types.Interface {
	if i, ok := t.Underlying().(*types.Interface); ok {
		return i
	}
	return types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, "_never", types.NewSignatureType(nil, nil, nil, nil, nil, false))}, nil)
}

func boundsSkip(fn *ssa.Function) bool {
	p := ""
	if fn.Pkg != nil {
		p = fn.Pkg.Pkg.Path()
	} else if fn.Parent() != nil {
		return boundsSkip(fn.Parent())
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		p = fn.Object().Pkg().Path()
	}
	// the address a fake is started with is the test author's
	if root := fn; strings.HasPrefix(root.Name(), "NewFake") {
		return true
	}
	return fn.Parent() != nil && boundsSkip(fn.Parent()) || strings.Contains(p, "/examples/") || strings.HasSuffix(p, "/examples")
}

// canFail: the instruction is one the rule has to decide.
func canFail(i ssa.Instruction) bool {
	switch i := i.(type) {
	case *ssa.IndexAddr:
		if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				if k, ok := i.Index.(*ssa.Const); ok && k.Int64() >= 0 && k.Int64() < a.Len() {
					return false
				}
			}
		}
		return true
	case *ssa.Index, *ssa.Slice:
		if s, ok := i.(*ssa.Slice); ok && s.Low == nil && s.Max == nil {
			if s.High == nil {
				return false
			}
			k, isC := s.High.(*ssa.Const)
			if n, ok := arrayLen(s.X.Type()); ok && isC && k.Int64() >= 0 && k.Int64() <= n {
				return false
			}
		}
		return true
	case *ssa.Lookup:
		_, ok := i.X.Type().Underlying().(*types.Basic)
		return ok
	case *ssa.TypeAssert:
		return !i.CommaOk && !types.Implements(i.X.Type(), ifaceOf(i.AssertedType))
	case *ssa.MapUpdate:
		return true
	case *ssa.BinOp:
		if i.Op == token.QUO || i.Op == token.REM {
			if !isInt(i.Type()) {
				return false
			}
			k, ok := intConst(i.Y)
			return !ok || k == 0
		}
	}
	return false
}

// boundsRule decides the operations of each function for unknown arguments; what
// depends on the arguments of an unexported function is decided in all contexts.
func boundsRule(c *Ctx) {
	var fns []*ssa.Function
	for _, fn := range c.P.AllFuncs {
		if fn.Blocks != nil && fn.Synthetic == "" && !boundsSkip(fn) {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	events := func(b *bounds) []*Event {
		var out []*Event
		for _, e := range b.in.Events {
			switch e.Kind {
			case "index", "slice", "assert", "mapset", "div":
				out = append(out, e)
			}
		}
		return out
	}
	runs := map[*ssa.Function]*bounds{}
	run := func(fn *ssa.Function) *bounds {
		if runs[fn] == nil {
			in := newInterp(c.P)
			c.Analyse(in, fn, nil)
			runs[fn] = &bounds{in: in, inv: map[*Loop][]invariant{}}
		}
		return runs[fn]
	}
	type open struct {
		i   ssa.Instruction
		why string
	}
	var left []open
	for _, fn := range fns {
		failingRule(c, fn)
		var todo []ssa.Instruction
		for _, b := range fn.Blocks {
			if b == fn.Recover {
				continue
			}
			for _, i := range b.Instrs {
				if canFail(i) {
					todo = append(todo, i)
				}
			}
		}
		diffs := newDiffs(fn)
		open1 := todo[:0]
		for _, i := range todo {
			if diffs.inRange(i) || sortCallback(i) {
				c.Ob("range", i, true, "")
			} else {
				open1 = append(open1, i)
			}
		}
		todo = open1
		if len(todo) == 0 {
			continue
		}
		b := run(fn)
		why := map[ssa.Instruction]string{}
		seen := map[ssa.Instruction]int{}
		for _, e := range events(b) {
			if e.Fn != fn || !canFail(e.Instr) {
				continue
			}
			seen[e.Instr]++
			if why[e.Instr] == "" {
				why[e.Instr] = b.inRange(e)
			}
		}
		for _, i := range todo {
			switch {
			case seen[i] == 0:
				left = append(left, open{i, "no analysis reaches this operation"})
			case why[i] != "" && !boundsRoot(fn):
				left = append(left, open{i, why[i]})
			default:
				c.Ob("range", i, why[i] == "", "%s", why[i])
			}
		}
	}
	if boundsDebug {
		for _, o := range left {
			fmt.Println("LEFT", c.P.Pos(o.i), o.why)
		}
	}
	if len(left) > 0 {
		ctx := map[ssa.Instruction]int{}
		why := map[ssa.Instruction]string{}
		for _, o := range left {
			why[o.i] = ""
		}
		for _, fn := range fns {
			if !boundsRoot(fn) || strings.HasPrefix(fn.Name(), "NewFake") {
				continue
			}
			b := run(fn)
			for _, e := range events(b) {
				if _, ok := why[e.Instr]; !ok || why[e.Instr] != "" {
					continue
				}
				ctx[e.Instr]++
				why[e.Instr] = b.inRange(e)
			}
		}
		for _, o := range left {
			w := why[o.i]
			if ctx[o.i] == 0 {
				w = o.why
			}
			c.Ob("range", o.i, w == "", "%s", w)
		}
	}
	c.Min("range", 80)
	c.Min("nothing", 20)
}

// inRange: why the operation may fail, "" if it cannot.
func (b *bounds) inRange(e *Event) string {
	in := b.in
	why := ""
	lin := newLin(in)
	if boundsDebug {
		st := time.Now()
		defer func() {
			if d := time.Since(st); d > 50*time.Millisecond {
				fmt.Println("BOUNDS", in.P.Pos(e.Instr), in.Entry.fn, d)
			}
		}()
	}
	switch e.Kind {
	case "index":
		in.each(e.Args[0], e.Guard, func(x *Term, g B) {
			in.each(e.Args[1], g, func(i *Term, g B) {
				if i.Op == "lookup" { // a number kept in a map is not followed
					return
				}
				if n, ok := arrayLen(e.Args[0].Typ); ok {
					facts := b.facts(lin, g, i)
					if !lin.near(g, []poly{above(constPoly(0), lin.expr(i))}, facts, i) || !lin.near(g, []poly{atLeast(lin.expr(i), constPoly(n))}, facts, i) {
						why = "the index " + in.S(i) + " may be out of range"
					}
					return
				}
				facts := b.facts(lin, g, i, x)
				if !lin.near(g, []poly{above(constPoly(0), lin.expr(i))}, facts, i) {
					why = "the index " + in.S(i) + " may be negative"
				}
				if !lin.near(g, []poly{atLeast(lin.expr(i), lin.length(x))}, facts, i) {
					why = "the index " + in.S(i) + " may be out of range of " + in.S(x)
				}
			})
		})
	case "slice":
		in.each(e.Args[0], e.Guard, func(x *Term, g B) {
			n := lin.length(x)
			if k, ok := arrayLen(e.Args[0].Typ); ok {
				n = constPoly(k)
			}
			lo, hi := e.Args[1], e.Args[2]
			if lo == nil {
				lo = in.Int(0)
			}
			in.each(lo, g, func(lo *Term, g B) {
				end := func(hi *Term, g B) {
					at, top := lin.expr(lo), n
					facts := b.facts(lin, g, lo, hi, x)
					use := []*Term{lo}
					if hi != nil {
						use = append(use, hi)
						top = lin.expr(hi)
						if !lin.near(g, []poly{above(top, n)}, facts, use...) {
							why = "the end " + in.S(hi) + " of a slice may be behind the end of " + in.S(x)
						}
					}
					if !lin.near(g, []poly{above(at, top)}, facts, use...) {
						why = "the start " + in.S(lo) + " of a slice may be behind its end in " + in.S(x)
					}
					if !lin.near(g, []poly{above(constPoly(0), at)}, facts, lo) {
						why = "the start " + in.S(lo) + " of a slice may be negative"
					}
				}
				if hi == nil {
					end(nil, g)
				} else {
					in.each(hi, g, end)
				}
			})
		})
	case "assert":
		if !in.Implies(e.Guard, in.Truth(e.Args[1])) && !b.trusted(e) {
			why = "the conversion of " + in.S(e.Args[0]) + " to " + e.Name + " may fail"
		}
	case "div":
		in.each(e.Args[1], e.Guard, func(y *Term, g B) {
			if n := lin.expr(y); !lin.near(g, []poly{atLeast(n, constPoly(0)), atLeast(constPoly(0), n)}, b.facts(lin, g, y), y) {
				why = "the divisor " + in.S(y) + " may be 0"
			}
		})
	case "mapset":
		in.each(e.Args[0], e.Guard, func(m *Term, g B) {
			if why2 := b.nilMap(m, g); why2 != "" {
				why = why2
			}
		})
	}
	return why
}

// trusted conversions: what a library promises of the types of its results.
func (b *bounds) trusted(e *Event) bool {
	i, ok := e.Instr.(*ssa.TypeAssert)
	if !ok {
		return false
	}
	from, to := i.X.Type(), i.AssertedType
	switch {
	case from.String() == "net/http.ResponseWriter" && to.String() == "net/http.Flusher":
		// the server's own writers can; so has every wrapper of the repository
		for _, n := range b.in.P.namedTypes() {
			for _, t := range []types.Type{n, types.NewPointer(n)} {
				if types.Implements(t, from.Underlying().(*types.Interface)) && !types.Implements(t, to.Underlying().(*types.Interface)) {
					return false
				}
			}
		}
		return true
	case to.String() == "*k8s.io/client-go/rest.RESTClient":
		return b.in.all(e.Args[0], e.Guard, func(t *Term, _ B) bool { return isMethodCall(t, "RESTClient") })
	case to.String() == "map[string]string":
		return b.in.all(e.Args[0], e.Guard, func(t *Term, _ B) bool { return isCallTo(t, "(reflect.Value).Interface") })
	case to.String() == "*k8s.io/api/core/v1.Service":
		return b.in.all(e.Args[0], e.Guard, func(t *Term, _ B) bool { return mentions(t, func(t *Term) bool { return isMethodCall(t, "Query") }) })
	}
	return false
}

// nilMap: maps that come out of a call, another map or nothing may be nil.
func (b *bounds) nilMap(m *Term, g B) string {
	if m.isNil() {
		return "an entry is set in a nil map"
	}
	switch m.Op {
	case "lookup", "call", "extract", "invoke", "dyncall":
		if !b.present(m, g, 3) {
			return "an entry is set in " + b.in.S(m) + ", which may be nil"
		}
	}
	return ""
}

// present: the map was made, found not to be nil, or set before it was got.
func (b *bounds) present(m *Term, g B, depth int) bool {
	in := b.in
	is := func(t *Term) bool { return t == m }
	switch {
	case m.Op == "makemap" || depth == 0:
		return m.Op == "makemap"
	case in.impliesAtom(g, true, func(t *Term) bool { return t.Op == "nonempty" && t.Args[0] == m }):
		return true
	case in.impliesAtom(g, false, isNilCmp(is)):
		return true
	}
	if m.Op != "call" {
		return false
	}
	name := callName(m)
	k := strings.LastIndex(name, ").Get")
	obj := m.Args[len(m.Args)-1]
	if k < 0 || obj.Op != "ptrver" {
		return false
	}
	setter := name[:k] + ").Set" + name[k+len(").Get"):]
	return in.all(obj.Args[1], g, func(v *Term, g B) bool {
		for _, e := range in.Events {
			val, ok := e.Instr.(ssa.Value)
			if !ok || e.Kind != "call" || e.Name != setter || v.Aux != "v:"+e.Ctx+"/"+val.Name() || len(e.Args) == 0 {
				continue
			}
			return in.all(e.Args[len(e.Args)-1], in.And(g, e.Guard), func(x *Term, g B) bool { return b.present(x, g, depth-1) })
		}
		return false
	})
}

func arrayLen(t types.Type) (int64, bool) {
	if t == nil {
		return 0, false
	}
	t = t.Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	a, ok := t.(*types.Array)
	if !ok {
		return 0, false
	}
	return a.Len(), true
}

// bounds collects what is known of the numbers of one analysis.
type bounds struct {
	in  *Interp
	inv map[*Loop][]invariant
}

// invariant: le.a <= le.b + k holds whenever the head of the loop is reached.
type invariant struct {
	a, b *Term
	k    int64
}

func (v invariant) poly(lin *Lin) poly {
	return atLeast(lin.expr(v.b).plus(constPoly(v.k), 1), lin.expr(v.a))
}

// facts: invariants of the loops whose variables the terms mention, and the
// lengths of what the library returns.
func (b *bounds) facts(lin *Lin, g B, ts ...*Term) []poly {
	in := b.in
	loops := map[*Loop]bool{}
	var out []poly
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if li := in.loopInfo[t]; li != nil && li.Loop != nil && !loops[li.Loop] {
			loops[li.Loop] = true
			for _, v := range b.invariants(li.Loop) {
				out = append(out, v.poly(lin))
				walk(v.a)
				walk(v.b)
			}
		}
		out = append(out, libraryFacts(lin, t, g)...)
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	for _, v := range in.Support(g) {
		if t := in.atoms[v]; arithmetic(t) {
			walk(t)
		}
	}
	return append(out, condFacts(lin, g)...)
}

// libraryFacts: what the library promises about the numbers and lengths of its
// results.
func libraryFacts(lin *Lin, t *Term, g B) []poly {
	var out []poly
	atLeastLen := func(x *Term, n int64) { out = append(out, atLeast(lin.length(x), constPoly(n))) }
	switch {
	case t.Op == "len":
		out = append(out, atLeast(constPoly(dataSize), lin.length(t.Args[0])))
	case isCallTo(t, "strings.Split"):
		if s, ok := callArg(t, 1).constStr(); ok && s != "" {
			atLeastLen(t, 1)
		}
	case isCallTo(t, "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.IndexRune", "strings.LastIndexByte", "strings.IndexAny"):
		n := int64(1)
		if s, ok := callArg(t, 1).constStr(); ok && !isCallTo(t, "strings.IndexAny") {
			n = int64(len(s))
		}
		x, top := lin.expr(t), lin.length(callArg(t, 0))
		out = append(out, atLeast(x, constPoly(-1)))
		if lin.near(g, []poly{above(constPoly(0), x)}, nil, t) {
			top = top.plus(constPoly(n), -1)
		}
		out = append(out, atLeast(top, x))
	case t.Op == "call" && strings.Contains(callName(t), "util/sets.") && (isMethodCall(t, "List") || isMethodCall(t, "UnsortedList")):
		n := lin.length(t)
		for _, x := range lin.in.terms {
			if x.Op == "call" && strings.Contains(callName(x), "util/sets.") && isMethodCall(x, "Len") && x.Args[0] == t.Args[0] {
				out = append(out, atLeast(n, lin.expr(x)), atLeast(lin.expr(x), n))
			}
		}
		out = append(out, atLeast(n, lin.length(t.Args[0])), atLeast(lin.length(t.Args[0]), n))
	case t.Op == "lookup" && isQuery(t.Args[0]) && present(lin.in, t, g):
		atLeastLen(t, 1)
	case t.Op == "extract" && t.Aux == "0" && isCallTo(t.Args[0], "encoding/json.Marshal"):
		atLeastLen(t, 2)
	case t.Op == "extract" && t.Aux == "0" && isMethodCall(t.Args[0], "Read"):
		x := lin.expr(t)
		out = append(out, atLeast(x, constPoly(0)), atLeast(lin.length(t.Args[0].Args[len(t.Args[0].Args)-1]), x))
	case t.Op == "cbparam" && len(t.Args) == 1 && isCallTo(t.Args[0], "sort.Slice", "sort.SliceStable"):
		x := lin.expr(t)
		s := callArg(t.Args[0], 0)
		if s.Op == "iface" {
			s = s.Args[0]
		}
		out = append(out, atLeast(x, constPoly(0)), above(lin.length(s), x))
	}
	return out
}

// isQuery: the map is a url.Values, whose entries are never empty.
func isQuery(m *Term) bool {
	return m.Op == "parsedquery" || m.Typ != nil && m.Typ.String() == "net/url.Values"
}

// present: the key of the entry is known to be in the map.
func present(in *Interp, t *Term, g B) bool {
	m, k := t.Args[0], t.Args[1]
	return k.Op == "mapkey" || in.Implies(g, in.Truth(in.mkT("has", "", types.Typ[types.Bool], m, k)))
}

// condFacts: lengths the path condition promises.
func condFacts(lin *Lin, g B) []poly {
	in := lin.in
	var out []poly
	for _, v := range in.Support(g) {
		t := in.atoms[v]
		if arithmetic(t) || !in.Implies(g, in.Var(v)) {
			continue
		}
		switch {
		case isCallTo(t, "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix"):
			if s, ok := callArg(t, 1).constStr(); ok {
				out = append(out, atLeast(lin.length(callArg(t, 0)), constPoly(int64(len(s)))))
				if isCallTo(t, "strings.Contains") && s != "" {
					// a text with the separator in it comes apart
					for _, x := range in.terms {
						if isCallTo(x, "strings.Split") && callArg(x, 0) == callArg(t, 0) && callArg(x, 1) == callArg(t, 1) {
							out = append(out, atLeast(lin.length(x), constPoly(2)))
						}
					}
				}
			}
		case t.Op == "nonempty":
			out = append(out, atLeast(lin.length(t.Args[0]), constPoly(1)))
		case t.Op == "eq":
			if s, ok := t.Args[1].constStr(); ok {
				n := lin.length(t.Args[0])
				out = append(out, atLeast(n, constPoly(int64(len(s)))), atLeast(constPoly(int64(len(s))), n))
			}
		}
	}
	return out
}

func callArg(t *Term, i int) *Term {
	for len(t.Args) > 0 && (t.Args[0].Op == "fn" || t.Args[0].Op == "func") {
		t = &Term{Args: t.Args[1:]}
	}
	if i < len(t.Args) {
		return t.Args[i]
	}
	return &Term{Op: "none"}
}

// invariants of a loop, the largest set of the candidates that is inductive.
func (b *bounds) invariants(l *Loop) []invariant {
	if inv, ok := b.inv[l]; ok {
		return inv
	}
	b.inv[l] = nil
	in := b.in
	var vars []*Term
	for t, li := range in.loopInfo {
		if li.Loop == l && li.Init != nil && len(li.Back) == len(l.Backs) && isInt(t.Typ) {
			vars = append(vars, t)
		}
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].ID < vars[j].ID })
	var cand []invariant
	// what a variable of the loop is an index of
	ofLoop := func(t *Term) bool { return in.loopInfo[t] != nil && in.loopInfo[t].Loop == l }
	bnd := map[*Term]map[*Term]bool{}
	for _, e := range in.Events {
		if e.Kind != "index" && e.Kind != "slice" {
			continue
		}
		if _, ok := arrayLen(e.Args[0].Typ); ok {
			continue
		}
		for _, v := range vars {
			hit := false
			for _, a := range e.Args[1:] {
				hit = hit || a != nil && mentions(a, func(t *Term) bool { return t == v })
			}
			if !hit {
				continue
			}
			in.each(e.Args[0], bTrue, func(x *Term, _ B) {
				if !mentions(x, ofLoop) && newLin(in).length(x).degree() <= 1 {
					if bnd[v] == nil {
						bnd[v] = map[*Term]bool{}
					}
					bnd[v][in.mkT("len", "", nil, x)] = true
				}
			})
		}
	}
	for _, v := range vars {
		in.each(in.loopInfo[v].Init, l.AbsEntry, func(t *Term, _ B) {
			if n, ok := t.constInt(); ok {
				cand = append(cand, invariant{in.Int(n), v, 0})
			} else {
				cand = append(cand, invariant{t, v, 0}, invariant{v, t, 0})
			}
		})
		for t := range bnd[v] {
			cand = append(cand, invariant{v, t, 0}, invariant{v, t, -1})
		}
		for _, w := range vars {
			if w != v {
				cand = append(cand, invariant{v, w, 0}, invariant{v, w, 1})
			}
		}
	}
	if boundsDebug {
		st := time.Now()
		defer func() {
			if d := time.Since(st); d > 50*time.Millisecond {
				fmt.Println("INV", l.Key, len(vars), len(cand), len(l.Backs), d)
				for _, v := range cand {
					fmt.Println("   ", in.S(v.a), "<=", in.S(v.b), v.k)
				}
			}
		}()
	}
	if boundsDebug {
		for _, t := range vars {
			fmt.Println("VAR", l.Key, in.S(t), "init", in.S(in.loopInfo[t].Init))
			for bi, e := range l.Backs {
				fmt.Println("   back", bi, in.S(b.after(t, l, bi)), "IF", in.GS(e.abs))
			}
		}
	}
	var kept []invariant
	for _, v := range cand { // holds at the entry
		lin := newLin(in)
		ok := true
		each2(in, l.AbsEntry, b.at(v.a, l), b.at(v.b, l), func(x, y *Term, g B) {
			neg := above(lin.expr(x), lin.expr(y).plus(constPoly(v.k), 1))
			prove := lin.quick
			if neg.degree() > 1 {
				prove = lin.near
			}
			ok = ok && prove(g, []poly{neg}, b.facts(lin, g, x, y), x, y)
		})
		if ok {
			kept = append(kept, v)
		}
	}
	for changed := true; changed; {
		changed = false
		var next []invariant
		for _, v := range kept {
			lin := newLin(in)
			ok := true
			for bi, e := range l.Backs {
				each2(in, e.abs, b.after(v.a, l, bi), b.after(v.b, l, bi), func(x, y *Term, g B) {
					var facts []poly
					for _, w := range kept {
						facts = append(facts, w.poly(lin))
					}
					facts = append(facts, b.facts(lin, g, x, y)...)
					neg := []poly{above(lin.expr(x), lin.expr(y).plus(constPoly(v.k), 1))}
					ok = ok && (lin.quick(g, neg, facts, x, y) || len(cand) < 10 && lin.near(g, neg, facts, x, y))
				})
			}
			if ok {
				next = append(next, v)
			} else {
				changed = true
			}
		}
		kept = next
	}
	if boundsDebug {
		for _, v := range kept {
			fmt.Println("KEPT", l.Key, in.S(v.a), "<=", in.S(v.b), v.k)
		}
	}
	b.inv[l] = kept
	return kept
}

func each2(in *Interp, g B, x, y *Term, f func(x, y *Term, g B)) {
	in.each(x, g, func(x *Term, g B) { in.each(y, g, func(y *Term, g B) { f(x, y, g) }) })
}

// at: t when the loop is entered; after: at the end of an iteration.
func (b *bounds) at(t *Term, l *Loop) *Term {
	if li := b.in.loopInfo[t]; li != nil && li.Loop == l {
		return li.Init
	}
	return t
}

func (b *bounds) after(t *Term, l *Loop, bi int) *Term {
	if li := b.in.loopInfo[t]; li != nil && li.Loop == l {
		return b.in.backOf(li, l, bi)
	}
	return t
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

var boundsDebug = os.Getenv("CK_BOUNDS") != ""

// quick looks no further than the conditions about the very numbers.
func (l *Lin) quick(g B, neg []poly, extra []poly, use ...*Term) bool {
	l.depth = 1
	defer func() { l.depth = 0 }()
	vars := map[string]bool{}
	for _, p := range neg {
		for m := range p.c {
			vars[m] = m != ""
		}
	}
	var near []poly
	taken := map[int]bool{}
	for round := 0; round < 2; round++ {
		var found []int
		for k, p := range extra {
			if taken[k] || p.degree() > 1 {
				continue
			}
			for m := range p.c {
				if vars[m] {
					found = append(found, k)
					break
				}
			}
		}
		for _, k := range found {
			taken[k] = true
			near = append(near, extra[k])
			for m := range extra[k].c {
				vars[m] = m != ""
			}
		}
	}
	extra = near
	return l.Impossible(g, neg, extra, use...)
}

// near tries the conditions about the very numbers first.
func (l *Lin) near(g B, neg []poly, extra []poly, use ...*Term) bool {
	for _, l.depth = range []int{1, 2, 0} {
		if l.Impossible(g, neg, extra, use...) {
			l.depth = 0
			return true
		}
	}
	return false
}

// namedTypes are the types the repository declares, interfaces aside.
func (P *Program) namedTypes() []types.Type {
	var out []types.Type
	for _, p := range P.Pkgs {
		if p.Types == nil {
			continue
		}
		for _, n := range p.Types.Scope().Names() {
			if t, ok := p.Types.Scope().Lookup(n).(*types.TypeName); ok && !types.IsInterface(t.Type()) && !t.IsAlias() {
				out = append(out, t.Type())
			}
		}
	}
	return out
}
