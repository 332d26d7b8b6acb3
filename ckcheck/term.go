package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed symbolic description of where a value comes from.
// Equal terms denote equal values (on one pass through the analysed code).
type Term struct {
	ID    int
	Op    string
	Aux   string
	Args  []*Term
	Typ   types.Type     // informational, of the first creation
	Obj   any            // *ssa.Function for func/closure, alternatives for ite ...
	loops map[*Loop]bool // loops this value may change in
}

func (t *Term) deps(as ...*Term) {
	for _, a := range as {
		for l := range a.loops {
			t.addLoop(l)
		}
	}
}

func (t *Term) addLoop(l *Loop) {
	if t.loops == nil {
		t.loops = map[*Loop]bool{}
	}
	t.loops[l] = true
}

func (t *Term) inLoops(ls []*Loop) {
	for _, l := range ls {
		t.addLoop(l)
	}
}

func (t *Term) hasLoop(l *Loop) bool { return t.loops[l] }

type alt struct {
	G B
	T *Term
}

// World owns the terms, the guards and their theory.
type World struct {
	*BDD
	tab      map[string]*Term
	terms    []*Term
	atomVar  map[*Term]int
	atoms    []*Term
	satMemo  map[B]bool
	loopInfo map[*Term]*LoopVarInfo
	phiInfo  map[*Term][]alt
}

// LoopVarInfo tells how a loop-carried value evolves.
type LoopVarInfo struct {
	Init  *Term
	Back  []alt // value at each back edge with the guard of that edge
	Loop  *Loop
	Cell  *Term // memory cell (nil: a phi)
	Index bool  // a range index (starts at -1, or 0 with step 1)
}

func newWorld() *World {
	return &World{BDD: newBDD(), tab: map[string]*Term{}, atomVar: map[*Term]int{}, satMemo: map[B]bool{}, loopInfo: map[*Term]*LoopVarInfo{}, phiInfo: map[*Term][]alt{}}
}

func (w *World) mkT(op, aux string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t, ok := w.tab[k]; ok {
		return t
	}
	t := &Term{ID: len(w.terms), Op: op, Aux: aux, Args: append([]*Term(nil), args...), Typ: typ}
	t.deps(args...)
	w.terms = append(w.terms, t)
	w.tab[k] = t
	return t
}

func (w *World) Str(s string) *Term { return w.mkT("const", strconv.Quote(s), types.Typ[types.String]) }
func (w *World) Int(n int64) *Term {
	return w.mkT("const", strconv.FormatInt(n, 10), types.Typ[types.Int])
}
func (w *World) Nil() *Term { return w.mkT("const", "nil", nil) }
func (w *World) Bool(b bool) *Term {
	return w.mkT("const", strconv.FormatBool(b), types.Typ[types.Bool])
}
func (t *Term) isConst() bool { return t.Op == "const" }
func (t *Term) isNil() bool   { return t.Op == "const" && t.Aux == "nil" }
func (t *Term) constStr() (string, bool) {
	if t.Op == "const" && strings.HasPrefix(t.Aux, `"`) {
		s, err := strconv.Unquote(t.Aux)
		return s, err == nil
	}
	return "", false
}
func (t *Term) constInt() (int64, bool) {
	if t.Op == "const" {
		n, err := strconv.ParseInt(t.Aux, 10, 64)
		return n, err == nil
	}
	return 0, false
}

func (w *World) constant(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return w.zero(typ)
	}
	switch v.Kind() {
	case constant.Bool:
		return w.Bool(constant.BoolVal(v))
	case constant.String:
		return w.mkT("const", strconv.Quote(constant.StringVal(v)), typ)
	case constant.Int:
		return w.mkT("const", v.ExactString(), typ)
	}
	return w.mkT("const", v.ExactString(), typ)
}

func (w *World) zero(t types.Type) *Term {
	if t == nil {
		return w.Nil()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return w.Str("")
		case u.Info()&types.IsBoolean != 0:
			return w.Bool(false)
		case u.Info()&types.IsNumeric != 0:
			return w.Int(0)
		}
		return w.Nil()
	case *types.Struct, *types.Array:
		return w.mkT("zero", typeKey(t), t)
	}
	return w.Nil()
}

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, nil)
}

func structField(t types.Type, name string) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return s.Field(i).Type()
			}
		}
	}
	return nil
}

// ---- alternatives -------------------------------------------------------

func (w *World) mkIte(alts []alt) *Term {
	var flat []alt
	var add func(g B, t *Term)
	add = func(g B, t *Term) {
		if g == bFalse {
			return
		}
		if t.Op == "ite" {
			for _, a := range t.Obj.([]alt) {
				add(w.And(g, a.G), a.T)
			}
			return
		}
		for i := range flat {
			if flat[i].T == t {
				flat[i].G = w.Or(flat[i].G, g)
				return
			}
		}
		flat = append(flat, alt{g, t})
	}
	for _, a := range alts {
		add(a.G, a.T)
	}
	if len(flat) == 0 {
		return w.mkT("undef", "", nil)
	}
	if len(flat) == 1 {
		return flat[0].T
	}
	sort.Slice(flat, func(i, j int) bool { return flat[i].T.ID < flat[j].T.ID })
	var sb strings.Builder
	args := make([]*Term, len(flat))
	for i, a := range flat {
		fmt.Fprintf(&sb, "%d,", a.G)
		args[i] = a.T
	}
	t := w.mkT("ite", sb.String(), flat[0].T.Typ, args...)
	if t.Obj == nil {
		t.Obj = flat
		for _, a := range flat {
			for _, v := range w.Support(a.G) {
				t.deps(w.atoms[v])
			}
		}
	}
	return t
}

// Alts returns the guarded leaf values of t.
func (w *World) Alts(t *Term) []alt {
	if t.Op == "ite" {
		return t.Obj.([]alt)
	}
	return []alt{{bTrue, t}}
}

// Simp drops the alternatives of t that cannot occur under guard g.
func (w *World) Simp(t *Term, g B) *Term {
	if t.Op != "ite" {
		return t
	}
	var keep []alt
	for _, a := range t.Obj.([]alt) {
		if w.Sat(w.And(a.G, g)) {
			keep = append(keep, a)
		}
	}
	if len(keep) == len(t.Obj.([]alt)) {
		return t
	}
	return w.mkIte(keep)
}

func (w *World) lift(t *Term, f func(*Term) *Term) *Term {
	if t.Op != "ite" {
		return f(t)
	}
	as := t.Obj.([]alt)
	out := make([]alt, len(as))
	for i, a := range as {
		out[i] = alt{a.G, f(a.T)}
	}
	return w.mkIte(out)
}

// ---- constructors with normalisation ------------------------------------

func (w *World) Field(t *Term, name string, typ types.Type) *Term {
	return w.lift(t, func(t *Term) *Term {
		switch t.Op {
		case "upd":
			if t.Aux == name {
				return t.Args[1]
			}
			return w.Field(t.Args[0], name, typ)
		case "zero":
			if ft := structField(t.Typ, name); ft != nil {
				return w.zero(ft)
			}
		case "load":
			return w.mkT("load", "", typ, w.FieldAddr(t.Args[0], name, typ))
		}
		return w.mkT("field", name, typ, t)
	})
}

func (w *World) Upd(base *Term, name string, v *Term) *Term {
	// canonical: fields in name order, later updates win
	if base.Op == "ite" {
		return w.lift(base, func(b *Term) *Term { return w.Upd(b, name, v) })
	}
	if base.Op == "upd" {
		if base.Aux == name {
			return w.Upd(base.Args[0], name, v)
		}
		if base.Aux > name {
			return w.Upd(w.Upd(base.Args[0], name, v), base.Aux, base.Args[1])
		}
	}
	return w.mkT("upd", name, base.Typ, base, v)
}

func (w *World) FieldAddr(base *Term, name string, fieldTyp types.Type) *Term {
	return w.lift(base, func(b *Term) *Term { return w.mkT("fieldaddr", name, fieldTyp, b) })
}

func (w *World) IndexAddr(base, idx *Term, elemTyp types.Type) *Term {
	return w.lift(base, func(b *Term) *Term {
		if b.Op == "slice" && len(b.Args) == 3 && b.Args[1].Op == "const" && b.Args[1].Aux == "0" && b.Args[0].Op == "alloc" {
			b = b.Args[0]
		}
		return w.mkT("indexaddr", "", elemTyp, b, idx)
	})
}

func (w *World) Index(base, idx *Term, typ types.Type) *Term {
	return w.lift(base, func(b *Term) *Term {
		if b.Op == "slicelit" {
			if n, ok := idx.constInt(); ok && n >= 0 && int(n) < len(b.Args) {
				return b.Args[n]
			}
		}
		if b.Op == "zero" && typ != nil {
			return w.zero(typ)
		}
		return w.mkT("index", "", typ, b, idx)
	})
}

func (w *World) Lookup(m, k *Term, typ types.Type) *Term {
	return w.lift(m, func(m *Term) *Term {
		return w.lift(k, func(k *Term) *Term { return w.mkT("lookup", "", typ, m, k) })
	})
}

func (w *World) Tuple(ts ...*Term) *Term { return w.mkT("tuple", "", nil, ts...) }

func (w *World) Extract(t *Term, i int, typ types.Type) *Term {
	return w.lift(t, func(t *Term) *Term {
		if t.Op == "tuple" && i < len(t.Args) {
			return t.Args[i]
		}
		return w.mkT("extract", strconv.Itoa(i), typ, t)
	})
}

func (w *World) Len(t *Term) *Term {
	return w.lift(t, func(t *Term) *Term {
		if s, ok := t.constStr(); ok {
			return w.Int(int64(len(s)))
		}
		switch t.Op {
		case "slicelit":
			return w.Int(int64(len(t.Args)))
		case "emptyslice":
			return w.Int(0)
		}
		if t.isNil() {
			return w.Int(0)
		}
		return w.mkT("len", "", types.Typ[types.Int], t)
	})
}

func (w *World) Concat(a, b *Term) *Term {
	if x, ok := a.constStr(); ok {
		if y, ok := b.constStr(); ok {
			return w.Str(x + y)
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.constStr(); ok && y == "" {
		return a
	}
	// right-associate for a canonical form
	if a.Op == "concat" {
		return w.Concat(a.Args[0], w.Concat(a.Args[1], b))
	}
	if b.Op == "concat" {
		if x, ok := a.constStr(); ok {
			if y, ok := b.Args[0].constStr(); ok {
				return w.mkT("concat", "", a.Typ, w.Str(x+y), b.Args[1])
			}
		}
	}
	return w.mkT("concat", "", types.Typ[types.String], a, b)
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (w *World) Not(b B) B { return w.BDD.Not(b) }

// NotT negates a boolean term.
func (w *World) NotT(t *Term) *Term {
	return w.lift(t, func(t *Term) *Term {
		if t.Op == "const" {
			return w.Bool(t.Aux != "true")
		}
		if t.Op == "not" {
			return t.Args[0]
		}
		return w.mkT("not", "", types.Typ[types.Bool], t)
	})
}

const liftLimit = 64

func (w *World) Bin(op token.Token, x, y *Term, xt types.Type) *Term {
	nx, ny := len(w.Alts(x)), len(w.Alts(y))
	if nx*ny <= liftLimit && nx*ny > 1 {
		var out []alt
		for _, a := range w.Alts(x) {
			for _, b := range w.Alts(y) {
				if g := w.And(a.G, b.G); w.Sat(g) {
					out = append(out, alt{g, w.bin1(op, a.T, b.T, xt)})
				}
			}
		}
		return w.mkIte(out)
	}
	return w.bin1(op, x, y, xt)
}

func (w *World) bin1(op token.Token, x, y *Term, xt types.Type) *Term {
	boolT := types.Typ[types.Bool]
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		r = w.eq(x, y, xt)
		if op == token.NEQ {
			return w.NotT(r)
		}
		return r
	case token.LSS:
		return w.lt(x, y)
	case token.GTR:
		return w.lt(y, x)
	case token.GEQ:
		return w.NotT(w.lt(x, y))
	case token.LEQ:
		return w.NotT(w.lt(y, x))
	case token.ADD:
		if isString(xt) {
			return w.Concat(x, y)
		}
		return w.linear(op, x, y, xt)
	case token.SUB:
		return w.linear(op, x, y, xt)
	case token.MUL:
		if a, ok := x.constInt(); ok {
			if b, ok := y.constInt(); ok {
				return w.Int(a * b)
			}
		}
		if x.ID > y.ID {
			x, y = y, x
		}
		return w.mkT("mul", "", xt, x, y)
	case token.LAND:
		return w.fromB(w.And(w.Truth(x), w.Truth(y)))
	case token.LOR:
		return w.fromB(w.Or(w.Truth(x), w.Truth(y)))
	}
	if op == token.AND || op == token.OR {
		if types.Identical(xt, boolT) {
			if op == token.AND {
				return w.fromB(w.And(w.Truth(x), w.Truth(y)))
			}
			return w.fromB(w.Or(w.Truth(x), w.Truth(y)))
		}
		if x.ID > y.ID {
			x, y = y, x
		}
	}
	return w.mkT("bin", op.String(), xt, x, y)
}

func (w *World) fromB(g B) *Term {
	if g == bTrue {
		return w.Bool(true)
	}
	if g == bFalse {
		return w.Bool(false)
	}
	return w.mkIte([]alt{{g, w.Bool(true)}, {w.Not(g), w.Bool(false)}})
}

func (w *World) linear(op token.Token, x, y *Term, xt types.Type) *Term {
	if b, ok := y.constInt(); ok {
		if op == token.SUB {
			b = -b
		}
		if a, ok := x.constInt(); ok {
			return w.Int(a + b)
		}
		if x.Op == "addc" {
			c, _ := strconv.ParseInt(x.Aux, 10, 64)
			b += c
			x = x.Args[0]
		}
		if b == 0 {
			return x
		}
		return w.mkT("addc", strconv.FormatInt(b, 10), xt, x)
	}
	if op == token.ADD {
		if _, ok := x.constInt(); ok {
			return w.linear(op, y, x, xt)
		}
		if x.ID > y.ID {
			x, y = y, x
		}
		return w.mkT("add", "", xt, x, y)
	}
	return w.mkT("sub", "", xt, x, y)
}

// nonNil: terms that are certainly not nil.
func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "fieldaddr", "indexaddr", "global", "iface", "closure", "func", "slicelit", "makemap", "emptyslice", "makechan", "makeslice", "newerr", "urlquery", "ptrto":
		return true
	case "call":
		switch callName(t) {
		case "fmt.Errorf", "errors.New", "context.Background", "context.TODO":
			return true
		}
	case "ptrver":
		return nonNil(t.Args[0])
	}
	return false
}

func (w *World) eq(x, y *Term, xt types.Type) *Term {
	if x == y {
		return w.Bool(true)
	}
	if x.isConst() && !y.isConst() {
		x, y = y, x
	}
	if x.isConst() && y.isConst() {
		return w.Bool(x.Aux == y.Aux)
	}
	if y.isNil() && nonNil(x) {
		return w.Bool(false)
	}
	// a string whose start is compared has the start, or it would have panicked
	if x.Op == "index" && len(x.Args) == 2 && isString(x.Args[0].Typ) && x.Args[1].Aux == "0" && x.Args[1].isConst() {
		if n, ok := y.constInt(); ok && n > 0 && n < 128 {
			return w.mkT("call", "strings.HasPrefix", types.Typ[types.Bool], x.Args[0], w.Str(string(rune(n))))
		}
	}
	if x.Op == "slice" && len(x.Args) == 3 && isString(x.Args[0].Typ) && x.Args[1].isConst() && x.Args[1].Aux == "0" {
		n, ok := x.Args[2].constInt()
		if s, isS := y.constStr(); ok && isS && s != "" {
			if int(n) != len(s) {
				return w.Bool(false)
			}
			return w.mkT("call", "strings.HasPrefix", types.Typ[types.Bool], x.Args[0], y)
		}
	}
	if x.Op == "iface" && y.Op == "iface" {
		if x.Aux == y.Aux {
			return w.eq(x.Args[0], y.Args[0], x.Args[0].Typ)
		}
		return w.Bool(false)
	}
	if y.Op == "const" && (y.Aux == "true" || y.Aux == "false") {
		if y.Aux == "true" {
			return x
		}
		return w.NotT(x)
	}
	if y.Op == "const" {
		if y.Aux == `""` {
			return w.NotT(w.mkT("nonempty", "", types.Typ[types.Bool], x))
		}
		if y.Aux == "0" && x.Op == "len" {
			return w.NotT(w.mkT("nonempty", "", types.Typ[types.Bool], x.Args[0]))
		}
		if s, ok := y.constStr(); ok && x.Op == "concat" {
			// "lit"+z == "const"
			if l, ok := x.Args[0].constStr(); ok {
				if !strings.HasPrefix(s, l) {
					return w.Bool(false)
				}
				return w.eq(x.Args[1], w.Str(s[len(l):]), xt)
			}
		}
		if x.Op == "addc" {
			if n, ok := y.constInt(); ok {
				c, _ := strconv.ParseInt(x.Aux, 10, 64)
				return w.eq(x.Args[0], w.Int(n-c), xt)
			}
		}
	}
	if y.Aux == "0" && lenSum(x) {
		return w.fromB(w.Not(w.someLen(x)))
	}
	if isBoolT(xt) || xt == nil && isBoolT(x.Typ) && isBoolT(y.Typ) {
		a, b := w.Truth(x), w.Truth(y)
		return w.fromB(w.Or(w.And(a, b), w.And(w.Not(a), w.Not(b))))
	}
	if !y.isConst() && x.ID > y.ID {
		x, y = y, x
	}
	return w.mkT("eq", "", types.Typ[types.Bool], x, y)
}

func isBoolT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// lenSum: t is a sum of lengths.
func lenSum(t *Term) bool {
	if t.Op != "add" {
		return false
	}
	for _, a := range t.Args {
		if a.Op != "len" && !lenSum(a) {
			return false
		}
	}
	return true
}

// someLen: one of the lengths is not zero.
func (w *World) someLen(t *Term) B {
	if t.Op == "len" {
		return w.Truth(w.lt(w.Int(0), t))
	}
	r := bFalse
	for _, a := range t.Args {
		r = w.Or(r, w.someLen(a))
	}
	return r
}

func (w *World) lt(x, y *Term) *Term {
	if x == y {
		return w.Bool(false)
	}
	a, aok := x.constInt()
	b, bok := y.constInt()
	if aok && bok {
		return w.Bool(a < b)
	}
	// len(x) comparisons against 0 and 1
	if aok && y.Op == "len" {
		if a < 0 {
			return w.Bool(true)
		}
		if a == 0 {
			return w.mkT("nonempty", "", types.Typ[types.Bool], y.Args[0])
		}
	}
	if bok && x.Op == "len" {
		if b <= 0 {
			return w.Bool(false)
		}
		if b == 1 {
			return w.NotT(w.mkT("nonempty", "", types.Typ[types.Bool], x.Args[0]))
		}
	}
	if aok && a == 0 && lenSum(y) {
		return w.fromB(w.someLen(y))
	}
	if bok && b == 1 && lenSum(x) {
		return w.fromB(w.Not(w.someLen(x)))
	}
	if bok && x.Op == "addc" {
		c, _ := strconv.ParseInt(x.Aux, 10, 64)
		return w.lt(x.Args[0], w.Int(b-c))
	}
	if aok && y.Op == "addc" {
		c, _ := strconv.ParseInt(y.Aux, 10, 64)
		return w.lt(w.Int(a-c), y.Args[0])
	}
	// integers: x < c  ==  not (c-1 < x); keep "c < x" as the canonical form
	if bok {
		return w.NotT(w.mkT("lt", "", types.Typ[types.Bool], w.Int(b-1), x))
	}
	return w.mkT("lt", "", types.Typ[types.Bool], x, y)
}

// ---- truth and theory ----------------------------------------------------

// Truth is the guard under which the boolean term holds.
func (w *World) Truth(t *Term) B {
	switch t.Op {
	case "const":
		if t.Aux == "true" {
			return bTrue
		}
		return bFalse
	case "not":
		return w.Not(w.Truth(t.Args[0]))
	case "ite":
		r := bFalse
		for _, a := range t.Obj.([]alt) {
			r = w.Or(r, w.And(a.G, w.Truth(a.T)))
		}
		return r
	}
	if v, ok := w.atomVar[t]; ok {
		return w.Var(v)
	}
	v := len(w.atoms)
	w.atoms = append(w.atoms, t)
	w.atomVar[t] = v
	return w.Var(v)
}

// axioms conjoins the facts of equality and order that relate the atoms.
func (w *World) axioms(vars []int) B {
	r := bTrue
	imp := func(a, b B) { r = w.And(r, w.Or(w.Not(a), b)) }
	type eqc struct {
		v int
		c *Term
	}
	eqs := map[*Term][]eqc{}
	for _, v := range vars {
		t := w.atoms[v]
		if t.Op == "eq" && t.Args[1].isConst() {
			eqs[t.Args[0]] = append(eqs[t.Args[0]], eqc{v, t.Args[1]})
		}
	}
	for _, l := range eqs {
		for i := range l {
			for j := i + 1; j < len(l); j++ {
				if l[i].c != l[j].c {
					r = w.And(r, w.Not(w.And(w.Var(l[i].v), w.Var(l[j].v))))
				}
			}
		}
	}
	type ltc struct {
		v int
		c int64
	}
	lower := map[*Term][]ltc{} // atoms c < x
	for _, v := range vars {
		t := w.atoms[v]
		switch t.Op {
		case "lt":
			if c, ok := t.Args[0].constInt(); ok {
				lower[t.Args[1]] = append(lower[t.Args[1]], ltc{v, c})
			}
			if c, ok := w.atomVar[w.mkT("lt", "", t.Typ, t.Args[1], t.Args[0])]; ok {
				r = w.And(r, w.Not(w.And(w.Var(v), w.Var(c))))
			}
			for _, p := range [][2]*Term{{t.Args[0], t.Args[1]}, {t.Args[1], t.Args[0]}} {
				if c, ok := w.atomVar[w.mkT("eq", "", t.Typ, p[0], p[1])]; ok {
					r = w.And(r, w.Not(w.And(w.Var(v), w.Var(c))))
				}
			}
		case "nonempty":
			// x == "const" with a non-empty constant implies nonempty(x)
			for _, e := range eqs[t.Args[0]] {
				if s, ok := e.c.constStr(); ok && s != "" {
					imp(w.Var(e.v), w.Var(v))
				}
				if e.c.isNil() {
					imp(w.Var(e.v), w.Not(w.Var(v)))
				}
			}
		}
		if t.Op == "call" && t.Aux == "strings.HasPrefix" {
			if p, ok := t.Args[1].constStr(); ok && p != "" {
				if c, ok := w.atomVar[w.mkT("nonempty", "", t.Typ, t.Args[0])]; ok {
					imp(w.Var(v), w.Var(c))
				}
				for _, e := range eqs[t.Args[0]] {
					if s, ok := e.c.constStr(); ok {
						if strings.HasPrefix(s, p) {
							imp(w.Var(e.v), w.Var(v))
						} else {
							imp(w.Var(e.v), w.Not(w.Var(v)))
						}
					}
				}
			}
		}
	}
	for x, l := range lower {
		for i := range l {
			for j := range l {
				if l[i].c > l[j].c { // c_i < x implies c_j < x
					imp(w.Var(l[i].v), w.Var(l[j].v))
				}
			}
			for _, e := range eqs[x] {
				if n, ok := e.c.constInt(); ok {
					if l[i].c < n {
						imp(w.Var(e.v), w.Var(l[i].v))
					} else {
						imp(w.Var(e.v), w.Not(w.Var(l[i].v)))
					}
				}
			}
		}
		// c < x and not c+1 < x  means x == c+1
		for _, e := range eqs[x] {
			n, ok := e.c.constInt()
			if !ok {
				continue
			}
			for i := range l {
				for j := range l {
					if l[i].c == n-1 && l[j].c == n {
						imp(w.And(w.Var(l[i].v), w.Not(w.Var(l[j].v))), w.Var(e.v))
					}
				}
			}
		}
	}
	return r
}

// Sat: can the guard hold?
func (w *World) Sat(g B) bool {
	if g == bFalse {
		return false
	}
	if g == bTrue {
		return true
	}
	if r, ok := w.satMemo[g]; ok {
		return r
	}
	r := w.And(g, w.axioms(w.closeVars(w.Support(g)))) != bFalse
	w.satMemo[g] = r
	return r
}

func (w *World) closeVars(vs []int) []int { return vs }

// Implies: does a entail b?
func (w *World) Implies(a, b B) bool {
	g := w.And(a, w.Not(b))
	if g == bFalse {
		return true
	}
	return w.And(g, w.axioms(w.Support(a, b))) == bFalse
}

// ---- printing --------------------------------------------------------------

func shortName(s string) string {
	s = strings.ReplaceAll(s, "github.com/DaoCloud/ckube/", "")
	s = strings.ReplaceAll(s, "k8s.io/apimachinery/pkg/", "")
	return s
}

func (w *World) S(t *Term) string { return w.str(t, 0) }

func (w *World) str(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 5 {
		return "…"
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, w.str(a, d+1))
	}
	j := strings.Join(as, ", ")
	switch t.Op {
	case "const":
		return t.Aux
	case "param", "global", "func", "freevar":
		return shortName(t.Aux)
	case "alloc":
		return "&" + shortName(lastSeg(t.Aux))
	case "field":
		return as[0] + "." + t.Aux
	case "fieldaddr":
		return "&" + strings.TrimPrefix(as[0], "&") + "." + t.Aux
	case "load":
		return "*" + as[0]
	case "index":
		return as[0] + "[" + as[1] + "]"
	case "indexaddr":
		return "&" + as[0] + "[" + as[1] + "]"
	case "lookup":
		return as[0] + "[" + as[1] + "]"
	case "call":
		return shortName(callName(t)) + "(" + j + ")"
	case "extract":
		return as[0] + "#" + t.Aux
	case "ite":
		var xs []string
		for _, a := range t.Obj.([]alt) {
			xs = append(xs, w.str(a.T, d+1))
		}
		return "{" + strings.Join(xs, " | ") + "}"
	case "not":
		return "!" + as[0]
	case "eq":
		return as[0] + "==" + as[1]
	case "lt":
		return as[0] + "<" + as[1]
	case "loopvar", "loopmem":
		return t.Op + ":" + lastSeg(t.Aux)
	case "addc":
		return as[0] + "+" + t.Aux
	}
	return t.Op + shortName(t.Aux) + "(" + j + ")"
}

func lastSeg(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

// callName is the callee name of a call term (site suffix removed).
func callName(t *Term) string {
	if i := strings.Index(t.Aux, "@"); i >= 0 {
		return t.Aux[:i]
	}
	return t.Aux
}

// GS prints a guard as a sum of products (bounded).
func (w *World) GS(g B) string {
	if g == bTrue {
		return "true"
	}
	if g == bFalse {
		return "false"
	}
	var out []string
	n := 0
	var rec func(b B, acc []string)
	rec = func(b B, acc []string) {
		if n >= 2 {
			return
		}
		if b == bTrue {
			out = append(out, strings.Join(acc, " && "))
			n++
			return
		}
		if b == bFalse {
			return
		}
		nd := w.nodes[b]
		s := w.S(w.atoms[nd.v])
		rec(nd.hi, append(append([]string{}, acc...), s))
		rec(nd.lo, append(append([]string{}, acc...), "!("+s+")"))
	}
	rec(g, nil)
	if n >= 2 {
		out = append(out, "…")
	}
	return strings.Join(out, "  ||  ")
}
