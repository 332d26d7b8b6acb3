package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
)

// Entailment of integer facts in the domain of polyhedra over monomials: the
// literals of a path condition become linear constraints over products of
// quantities, and a goal follows if its negation leaves no rational point.

type poly struct {
	c map[string]*big.Int // monomial (sorted variable ids joined by '*') -> coefficient, "" constant
}

func newPoly() poly { return poly{map[string]*big.Int{}} }

func (p poly) add(m string, k *big.Int) {
	if v, ok := p.c[m]; ok {
		v.Add(v, k)
		if v.Sign() == 0 {
			delete(p.c, m)
		}
		return
	}
	if k.Sign() != 0 {
		p.c[m] = new(big.Int).Set(k)
	}
}

func constPoly(n int64) poly { p := newPoly(); p.add("", big.NewInt(n)); return p }

func (p poly) plus(q poly, k int64) poly {
	r := newPoly()
	for m, v := range p.c {
		r.add(m, v)
	}
	for m, v := range q.c {
		r.add(m, new(big.Int).Mul(v, big.NewInt(k)))
	}
	return r
}

func mulMono(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	s := append(strings.Split(a, "*"), strings.Split(b, "*")...)
	sort.Strings(s)
	return strings.Join(s, "*")
}

func (p poly) times(q poly) poly {
	r := newPoly()
	for m, v := range p.c {
		for n, u := range q.c {
			r.add(mulMono(m, n), new(big.Int).Mul(v, u))
		}
	}
	return r
}

func (p poly) degree() int {
	d := 0
	for m := range p.c {
		if m == "" {
			continue
		}
		if n := strings.Count(m, "*") + 1; n > d {
			d = n
		}
	}
	return d
}

// Lin translates terms.
type Lin struct {
	in     *Interp
	vars   map[string]*Term
	divs   map[string][2]poly // quotient variable -> dividend, divisor
	risky  map[*Term]bool     // operations that could overflow
	nonNeg map[string]bool
	depth  int // how far Impossible looks for relevant conditions (0: all)
}

func newLin(in *Interp) *Lin {
	return &Lin{in: in, vars: map[string]*Term{}, divs: map[string][2]poly{}, risky: map[*Term]bool{}, nonNeg: map[string]bool{}}
}

func (l *Lin) variable(t *Term) poly {
	k := "t" + strconv.Itoa(t.ID)
	l.vars[k] = t
	if t.Op == "len" || t.Op == "cap" {
		l.nonNeg[k] = true
	}
	p := newPoly()
	p.add(k, big.NewInt(1))
	return p
}

// expr is the exact value of t, if no operation in it overflows.
func (l *Lin) expr(t *Term) poly {
	if n, ok := t.constInt(); ok {
		return constPoly(n)
	}
	switch t.Op {
	case "addc":
		n, err := strconv.ParseInt(t.Aux, 10, 64)
		if err == nil {
			l.risky[t] = true
			return l.expr(t.Args[0]).plus(constPoly(n), 1)
		}
	case "add":
		l.risky[t] = true
		return l.expr(t.Args[0]).plus(l.expr(t.Args[1]), 1)
	case "sub":
		l.risky[t] = true
		return l.expr(t.Args[0]).plus(l.expr(t.Args[1]), -1)
	case "mul":
		l.risky[t] = true
		return l.expr(t.Args[0]).times(l.expr(t.Args[1]))
	case "bin":
		if t.Aux == "/" {
			k := "t" + strconv.Itoa(t.ID)
			l.vars[k] = t
			l.divs[k] = [2]poly{l.expr(t.Args[0]), l.expr(t.Args[1])}
			p := newPoly()
			p.add(k, big.NewInt(1))
			return p
		}
	case "len":
		return l.length(t.Args[0])
	}
	return l.variable(t)
}

// length of a sequence.
func (l *Lin) length(t *Term) poly {
	switch t.Op {
	case "slice":
		lo := l.expr(t.Args[1])
		if len(t.Args) == 3 {
			return l.expr(t.Args[2]).plus(lo, -1)
		}
		return l.length(t.Args[0]).plus(lo, -1)
	case "slicelit":
		return constPoly(int64(len(t.Args)))
	case "emptyslice":
		return constPoly(0)
	case "append":
		return l.length(t.Args[0]).plus(l.length(t.Args[1]), 1)
	}
	if t.isNil() {
		return constPoly(0)
	}
	return l.variable(l.in.mkT("len", "", nil, t))
}

func (l *Lin) riskyOf(t *Term, out map[*Term]bool) {
	if l.risky[t] {
		out[t] = true
	}
	if t.Op == "addc" || t.Op == "add" || t.Op == "sub" || t.Op == "mul" || t.Op == "bin" {
		for _, a := range t.Args {
			l.riskyOf(a, out)
		}
	}
	if t.Op == "len" && t.Args[0].Op == "slice" {
		for _, a := range t.Args[0].Args[1:] {
			l.riskyOf(a, out)
		}
	}
}

var linDebug = os.Getenv("CK_LIN") != ""

type lit struct {
	t   *Term
	val bool
}

type fact struct {
	p     poly // p >= 0
	risky map[*Term]bool
}

// facts of a literal (all of them p >= 0).
func (l *Lin) literal(a lit) []fact {
	t := a.t
	mk := func(ps ...poly) []fact {
		r := map[*Term]bool{}
		for _, x := range t.Args {
			l.riskyOf(x, r)
		}
		var out []fact
		for _, p := range ps {
			out = append(out, fact{p, r})
		}
		return out
	}
	switch t.Op {
	case "lt":
		x, y := l.expr(t.Args[0]), l.expr(t.Args[1])
		if a.val {
			return mk(y.plus(x, -1).plus(constPoly(1), -1))
		}
		return mk(x.plus(y, -1))
	case "eq":
		x, y := l.expr(t.Args[0]), l.expr(t.Args[1])
		if a.val {
			return mk(y.plus(x, -1), x.plus(y, -1))
		}
		return nil
	case "nonempty":
		n := l.length(t.Args[0])
		var out []fact
		r := map[*Term]bool{}
		if t.Args[0].Op == "slice" {
			for _, x := range t.Args[0].Args[1:] {
				l.riskyOf(x, r)
			}
		}
		if a.val {
			out = append(out, fact{n.plus(constPoly(1), -1), r})
		} else {
			out = append(out, fact{newPoly().plus(n, -1), r})
		}
		return out
	}
	return nil
}

// arithmetic: atoms the domain understands.
func arithmetic(t *Term) bool {
	switch t.Op {
	case "lt":
		return true
	case "nonempty":
		return !isString(t.Args[0].Typ)
	case "eq":
		_, ok := t.Args[1].constInt()
		return ok || isNumTerm(t.Args[0]) && isNumTerm(t.Args[1])
	}
	return false
}

func isNumTerm(t *Term) bool {
	switch t.Op {
	case "len", "add", "addc", "sub", "mul":
		return true
	case "bin":
		return t.Aux == "/"
	}
	return false
}

// cubes enumerates the conjunctions of arithmetic literals g allows.
func (in *Interp) cubes(g B, rel func(*Term) bool) ([][]lit, bool) {
	g = in.Exists(g, func(v int) bool { return !arithmetic(in.atoms[v]) || !rel(in.atoms[v]) })
	var out [][]lit
	ok := true
	var rec func(b B, acc []lit)
	rec = func(b B, acc []lit) {
		if b == bFalse || !ok {
			return
		}
		if b == bTrue {
			if len(out) > 400 {
				ok = false
				return
			}
			out = append(out, append([]lit(nil), acc...))
			return
		}
		nd := in.nodes[b]
		rec(nd.hi, append(acc, lit{in.atoms[nd.v], true}))
		rec(nd.lo, append(acc, lit{in.atoms[nd.v], false}))
	}
	rec(g, nil)
	return out, ok
}

// Prove: under g (and the extra facts), do all disjunctions of goals hold?
// A goal is refuted as a whole: neg is the conjunction p >= 0 that must be
// impossible. use lists the terms whose overflow matters.
func (l *Lin) Impossible(g B, neg []poly, extra []poly, use ...*Term) bool {
	in := l.in
	// relevance: variables of the goal, grown through the atoms
	vars := map[string]bool{}
	note := func(p poly) {
		for m := range p.c {
			for _, v := range strings.Split(m, "*") {
				if v != "" {
					vars[v] = true
				}
			}
		}
	}
	for _, p := range neg {
		note(p)
	}
	for _, p := range extra {
		note(p)
	}
	relevant := map[*Term]bool{}
	sup := in.Support(g)
	for n, changed := 0, true; changed && (l.depth == 0 || n < l.depth); n++ {
		changed = false
		for k := range vars {
			if d, ok := l.divs[k]; ok {
				n := len(vars)
				note(d[0])
				note(d[1])
				if len(vars) > n {
					changed = true
				}
			}
		}
		for _, v := range sup {
			t := in.atoms[v]
			if relevant[t] || !arithmetic(t) {
				continue
			}
			hit := false
			cst := true
			fs := append(l.literal(lit{t, true}), l.literal(lit{t, false})...)
			for _, f := range fs {
				for m := range f.p.c {
					for _, x := range strings.Split(m, "*") {
						if x != "" {
							cst = false
						}
						if vars[x] {
							hit = true
						}
					}
				}
			}
			if hit || cst {
				relevant[t] = true
				changed = true
				for _, f := range fs {
					note(f.p)
				}
			}
		}
	}
	cs, ok := in.cubes(g, func(t *Term) bool { return relevant[t] })
	if !ok {
		return false
	}
	for _, c := range cs {
		var fs []fact
		for _, a := range c {
			fs = append(fs, l.literal(a)...)
		}
		for _, p := range extra {
			fs = append(fs, fact{p, nil})
		}
		// x != y: x < y or x > y
		branches := [][]fact{fs}
		for _, a := range c {
			if a.t.Op != "eq" || a.val || len(branches) > 8 {
				continue
			}
			r := map[*Term]bool{}
			for _, x := range a.t.Args {
				l.riskyOf(x, r)
			}
			x, y := l.expr(a.t.Args[0]), l.expr(a.t.Args[1])
			var nb [][]fact
			for _, b := range branches {
				for _, p := range []poly{above(x, y), above(y, x)} {
					nb = append(nb, append(append([]fact(nil), b...), fact{p, r}))
				}
			}
			branches = nb
		}
		for _, fs := range branches {
			if !l.refute(fs, neg, use) {
				if linDebug {
					fmt.Println("NOT REFUTED")
					for _, a := range c {
						fmt.Println("   lit", a.val, in.S(a.t))
					}
					for _, f := range fs {
						fmt.Println("   fact", l.ps(f.p), len(f.risky))
					}
					for _, f := range neg {
						fmt.Println("   neg", l.ps(f))
					}
					l.dumpVars()
				}
				return false
			}
		}
	}
	return true
}

var maxInt = new(big.Int).SetUint64(1<<63 - 1)

// background: facts that always hold.
func (l *Lin) background(ps []poly) []poly {
	seen := map[string]bool{}
	for _, p := range ps {
		for m := range p.c {
			for _, v := range strings.Split(m, "*") {
				if v != "" {
					seen[v] = true
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for v := range seen {
			if d, ok := l.divs[v]; ok {
				for _, p := range d[:] {
					for m := range p.c {
						for _, x := range strings.Split(m, "*") {
							if x != "" && !seen[x] {
								seen[x] = true
								ch = true
							}
						}
					}
				}
			}
		}
	}
	var out []poly
	for v := range seen {
		x := newPoly()
		x.add(v, big.NewInt(1))
		if l.nonNeg[v] {
			out = append(out, x)
		} else {
			lo := newPoly()
			lo.add("", maxInt)
			lo.add("", big.NewInt(1))
			out = append(out, x.plus(lo, 1))
		}
		hi := newPoly()
		hi.add("", maxInt)
		out = append(out, hi.plus(x, -1))
	}
	return out
}

// refute: facts and neg have no common point; facts that involve operations
// which may overflow count only once those are shown not to.
func (l *Lin) refute(fs []fact, neg []poly, use []*Term) bool {
	safe := map[*Term]bool{}
	usable := func() []poly {
		var out []poly
		for _, f := range fs {
			ok := true
			for r := range f.risky {
				if !safe[r] {
					ok = false
				}
			}
			if ok {
				out = append(out, f.p)
			}
		}
		return out
	}
	risky := map[*Term]bool{}
	for _, f := range fs {
		for r := range f.risky {
			risky[r] = true
		}
	}
	need := map[*Term]bool{}
	for _, u := range use {
		l.riskyOf(u, need)
	}
	for r := range need {
		risky[r] = true
	}
	if l.infeasible(usable(), nil) {
		return true
	}
	for ch := true; ch; {
		ch = false
		for r := range risky {
			if safe[r] {
				continue
			}
			inner := map[*Term]bool{}
			for _, a := range r.Args {
				l.riskyOf(a, inner)
			}
			ok := true
			for x := range inner {
				if x != r && !safe[x] {
					ok = false
				}
			}
			if !ok {
				continue
			}
			e := l.expr(r)
			over := newPoly().plus(e, 1) // e >= max+1
			over.add("", new(big.Int).Neg(maxInt))
			over.add("", big.NewInt(-1))
			under := newPoly().plus(e, -1) // e <= -max-2
			under.add("", new(big.Int).Neg(maxInt))
			under.add("", big.NewInt(-2))
			u := usable()
			if l.infeasible(u, []poly{over}) && l.infeasible(u, []poly{under}) {
				safe[r] = true
				ch = true
			}
		}
	}
	for r := range need {
		if !safe[r] {
			return false
		}
	}
	return l.infeasible(usable(), neg)
}

// infeasible decides by adding products with the positive multipliers and
// eliminating variables.
func (l *Lin) infeasible(facts, neg []poly) bool {
	var ps []poly
	ps = append(ps, facts...)
	ps = append(ps, neg...)
	ps = append(ps, l.background(ps)...)
	// multipliers: divisors and factors of products
	mult := map[string]bool{}
	for _, p := range ps {
		for m := range p.c {
			if strings.Contains(m, "*") {
				for _, v := range strings.Split(m, "*") {
					mult[v] = true
				}
			}
			for _, v := range strings.Split(m, "*") {
				if d, ok := l.divs[v]; ok {
					for n := range d[1].c {
						if n != "" && !strings.Contains(n, "*") {
							mult[n] = true
						}
					}
				}
			}
		}
	}
	// which multipliers are known to be at least zero, directly by a bound
	for v := range mult {
		pos := l.nonNeg[v]
		x := newPoly()
		x.add(v, big.NewInt(1))
		if !pos {
			neg1 := newPoly().plus(x, -1)
			neg1.add("", big.NewInt(-1)) // -v-1 >= 0
			var lin []poly
			for _, p := range ps {
				if p.degree() <= 1 {
					lin = append(lin, p)
				}
			}
			pos = fm(append(lin, neg1))
		}
		if !pos {
			delete(mult, v)
		}
	}
	// quotients
	done := map[string]bool{}
	for _, p := range append([]poly(nil), ps...) {
		for m := range p.c {
			for _, v := range strings.Split(m, "*") {
				d, ok := l.divs[v]
				if !ok || done[v] {
					continue
				}
				done[v] = true
				// divisor >= 1 and dividend >= 0 known?
				b := newPoly().plus(d[1], -1) // -divisor >= 0
				a := newPoly().plus(d[0], -1)
				a.add("", big.NewInt(-1))
				var lin []poly
				for _, p := range ps {
					if p.degree() <= 1 {
						lin = append(lin, p)
					}
				}
				if fm(append(append([]poly(nil), lin...), b)) && fm(append(append([]poly(nil), lin...), a)) {
					q := newPoly()
					q.add(v, big.NewInt(1))
					qd := q.times(d[1])
					ps = append(ps, q, d[0].plus(qd, -1))                                   // q>=0, a - q*b >= 0
					ps = append(ps, qd.plus(d[1], 1).plus(d[0], -1).plus(constPoly(1), -1)) // q*b + b - a - 1 >= 0
				}
			}
		}
	}
	var prod []poly
	for v := range mult {
		x := newPoly()
		x.add(v, big.NewInt(1))
		for _, p := range ps {
			if p.degree() <= 1 {
				prod = append(prod, p.times(x))
			}
		}
	}
	return fm(append(ps, prod...))
}

// fm: Fourier-Motzkin elimination; true if the system p >= 0 has no rational
// solution (monomials are independent variables).
func fm(ps []poly) bool {
	norm := func(p poly) poly {
		g := new(big.Int)
		for m, v := range p.c {
			if m == "" {
				continue
			}
			g.GCD(nil, nil, g, new(big.Int).Abs(v))
		}
		if g.Sign() == 0 || g.Cmp(big.NewInt(1)) == 0 {
			return p
		}
		r := newPoly()
		for m, v := range p.c {
			if m == "" {
				// integer tightening: floor
				r.add(m, new(big.Int).Div(v, g)) // Euclidean: floor for positive g
				continue
			}
			r.add(m, new(big.Int).Quo(v, g))
		}
		return r
	}
	key := func(p poly) string {
		var ks []string
		for m := range p.c {
			if m != "" {
				ks = append(ks, m)
			}
		}
		sort.Strings(ks)
		var sb strings.Builder
		for _, k := range ks {
			sb.WriteString(k)
			sb.WriteByte(':')
			sb.WriteString(p.c[k].String())
			sb.WriteByte(' ')
		}
		return sb.String()
	}
	set := map[string]poly{}
	bad := false
	put := func(p poly) {
		p = norm(p)
		k := key(p)
		if k == "" {
			if c, ok := p.c[""]; ok && c.Sign() < 0 {
				bad = true
			}
			return
		}
		if o, ok := set[k]; ok {
			a, b := o.c[""], p.c[""]
			if a == nil {
				a = new(big.Int)
			}
			if b == nil {
				b = new(big.Int)
			}
			if a.Cmp(b) <= 0 { // the one with the smaller constant is stronger
				return
			}
		}
		set[k] = p
	}
	for _, p := range ps {
		put(p)
	}
	for round := 0; round < 60; round++ {
		if bad {
			return true
		}
		// choose the monomial with the fewest combinations
		type cnt struct{ pos, neg int }
		cs := map[string]*cnt{}
		for _, p := range set {
			for m, v := range p.c {
				if m == "" {
					continue
				}
				if cs[m] == nil {
					cs[m] = &cnt{}
				}
				if v.Sign() > 0 {
					cs[m].pos++
				} else {
					cs[m].neg++
				}
			}
		}
		best, bc := "", 0
		for m, c := range cs {
			n := c.pos*c.neg - c.pos - c.neg
			if best == "" || n < bc || n == bc && m < best {
				best, bc = m, n
			}
		}
		if best == "" {
			return false
		}
		old := set
		set = map[string]poly{}
		var P, N []poly
		for _, p := range old {
			v, ok := p.c[best]
			switch {
			case !ok:
				put(p)
			case v.Sign() > 0:
				P = append(P, p)
			default:
				N = append(N, p)
			}
		}
		if len(P)*len(N) > 20000 {
			return false
		}
		for _, p := range P {
			for _, n := range N {
				a, b := p.c[best], new(big.Int).Neg(n.c[best])
				r := newPoly()
				for m, v := range p.c {
					r.add(m, new(big.Int).Mul(v, b))
				}
				for m, v := range n.c {
					r.add(m, new(big.Int).Mul(v, a))
				}
				put(r)
				if bad {
					return true
				}
			}
		}
		if len(set) > 4000 {
			return false
		}
	}
	return bad
}

// ---- debugging (CK_LIN=1) -----------------------------------------------------

func (l *Lin) ps(p poly) string {
	s := ""
	for m, v := range p.c {
		s += fmt.Sprint(v, "*", m, " + ")
	}
	return s
}

func (l *Lin) dumpVars() {
	for k, t := range l.vars {
		fmt.Println("  var", k, l.in.S(t))
	}
}
