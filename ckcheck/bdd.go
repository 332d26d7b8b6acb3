package main

// A small reduced ordered binary decision diagram package. Guards (the
// condition under which a program point is reached, as a Boolean function of
// the branch predicates) are BDD nodes, so equality of guards is pointer
// equality and implication is a constant-time emptiness test after one AND.

type B int32

const (
	bFalse B = 0
	bTrue  B = 1
)

type bddNode struct {
	v      int32
	lo, hi B
}

type BDD struct {
	nodes  []bddNode
	unique map[bddNode]B
	memo   map[[3]B]B
}

func newBDD() *BDD {
	return &BDD{
		nodes:  []bddNode{{1 << 30, 0, 0}, {1 << 30, 1, 1}},
		unique: map[bddNode]B{},
		memo:   map[[3]B]B{},
	}
}

func (d *BDD) mk(v int32, lo, hi B) B {
	if lo == hi {
		return lo
	}
	n := bddNode{v, lo, hi}
	if b, ok := d.unique[n]; ok {
		return b
	}
	b := B(len(d.nodes))
	d.nodes = append(d.nodes, n)
	d.unique[n] = b
	return b
}

func (d *BDD) Var(v int) B { return d.mk(int32(v), bFalse, bTrue) }

func (d *BDD) ITE(f, g, h B) B {
	switch {
	case f == bTrue:
		return g
	case f == bFalse:
		return h
	case g == h:
		return g
	case g == bTrue && h == bFalse:
		return f
	}
	k := [3]B{f, g, h}
	if r, ok := d.memo[k]; ok {
		return r
	}
	v := d.nodes[f].v
	if d.nodes[g].v < v {
		v = d.nodes[g].v
	}
	if d.nodes[h].v < v {
		v = d.nodes[h].v
	}
	cof := func(x B, hi bool) B {
		if d.nodes[x].v != v {
			return x
		}
		if hi {
			return d.nodes[x].hi
		}
		return d.nodes[x].lo
	}
	r := d.mk(v, d.ITE(cof(f, false), cof(g, false), cof(h, false)), d.ITE(cof(f, true), cof(g, true), cof(h, true)))
	d.memo[k] = r
	return r
}

func (d *BDD) And(a, b B) B { return d.ITE(a, b, bFalse) }
func (d *BDD) Or(a, b B) B  { return d.ITE(a, bTrue, b) }
func (d *BDD) Not(a B) B    { return d.ITE(a, bFalse, bTrue) }

// Support lists the variables a function depends on.
func (d *BDD) Support(fs ...B) []int {
	seen := map[B]bool{}
	vars := map[int]bool{}
	var rec func(B)
	rec = func(b B) {
		if b <= bTrue || seen[b] {
			return
		}
		seen[b] = true
		vars[int(d.nodes[b].v)] = true
		rec(d.nodes[b].lo)
		rec(d.nodes[b].hi)
	}
	for _, f := range fs {
		rec(f)
	}
	out := make([]int, 0, len(vars))
	for v := range vars {
		out = append(out, v)
	}
	sortInts(out)
	return out
}

// Exists quantifies away the given variables.
func (d *BDD) Exists(f B, drop func(v int) bool) B {
	memo := map[B]B{}
	var rec func(B) B
	rec = func(b B) B {
		if b <= bTrue {
			return b
		}
		if r, ok := memo[b]; ok {
			return r
		}
		n := d.nodes[b]
		lo, hi := rec(n.lo), rec(n.hi)
		var r B
		if drop(int(n.v)) {
			r = d.Or(lo, hi)
		} else {
			r = d.ITE(d.Var(int(n.v)), hi, lo)
		}
		memo[b] = r
		return r
	}
	return rec(f)
}

// Restrict fixes variables to constants.
func (d *BDD) Restrict(f B, val func(v int) (bool, bool)) B {
	memo := map[B]B{}
	var rec func(B) B
	rec = func(b B) B {
		if b <= bTrue {
			return b
		}
		if r, ok := memo[b]; ok {
			return r
		}
		n := d.nodes[b]
		var r B
		if v, ok := val(int(n.v)); ok {
			if v {
				r = rec(n.hi)
			} else {
				r = rec(n.lo)
			}
		} else {
			r = d.ITE(d.Var(int(n.v)), rec(n.hi), rec(n.lo))
		}
		memo[b] = r
		return r
	}
	return rec(f)
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// Simplify reduces f assuming care holds (Coudert-Madre restrict).
func (d *BDD) Simplify(f, care B) B {
	if care == bFalse || care == bTrue {
		return f
	}
	type key struct{ f, c B }
	memo := map[key]B{}
	var rec func(f, c B) B
	rec = func(f, c B) B {
		if c == bTrue || f <= bTrue || c == bFalse {
			return f
		}
		if f == c {
			return bTrue
		}
		k := key{f, c}
		if r, ok := memo[k]; ok {
			return r
		}
		fv, cv := d.nodes[f].v, d.nodes[c].v
		var r B
		switch {
		case cv < fv:
			r = rec(f, d.Or(d.nodes[c].lo, d.nodes[c].hi))
		case fv < cv:
			r = d.ITE(d.Var(int(fv)), rec(d.nodes[f].hi, c), rec(d.nodes[f].lo, c))
		default:
			if d.nodes[c].lo == bFalse {
				r = rec(d.nodes[f].hi, d.nodes[c].hi)
			} else if d.nodes[c].hi == bFalse {
				r = rec(d.nodes[f].lo, d.nodes[c].lo)
			} else {
				r = d.ITE(d.Var(int(fv)), rec(d.nodes[f].hi, d.nodes[c].hi), rec(d.nodes[f].lo, d.nodes[c].lo))
			}
		}
		memo[k] = r
		return r
	}
	return rec(f, care)
}

// Cofactor fixes one variable.
func (d *BDD) Cofactor(f B, v int, val bool) B {
	return d.Restrict(f, func(u int) (bool, bool) { return val, u == v })
}
