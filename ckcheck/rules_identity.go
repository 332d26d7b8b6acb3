package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// storeOp is the analysis of one operation of the memory store.
type storeOp struct {
	in   *Interp
	c    *Ctx
	fn   *ssa.Function
	m    *Term // the store
	gvr  *Term
	name string
	nils []B // where something is looked up below what is missing
}

func storeMethod(c *Ctx, name string) *storeOp {
	fn := c.P.implMethod(storeIface, name)
	if fn == nil {
		giveUp(nil, "no implementation of the store's %s was found", name)
	}
	in := newInterp(c.P)
	c.Analyse(in, fn, nil)
	return &storeOp{in: in, c: c, fn: fn, m: in.Entry.params[0], gvr: in.Entry.params[1], name: name}
}

// place is a map (or what is reached through it) of the store: the keys that
// lead to it from the store.
type place struct {
	keys []*Term
	g    B
	ok   bool // it belongs to the store
}

// places: where in the store the map (or pointer) t is.
func (o *storeOp) places(t *Term, g B) []place { return o.placesN(t, g, 0) }

func (o *storeOp) placesN(t *Term, g B, depth int) []place {
	in := o.in
	var out []place
	in.each(t, g, func(t *Term, g B) {
		var rev []*Term
		top := t
		for {
			switch t.Op {
			case "load", "fieldaddr", "field", "map0", "ptrto", "ptrver", "as", "convert", "mapval":
				t = t.Args[0]
				continue
			case "lookup":
				rev = append(rev, t.Args[1])
				t = t.Args[0]
				continue
			}
			break
		}
		var tail []*Term
		for i := len(rev) - 1; i >= 0; i-- {
			tail = append(tail, rev[i])
		}
		switch {
		case t == o.m:
			out = append(out, place{tail, g, true})
			return
		case t.isNil():
			if t != top {
				o.nils = append(o.nils, g)
			}
			return // nothing can be reached through nil
		case t.Op == "ite" && depth < 8:
			for _, p := range o.placesN(t, g, depth+1) {
				p.keys = append(append([]*Term{}, p.keys...), tail...)
				out = append(out, p)
			}
			return
		}
		found := false
		if depth < 8 && (t.Op == "alloc" || t.Op == "makemap") {
			for _, e := range in.Events {
				var at, key, val *Term
				switch e.Kind {
				case "mapset":
					at, key, val = e.Addr, e.Args[1], e.Args[2]
				case "store":
					at, val = e.Addr, e.Args[1]
					if at.Op != "fieldaddr" && at.Op != "ite" {
						continue
					}
				default:
					continue
				}
				in.each(val, in.And(g, e.Guard), func(v *Term, g B) {
					if v != t {
						return
					}
					for _, p := range o.placesN(at, g, depth+1) {
						if !p.ok {
							continue
						}
						found = true
						if key == nil {
							p.keys = append(append([]*Term{}, p.keys...), tail...)
							out = append(out, p)
							continue
						}
						in.each(key, p.g, func(k *Term, g B) {
							out = append(out, place{append(append(append([]*Term{}, p.keys...), k), tail...), g, true})
						})
					}
				})
			}
		}
		if !found {
			out = append(out, place{nil, g, false})
		}
	})
	return out
}

// change is a change of the store: an entry is set (val) or deleted, or a whole
// map is replaced (keys name the map).
type change struct {
	e    *Event
	kind string // set, del, replace
	keys []*Term
	val  *Term
	g    B
}

func (o *storeOp) changes() []change {
	var out []change
	for _, e := range o.in.Events {
		switch e.Kind {
		case "mapset", "mapdel":
			for _, p := range o.places(e.Addr, e.Guard) {
				if !p.ok {
					o.lost(e, e.Addr, p.g)
					continue
				}
				o.in.each(e.Args[1], p.g, func(k *Term, g B) {
					ks := append(append([]*Term{}, p.keys...), k)
					if e.Kind == "mapset" {
						out = append(out, change{e, "set", ks, e.Args[2], g})
					} else {
						out = append(out, change{e, "del", ks, nil, g})
					}
				})
			}
		case "store":
			o.in.each(e.Addr, e.Guard, func(a *Term, g B) {
				if a.Op != "fieldaddr" {
					return
				}
				for _, p := range o.places(a, g) {
					if !p.ok {
						o.lost(e, a, p.g)
					} else {
						out = append(out, change{e, "replace", p.keys, e.Args[1], p.g})
					}
				}
			})
		}
	}
	return out
}

// lost: a change of something of the store's types that is neither new nor
// known to be at a certain place.
func (o *storeOp) lost(e *Event, at *Term, g B) {
	if o.in.all(at, g, func(t *Term, g B) bool {
		root := t
		held := false
		for {
			switch root.Op {
			case "fieldaddr":
				if n, ok := types.Unalias(deref(root.Args[0].Typ)).(*types.Named); ok && n.Obj().Pkg() == o.fn.Pkg.Pkg {
					held = true
				}
				root = root.Args[0]
				continue
			case "load", "field", "map0", "ptrto", "ptrver", "as", "convert", "mapval", "lookup", "indexaddr", "index":
				root = root.Args[0]
				continue
			}
			break
		}
		return !held || root.Op == "alloc" || root.Op == "makemap"
	}) {
		return
	}
	o.c.Ob("key", e, false, "what is changed in the store is not known")
}

// is: every value t can have under g satisfies f.
func (o *storeOp) is(t *Term, g B, f func(*Term) bool) bool {
	if !o.in.Sat(g) {
		return true
	}
	return o.in.all(t, g, func(t *Term, g B) bool { return f(t) })
}

func same(x *Term) func(*Term) bool { return func(t *Term) bool { return plain(t) == x } }

// plain removes conversions.
func plain(t *Term) *Term {
	for t.Op == "convert" || t.Op == "as" {
		t = t.Args[0]
	}
	return t
}

// meta: t is this metadata of the object.
func meta(obj *Term, method string) func(*Term) bool {
	return func(t *Term) bool {
		t = plain(t)
		if !isMethodCall(t, method) {
			return false
		}
		x := t.Args[0]
		for x.Op == "ptrver" {
			x = x.Args[0]
		}
		return x == obj
	}
}

// keep: entries the change removes along with their content must not exist.
func (o *storeOp) keeps(ch change) bool {
	in := o.in
	switch ch.kind {
	case "replace":
		// a map that was not there before
		return in.all(ch.val, ch.g, func(v *Term, g B) bool {
			if !isFreshMap(v) {
				return false
			}
			return in.impliesAtom(g, true, func(a *Term) bool {
				if a.Op != "eq" || !a.Args[1].isNil() {
					return false
				}
				for _, p := range o.places(a.Args[0], g) {
					if p.ok && sameKeys(p.keys, ch.keys) {
						return true
					}
				}
				return false
			}) || o.freshParent(ch, g)
		})
	case "set":
		return in.impliesAtom(ch.g, false, func(a *Term) bool {
			if a.Op != "has" || a.Args[1] != ch.keys[len(ch.keys)-1] {
				return false
			}
			for _, p := range o.places(a.Args[0], ch.g) {
				if p.ok && sameKeys(p.keys, ch.keys[:len(ch.keys)-1]) {
					return true
				}
			}
			return false
		}) || o.emptyMap(ch)
	}
	return false
}

// freshParent: the map replaced belongs to something that was just created.
func (o *storeOp) freshParent(ch change, g B) bool {
	return o.in.all(ch.e.Addr, g, func(a *Term, g B) bool {
		for a.Op == "fieldaddr" {
			a = a.Args[0]
		}
		return a.Op == "alloc"
	})
}

// emptyMap: the map set into was just created.
func (o *storeOp) emptyMap(ch change) bool {
	return o.in.all(ch.e.Addr, ch.g, func(a *Term, g B) bool {
		return isFreshMap(a) || o.in.impliesAtom(g, true, func(x *Term) bool {
			return x.Op == "eq" && x.Args[1].isNil() && x.Args[0] == a
		})
	})
}

func isFreshMap(t *Term) bool { return t.Op == "makemap" || t.Op == "emptymap" }

func sameKeys(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if plain(a[i]) != plain(b[i]) {
			return false
		}
	}
	return true
}

func init() {
	register(&Rule{ID: "C12", Rule: "in every operation of the store the map entries read, set and deleted are followed to the keys that lead to them: type, cluster, namespace and name of the object; entries other than the one concerned are only created where there is none",
		Run: identityRule})
}

func identityRule(c *Ctx) {
	newStore(c)
	for _, name := range []string{"OnResourceAdded", "OnResourceModified", "OnResourceDeleted"} {
		o := storeMethod(c, name)
		in := o.in
		cluster, obj := in.Entry.params[2], in.Entry.params[3]
		isObj := in.anyAtom(func(t *Term) bool { return t.Op == "istype" && t.Args[0] == obj })
		if isObj == bFalse {
			isObj = bTrue
		}
		want := []func(*Term) bool{same(o.gvr), same(cluster), meta(obj, "GetNamespace"), meta(obj, "GetName")}
		done := bFalse
		for _, ch := range o.changes() {
			g := in.And(ch.g, isObj)
			if !in.Sat(g) {
				continue
			}
			for k, key := range ch.keys {
				if k < len(want) {
					c.Ob("key", ch.e, o.is(key, g, want[k]), "%s changes the entry of the type, cluster, namespace and name of the object only (level %d)", name, k+1)
				}
			}
			entry := len(ch.keys) == 4 && ch.kind != "replace"
			switch {
			case entry && name == "OnResourceDeleted":
				c.Ob("change", ch.e, ch.kind == "del", "%s removes the entry of the object", name)
				done = in.Or(done, g)
			case entry:
				c.Ob("change", ch.e, ch.kind == "set", "%s sets the entry of the object", name)
				done = in.Or(done, g)
				c.Ob("value", ch.e, o.holdsObject(ch.val, g, obj), "the object stored is the one %s was given", name)
			case len(ch.keys) > 4:
			default:
				c.Ob("keep", ch.e, o.keeps(ch), "%s creates clusters and namespaces only where there are none", name)
			}
		}
		for _, g := range o.nils {
			c.Ob("keep", o.fn, !in.Sat(in.And(g, isObj)), "%s uses no cluster or namespace that was not created", name)
		}
		for _, e := range in.kind("mapdel") {
			in.each(e.Addr, e.Guard, func(t *Term, g B) {
				if t.isNil() && name == "OnResourceDeleted" {
					done = in.Or(done, g) // there is nothing to remove
				}
			})
		}
		for i := range in.Returns {
			r := &in.Returns[i]
			in.each(r.vals[0], r.g, func(t *Term, g B) {
				if in.isErr(t, g) {
					return
				}
				c.Ob("change", r.in, in.Implies(in.And(g, isObj), done), "%s always takes effect", name)
			})
		}
	}
	c.Min("change", 6)
	c.Min("value", 2)
	c.Min("key", 12)
	o := storeMethod(c, "Get")
	in := o.in
	want := o.in.Entry.params[1:5]
	n := 0
	for _, ch := range o.changes() {
		c.Ob("read-only", ch.e, false, "Get changes nothing")
	}
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[0], r.g, func(t *Term, g B) {
			if t.isNil() {
				miss := in.impliesSome(g, func(a *Term) (bool, bool) {
					switch {
					case a.Op == "has":
						for _, p := range o.places(a.Args[0], g) {
							if p.ok && len(p.keys) < 4 && plain(a.Args[1]) == want[len(p.keys)] && prefixOf(p.keys, want) {
								return false, true
							}
						}
					case a.Op == "eq" && a.Args[1].isNil():
						for _, p := range o.places(a.Args[0], g) {
							if p.ok && len(p.keys) > 0 && prefixOf(p.keys, want) {
								return true, true
							}
						}
					}
					return false, false
				})
				c.Ob("get", r.in, miss, "Get only answers nothing if there is no such object")
				return
			}
			n++
			_, p := fieldPath(t)
			ok := len(p) > 0 && p[len(p)-1] == "Obj"
			for _, p := range o.places(t, g) {
				ok = ok && p.ok && sameKeys(p.keys, want)
			}
			c.Ob("get", r.in, ok, "Get answers the object stored under the type, cluster, namespace and name asked for")
		})
	}
	c.Ob("get", o.fn, n > 0, "Get answers objects")
	o = storeMethod(c, "IsStoreGVR")
	in = o.in
	for i := range in.Returns {
		r := &in.Returns[i]
		v := in.Truth(r.vals[0])
		has := in.anyAtom(func(a *Term) bool {
			if a.Op != "has" || plain(a.Args[1]) != o.gvr {
				return false
			}
			ps := o.places(a.Args[0], r.g)
			return len(ps) == 1 && ps[0].ok && len(ps[0].keys) == 0
		})
		c.Ob("held", r.in, in.Implies(r.g, in.Or(in.And(has, v), in.And(in.Not(has), in.Not(v)))), "a type is held if and only if the store has it")
	}
	c.Min("held", 1)
	o.purge(c)
	for _, name := range []string{"Get", "Query", "Clean", "OnResourceAdded", "OnResourceModified", "OnResourceDeleted"} {
		storeMethod(c, name).there(c)
	}
	c.Min("there", 6)
}

// there: a collection of the store is only used where it was found, or made.
func (o *storeOp) there(c *Ctx) {
	in := o.in
	for _, e := range in.kind("lockop") {
		if e.Name != "Lock" && e.Name != "RLock" {
			continue
		}
		in.each(e.Args[0], e.Guard, func(t *Term, g B) {
			for t != nil && len(t.Args) > 0 {
				var m *Term
				switch {
				case t.Op == "lookup":
					m = t.Args[0]
				case t.Op == "extract" && t.Aux == "0" && t.Args[0].Op == "lookup2":
					m = t.Args[0].Args[0]
				}
				if m == nil {
					t = t.Args[0]
					continue
				}
				key := t.Args[len(t.Args)-1]
				if t.Op == "extract" {
					key = t.Args[0].Args[1]
				}
				if o.name != "Get" && o.name != "Query" && plain(key) == o.gvr && len(o.places(m, g)) == 1 && len(o.places(m, g)[0].keys) == 0 {
					return // only types the store has are written
				}
				c.Ob("there", e, in.found(t, m, key, g), "%s uses a collection of the store that may not be there: %s", o.name, in.S(t))
				t = m
			}
		})
	}
}

// found: under g, the look-up of the key in the map has found something.
func (in *Interp) found(t, m, key *Term, g B) bool {
	if strings.HasPrefix(key.Op, "mapkey") {
		return true // of a loop over the map
	}
	base := stripMap0(m)
	has := in.anyAtom(func(a *Term) bool {
		switch {
		case a.Op == "has":
			return a.Args[1] == key && stripMap0(a.Args[0]) == base
		case a.Op == "extract" && a.Aux == "1" && a.Args[0].Op == "lookup2":
			return a.Args[0].Args[1] == key && stripMap0(a.Args[0].Args[0]) == base
		}
		return false
	})
	return in.Implies(g, has) || in.Implies(g, in.Not(in.isNilB(t)))
}

func prefixOf(keys, want []*Term) bool {
	return len(keys) <= len(want) && sameKeys(keys, want[:len(keys)])
}

// impliesSome: g entails the disjunction of the atoms f selects, each with the
// polarity it gives.
func (in *Interp) impliesSome(g B, f func(*Term) (pos, ok bool)) bool {
	r := bFalse
	for v, a := range in.atoms {
		if pos, ok := f(a); ok {
			if pos {
				r = in.Or(r, in.Var(v))
			} else {
				r = in.Or(r, in.Not(in.Var(v)))
			}
		}
	}
	return in.Implies(g, r)
}

// holdsObject: v is (a pointer to) a stored object made of obj.
func (o *storeOp) holdsObject(v *Term, g B, obj *Term) bool {
	in := o.in
	return in.all(v, g, func(v *Term, g B) bool {
		if v.Op != "alloc" {
			return o.objOf(v, g, obj)
		}
		n, ok := 0, true
		for _, e := range in.Events {
			if e.Kind == "store" && in.Sat(in.And(e.Guard, g)) {
				switch {
				case e.Addr == v:
					n++
					ok = ok && o.objOf(e.Args[1], in.And(g, e.Guard), obj)
				case e.Addr.Op == "fieldaddr" && e.Addr.Args[0] == v && e.Addr.Aux == "Obj":
					n++
					ok = ok && in.all(e.Args[1], in.And(g, e.Guard), func(t *Term, g B) bool { return t == obj })
				}
			}
		}
		return ok && n > 0
	})
}

func (o *storeOp) objOf(v *Term, g B, obj *Term) bool {
	return o.in.all(o.in.fieldOf(v, "Obj"), g, func(t *Term, g B) bool { return t == obj })
}

// purge: Clean empties exactly the namespaces of the type and cluster.
func (o0 *storeOp) purge(c *Ctx) {
	o := storeMethod(c, "Clean")
	in := o.in
	cluster := in.Entry.params[2]
	want := []*Term{o.gvr, cluster}
	done := bFalse
	for _, ch := range o.changes() {
		ok := len(ch.keys) >= 2 && prefixOf(ch.keys[:2], want)
		c.Ob("purge", ch.e, ok, "a purge only concerns the objects of its type and cluster")
		switch {
		case ch.kind == "set" || ch.kind == "replace":
			c.Ob("purge", ch.e, o.is(ch.val, ch.g, func(t *Term) bool { return t.Op == "makemap" || t.Op == "alloc" || t.Op == "emptymap" || t.isNil() }), "a purge leaves nothing behind")
		}
		if len(ch.keys) == 2 {
			done = in.Or(done, ch.g) // the cluster as a whole
			continue
		}
		// namespace by namespace
		if len(ch.e.Loops) == 0 {
			continue
		}
		l := ch.e.Loops[len(ch.e.Loops)-1]
		if l.RangeM == nil || !in.loopKey(ch.keys[2], l) {
			continue
		}
		whole := false
		for _, p := range o.places(l.RangeM, ch.g) {
			whole = p.ok && len(p.keys) == 2 && prefixOf(p.keys, want)
		}
		more := in.moreOf(l)
		for _, e := range l.Exits {
			if in.Sat(in.And(e.abs, more)) {
				whole = false
			}
		}
		for _, b := range l.Backs {
			if !in.Implies(b.abs, ch.g) {
				whole = false
			}
		}
		if whole {
			done = in.Or(done, in.And(l.AbsEntry, in.Not(more)))
		}
	}
	n := 0
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[0], r.g, func(t *Term, g B) {
			if in.isErr(t, g) {
				miss := in.impliesSome(g, func(a *Term) (bool, bool) {
					switch {
					case a.Op == "has":
						for _, p := range o.places(a.Args[0], g) {
							if p.ok && len(p.keys) < 2 && plain(a.Args[1]) == want[len(p.keys)] && prefixOf(p.keys, want) {
								return false, true
							}
						}
					case a.Op == "eq" && a.Args[1].isNil():
						for _, p := range o.places(a.Args[0], g) {
							if p.ok && len(p.keys) > 0 && prefixOf(p.keys, want) {
								return true, true
							}
						}
					}
					return false, false
				})
				c.Ob("purge", r.in, miss, "a purge only fails if there is nothing to purge")
				return
			}
			n++
			c.Ob("purge", r.in, in.Implies(g, done), "a purge removes every object of its type and cluster")
		})
	}
	c.Ob("purge", o.fn, n > 0, "purges succeed")
}

const (
	clusterAnno = "ckube.doacloud.io/cluster"
	indexAnno   = "ckube.daocloud.io/indexes"
)

func init() {
	register(&Rule{ID: "C13", Rule: "the index stored with an object holds, on every path, its cluster, namespace, name and deletion mark, and for each configured key the value of its text, template or path applied to the object; the annotations of the object gain the cluster and the index and lose nothing",
		Run: indexRule})
}

func indexRule(c *Ctx) {
	for _, name := range []string{"OnResourceAdded", "OnResourceModified"} {
		o := storeMethod(c, name)
		in := o.in
		cluster, obj := in.Entry.params[2], in.Entry.params[3]
		isObj := in.anyAtom(func(t *Term) bool { return t.Op == "istype" && t.Args[0] == obj })
		if isObj == bFalse {
			isObj = bTrue
		}
		var index *Term
		for _, ch := range o.changes() {
			if len(ch.keys) != 4 || ch.kind != "set" {
				continue
			}
			in.each(ch.val, ch.g, func(v *Term, g B) {
				for _, e := range in.kind("store") {
					if e.Addr == v {
						in.each(in.fieldOf(e.Args[1], "Index"), in.And(g, e.Guard), func(t *Term, g B) {
							if index != nil && index != t {
								giveUp(ch.e, "more than one index is stored")
							}
							index = t
						})
					}
				}
			})
		}
		if index == nil {
			giveUp(o.fn, "the index that is stored with an object was not found")
		}
		deleted := in.Not(in.testAtom(isNilCmp(meta(obj, "GetDeletionTimestamp"))))
		for i := range in.Returns {
			r := &in.Returns[i]
			g := in.And(r.g, isObj)
			if !in.Sat(g) {
				continue
			}
			content := in.mapContent(r.mem, index)
			get := func(k string, f func(t *Term, g B) bool) bool {
				v, ok := in.MapGet(content, in.Str(k), nil)
				return in.Implies(g, in.Truth(ok)) && in.all(v, g, f)
			}
			c.Ob("built-in", r.in, get("cluster", func(t *Term, g B) bool { return plain(t) == cluster }), "the index names the cluster of the object")
			c.Ob("built-in", r.in, get("namespace", func(t *Term, g B) bool { return meta(obj, "GetNamespace")(t) }), "the index names the namespace of the object")
			c.Ob("built-in", r.in, get("name", func(t *Term, g B) bool { return meta(obj, "GetName")(t) }), "the index names the object")
			c.Ob("built-in", r.in, get("is_deleted", func(t *Term, g B) bool {
				s, ok := t.constStr()
				return ok && (s == "true" && in.Implies(g, deleted) || s == "false" && in.Implies(g, in.Not(deleted)))
			}), "the index tells whether the object is being deleted")
			o.annotations(r, g, cluster, obj, index)
		}
		o.configured(index, obj)
	}
	c.Min("built-in", 8)
	c.Min("annotation", 4)
	c.Min("configured", 2)
}

func (o *storeOp) annotations(r *retState, g B, cluster, obj, index *Term) {
	in, c := o.in, o.c
	of := meta(obj, "GetAnnotations")
	none := bFalse
	for v, a := range in.atoms {
		if a.Op == "nonempty" && of(a.Args[0]) || a.Op == "nonempty" && a.Args[0].Op == "map0" && of(a.Args[0].Args[0]) {
			none = in.Or(none, in.Not(in.Var(v)))
		}
		if a.Op == "eq" && a.Args[1].isNil() && of(a.Args[0]) {
			none = in.Or(none, in.Var(v))
		}
	}
	used := map[*Term]bool{} // maps that become the annotations
	for _, e := range in.kind("call") {
		if !isMethodName(e.Name, "SetAnnotations") || !in.Sat(in.And(e.Guard, g)) {
			continue
		}
		in.each(e.Args[len(e.Args)-1], in.And(e.Guard, g), func(m *Term, g B) {
			used[m] = true
			if of(m) {
				return
			}
			c.Ob("annotation", e, m.Op == "makemap" && in.Implies(g, none), "annotations are only replaced if there are none")
		})
	}
	for key, val := range map[string]func(*Term) bool{
		clusterAnno: func(t *Term) bool { return plain(t) == cluster },
		indexAnno: func(t *Term) bool {
			return mentions(t, func(x *Term) bool {
				for _, e := range in.calls("encoding/json.Marshal") {
					for _, a := range in.Alts(e.Result) {
						if a.T == x && unwrapIface(e.Args[0]) == index {
							return true
						}
					}
				}
				return false
			})
		},
	} {
		done := bFalse
		for _, e := range in.kind("mapset") {
			k, ok := e.Args[1].constStr()
			if !ok || k != key {
				continue
			}
			in.each(e.Addr, in.And(e.Guard, g), func(m *Term, g B) {
				if !of(m) && !used[m] {
					return
				}
				if in.all(e.Args[2], g, func(t *Term, g B) bool { return val(t) }) {
					done = in.Or(done, g)
				} else {
					c.Ob("annotation", e, false, "the annotation %s tells the cluster or the index of the object", key)
				}
			})
		}
		c.Ob("annotation", r.in, in.Implies(g, done), "every object is annotated with %s", key)
	}
	for _, e := range in.kind("mapdel") {
		in.each(e.Addr, in.And(e.Guard, g), func(m *Term, g B) {
			if of(m) || used[m] {
				c.Ob("annotation", e, false, "no annotation is removed")
			}
		})
	}
}

func isMethodName(name, m string) bool {
	return len(name) > len(m)+2 && name[len(name)-len(m)-2:] == ")."+m
}

// configured: every configured key of the index gets its value.
func (o *storeOp) configured(index, obj *Term) {
	in, c := o.in, o.c
	var l *Loop
	for _, x := range in.Loops {
		if x.RangeM != nil && mentions(x.RangeM, func(t *Term) bool {
			return t.Op == "lookup" && plain(t.Args[1]) == o.gvr && hasPathSuffix(t.Args[0], "indexConf")
		}) {
			l = x
		}
	}
	if l == nil {
		giveUp(o.fn, "the loop over the configured index was not found")
	}
	more := in.moreOf(l)
	whole := more != bFalse
	for _, e := range l.Exits {
		if in.Sat(in.And(e.abs, more)) {
			whole = false
		}
	}
	c.Ob("configured", l, whole, "all configured keys are indexed")
	isV := func(t *Term) bool { return t.Op == "lookup" && in.loopKey(t.Args[1], l) }
	has := func(sub string) B {
		return in.anyAtom(func(t *Term) bool {
			if !isCallTo(t, "strings.Contains") || !isV(t.Args[0]) {
				return false
			}
			s, ok := t.Args[1].constStr()
			return ok && s == sub
		})
	}
	brace, tmpl := has("{"), has("{{")
	ax := in.Or(in.Not(tmpl), brace)
	done := bFalse
	for _, e := range in.kind("mapset") {
		if !in.inLoop(e, l) {
			continue
		}
		in.each(e.Addr, in.And(e.Guard, ax), func(m *Term, g B) {
			if m != index {
				return
			}
			c.Ob("configured", e, in.loopKey(e.Args[1], l), "a value is indexed under its key")
			done = in.Or(done, g)
			in.each(e.Args[2], g, func(v *Term, g B) {
				switch {
				case isV(v):
					c.Ob("configured", e, in.Implies(g, in.Not(brace)), "only a text without a template or path is indexed as it is")
				case isMethodCall(v, "String"):
					c.Ob("configured", e, in.Implies(g, brace), "a template or path is applied to the object")
					c.Ob("configured", e, in.Implies(g, o.evaluated(l, v.Args[0], isV, obj, tmpl)), "the value is the template or path of that key applied to the object")
				default:
					c.Ob("configured", e, false, "the value indexed is the text, or the template or path applied to the object")
				}
			})
		})
	}
	for _, b := range l.Backs {
		c.Ob("configured", l, in.Implies(in.And(b.abs, ax), done), "every configured key is indexed")
	}
}

func (in *Interp) inLoop(e *Event, l *Loop) bool {
	for _, x := range e.Loops {
		if x == l {
			return true
		}
	}
	return false
}

// evaluated: where buf holds the result of the template or path of the key.
func (o *storeOp) evaluated(l *Loop, buf *Term, isV func(*Term) bool, obj *Term, tmpl B) B {
	in := o.in
	strip := func(t *Term) *Term {
		t = unwrapIface(t)
		for t.Op == "ptrver" {
			t = t.Args[0]
		}
		return t
	}
	buf = strip(buf)
	r := bFalse
	for _, e := range in.kind("call") {
		if !in.inLoop(e, l) {
			continue
		}
		switch {
		case isMethodName(e.Name, "Execute") && len(e.Args) == 3:
			if strip(e.Args[1]) != buf || !o.clean(l, buf, e) || !mentions(e.Args[2], func(t *Term) bool { return isCallTo(t, modPath+"/utils.Obj2JSONMap") && t.Args[0] == obj }) {
				continue
			}
			in.each(e.Args[0], e.Guard, func(t *Term, g B) {
				switch {
				case typeIs(t.Typ, "text/template.Template") || isTemplate(e.Name):
					if mentions(t, func(x *Term) bool {
						return isCallTo(x, "(*text/template.Template).Parse") && mentions(x.Args[1], isV)
					}) {
						r = in.Or(r, in.And(g, tmpl))
					}
				default:
					// a path: parsed before
					for _, p := range in.kind("call") {
						if isMethodName(p.Name, "Parse") && !isTemplate(p.Name) && p.ID < e.ID && strip(p.Args[0]) == strip(t) && mentions(p.Args[1], isV) {
							r = in.Or(r, in.And(in.And(g, p.Guard), in.Not(tmpl)))
						}
					}
				}
			})
		}
	}
	// a template that does not parse
	bad := in.Not(in.anyAtom(isNilCmp(func(t *Term) bool {
		return t.Op == "extract" && isCallTo(t.Args[0], "(*text/template.Template).Parse") && mentions(t.Args[0].Args[1], isV)
	})))
	if bad != bTrue {
		r = in.Or(r, in.And(tmpl, bad))
	}
	return r
}

// clean: the buffer holds nothing from another key when e writes to it.
func (o *storeOp) clean(l *Loop, buf *Term, e *Event) bool {
	if buf.loops[l] {
		return true // made for this key
	}
	for _, r := range o.in.kind("call") {
		if isMethodName(r.Name, "Reset") && o.in.inLoop(r, l) && r.ID < e.ID && o.in.Implies(e.Guard, r.Guard) && mentionsArg(r, buf) {
			return true
		}
	}
	return false
}

func isTemplate(name string) bool { return len(name) > 24 && name[:24] == "(*text/template.Template" }
