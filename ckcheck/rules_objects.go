package main

import (
	"go/types"
	"reflect"
	"strings"
)

func init() {
	register(&Rule{ID: "C37", Rule: "when an object was decoded its version and kind are those of the JSON, its metadata what decodes from the member metadata, and its data the map of all members without these three; numbers are decoded as written; the encoding holds the members of the data and those of type and metadata, each once, and the copy has the same fields and members",
		Trust: []string{"encoding/json"},
		Run: func(c *Ctx) {
			decodedObject(c)
			encodedObject(c)
			copiedObject(c)
		}})
}

const objT = modPath + "/watcher.ObjType"

// objField: the field a path of ObjType leads to, at the end of r.
func (in *Interp) atEnd(r *retState, ptr *Term, path ...string) *Term {
	t := ptr
	typ := deref(ptr.Typ)
	for _, n := range path {
		typ = structField(typ, n)
		t = in.FieldAddr(t, n, typ)
	}
	return in.load(r.mem, t, typ)
}

func isJSONMap(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && isString(m.Key())
}

func decodedObject(c *Ctx) {
	in, fn := c.opaqueRun("(*" + objT + ").UnmarshalJSON")
	o, src := in.Entry.params[0], in.Entry.params[1]
	fromSrc := func(t *Term) bool { return mentions(t, func(x *Term) bool { return x == src }) }
	// whole: t is what the JSON of the object was decoded to
	var doc *Term
	whole := func(t *Term) bool {
		t = unMap0(t)
		if t.Op != "out" || len(t.Args) == 0 || !isJSONMap(t.Typ) {
			return false
		}
		d := t.Args[0]
		if isCallTo(d, "encoding/json.Unmarshal") && d.Args[0] == src || isCallTo(d, "(*encoding/json.Decoder).Decode") && fromSrc(d.Args[0]) {
			doc = d
			return true
		}
		return false
	}
	member := func(t *Term, key string) bool {
		if t.Op == "iface" {
			t = t.Args[0]
		}
		if t.Op != "lookup" || !whole(t.Args[0]) {
			return false
		}
		k, ok := t.Args[1].constStr()
		return ok && k == key
	}
	n := 0
	for i := range in.Returns {
		r := &in.Returns[i]
		ok := in.Truth(in.eq(r.vals[0], in.Nil(), nil))
		g := in.And(r.g, ok)
		if !in.Sat(g) {
			continue
		}
		n++
		for _, k := range [][2]string{{"APIVersion", "apiVersion"}, {"Kind", "kind"}} {
			isText := in.testAtom(func(t *Term) bool { return t.Op == "istype" && t.Aux == "string" && member(t.Args[0], k[1]) })
			v := in.atEnd(r, o, "TypeMeta", k[0])
			c.Ob("decode", r.in, in.all(v, in.And(g, isText), func(t *Term, _ B) bool {
				return t.Op == "as" && t.Aux == "string" && member(t.Args[0], k[1])
			}), "the %s of an object is that of its JSON", k[1])
		}
		has := in.testAtom(func(t *Term) bool {
			if t.Op != "has" || !whole(t.Args[0]) {
				return false
			}
			k, ok := t.Args[1].constStr()
			return ok && k == "metadata"
		})
		decoded := bFalse
		for _, e := range in.calls("encoding/json.Unmarshal") {
			to := unwrapIface(e.Args[1])
			if to.Op != "fieldaddr" || to.Aux != "ObjectMeta" || to.Args[0] != o {
				continue
			}
			b := e.Args[0]
			c.Ob("decode", e.Instr, b.Op == "extract" && b.Aux == "0" && isCallTo(b.Args[0], "encoding/json.Marshal") && member(b.Args[0].Args[0], "metadata"),
				"the metadata of an object are decoded from the member metadata: %s", in.S(b))
			decoded = in.Or(decoded, e.Guard)
		}
		c.Ob("decode", r.in, in.Implies(in.And(g, has), decoded), "the metadata of an object are decoded when it has some")
		d := in.mapContent(r.mem, in.atEnd(r, o, "Data"))
		c.Ob("decode", r.in, in.all(d, g, func(t *Term, _ B) bool {
			gone := map[string]bool{}
			for t.Op == "mapdel" {
				k, _ := t.Args[1].constStr()
				gone[k] = true
				t = t.Args[0]
			}
			return whole(t) && len(gone) == 3 && gone["apiVersion"] && gone["kind"] && gone["metadata"]
		}), "the data of an object are the members of its JSON but version, kind and metadata: %s", in.S(d))
	}
	c.Ob("decode", fn, n > 0, "objects are decoded")
	if doc == nil {
		return
	}
	// numbers
	exact := false
	if isCallTo(doc, "(*encoding/json.Decoder).Decode") {
		for _, e := range in.calls("(*encoding/json.Decoder).UseNumber") {
			for _, d := range in.calls("(*encoding/json.Decoder).Decode") {
				if d.Result == doc && e.Args[0] == d.Args[0] && in.Implies(d.Guard, e.Guard) && in.before(d, d.Guard, []*Event{e}) {
					exact = true
				}
			}
		}
	}
	c.Ob("numbers", fn, exact, "numbers are kept as they are written (a float64 rounds large integers)")
}

func encodedObject(c *Ctx) {
	in, fn := c.opaqueRun("(*" + objT + ").MarshalJSON")
	o := in.Entry.params[0]
	var data, head *Term // the two halves
	isOwn := func(t *Term, name string) bool {
		root, p := fieldPath(t)
		return root == o && len(p) == 1 && p[0] == name
	}
	marshalled := func(t *Term) *Term {
		if t.Op == "extract" && t.Aux == "0" && isCallTo(t.Args[0], "encoding/json.Marshal") {
			return unwrapIface(t.Args[0].Args[0])
		}
		return nil
	}
	isData := func(t *Term) bool {
		x := marshalled(t)
		if x == nil || !isOwn(x, "Data") {
			return false
		}
		data = t
		return true
	}
	isHead := func(t *Term) bool {
		x := marshalled(t)
		if x == nil {
			return false
		}
		for x.Op == "ptrto" || x.Op == "ptrver" {
			x = x.Args[0]
		}
		st, ok := deref(x.Typ).Underlying().(*types.Struct)
		if !ok || st.NumFields() != 2 {
			return false
		}
		for i := 0; i < 2; i++ {
			f := st.Field(i)
			tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
			switch types.TypeString(f.Type(), nil) {
			case metav1 + ".TypeMeta":
				if !f.Embedded() || tag != "" {
					return false
				}
			case metav1 + ".ObjectMeta":
				if tag != "metadata" {
					return false
				}
			default:
				return false
			}
			want := "TypeMeta"
			if strings.HasSuffix(types.TypeString(f.Type(), nil), "ObjectMeta") {
				want = "ObjectMeta"
			}
			if !isOwn(in.fieldOf(x, f.Name()), want) {
				return false
			}
		}
		head = t
		return true
	}
	for _, e := range in.calls("encoding/json.Marshal") {
		in.each(in.Extract(e.Result, 0, nil), e.Guard, func(t *Term, _ B) { _ = isData(t) || isHead(t) })
	}
	if data == nil || head == nil {
		giveUp(fn, "the two parts of an object's JSON are not encoded on their own")
	}
	empty := func(x *Term, consts ...string) B {
		r := bFalse
		for _, s := range consts {
			r = in.Or(r, in.anyAtom(func(t *Term) bool {
				if t.Op != "eq" {
					return false
				}
				k, ok := t.Args[1].constStr()
				y := t.Args[0]
				for y.Op == "conv" || y.Op == "convert" {
					y = y.Args[0]
				}
				return ok && k == s && y == x
			}))
		}
		return r
	}
	noData, noHead := bFalse, empty(head, "{}")
	for v, a := range in.atoms { // an empty map has no members either
		if a.Op == "nonempty" && isOwn(unMap0(a.Args[0]), "Data") {
			noData = in.Or(noData, in.Not(in.Var(v)))
		}
	}
	byLen := noData
	noData = in.Or(noData, empty(data, "{}", "null"))
	c.Ob("encode", fn, byLen != bFalse || empty(data, "{}") != bFalse && empty(data, "null") != bFalse, "an object without data has no empty member")
	pieces := func(t *Term) []*Term {
		var out []*Term
		var walk func(t *Term)
		walk = func(t *Term) {
			switch {
			case t.Op == "append":
				walk(t.Args[0])
				walk(t.Args[1])
			case t.Op == "slicelit":
				out = append(out, t.Args...)
			case t.Op == "concat":
				for _, a := range t.Args {
					walk(a)
				}
			case t.Op == "conv" || t.Op == "convert" || t.Op == "str2bytes":
				walk(t.Args[0])
			default:
				if e, ok := in.emptySeq(t); !(ok && e) {
					out = append(out, t)
				}
			}
		}
		walk(t)
		return out
	}
	front := func(t, x *Term) bool { // x without its last byte
		if t.Op != "slice" || len(t.Args) != 3 || t.Args[0] != x || !t.Args[1].isZeroInt() {
			return false
		}
		l := newLin(in)
		return l.polyEquals(bTrue, l.expr(t.Args[2]), l.length(x).plus(constPoly(1), -1), nil)
	}
	rear := func(t, x *Term) bool { // x without its first byte
		if t.Op != "slice" || t.Args[0] != x || len(t.Args) < 2 {
			return false
		}
		n, ok := t.Args[1].constInt()
		return ok && n == 1 && len(t.Args) == 2
	}
	comma := func(t *Term) bool {
		if s, ok := t.constStr(); ok {
			return s == ","
		}
		n, ok := t.constInt()
		return ok && n == ','
	}
	some := 0
	for i := range in.Returns {
		r := &in.Returns[i]
		g := in.And(r.g, in.Truth(in.eq(r.vals[1], in.Nil(), nil)))
		if !in.Sat(g) {
			continue
		}
		in.each(r.vals[0], g, func(t *Term, g B) {
			some++
			switch {
			case t == head:
				c.Ob("encode", r.in, in.Implies(g, noData), "the data are left out only if there are none")
			case t == data:
				c.Ob("encode", r.in, in.Implies(g, noHead), "type and metadata are left out only if there are none")
			default:
				ps := pieces(t)
				ok := len(ps) == 3 && comma(ps[1]) && (front(ps[0], data) && rear(ps[2], head) || front(ps[0], head) && rear(ps[2], data))
				c.Ob("encode", r.in, ok, "the encoding holds the members of both parts: %s", in.S(t))
				c.Ob("encode", r.in, !in.Sat(in.And(g, in.Or(noData, noHead))), "a part without members is not joined")
			}
		})
	}
	c.Ob("encode", fn, some > 0, "objects are encoded")
}

func copiedObject(c *Ctx) {
	in, fn := c.opaqueRun("(" + objT + ").DeepCopyObject")
	o := in.Entry.params[0]
	n := 0
	for i := range in.Returns {
		r := &in.Returns[i]
		in.each(r.vals[0], r.g, func(t *Term, g B) {
			t = unwrapIface(t)
			n++
			for _, f := range []string{"TypeMeta", "ObjectMeta"} {
				c.Ob("copy", r.in, in.all(in.atEnd(r, t, f), g, func(x *Term, _ B) bool {
					for x.Op == "load" || x.Op == "ptrver" || x.Op == "ptrto" || x.Op == "call" && strings.HasSuffix(callName(x), ").DeepCopy") {
						x = x.Args[0]
					}
					root, p := fieldPath(x)
					return (root == o || in.holds(root, o)) && len(p) == 1 && p[0] == f
				}), "a copy has the %s of the object: %s", f, in.S(in.atEnd(r, t, f)))
			}
			d := in.mapContent(r.mem, in.atEnd(r, t, "Data"))
			own := func(x *Term) bool {
				root, p := fieldPath(unMap0(x))
				return root == o && len(p) == 1 && p[0] == "Data"
			}
			c.Ob("copy", r.in, in.all(d, g, func(x *Term, g B) bool {
				x = unMap0(x)
				if x.Op == "call" && strings.HasSuffix(callName(x), "runtime.DeepCopyJSON") || isCallTo(x, "maps.Clone") {
					return own(x.Args[0])
				}
				li := in.loopInfo[x]
				if li == nil || li.Loop.RangeM == nil || !own(li.Loop.RangeM) || !in.Implies(g, in.Not(in.moreOf(li.Loop))) {
					return false
				}
				k := in.mapKeyOf(li.Loop)
				if !in.all(li.Init, bTrue, func(t *Term, _ B) bool { return t.Op == "emptymap" || t.Op == "makemap" }) {
					return false
				}
				for _, b := range li.Back {
					if !in.all(b.T, b.G, func(t *Term, _ B) bool {
						return t.Op == "mapupd" && t.Args[0] == x && t.Args[1] == k && t.Args[2].Op == "lookup" && own(t.Args[2].Args[0]) && t.Args[2].Args[1] == k
					}) {
						return false
					}
				}
				return true
			}), "a copy has every member of the object: %s", in.S(d))
		})
	}
	c.Ob("copy", fn, n > 0, "objects are copied")
}

// holds: the variable keeps the value it was given at first.
func (in *Interp) holds(alloc, v *Term) bool {
	if alloc.Op != "alloc" || !types.Identical(deref(alloc.Typ), v.Typ) {
		return false
	}
	for _, e := range in.Events {
		if e.Kind == "store" {
			if root, _ := fieldPath(e.Addr); root == alloc && e.Args[1] != v {
				return false
			}
		}
	}
	return true
}
