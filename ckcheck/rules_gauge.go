package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

const promPkg = "github.com/prometheus/client_golang/prometheus"

func init() {
	register(&Rule{ID: "C29", Rule: "every change of a namespace's objects in the store is followed, on every path, by setting the gauge with exactly the labels of that cluster, type and namespace to the number of objects in that very map after the change",
		Trust: []string{"prometheus"},
		Run:   gaugeRule})
}

type gaugeSet struct {
	e      *Event
	labels map[string]*Term
	val    *Term
}

// gaugeLabels: the label names of the gauge vectors of the repository by global.
func gaugeLabels(c *Ctx) map[string][]string {
	out := map[string][]string{}
	for _, fn := range c.P.AllFuncs {
		if fn.Name() != "init" || fn.Pkg == nil || fn.Blocks == nil || fn.Signature.Recv() != nil {
			continue
		}
		uses := false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(*ssa.Call); ok && call.Call.StaticCallee() != nil && strings.HasSuffix(call.Call.StaticCallee().Name(), "NewGaugeVec") {
					uses = true
				}
			}
		}
		if !uses {
			continue
		}
		in := newInterp(c.P)
		c.Analyse(in, fn, nil)
		for _, e := range in.kind("call") {
			if !strings.HasSuffix(e.Name, ".NewGaugeVec") {
				continue
			}
			var names []string
			for _, a := range e.Args {
				if a.Op == "slicelit" {
					for _, x := range a.Args {
						s, _ := x.constStr()
						names = append(names, s)
					}
				}
			}
			for _, st := range in.kind("store") {
				if base(st.Args[len(st.Args)-1]) == base(e.Result) {
					out[in.S(st.Addr)] = names
				}
			}
		}
	}
	return out
}

// reloaded: when a reload replaces the cache, the numbers of the cache before
// it are dropped: its namespaces may not be in the new one.
func reloaded(c *Ctx) {
	b := bootOf(c)
	in := b.in
	done := bFalse
	for _, e := range in.kind("call") {
		if strings.HasSuffix(e.Name, "Vec).Reset") && len(e.Args) > 0 && strings.Contains(in.S(e.Args[0]), "prommonitor.Resources") {
			done = in.Or(done, e.Guard)
			c.Ob("reload", e, b.implies(e.Guard, b.reset.Guard), "the numbers are dropped although the cache is kept")
		}
	}
	c.Ob("reload", b.reset, b.implies(b.reset.Guard, done), "the numbers of the cache before the reload are kept")
	c.Min("reload", 2)
}

func gaugeRule(c *Ctx) {
	reloaded(c)
	names := gaugeLabels(c)
	if len(names) == 0 {
		giveUp(nil, "no gauge is declared")
	}
	for _, m := range []string{"OnResourceAdded", "OnResourceModified", "OnResourceDeleted", "Clean"} {
		o := storeMethod(c, m)
		in := o.in
		cluster := in.Entry.params[2]
		var sets []gaugeSet
		for _, e := range in.calls("("+promPkg+".Gauge).Set", "("+promPkg+".Gauge).Inc", "("+promPkg+".Gauge).Dec", "("+promPkg+".Gauge).Add", "("+promPkg+".Gauge).Sub") {
			if !strings.HasSuffix(e.Name, ").Set") {
				c.Ob("value", e, false, "the gauge is counted up and down; repeated or unknown objects make it drift from what is cached")
				continue
			}
			w := base(e.Args[0])
			if w.Op == "extract" {
				w = w.Args[0]
			}
			gs := gaugeSet{e, map[string]*Term{}, e.Args[1]}
			switch {
			case w.Op == "call" && strings.Contains(callName(w), "WithLabelValues"), w.Op == "call" && strings.Contains(callName(w), "GetMetricWithLabelValues"):
				ls := names[strings.TrimPrefix(in.S(w.Args[0]), "*")]
				if len(ls) == 0 || len(w.Args) != 2 || w.Args[1].Op != "slicelit" || len(w.Args[1].Args) != len(ls) {
					c.Ob("labels", e, false, "the gauge is given as many labels as it has")
					continue
				}
				for i, l := range ls {
					gs.labels[l] = w.Args[1].Args[i]
				}
			case w.Op == "call" && strings.HasSuffix(callName(w), "GaugeVec).With"):
				ls := names[strings.TrimPrefix(in.S(w.Args[0]), "*")]
				for _, we := range in.calls(callName(w)) {
					if base(we.Result) == w && len(we.Vals) == 2 {
						for _, l := range ls {
							gs.labels[l] = in.mapEntry(we.Vals[1], l)
						}
					}
				}
				if len(gs.labels) == 0 {
					giveUp(e, "the labels of the gauge are not understood")
				}
			default:
				giveUp(e, "which gauge is set is not understood")
			}
			sets = append(sets, gs)
		}
		n := 0
		for _, ch := range o.changes() {
			var ns, key *Term
			switch {
			case (ch.kind == "set" || ch.kind == "del") && len(ch.keys) == 4:
				ns, key = ch.keys[2], ch.keys[3]
			case ch.kind == "replace" && len(ch.keys) == 3 && m == "Clean":
				ns = ch.keys[2]
			case ch.kind == "del" && len(ch.keys) == 3 && m == "Clean", ch.kind == "del" && len(ch.keys) == 2, ch.kind == "replace" && len(ch.keys) == 2 && m == "Clean":
				giveUp(ch.e, "namespaces are removed as a whole")
			default:
				continue
			}
			n++
			told := bFalse
			for _, gs := range sets {
				if gs.e.ID < ch.e.ID {
					continue
				}
				g := in.And(ch.g, gs.e.Guard)
				if !in.Sat(g) {
					continue
				}
				told = in.Or(told, gs.e.Guard)
				lab := func(l string, f func(*Term) bool) {
					v := gs.labels[l]
					c.Ob("labels", gs.e, v != nil && o.is(v, g, func(t *Term) bool { return f(plain(t)) }), "the gauge has the %s of what changed", l)
				}
				lab("cluster", func(t *Term) bool { return t == cluster })
				lab("group", func(t *Term) bool { return t == in.fieldOf(o.gvr, "Group") })
				lab("version", func(t *Term) bool { return t == in.fieldOf(o.gvr, "Version") })
				lab("resource", func(t *Term) bool { return t == in.fieldOf(o.gvr, "Resource") })
				lab("namespace", func(t *Term) bool { return t == plain(ns) })
				ok := in.all(gs.val, g, func(t *Term, g B) bool {
					t = base(t)
					if strings.HasPrefix(t.Op, "conv") {
						t = base(t.Args[0])
					}
					if f, isF := t.constFloatZero(); isF {
						return ch.kind == "replace" && f
					}
					if t.Op != "len" {
						return false
					}
					m := t.Args[0]
					if ch.kind == "replace" {
						return m.Op == "emptymap" || m.Op == "makemap"
					}
					want := map[string]string{"set": "mapupd", "del": "mapdel"}[ch.kind]
					if m.Op != want {
						return false
					}
					if !o.is(m.Args[1], g, func(t *Term) bool { return plain(t) == plain(key) }) {
						return false
					}
					b := m.Args[0]
					if b.Op == "emptymap" || b.Op == "makemap" {
						return true // the map was made for it
					}
					for _, p := range o.places(b, g) {
						if in.Sat(p.g) && !(p.ok && len(p.keys) == 3 && o.is(p.keys[2], p.g, func(t *Term) bool { return plain(t) == plain(ns) })) {
							return false
						}
					}
					return true
				})
				c.Ob("value", gs.e, ok, "the gauge is the number of objects cached after the change")
			}
			c.Ob("told", ch.e, in.Implies(ch.g, told), "every change of the objects cached is followed by setting the gauge")
		}
		if n == 0 {
			giveUp(o.fn, "%s changes no objects", m)
		}
	}
	c.Min("told", 4)
	c.Min("labels", 20)
}

// constFloatZero: a numeric constant, and whether it is zero.
func (t *Term) constFloatZero() (bool, bool) {
	if !t.isConst() {
		return false, false
	}
	return t.Aux == "0" || t.Aux == "0.0", true
}
