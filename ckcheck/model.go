package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// model gives the few library operations the properties hinge on a meaning.
func (in *Interp) model(fr *Frame, st *State, i ssa.Instruction, name string, fn *ssa.Function, args []*Term, typ types.Type) (*Term, bool) {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		op := name[strings.LastIndex(name, ".")+1:]
		a := args[0]
		in.emit(fr, st, &Event{Kind: "lockop", Name: op, Instr: i, Args: args, Addr: a})
		k := in.mkT("lock", "", nil, a)
		mode := map[string]string{"Lock": "W", "RLock": "R", "Unlock": "U", "RUnlock": "U"}[op]
		st.mem.m[k] = in.mkT("const", mode, nil)
		return in.Tuple(), true
	case "(sync.Locker).Lock", "(sync.Locker).Unlock":
		return nil, false
	case "(*net/url.URL).Query":
		in.emit(fr, st, &Event{Kind: "call", Name: name, Instr: i, Args: args})
		u := args[0]
		ra := in.FieldAddr(u, "RawQuery", types.Typ[types.String])
		raw := in.load(st.mem, ra, types.Typ[types.String])
		t := in.mkT("urlquery", siteOf(fr, i), typ, u)
		t.inLoops(in.loopStack)
		c := in.lift(raw, func(r *Term) *Term {
			if r.Op == "call" && r.Aux == "(net/url.Values).Encode" {
				return r.Args[0]
			}
			return in.mkT("parsedquery", "", typ, r)
		})
		st.mem.m[in.mapCell(t)] = c
		return t, true
	case "(net/url.Values).Set", "(net/http.Header).Set":
		in.emit(fr, st, &Event{Kind: "call", Name: name, Instr: i, Args: args, Addr: args[0]})
		in.mapWrite(st, args[0], func(c *Term) *Term {
			return in.mkT("mapupd", "", nil, c, args[1], in.mkT("slicelit", "", types.NewSlice(types.Typ[types.String]), args[2]))
		})
		return in.Tuple(), true
	case "(net/url.Values).Add":
		in.emit(fr, st, &Event{Kind: "call", Name: name, Instr: i, Args: args, Addr: args[0]})
		in.mapWrite(st, args[0], func(c *Term) *Term {
			old, _ := in.MapGet(c, args[1], types.NewSlice(types.Typ[types.String]))
			return in.mkT("mapupd", "", nil, c, args[1], in.appendT(old, in.mkT("slicelit", "", nil, args[2]), nil))
		})
		return in.Tuple(), true
	case "(net/url.Values).Del", "(net/http.Header).Del":
		in.emit(fr, st, &Event{Kind: "call", Name: name, Instr: i, Args: args, Addr: args[0]})
		in.mapWrite(st, args[0], func(c *Term) *Term { return in.mkT("mapdel", "", nil, c, args[1]) })
		return in.Tuple(), true
	case "(net/url.Values).Get":
		in.emit(fr, st, &Event{Kind: "call", Name: name, Instr: i, Args: args})
		v, _ := in.MapGet(in.mapContent(st.mem, args[0]), args[1], types.NewSlice(types.Typ[types.String]))
		return in.lift(v, func(v *Term) *Term {
			n := in.Truth(in.NotT(in.eq(in.Len(v), in.Int(0), nil)))
			return in.mkIte([]alt{{n, in.Index(v, in.Int(0), types.Typ[types.String])}, {in.Not(n), in.Str("")}})
		}), true
	case "(net/url.Values).Has":
		_, ok := in.MapGet(in.mapContent(st.mem, args[0]), args[1], types.NewSlice(types.Typ[types.String]))
		return ok, true
	case "strings.Cut", "strings.CutPrefix", "strings.CutSuffix":
		if name == "strings.CutPrefix" {
			h := in.callTerm("strings.HasPrefix", types.Typ[types.Bool], args)
			return in.Tuple(in.callTerm("strings.TrimPrefix", types.Typ[types.String], args), h), true
		}
	case "(*sync/atomic.Pointer[T]).Load", "(*sync/atomic.Value).Load", "(*sync/atomic.Bool).Load":
		t := in.mkT("call", name+"@"+siteOf(fr, i), typ, args...)
		t.inLoops(in.loopStack)
		in.emit(fr, st, &Event{Kind: "call", Name: name, Instr: i, Args: args, Result: t})
		return t, true
	case "slices.Contains":
		if els, ok := in.literalElems(args[0]); ok {
			r := bFalse
			for _, e := range els {
				r = in.Or(r, in.Truth(in.eq(e, args[1], nil)))
			}
			return in.fromB(r), true
		}
	case "errors.New":
		return in.mkT("newerr", siteOf(fr, i), typ, args...), true
	}
	return nil, false
}

// literalElems: the elements of a slice whose content is known.
func (in *Interp) literalElems(t *Term) ([]*Term, bool) {
	switch t.Op {
	case "slicelit":
		return t.Args, true
	case "emptyslice":
		return nil, true
	}
	return nil, false
}
