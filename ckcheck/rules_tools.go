package main

import (
	"go/token"
	"go/types"
	"strings"
)

func init() {
	register(&Rule{ID: "C38", Rule: "kubectl is run with the arguments given but the clusters, extended by what page.QueryListOptions and QueryCreateOptions make of the clusters; invalid ones end with a failure before; the status and streams of kubectl are passed on; ckubecli prints the selector of exactly its options",
		Trust: []string{"os/exec", "flag", "page.QueryListOptions (C24)", "Paginate.Clusters (C25)"},
		Run:   toolsRule})
}

func toolsRule(c *Ctx) {
	plugin(c)
	queryTool(c)
}

func rootArgs(t *Term) bool {
	root, p := fieldPath(t)
	return t.Op == "load" && len(p) == 0 && root != nil && root.Op == "global" && strings.HasSuffix(root.Aux, "os.Args") ||
		t.Op == "load" && t.Args[0].Op == "global" && strings.HasSuffix(t.Args[0].Aux, "os.Args")
}

// pageCall: the calls that make an option from a page or cluster.
func failedCall(in *Interp, call *Term) B {
	return in.Not(in.testAtom(isNilCmp(func(t *Term) bool {
		return t == call || t.Op == "extract" && t.Args[0] == call && t.Aux == "1"
	})))
}

// plugin: what the kubectl plugin makes of its arguments.
func plugin(c *Ctx) {
	in, fn := c.opaqueRun(modPath + "/cmd/ckube-plugin.main")
	var cmd, run *Event
	for _, e := range in.calls("os/exec.Command", "os/exec.CommandContext") {
		if cmd != nil {
			giveUp(e, "several commands are made")
		}
		cmd = e
	}
	if cmd == nil {
		giveUp(fn, "no command is made")
	}
	for _, e := range in.kind("call") {
		if strings.HasPrefix(e.Name, "(*os/exec.Cmd).") && len(e.Args) > 0 && e.Args[0] == cmd.Result {
			switch strings.TrimPrefix(e.Name, "(*os/exec.Cmd).") {
			case "Run":
				if run != nil {
					giveUp(e, "the command is run in several places")
				}
				run = e
			case "String":
			default:
				giveUp(e, "the command is not just run")
			}
		}
	}
	if run == nil {
		giveUp(cmd, "the command is not run")
	}
	n := len(cmd.Args)
	name, _ := cmd.Args[n-2].constStr()
	c.Ob("kubectl", cmd, name == "kubectl", "the command is kubectl")
	c.Ob("kubectl", run, in.Implies(cmd.Guard, run.Guard), "kubectl is run once it was decided to")
	for field, file := range map[string]string{"Stdin": "os.Stdin", "Stdout": "os.Stdout", "Stderr": "os.Stderr"} {
		set := bFalse
		for _, e := range in.kind("store") {
			if e.Addr.Op == "fieldaddr" && e.Addr.Aux == field && e.Addr.Args[0] == cmd.Result {
				ok := e.ID < run.ID && in.all(e.Args[1], e.Guard, func(t *Term, _ B) bool {
					t = unwrapIface(t)
					return t.Op == "load" && t.Args[0].Op == "global" && strings.HasSuffix(t.Args[0].Aux, file)
				})
				c.Ob("kubectl", e, ok, "kubectl gets the %s of the plugin", field)
				set = in.Or(set, e.Guard)
			}
		}
		c.Ob("kubectl", run, in.Implies(run.Guard, set), "kubectl is connected to %s", file)
	}

	// the arguments
	var base *Term
	type form struct {
		base  *Term
		added []*Term
		g     B
	}
	var forms []form
	in.each(cmd.Args[n-1], cmd.Guard, func(t *Term, g B) {
		f := form{g: g}
		for t.Op == "append" {
			els, known := in.literalElems(t.Args[1])
			if !known {
				giveUp(cmd, "what is added to the arguments is not known")
			}
			f.added = append(append([]*Term{}, els...), f.added...)
			t = t.Args[0]
		}
		if in.loopInfo[t] == nil {
			giveUp(cmd, "the arguments are not collected by a loop")
		}
		f.base = t
		forms = append(forms, f)
		if base != nil && base != t {
			giveUp(cmd, "the arguments are collected in several places")
		}
		base = t
	})
	l := in.loopInfo[base].Loop
	info := in.loopInfo[base]
	empty, known := in.emptySeq(info.Init)
	c.Ob("arguments", l, known && empty, "the arguments given to kubectl start empty")
	var a *Term
	for _, b := range info.Back {
		in.each(b.T, b.G, func(t *Term, g B) {
			if t.Op == "append" && t.Args[0] == base {
				if els, known := in.literalElems(t.Args[1]); known && len(els) == 1 {
					if a != nil && a != els[0] {
						giveUp(l, "the arguments are taken from several places")
					}
					a = els[0]
				}
			}
		})
	}
	if a == nil || a.Op != "index" || !rootArgs(a.Args[0]) {
		giveUp(l, "the loop does not collect the arguments of the program")
	}
	all, idx := a.Args[0], a.Args[1]
	count := in.mkT("len", "", types.Typ[types.Int], all)
	lt := func(x, y *Term) B { return in.Truth(in.Bin(token.LSS, x, y, types.Typ[types.Bool])) }
	next := in.addOne(idx)
	hasNext := lt(next, count)
	value := in.Index(all, next, types.Typ[types.String])
	is := func(s string) B { return in.Truth(in.eq(a, in.Str(s), nil)) }
	isClusters, isGet, isCreate := is("--clusters"), is("get"), is("create")
	isSel := in.Or(is("-l"), is("--selector"))
	// an argument has one value
	ax := bTrue
	consts := []B{isClusters, isGet, isCreate, is("-l"), is("--selector")}
	for i := range consts {
		for j := range consts[:i] {
			ax = in.And(ax, in.Not(in.And(consts[i], consts[j])))
		}
	}
	lin := newLin(in)
	same := func(x, y *Term) bool {
		d := lin.expr(x).plus(lin.expr(y), -1)
		return len(d.c) == 0
	}
	// at the end of each iteration
	back := func(v *Term, rule, msg string, ok func(t *Term, g B) bool) {
		for _, b := range in.loopInfo[v].Back {
			c.Ob(rule, l, in.all(b.T, in.And(b.G, ax), ok), "%s", msg)
		}
	}
	taken := in.And(isClusters, hasNext)
	back(base, "arguments", "every argument but the clusters is given to kubectl, as it is and where it is", func(t *Term, g B) bool {
		if t == base {
			return in.Implies(g, isClusters)
		}
		return t.Op == "append" && t.Args[0] == base && in.literal1(t.Args[1]) == a && !in.Sat(in.And(g, taken))
	})
	first, _ := in.initOf(idx).constInt()
	c.Ob("arguments", l, first == 1, "the arguments are read from the first one on")
	back(idx, "arguments", "no argument is passed over", func(t *Term, g B) bool {
		if same(t, next) {
			return !in.Sat(in.And(g, taken))
		}
		return same(t, in.addOne(next)) && in.Implies(g, taken)
	})
	for _, x := range l.Exits {
		c.Ob("arguments", l, !in.Sat(in.And(in.And(x.abs, ax), lt(idx, count))), "the loop ends before all arguments were read")
	}

	// the clusters
	var clusters *Term
	var modes []*Term
	for v, li := range in.loopInfo {
		if li.Loop != l {
			continue
		}
		for _, b := range li.Back {
			in.each(b.T, b.G, func(t *Term, g B) {
				if t == value {
					clusters = v
				}
			})
		}
		if v != base && v != idx {
			modes = append(modes, v)
		}
	}
	if clusters == nil {
		giveUp(l, "the clusters given are not kept")
	}
	s, isS := in.initOf(clusters).constStr()
	c.Ob("clusters", l, isS && s == "", "there are no clusters at first")
	back(clusters, "clusters", "the clusters are the argument after --clusters", func(t *Term, g B) bool {
		if t == clusters {
			return !in.Sat(in.And(g, taken))
		}
		return t == value && in.Implies(g, taken)
	})
	values := map[*Term]bool{}
	mode := func(arg, other B) B {
		r := bFalse
		for _, v := range modes {
			var k *Term
			for _, b := range in.loopInfo[v].Back {
				in.each(b.T, in.And(in.And(b.G, ax), arg), func(t *Term, g B) {
					if t.Op == "const" && k == nil {
						k = t
					} else {
						k = v
					}
				})
			}
			if k == nil || k == v || in.initOf(v) == k {
				continue
			}
			values[v] = true
			ok := true
			for _, b := range in.loopInfo[v].Back {
				ok = ok && in.all(b.T, in.And(in.And(b.G, ax), in.Not(arg)), func(t *Term, g B) bool {
					return t == v || t.Op == "const" && t != k && in.Implies(g, other)
				})
			}
			if ok {
				r = in.Or(r, in.Truth(in.eq(v, k, nil)))
			}
		}
		if r == bFalse {
			giveUp(l, "how the subcommand is kept is not known")
		}
		return r
	}
	getting, creating := mode(isGet, isCreate), mode(isCreate, isGet)
	restricted := in.anyAtom(func(t *Term) bool { return t.Op == "nonempty" && t.Args[0] == clusters })
	both := in.And(getting, creating)
	// what holds the subcommand has no other value than those it gets
	modeAx := bTrue
	for v := range values {
		one := in.Truth(in.eq(v, in.initOf(v), nil))
		for _, b := range in.loopInfo[v].Back {
			in.each(b.T, b.G, func(t *Term, _ B) {
				if t != v {
					one = in.Or(one, in.Truth(in.eq(v, t, nil)))
				}
			})
		}
		modeAx = in.And(modeAx, one)
	}

	list := in.calls(pagePkg + ".QueryListOptions")
	crt := in.calls(pagePkg + ".QueryCreateOptions")
	isSplit := func(t *Term) bool {
		sep := ""
		if isCallTo(t, "strings.Split") {
			sep, _ = t.Args[1].constStr()
		}
		return sep == "," && t.Args[0] == clusters
	}
	// where the selector of the user is
	var pos *Term
	for _, v := range modes {
		if in.kindInt(v) && v != clusters {
			for _, b := range in.loopInfo[v].Back {
				in.each(b.T, b.G, func(t *Term, g B) {
					if mentions(t, func(t *Term) bool { return t.Op == "len" }) {
						pos = v
					}
				})
			}
		}
	}
	if pos == nil {
		giveUp(l, "where the selector of the user is is not known")
	}
	p0, isInt := in.initOf(pos).constInt()
	c.Ob("selector", l, isInt && p0 <= 0, "there is no selector at first")
	hasSel := in.And(isSel, hasNext)
	after := in.mkT("len", "", types.Typ[types.Int], base)
	back(pos, "selector", "the selector is what follows -l or --selector", func(t *Term, g B) bool {
		if t == pos {
			return !in.Sat(in.And(g, hasSel))
		}
		return in.Implies(g, hasSel) && same(t, in.addOne(after))
	})
	// pos is p0 if there is none, and after the first argument otherwise
	none := in.Truth(in.eq(pos, in.Int(p0), nil))
	posAx := bTrue
	for v, t := range in.atoms {
		if len(t.Args) != 2 || t.Op != "lt" && t.Op != "eq" {
			continue
		}
		x, cx := t.Args[0].constInt()
		y, cy := t.Args[1].constInt()
		switch {
		case t.Args[0] == pos && cy && t.Op == "lt":
			posAx = in.And(posAx, in.choose(none, in.isVar(v, p0 < y), in.isVarIf(v, false, y <= 1)))
		case t.Args[1] == pos && cx && t.Op == "lt":
			posAx = in.And(posAx, in.choose(none, in.isVar(v, x < p0), in.isVarIf(v, true, x <= 0)))
		case t.Args[0] == pos && cy && y != p0:
			posAx = in.And(posAx, in.choose(none, in.isVar(v, false), in.isVarIf(v, false, y <= 0)))
		}
	}
	old := in.Index(base, pos, types.Typ[types.String])

	for _, e := range list {
		opts, pg := e.Args[0], e.Args[1]
		in.structFields(opts, opts.Typ, func(name string, v *Term) {
			if name != "LabelSelector" {
				c.Ob("selector", e, in.all(v, e.Guard, func(t *Term, _ B) bool { return isZero(t) }), "only the selector is made")
				return
			}
			c.Ob("selector", e, in.all(v, e.Guard, func(t *Term, g B) bool {
				if s, ok := t.constStr(); ok {
					return s == "" && in.Implies(in.And(g, posAx), none)
				}
				return t == old && !in.Sat(in.And(in.And(g, posAx), none))
			}), "the selector of the user is what the page is added to")
		})
		in.structFields(pg, pg.Typ, func(name string, v *Term) {
			ok := in.all(v, e.Guard, func(t *Term, g B) bool {
				if name != "Search" {
					return isZero(t)
				}
				return in.restrictedBy(t, g, isSplit, isZero)
			})
			c.Ob("clusters", e, ok, "the page is restricted to exactly the clusters given")
		})
		c.Ob("refused", run, !in.Sat(in.And(in.And(run.Guard, e.Guard), failedCall(in, e.Result))), "kubectl is not run with a selector that is not valid")
	}
	fromList := func(t *Term) *Event {
		for _, e := range list {
			if t.Op == "get" || t.Op == "field" {
				root, p := fieldPath(t)
				if len(p) == 1 && p[0] == "LabelSelector" && (root == e.Result || root.Op == "extract" && root.Args[0] == e.Result && root.Aux == "0") {
					return e
				}
			}
		}
		return nil
	}
	written := bFalse
	for _, e := range in.kind("store") {
		if e.Addr.Op != "indexaddr" || e.Addr.Args[0] != base {
			continue
		}
		ok := e.Addr.Args[1] == pos && e.ID < run.ID && in.all(e.Args[1], e.Guard, func(t *Term, g B) bool { q := fromList(t); return q != nil && in.Implies(g, q.Guard) })
		c.Ob("selector", e, ok && in.Implies(in.And(e.Guard, posAx), in.And(restricted, in.And(getting, in.Not(none)))), "the selector is replaced by the one with the clusters, nothing else is")
		written = in.Or(written, e.Guard)
	}
	for _, f := range forms {
		g := in.And(in.And(f.g, run.Guard), posAx)
		switch {
		case len(f.added) == 0:
			c.Ob("selector", cmd, !in.Sat(in.And(g, in.And(in.And(restricted, getting), in.Not(written)))), "kubectl gets a selector for the clusters")
			c.Ob("create", cmd, !in.Sat(in.And(in.And(g, restricted), in.And(creating, in.Not(both)))), "a create goes to the cluster given")
		case len(f.added) == 2:
			o, _ := f.added[0].constStr()
			switch o {
			case "-l", "--selector":
				ok := in.all(f.added[1], g, func(t *Term, g B) bool { q := fromList(t); return q != nil && in.Implies(g, q.Guard) })
				c.Ob("selector", cmd, ok && in.Implies(g, in.And(restricted, in.And(getting, none))), "the selector for the clusters is added where there was none")
			case "--field-manager":
				ok := in.all(f.added[1], g, func(t *Term, g B) bool {
					root, p := fieldPath(t)
					for _, e := range crt {
						if len(p) == 1 && p[0] == "FieldManager" && (root == e.Result || root.Op == "extract" && root.Args[0] == e.Result && root.Aux == "0") {
							k := e.Args[1]
							one := lt(in.Int(1), in.mkT("len", "", types.Typ[types.Int], k.Args[0]))
							i, _ := k.Args[1].constInt()
							return k.Op == "index" && isSplit(k.Args[0]) && i == 0 && in.Implies(g, e.Guard) && !in.Sat(in.And(g, one))
						}
					}
					return false
				})
				c.Ob("create", cmd, ok && in.Implies(g, in.And(restricted, in.Not(getting))), "the field manager for the one cluster is added to what is created")
			default:
				c.Ob("arguments", cmd, false, "kubectl gets an option nobody asked for")
			}
		default:
			c.Ob("arguments", cmd, false, "kubectl gets arguments nobody asked for")
		}
	}
	c.Min("arguments", 4)
	c.Min("clusters", 3)
	c.Min("selector", 5)
	c.Min("create", 1)

	// the status
	c.Ob("status", run, in.Implies(in.And(run.Guard, modeAx), in.Or(getting, creating)), "kubectl is only run for the subcommands there are")
	failed := failedCall(in, run.Result)
	for i := range in.Returns {
		r := &in.Returns[i]
		c.Ob("status", r.in, in.Implies(r.g, in.And(run.Guard, in.Not(failed))), "the plugin succeeds only if kubectl did")
	}
	exits(c, in, run, failed)
}

// exits: how a program ends that runs another one.
func exits(c *Ctx, in *Interp, run *Event, failed B) {
	isErr := func(t *Term) bool { return hasSub(t, run.Result) }
	own := in.testAtom(func(t *Term) bool {
		return t.Op == "istype" && strings.HasSuffix(t.Aux, "exec.ExitError") && isErr(t) || isCallTo(t, "errors.As") && isErr(t.Args[0])
	})
	positive := in.testAtom(func(t *Term) bool {
		if t.Op != "lt" {
			return false
		}
		k, ok := t.Args[0].constInt()
		return ok && k == 0 && isExitCode(t.Args[1])
	})
	n := 0
	for _, e := range in.calls("os.Exit") {
		n++
		in.each(e.Args[0], e.Guard, func(t *Term, g B) {
			if k, ok := t.constInt(); ok {
				c.Ob("status", e, k != 0, "the plugin fails with a failure")
				c.Ob("status", e, !in.Sat(in.And(in.And(g, own), in.And(failed, in.And(run.Guard, positive)))), "the status of kubectl is the one of the plugin")
				return
			}
			c.Ob("status", e, isExitCode(t) && in.Implies(g, in.And(run.Guard, failed)) && isErr(t), "the plugin ends with the status of kubectl")
		})
	}
	c.Min("status", 4)
}

func isExitCode(t *Term) bool {
	return isMethodCall(t, "ExitCode")
}

func isZero(t *Term) bool {
	if strings.HasPrefix(t.Op, "zero") || t.isNil() {
		return true
	}
	if s, ok := t.constStr(); ok {
		return s == ""
	}
	if k, ok := t.constInt(); ok {
		return k == 0
	}
	return t.Op == "const" && t.Aux == "false"
}

func (in *Interp) choose(c, x, y B) B { return in.Or(in.And(c, x), in.And(in.Not(c), y)) }

// isVarIf: the atom is val, if known.
func (in *Interp) isVarIf(v int, val, known bool) B {
	if !known {
		return bTrue
	}
	return in.isVar(v, val)
}

func (in *Interp) literal1(t *Term) *Term {
	if els, ok := in.literalElems(t); ok && len(els) == 1 {
		return els[0]
	}
	return nil
}

func (in *Interp) initOf(v *Term) *Term {
	if li := in.loopInfo[v]; li != nil {
		return li.Init
	}
	return v
}

func (in *Interp) kindInt(v *Term) bool {
	b, ok := v.Typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// restrictedBy: the search t is what Clusters made of a search from for the names isNames.
func (in *Interp) restrictedBy(t *Term, g B, isNames, from func(*Term) bool) bool {
	root, p := fieldPath(t)
	if len(p) != 1 || p[0] != "Search" || root.Op != "out" {
		return false
	}
	for _, e := range in.calls(pageM + "Clusters") {
		if e.Result == root.Args[0] {
			return isNames(e.Args[1]) && in.Implies(g, in.And(e.Guard, in.Not(failedCall(in, e.Result)))) &&
				in.all(in.fieldOf(e.Vals1(0), "Search"), e.Guard, func(t *Term, _ B) bool { return from(t) })
		}
	}
	return false
}

// queryTool: the selector ckubecli prints.
func queryTool(c *Ctx) {
	in, fn := c.opaqueRun(modPath + "/cmd/ckubecli.main")
	parse := in.calls("flag.Parse")
	options := map[string]string{"Page": "p", "PageSize": "s", "Sort": "sort", "Search": "search"}
	option := func(t *Term, name string) bool {
		for t.Op == "conv" || t.Op == "load" {
			t = t.Args[0]
		}
		at := 0
		if t.Op == "out" && t.Aux == "0" {
			t, at = t.Args[0], 1
		}
		if t.Op != "call" || !strings.HasPrefix(t.Aux, "flag.") || at >= len(t.Args) {
			return false
		}
		s, ok := t.Args[at].constStr()
		return ok && s == name && isZero(t.Args[at+1])
	}
	given := in.testAtom(func(t *Term) bool { return t.Op == "nonempty" && option(t.Args[0], "c") })
	isNames := func(t *Term) bool {
		if !isCallTo(t, "strings.Split") {
			return false
		}
		sep, _ := t.Args[1].constStr()
		return sep == "," && option(t.Args[0], "c")
	}
	list := in.calls(pagePkg + ".QueryListOptions")
	for _, e := range list {
		c.Ob("options", e, in.before(e, e.Guard, parse), "the options are used after they were read")
		in.structFields(e.Args[0], e.Args[0].Typ, func(name string, v *Term) {
			c.Ob("options", e, in.all(v, e.Guard, func(t *Term, _ B) bool { return isZero(t) }), "the selector is made from the options only")
		})
		in.structFields(e.Args[1], e.Args[1].Typ, func(name string, v *Term) {
			ok := in.all(v, e.Guard, func(t *Term, g B) bool {
				if options[name] == "" {
					return isZero(t)
				}
				if name != "Search" {
					return option(t, options[name])
				}
				if option(t, options[name]) {
					return !in.Sat(in.And(g, given))
				}
				return in.Implies(g, given) && in.restrictedBy(t, g, isNames, func(t *Term) bool { return option(t, options["Search"]) })
			})
			c.Ob("options", e, ok, "the %s of the page is the one of the options", name)
		})
	}
	printed := bFalse
	for _, e := range in.kind("call") {
		args := e.Args
		switch {
		case strings.HasPrefix(e.Name, "fmt.Print"):
		case strings.HasPrefix(e.Name, "fmt.Fprint"), e.Name == "io.WriteString":
			if f := unwrapIface(args[0]); f.Op == "load" && f.Args[0].Op == "global" && strings.HasSuffix(f.Args[0].Aux, "os.Stderr") {
				continue
			}
			args = args[1:]
		case strings.HasPrefix(e.Name, "(*os.File).Write"):
			args = args[1:]
		default:
			continue
		}
		if strings.HasSuffix(e.Name, "f") && len(args) == 2 {
			if els, known := in.literalElems(args[1]); known && len(els) == 1 {
				f, _ := args[0].constStr()
				c.Ob("prints", e, f == "%s" || f == "%s\n" || f == "%v" || f == "%v\n", "the selector is printed as it is")
				args = els
			} else {
				args = args[:1]
			}
		} else if len(args) > 0 {
			if els, known := in.literalElems(args[0]); known {
				args = els
			}
		}
		ok := len(args) == 1 && in.all(args[0], e.Guard, func(t *Term, g B) bool {
			root, p := fieldPath(unwrapIface(t))
			for _, q := range list {
				if len(p) == 1 && p[0] == "LabelSelector" && root.Op == "extract" && root.Args[0] == q.Result && root.Aux == "0" {
					return in.Implies(g, in.And(q.Guard, in.Not(failedCall(in, q.Result))))
				}
			}
			return false
		})
		c.Ob("prints", e, ok && e.inner() == nil, "nothing but the selector is printed")
		c.Ob("prints", e, !in.Sat(in.And(printed, e.Guard)), "the selector is printed once")
		printed = in.Or(printed, e.Guard)
	}
	for i := range in.Returns {
		r := &in.Returns[i]
		c.Ob("prints", r.in, in.Implies(r.g, printed), "the selector is printed")
	}
	for _, e := range in.calls("os.Exit") {
		ok := in.all(e.Args[0], e.Guard, func(t *Term, g B) bool {
			k, ok := t.constInt()
			return ok && (k != 0 && !in.Sat(in.And(g, printed)) || k == 0 && in.Implies(g, printed))
		})
		c.Ob("prints", e, ok, "without a selector ckubecli fails, with one it does not")
	}
	c.Ob("options", fn, len(list) == 1, "one selector is made")
	c.Min("options", 8)
	c.Min("prints", 3)
}
