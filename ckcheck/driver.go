package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one decided rule instance.
type Obligation struct {
	Rule  string
	Pos   string // file:line (function)
	Fn    string // stable part of the location
	OK    bool
	Msg   string
	Known bool
}

// Ctx collects what one check decided.
type Ctx struct {
	P     *Program
	Prop  string
	Obls  []*Obligation
	funcs map[string]bool
	min   map[string]int
	stats map[string]int
}

// Rule is the set of rules deciding one property.
type Rule struct {
	ID    string
	Rule  string // the rule in words (evidence)
	Trust []string
	Run   func(c *Ctx)
}

var rules = map[string]*Rule{}

func register(r *Rule) { rules[r.ID] = r }

// Ob records one obligation.
func (c *Ctx) Ob(rule string, at any, ok bool, f string, a ...any) bool {
	pos, fn := c.where(at)
	c.Obls = append(c.Obls, &Obligation{Rule: rule, Pos: pos, Fn: fn, OK: ok, Msg: fmt.Sprintf(f, a...)})
	return ok
}

func (c *Ctx) where(at any) (string, string) {
	switch x := at.(type) {
	case nil:
		return "?", "?"
	case string:
		return x, x
	case *Event:
		n := ""
		if x.Fn != nil {
			n = shortName(x.Fn.String())
		}
		return c.P.Pos(x.Instr), n
	case ssa.Instruction:
		return c.P.Pos(x), shortName(x.Parent().String())
	case *ssa.Function:
		if x == nil {
			return "?", "?"
		}
		return c.P.PosStr(x.Pos()), shortName(x.String())
	case *Loop:
		if x.Header != nil && len(x.Header.Instrs) > 0 {
			return c.P.Pos(x.Header.Instrs[0]), shortName(x.Fn.String())
		}
		return c.P.PosStr(x.Fn.Pos()), shortName(x.Fn.String())
	case token.Pos:
		return c.P.PosStr(x), ""
	}
	return fmt.Sprint(at), ""
}

// Min demands that a rule has at least n instances.
func (c *Ctx) Min(rule string, n int) { c.min[rule] = n }

func (c *Ctx) funcOf(fn *ssa.Function) { c.funcs[shortName(fn.String())] = true }

// Analyse runs the value-flow analysis on fn and accounts for it.
func (c *Ctx) Analyse(in *Interp, fn *ssa.Function, args []*Term) {
	in.NoLoads = true
	in.Run(fn, args)
	c.account(in)
}

func (c *Ctx) account(in *Interp) {
	for _, e := range in.Events {
		if e.Fn != nil {
			c.funcOf(e.Fn)
		}
	}
	if in.Entry != nil {
		c.funcOf(in.Entry.fn)
	}
	c.stats["events"] += len(in.Events)
	c.stats["loops"] += len(in.Loops)
	c.stats["terms"] += len(in.terms)
	c.stats["blocks"] += in.steps
}

type runResult struct {
	ctx        *Ctx
	violations []*Obligation
	knowns     []string
}

func runRule(P *Program, r *Rule, known []string) (res runResult) {
	c := &Ctx{P: P, Prop: r.ID, funcs: map[string]bool{}, min: map[string]int{}, stats: map[string]int{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("CK_DEBUG") != "" {
					debug.PrintStack()
				}
				if f, ok := e.(undecided); ok {
					c.Ob("anchors", f.at, false, "undecided: %s", f.msg)
					return
				}
				c.Ob("analysis", "?", false, "the analysis failed: %v", e)
			}
		}()
		r.Run(c)
	}()
	n := map[string]int{}
	for _, o := range c.Obls {
		n[o.Rule]++
	}
	for rule, m := range c.min {
		if n[rule] < m {
			c.Ob(rule, "?", false, "only %d instances of this rule were found, at least %d are required", n[rule], m)
		}
	}
	if len(c.Obls) == 0 {
		c.Ob("anchors", "?", false, "no obligation was generated")
	}
	res.ctx = c
	for _, o := range c.Obls {
		if o.OK {
			continue
		}
		for _, k := range known {
			if matchKnown(k, r.ID, o) {
				o.Known = true
				res.knowns = append(res.knowns, strings.TrimPrefix(k, "finding: "))
			}
		}
		if !o.Known {
			res.violations = append(res.violations, o)
		}
	}
	return
}

// matchKnown: "finding: property=ID rule=RULE at=FUNC ... text"
func matchKnown(line, id string, o *Obligation) bool {
	f := strings.Fields(line)
	if len(f) < 4 || f[0] != "finding:" {
		return false
	}
	return f[1] == "property="+id && f[2] == "rule="+o.Rule && f[3] == "at="+strings.ReplaceAll(o.Fn, " ", "")
}

type undecided struct {
	at  any
	msg string
}

// give up on a whole check (reported as a violation: an anchor is gone).
func giveUp(at any, f string, a ...any) { panic(undecided{at, fmt.Sprintf(f, a...)}) }

func main() {
	args := os.Args[1:]
	repo := os.Getenv("CK_REPO")
	if repo == "" {
		repo = "/repo"
	}
	verif := os.Getenv("CK_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	if len(args) > 0 && args[0] == "dump" {
		dump(repo, args[1:])
		return
	}
	if len(args) == 0 {
		fmt.Println("usage: ckcheck PROPERTY... | all | dump FUNC")
		os.Exit(1)
	}
	t0 := time.Now()
	P, err := loadProgram(repo)
	var known []string
	if bs, e := os.ReadFile(filepath.Join(verif, "known_findings.txt")); e == nil {
		known = strings.Split(string(bs), "\n")
	}
	ids := args
	all := args[0] == "all"
	if all {
		ids = nil
		for id := range rules {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	exit := 0
	if os.Getenv("CK_DEAD") != "" && err == nil {
		P.Visited = map[*ssa.BasicBlock]bool{}
	}
	for _, id := range ids {
		r := rules[id]
		if r == nil {
			fmt.Printf("no rule for %s\n", id)
			exit = 1
			continue
		}
		t1 := time.Now()
		var res runResult
		if err != nil {
			c := &Ctx{Prop: id}
			o := &Obligation{Rule: "load", Pos: "?", Msg: err.Error()}
			c.Obls = append(c.Obls, o)
			res = runResult{ctx: c, violations: []*Obligation{o}}
		} else {
			res = runRule(P, r, known)
		}
		wall := time.Since(t1).Seconds()
		if !all {
			wall = time.Since(t0).Seconds()
		}
		if report(verif, r, res, wall, all) {
			exit = 1
		}
	}
	if P != nil && P.Visited != nil {
		deadBlocks(P)
	}
	os.Exit(exit)
}

func report(verif string, r *Rule, res runResult, wall float64, quiet bool) bool {
	c := res.ctx
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	per := map[string]int{}
	ok := 0
	sites := map[string]bool{}
	for _, o := range c.Obls {
		per[o.Rule]++
		sites[o.Pos] = true
		if o.OK {
			ok++
		}
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var samples []map[string]any
	seen := map[string]int{}
	for _, o := range c.Obls {
		if seen[o.Rule]++; seen[o.Rule] <= 3 {
			samples = append(samples, map[string]any{"rule": o.Rule, "at": o.Pos, "in": o.Fn, "holds": o.OK, "what": o.Msg})
		}
	}
	cov := map[string]any{
		"explanation": "static analysis of the current source tree (type-checked, SSA form, gated value flow). Rules: " + r.Rule,
		"obligations": len(c.Obls), "discharged": ok, "obligations_per_rule": per, "sites": len(sites),
		"functions_analysed": fns, "analysis": c.stats, "samples": samples,
		"checker_cmd":  "ckcheck " + r.ID,
		"trusted_base": append([]string{"go/packages, go/types, x/tools/go/ssa", "ckcheck value-flow engine and its library models"}, r.Trust...),
	}
	if c.P != nil {
		cov["packages"] = len(c.P.Pkgs)
		cov["functions_in_program"] = len(c.P.AllFuncs)
	}
	ev := map[string]any{"property": r.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": wall, "violations": len(res.violations)}
	bs, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, r.ID+".json"), bs, 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
	seenK := map[string]bool{}
	for _, k := range res.knowns {
		if !seenK[k] {
			fmt.Printf("KNOWN-FINDING: %s\n", k)
			seenK[k] = true
		}
	}
	if len(res.violations) == 0 {
		fmt.Printf("%s ok: %d obligations of %d rules at %d sites in %d functions, %.2fs\n", r.ID, len(c.Obls), len(per), len(sites), len(fns), wall)
		return false
	}
	var sb strings.Builder
	seenV := map[string]bool{}
	for _, o := range res.violations {
		if k := o.Pos + o.Rule + o.Msg; seenV[k] {
			continue
		} else {
			seenV[k] = true
		}
		fmt.Fprintf(&sb, "%s: %s: [%s] %s: %s\n", r.ID, o.Pos, o.Rule, o.Fn, o.Msg)
	}
	rp := filepath.Join(dir, r.ID+".violation.txt")
	_ = os.WriteFile(rp, []byte(sb.String()), 0o644)
	s := sb.String()
	if len(s) > 6000 {
		s = s[:6000] + "...\n"
	}
	fmt.Print(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, rp)
	return true
}

// deadBlocks lists the blocks of analysed functions that no analysis reached: a
// debugging aid, since an analysis that is wrong about a condition shows here.
func deadBlocks(P *Program) {
	fns := map[*ssa.Function]bool{}
	for b := range P.Visited {
		fns[b.Parent()] = true
	}
	for _, fn := range P.AllFuncs {
		if !fns[fn] {
			if os.Getenv("CK_DEAD") == "2" && fn.Blocks != nil {
				fmt.Println("not analysed", fn)
			}
			continue
		}
		for _, b := range fn.Blocks {
			if !P.Visited[b] && b != fn.Recover {
				for _, i := range b.Instrs {
					if i.Pos().IsValid() {
						fmt.Println("dead", fn, b.Index, P.Pos(i))
						break
					}
				}
			}
		}
	}
}
