package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func dump(repo string, args []string) {
	t0 := time.Now()
	P, err := loadProgram(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("loaded", time.Since(t0), len(P.AllFuncs))
	in := newInterp(P)
	in.NoLoads = true
	for _, a := range args[1:] {
		a := a
		if a == "server" {
			in.Unroll = 60
			old := in.Opaque
			h := handlerFuncs(P)
			in.Opaque = func(fn *ssa.Function) bool { return old(fn) || h[fn] }
		}
		if a == "boot" {
			bootOpaque(in)
		}
	}
	t0 = time.Now()
	fn := P.anyFunc(args[0])
	in.Run(fn, nil)
	fmt.Println("ran", time.Since(t0), "steps", in.steps, "terms", len(in.terms), "bdd", len(in.nodes), "atoms", len(in.atoms), "events", len(in.Events))
	for _, n := range in.Notes {
		fmt.Println("NOTE", n)
	}
	in.show()
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (in *Interp) show() {
	for _, e := range in.Events {
		if e.Kind == "mapget" || e.Kind == "index" || e.Kind == "range" || (e.Kind == "store" && e.Addr.Op == "alloc") || isLog(e.Name) {
			continue
		}
		as := ""
		for _, a := range e.Args {
			as += " ; " + in.S(a)
		}
		fmt.Printf("#%d %s %s %s [%s] cb=%v IF %s\n", e.ID, in.P.Pos(e.Instr), e.Kind, shortName(e.Name), cut(as, argCut()), len(e.Loops), cut(in.GS(e.Guard), guardCut()))
	}
	for _, l := range in.Loops {
		fmt.Println("LOOP", l.Key, l.Callback, "range", cut(in.S(l.RangeM), 100))
		if s := in.seqOf(l); s != nil {
			fmt.Println("   seq", cut(in.S(s.seq), 200), "idx", in.S(s.idx), in.complete(s))
		}
		for t, li := range in.loopInfo {
			if li.Loop != l {
				continue
			}
			triv := true
			for _, b := range li.Back {
				if b.T != t {
					triv = false
				}
			}
			if triv && os.Getenv("CK_TRIV") == "" {
				continue
			}
			fmt.Println("  var", in.S(t), "init", cut(in.S(li.Init), 100))
			for _, b := range li.Back {
				fmt.Println("      back", cut(in.S(b.T), 200), "IF", cut(in.GS(b.G), 200))
			}
		}
	}
	for _, r := range in.Returns {
		fmt.Print("RET ", in.P.Pos(r.in), " ")
		for _, v := range r.vals {
			fmt.Print(cut(in.S(v), 500), " ;; ")
		}
		fmt.Println(" IF", cut(in.GS(r.g), 300))
	}
	for _, n := range in.Notes {
		fmt.Println("NOTE", n)
	}
}

// anyFunc finds a function whose name ends with the given text.
func (P *Program) anyFunc(name string) *ssa.Function {
	for _, fn := range P.AllFuncs {
		if fn.Blocks != nil && strings.HasSuffix(fn.String(), name) {
			return fn
		}
	}
	fmt.Println("no such function")
	os.Exit(1)
	return nil
}

func guardCut() int {
	if n, err := strconv.Atoi(os.Getenv("CK_CUT")); err == nil {
		return n
	}
	return 250
}

func argCut() int {
	if n, err := strconv.Atoi(os.Getenv("CK_ARG")); err == nil {
		return n
	}
	return 250
}
