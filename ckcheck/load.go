package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/DaoCloud/ckube"

// Program is the type-checked and SSA-built repository.
type Program struct {
	// Visited, when not nil, collects the blocks the analyses reached (CK_DEAD).
	Visited  map[*ssa.BasicBlock]bool
	Root     string
	Pkgs     []*packages.Package
	Prog     *ssa.Program
	Fset     *token.FileSet
	ByPath   map[string]*ssa.Package
	PkgInfo  map[string]*packages.Package
	AllFuncs []*ssa.Function // functions of the repository, with closures
	gfuncs   map[string]*ssa.Function
	effMemo  map[*ssa.Function]*effect
	cglobals map[*ssa.Global]bool
}

func loadProgram(root string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile,
		Dir: root,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off"),
	}
	// small generic libraries whose functions are followed like the repository's
	pats := append([]string{"./..."}, inlinedLibs...)
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	ok := pkgs[:0:0]
	for _, p := range pkgs {
		if !(p.PkgPath == modPath || strings.HasPrefix(p.PkgPath, modPath+"/")) && len(p.Errors) > 0 {
			continue // a helper package the tree does not use
		}
		ok = append(ok, p)
	}
	pkgs = ok
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{Root: root, Prog: prog, Fset: prog.Fset, ByPath: map[string]*ssa.Package{}, PkgInfo: map[string]*packages.Package{}, gfuncs: map[string]*ssa.Function{}, effMemo: map[*ssa.Function]*effect{}}
	for i, sp := range spkgs {
		if p := pkgs[i].PkgPath; p == modPath || strings.HasPrefix(p, modPath+"/") {
			P.Pkgs = append(P.Pkgs, pkgs[i])
		}
		if sp != nil {
			P.ByPath[pkgs[i].PkgPath] = sp
			P.PkgInfo[pkgs[i].PkgPath] = pkgs[i]
		}
	}
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		if P.inRepo(fn) && fn.Blocks != nil {
			P.AllFuncs = append(P.AllFuncs, fn)
		}
	}
	sort.Slice(P.AllFuncs, func(i, j int) bool {
		a, b := P.AllFuncs[i], P.AllFuncs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	P.findGlobalFuncs()
	return P, nil
}

func fnPkg(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// inlinedLibs are generic helper packages; calls of their functions are
// followed instead of being modelled.
var inlinedLibs = []string{"github.com/samber/lo", "slices", "maps"}

// followed: code of the repository, or of one of the helper packages.
func (P *Program) followed(fn *ssa.Function) bool {
	if P.inRepo(fn) {
		return true
	}
	p := fnPkg(fn)
	for _, l := range inlinedLibs {
		if p == l {
			return !strings.Contains(strings.ToLower(fn.Name()), "sort") && !strings.Contains(fn.Name(), "BinarySearch")
		}
	}
	return false
}

func (P *Program) inRepo(fn *ssa.Function) bool {
	p := fnPkg(fn)
	return p == modPath || strings.HasPrefix(p, modPath+"/")
}

// inRepoRecv: a synthetic wrapper (bound method, promoted method) around
// repository code.
func (P *Program) inRepoRecv(fn *ssa.Function) bool {
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		p := o.Pkg().Path()
		return p == modPath || strings.HasPrefix(p, modPath+"/")
	}
	return false
}

// findGlobalFuncs records package-level function variables that are assigned
// exactly once, in the package initialiser.
func (P *Program) findGlobalFuncs() {
	stores := map[*ssa.Global]int{}
	val := map[*ssa.Global]ssa.Value{}
	for _, fn := range P.AllFuncs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						stores[g]++
						val[g] = s.Val
					}
				}
			}
		}
	}
	for g, n := range stores {
		if n == 1 {
			if f, ok := val[g].(*ssa.Function); ok {
				P.gfuncs[g.Pkg.Pkg.Path()+"."+g.Name()] = f
			}
		}
	}
}

func (P *Program) globalFunc(name string) *ssa.Function { return P.gfuncs[name] }

// Func finds a package-level function ("api.Proxy").
func (P *Program) Func(name string) *ssa.Function {
	name = strings.TrimPrefix(name, modPath+"/")
	i := strings.LastIndex(name, ".")
	sp := P.ByPath[modPath+"/"+name[:i]]
	if sp == nil {
		return nil
	}
	return sp.Func(name[i+1:])
}

// Method finds the method of a named type (pointer receiver set).
func (P *Program) MethodOf(T types.Type, name string) *ssa.Function {
	ms := P.Prog.MethodSets.MethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return P.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (P *Program) Type(name string) types.Type {
	name = strings.TrimPrefix(name, modPath+"/")
	i := strings.LastIndex(name, ".")
	sp := P.ByPath[modPath+"/"+name[:i]]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name[i+1:])
	if o == nil {
		return nil
	}
	return o.Type()
}

// Impls lists the repository's concrete types (as pointer types) that
// implement the interface and are not merely embedding it: declared methods
// only.
func (P *Program) Impls(iface string) []types.Type {
	it := P.Type(iface)
	if it == nil {
		return nil
	}
	I, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, p := range P.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			T := tn.Type()
			if _, ok := T.Underlying().(*types.Interface); ok {
				continue
			}
			if nt, ok := T.(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			pt := types.NewPointer(T)
			if types.Implements(pt, I) {
				out = append(out, pt)
			}
		}
	}
	return out
}

func (P *Program) Pos(i ssa.Instruction) string {
	p := i.Pos()
	if !p.IsValid() {
		// nearest positioned instruction of the block
		for _, x := range i.Block().Instrs {
			if x.Pos().IsValid() {
				p = x.Pos()
				if x == i {
					break
				}
			}
		}
	}
	if !p.IsValid() {
		p = i.Parent().Pos()
	}
	return P.PosStr(p)
}

func (P *Program) PosStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := P.Fset.Position(p)
	f, err := filepath.Rel(P.Root, ps.Filename)
	if err != nil {
		f = ps.Filename
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// ---- effects ------------------------------------------------------------------

type effect struct {
	pure     bool
	bumps    bool // changes the state of its receiver
	noreturn bool
	w        map[int]bool
	wAll     bool
	wf       map[int]map[string]bool // the only fields of the pointee written, if known
}

func (e *effect) writes(k int) bool { return e.wAll || e.w[k] }

var purePkgs = []string{
	"strings.", "strconv.", "unicode.", "path.", "path/filepath.", "errors.", "math.", "regexp.", "html.", "bytes.",
	"unicode/utf8.", "slices.", "maps.", "cmp.", "reflect.", "(reflect.", "encoding/base64.", "(*encoding/base64.", "(encoding/base64.",
	"github.com/samber/lo.", "(time.Duration)", "(time.Time)", "(net/http.Header).Get", "(net/http.Header).Values",
	"k8s.io/apimachinery/pkg/labels.", "(k8s.io/apimachinery/pkg/labels.", "k8s.io/apimachinery/pkg/selection.",
	"(*k8s.io/apimachinery/pkg/labels.", "k8s.io/apimachinery/pkg/fields.", "(k8s.io/apimachinery/pkg/runtime/schema.",
	"k8s.io/apimachinery/pkg/apis/meta/v1.FormatLabelSelector", "k8s.io/apimachinery/pkg/apis/meta/v1.LabelSelectorAsSelector",
	"k8s.io/apimachinery/pkg/apis/meta/v1.IsControlledBy", "k8s.io/apimachinery/pkg/apis/meta/v1.GetControllerOf",
	"k8s.io/apimachinery/pkg/api/errors.", "(k8s.io/apimachinery/pkg/util/sets.", "k8s.io/apimachinery/pkg/util/sets.",
	"golang.org/x/exp/", "net/url.QueryEscape", "net/url.Parse", "net/url.PathEscape", "(os.FileMode)", "(io/fs.FileInfo)", "(io/fs.FileMode)",
	"(github.com/fsnotify/fsnotify.Op)", "(github.com/fsnotify/fsnotify.Event)",
}

var pureNames = map[string]bool{
	"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true,
	"encoding/json.Marshal": true, "encoding/json.MarshalIndent": true, "encoding/json.Valid": true,
	"k8s.io/apimachinery/pkg/util/json.Marshal": true,
	"github.com/gorilla/mux.Vars":               true,
	"(*net/url.URL).String":                     true, "(*net/url.URL).RequestURI": true, "(*net/url.URL).EscapedPath": true,
	"(net/url.Values).Encode":          true,
	"(*net/http.Request).Context":      true,
	"(net/http.ResponseWriter).Header": true,
	"(error).Error":                    true,
	"(context.Context).Done":           true,
	"(context.Context).Err":            false,
	"sort.SearchStrings":               true,
	"os.Getenv":                        true,
	"sort.StringsAreSorted":            true,
	"net/http.StatusText":              true,
	"net/http.CanonicalHeaderKey":      true,
	"(*bytes.Buffer).String":           true, "(*bytes.Buffer).Bytes": true, "(*bytes.Buffer).Len": true,
	"(*strings.Builder).String": true, "(*strings.Builder).Len": true,
	"(github.com/DaoCloud/ckube/store.Store).IsStoreGVR":         true,
	"(k8s.io/client-go/kubernetes.Interface).Discovery":          true,
	"(k8s.io/client-go/discovery.DiscoveryInterface).RESTClient": true,
	"(k8s.io/apimachinery/pkg/watch.Interface).ResultChan":       true,
	"(*k8s.io/apimachinery/pkg/runtime.Scheme).KnownTypes":       true,
	"(*k8s.io/apimachinery/pkg/runtime.Scheme).Recognizes":       true,
	"github.com/DaoCloud/ckube/common.GetGVRKind":                true,
}

// pure bytes/… methods that are not
var notPure = map[string]bool{
	"strings.NewReader": true, "strings.NewReplacer": true, "bytes.NewBuffer": true, "bytes.NewReader": true, "bytes.NewBufferString": true,
	"reflect.Copy": true, "(reflect.Value).Call": true, "(reflect.Value).Recv": true, "reflect.New": true, "reflect.MakeMap": true,
	"(k8s.io/apimachinery/pkg/util/sets.String).PopAny": true, "(k8s.io/apimachinery/pkg/util/sets.Set).PopAny": true,
	"(k8s.io/apimachinery/pkg/util/sets.String).Insert": true, "(k8s.io/apimachinery/pkg/util/sets.String).Delete": true,
	"maps.Copy": true, "maps.DeleteFunc": true, "slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true,
	"regexp.MustCompile": true,
}

var noEffect = []string{
	"github.com/sirupsen/logrus.", "(*github.com/sirupsen/logrus.", "(github.com/sirupsen/logrus.", "fmt.Print", "log.", "fmt.Fprint",
	"var github.com/DaoCloud/ckube/log.", "github.com/DaoCloud/ckube/log.", "runtime/debug.",
	"k8s.io/klog", "(k8s.io/klog",
}

var argWriters = map[string][]int{
	"encoding/json.Unmarshal": {1},
	"errors.As":               {1},
	"k8s.io/apimachinery/pkg/util/json.Unmarshal": {1},
	"sigs.k8s.io/yaml.Unmarshal":                  {1},
	"sigs.k8s.io/yaml.UnmarshalStrict":            {1},
	"(*encoding/json.Decoder).Decode":             {1},
	"(io.Reader).Read":                            {1},
	"(io.ReadCloser).Read":                        {1},
	"(*bufio.Reader).Read":                        {1},
	"(*bytes.Buffer).Read":                        {1},
	"(*os.File).Read":                             {1},
	"io.ReadFull":                                 {1},
	"io.ReadAtLeast":                              {1},
	"sort.Strings":                                {0},
	"sort.Slice":                                  {0},
	"sort.SliceStable":                            {0},
	"sort.Sort":                                   {0},
	"sort.Stable":                                 {0},
	"flag.StringVar":                              {0},
	"flag.BoolVar":                                {0},
	"flag.IntVar":                                 {0},
	"flag.Int64Var":                               {0},
	"flag.Var":                                    {0},
	"maps.Copy":                                   {0},
	"maps.DeleteFunc":                             {0},
	"(k8s.io/apimachinery/pkg/util/sets.String).PopAny": {0},
}

func hasAnyPrefix(s string, ps []string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

func isLog(name string) bool { return hasAnyPrefix(name, noEffect) }

func metaGetter(name string) bool {
	for _, p := range []string{"(k8s.io/apimachinery/pkg/apis/meta/v1.Object).", "(k8s.io/apimachinery/pkg/apis/meta/v1.ListInterface).", "(*k8s.io/apimachinery/pkg/apis/meta/v1.ObjectMeta)."} {
		if strings.HasPrefix(name, p) {
			return strings.HasPrefix(name[len(p):], "Get")
		}
	}
	return false
}

func (P *Program) effectOf(name string, fn *ssa.Function) *effect {
	if v, ok := pureNames[name]; ok {
		return &effect{pure: v}
	}
	if notPure[name] || argWriters[name] != nil {
		e := &effect{w: map[int]bool{}, bumps: strings.HasPrefix(name, "(")}
		for _, k := range argWriters[name] {
			e.w[k] = true
		}
		return e
	}
	if hasAnyPrefix(name, purePkgs) || metaGetter(name) {
		return &effect{pure: true}
	}
	if isLog(name) {
		return &effect{}
	}
	switch name {
	case "github.com/DaoCloud/ckube/common.GetConfig", "github.com/DaoCloud/ckube/common.InitConfig":
		return &effect{}
	case "os.Exit", "log.Fatal", "log.Fatalf", "runtime.Goexit":
		return &effect{noreturn: true}
	}
	if fn != nil && P.inRepo(fn) && fn.Blocks != nil {
		return P.repoEffect(fn, nil)
	}
	e := &effect{bumps: strings.HasPrefix(name, "(")}
	if strings.HasSuffix(name, ").Read") {
		e.w = map[int]bool{1: true}
	}
	return e
}

// repoEffect summarises a repository function that is treated as a unit: is
// its result a function of its arguments' contents, and which arguments'
// pointees may it write?
func (P *Program) repoEffect(fn *ssa.Function, busy map[*ssa.Function]bool) *effect {
	if e, ok := P.effMemo[fn]; ok {
		return e
	}
	if busy == nil {
		busy = map[*ssa.Function]bool{}
	}
	if busy[fn] {
		return &effect{pure: true, w: map[int]bool{}}
	}
	busy[fn] = true
	e := &effect{pure: true, w: map[int]bool{}}
	paramIdx := map[ssa.Value]int{}
	for i, p := range fn.Params {
		paramIdx[p] = i
	}
	// root: parameter index, -1 local, -2 unknown/global
	var root func(v ssa.Value, seen map[ssa.Value]bool) []int
	root = func(v ssa.Value, seen map[ssa.Value]bool) []int {
		if seen[v] {
			return nil
		}
		seen[v] = true
		if i, ok := paramIdx[v]; ok {
			return []int{i}
		}
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Const, *ssa.MakeChan:
			if a, ok := x.(*ssa.Alloc); ok {
				// what was stored into it may be reached through it
				var out []int
				for _, ref := range *a.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == a && isPtrish(s.Val.Type()) {
						out = append(out, root(s.Val, seen)...)
					}
				}
				return append(out, -1)
			}
			return []int{-1}
		case *ssa.Global:
			return []int{-2}
		case *ssa.FieldAddr:
			return root(x.X, seen)
		case *ssa.IndexAddr:
			return root(x.X, seen)
		case *ssa.Field:
			return root(x.X, seen)
		case *ssa.Index:
			return root(x.X, seen)
		case *ssa.UnOp:
			return root(x.X, seen)
		case *ssa.Slice:
			return root(x.X, seen)
		case *ssa.Extract:
			return root(x.Tuple, seen)
		case *ssa.Lookup:
			return root(x.X, seen)
		case *ssa.Phi:
			var out []int
			for _, ed := range x.Edges {
				out = append(out, root(ed, seen)...)
			}
			return out
		case *ssa.MakeInterface:
			return root(x.X, seen)
		case *ssa.ChangeType:
			return root(x.X, seen)
		case *ssa.Convert:
			return root(x.X, seen)
		case *ssa.TypeAssert:
			return root(x.X, seen)
		case *ssa.Call:
			return []int{-1}
		case *ssa.FreeVar:
			return []int{-1}
		}
		return []int{-2}
	}
	e.wf = map[int]map[string]bool{}
	whole := map[int]bool{}
	// fieldOf: v addresses (part of) one field of what a parameter points to
	fieldOf := func(v ssa.Value) (int, string) {
		name := ""
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				name, _ = fieldName(deref(x.X.Type()), x.Field)
				v = x.X
				continue
			case *ssa.Parameter:
				if name == "" {
					return -1, ""
				}
				return paramIdx[x], name
			}
			return -1, ""
		}
	}
	mark := func(v ssa.Value) {
		if k, f := fieldOf(v); f != "" {
			e.w[k] = true
			if e.wf[k] == nil {
				e.wf[k] = map[string]bool{}
			}
			e.wf[k][f] = true
			return
		}
		for _, r := range root(v, map[ssa.Value]bool{}) {
			if r >= 0 {
				e.w[r] = true
				whole[r] = true
			} else if r == -2 {
				e.pure = false
			}
		}
	}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					mark(x.Addr)
				case *ssa.MapUpdate:
					mark(x.Map)
				case *ssa.UnOp:
					if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
						if P.gfuncs[g.Pkg.Pkg.Path()+"."+g.Name()] == nil && !strings.HasSuffix(g.Pkg.Pkg.Path(), "/log") {
							// reads mutable global state: only constants tables stay pure
							if strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && !P.constGlobals()[g] {
								e.pure = false
							}
						}
					}
					if x.Op == token.ARROW {
						e.pure = false
					}
				case *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Panic:
					e.pure = false
				case *ssa.MakeClosure:
					scan(x.Fn.(*ssa.Function))
				case ssa.CallInstruction:
					c := x.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						if bi.Name() == "delete" || bi.Name() == "copy" {
							mark(c.Args[0])
						}
						if bi.Name() == "recover" || bi.Name() == "close" {
							e.pure = false
						}
						continue
					}
					var sub *effect
					args := c.Args
					if c.IsInvoke() {
						sub = P.effectOf(c.Method.FullName(), nil)
						args = append([]ssa.Value{c.Value}, args...)
					} else if sf := c.StaticCallee(); sf != nil {
						if sf.Blocks != nil && P.inRepo(sf) {
							if sf.Parent() != nil {
								continue // scanned as closure
							}
							sub = P.repoEffect(sf, busy)
						} else {
							sub = P.effectOf(funcName(sf), sf)
						}
						if isLog(funcName(sf)) {
							continue
						}
					} else {
						if u, ok := c.Value.(*ssa.UnOp); ok {
							if g, ok := u.X.(*ssa.Global); ok && strings.HasSuffix(g.Pkg.Pkg.Path(), "/log") {
								continue
							}
						}
						if _, ok := c.Value.(*ssa.FreeVar); ok {
							continue
						}
						e.pure = false
						continue
					}
					for k, a := range args {
						if !sub.writes(k) {
							continue
						}
						if pi, ok := paramIdx[a]; ok && !sub.wAll && len(sub.wf[k]) > 0 {
							e.w[pi] = true
							if e.wf[pi] == nil {
								e.wf[pi] = map[string]bool{}
							}
							for f := range sub.wf[k] {
								e.wf[pi][f] = true
							}
							continue
						}
						mark(a)
					}
					if sub.bumps && len(args) > 0 {
						mark(args[0])
						// a fresh local object (buffer, builder) may be driven freely
					}
					if !sub.pure && !localOnly(sub, args, root) {
						e.pure = false
					}
				}
			}
		}
	}
	scan(fn)
	delete(busy, fn)
	for k := range whole {
		delete(e.wf, k)
	}
	if len(e.w) > 0 {
		e.pure = false
	}
	P.effMemo[fn] = e
	return e
}

func localOnly(e *effect, args []ssa.Value, root func(ssa.Value, map[ssa.Value]bool) []int) bool {
	if !e.bumps && len(e.w) == 0 {
		return false
	}
	chk := func(v ssa.Value) bool {
		for _, r := range root(v, map[ssa.Value]bool{}) {
			if r != -1 {
				return false
			}
		}
		return true
	}
	if e.bumps && len(args) > 0 && !chk(args[0]) {
		return false
	}
	for k := range e.w {
		if k < len(args) && !chk(args[k]) {
			return false
		}
	}
	return true
}

func isPtrish(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Chan:
		return true
	}
	return false
}
