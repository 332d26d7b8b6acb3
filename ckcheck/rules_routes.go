package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// tmpl is a parsed path template: literal segments and variables.
type tmpl struct {
	segs   []string // "{name}" is a variable
	prefix bool
}

func parseTmpl(r *srvRoute) tmpl {
	p := r.path
	if !strings.HasPrefix(p, "/") {
		giveUp(r.at, "the path of route %s does not begin with a slash", r)
	}
	t := tmpl{prefix: r.prefix}
	for _, s := range strings.Split(p[1:], "/") {
		switch {
		case strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}"):
			n := s[1 : len(s)-1]
			if i := strings.Index(n, ":"); i >= 0 {
				if n[i+1:] != "[^/]+" {
					giveUp(r.at, "the pattern of a variable of route %s is not understood", r)
				}
				n = n[:i]
			}
			s = "{" + n + "}"
		case strings.ContainsAny(s, "{}"):
			giveUp(r.at, "a segment of route %s is not understood", r)
		}
		t.segs = append(t.segs, s)
	}
	return t
}

// match a path given by its segments (a trailing slash gives an empty last one).
func (t tmpl) match(path []string) (map[string]string, bool) {
	vars := map[string]string{}
	n := len(t.segs)
	if t.prefix {
		last := t.segs[n-1]
		if len(path) < n {
			return nil, false
		}
		for i, s := range t.segs {
			p := path[i]
			switch {
			case strings.HasPrefix(s, "{"):
				if p == "" {
					return nil, false
				}
				vars[s[1:len(s)-1]] = p
			case i == n-1:
				if !strings.HasPrefix(p, last) {
					return nil, false
				}
			case s != p:
				return nil, false
			}
		}
		return vars, true
	}
	if len(path) != n {
		return nil, false
	}
	for i, s := range t.segs {
		if strings.HasPrefix(s, "{") {
			if path[i] == "" {
				return nil, false
			}
			vars[s[1:len(s)-1]] = path[i]
		} else if s != path[i] {
			return nil, false
		}
	}
	return vars, true
}

// apiPath is what a path of the Kubernetes API names.
func apiPath(p []string) (map[string]string, bool) {
	v := map[string]string{"group": "", "version": "", "namespace": "", "resourceType": "", "resource": ""}
	switch {
	case len(p) > 2 && p[0] == "api":
		v["version"] = p[1]
		p = p[2:]
	case len(p) > 3 && p[0] == "apis":
		v["group"], v["version"] = p[1], p[2]
		p = p[3:]
	default:
		return nil, false
	}
	for _, s := range p {
		if s == "" {
			return nil, false
		}
	}
	if len(p) >= 3 && p[0] == "namespaces" {
		v["namespace"] = p[1]
		p = p[2:]
	}
	switch len(p) {
	case 1:
		v["resourceType"] = p[0]
	case 2:
		v["resourceType"], v["resource"] = p[0], p[1]
	default:
		return nil, false
	}
	return v, true
}

// deployPath is what a path of the services-of-a-deployment API names.
func deployPath(p []string) (map[string]string, bool) {
	v := map[string]string{"cluster": "", "namespace": "", "deployment": ""}
	if len(p) < 3 || p[0] != "custom" || p[1] != "v1" {
		return nil, false
	}
	p = p[2:]
	if len(p) == 7 && p[0] == "clusters" && p[1] != "" {
		v["cluster"] = p[1]
		p = p[2:]
	}
	if len(p) == 5 && p[0] == "namespaces" && p[2] == "deployments" && p[4] == "services" && p[1] != "" && p[3] != "" {
		v["namespace"], v["deployment"] = p[1], p[3]
		return v, true
	}
	return nil, false
}

func init() {
	register(&Rule{ID: "C34", Rule: "the registered route templates are matched, in order and with the router's method rules, against every class of paths (per position: each literal that occurs there, and any other segment; with and without trailing slash) and every method class; the handler and the bound variables must be the ones the grammar of Kubernetes API paths gives",
		Trust: []string{"gorilla/mux 1.8 matches the first route whose template and methods fit; variables match one non-empty segment"},
		Run: func(c *Ctx) {
			s := serverOf(c)
			type rt struct {
				*srvRoute
				tmpl
				name string
				fn   *ssa.Function
				h    *Event
			}
			var rts []rt
			lits := []map[string]bool{}
			add := func(i int, l string) {
				for len(lits) <= i {
					lits = append(lits, map[string]bool{})
				}
				if l != "" && !strings.HasPrefix(l, "{") {
					lits[i][l] = true
				}
			}
			for _, r := range s.routes {
				x := rt{srvRoute: r, tmpl: parseTmpl(r)}
				if !r.opaque {
					x.h, x.fn = s.handlerOf(r)
					x.name = funcName(x.fn)
				}
				rts = append(rts, x)
				for i, l := range x.segs {
					add(i, l)
				}
			}
			for _, g := range []string{"healthy", "metrics", "api/V/namespaces/NS/R/N", "apis/G/V/namespaces/NS/R/N", "custom/v1/namespaces/NS/deployments/D/services", "custom/v1/clusters/C/namespaces/NS/deployments/D/services"} {
				for i, l := range strings.Split(g, "/") {
					if strings.ToLower(l) != l {
						l = ""
					}
					add(i, l)
				}
			}
			depth := len(lits) + 1
			var paths [][]string
			var gen func(p []string)
			gen = func(p []string) {
				if len(p) > 0 {
					paths = append(paths, append([]string{}, p...), append(append([]string{}, p...), ""))
				} else {
					paths = append(paths, []string{""})
				}
				if len(p) == depth {
					return
				}
				i := len(p)
				if i < len(lits) {
					for _, l := range sortedKeys(lits[i]) {
						gen(append(p, l))
					}
				}
				gen(append(p, fmt.Sprintf("other%d", i)))
			}
			gen(nil)
			c.stats["paths"] = len(paths)
			methods := map[string]bool{"GET": true, "OTHER": true}
			for _, m := range []string{"HEAD", "POST", "PUT", "PATCH", "DELETE", "OPTIONS"} {
				methods[m] = true
			}
			for _, r := range rts {
				for m := range r.methods {
					methods[m] = true
				}
			}
			bad := map[string]int{}
			for _, p := range paths {
				for _, m := range sortedKeys(methods) {
					var hit *rt
					var vars map[string]string
					for i := range rts {
						r := &rts[i]
						v, ok := r.match(p)
						if !ok || r.methods != nil && !r.methods[m] {
							continue
						}
						hit, vars = r, v
						break
					}
					path := "/" + strings.Join(p, "/")
					fail := func(f string, a ...any) {
						k := "none"
						var at any = s.fn
						if hit != nil {
							k = hit.path
							at = hit.at
						}
						msg := fmt.Sprintf(f, a...)
						bad[k+msg]++
						if bad[k+msg] <= 1 {
							c.Ob("route", at, false, "%s %s: %s", m, path, msg)
						}
					}
					if hit == nil {
						if len(p) == 1 && (p[0] == "healthy" || p[0] == "metrics") {
							continue
						}
						fail("no route")
						continue
					}
					if len(p) == 1 && (p[0] == "healthy" || p[0] == "metrics") && (m == "GET" || m == "HEAD" || hit.name == proxyHandler) {
						if m == "GET" && (hit.path != "/"+p[0] || hit.name == proxyHandler || hit.name == deployHandler) {
							fail("is not answered by the server itself")
						}
						continue
					}
					if want, ok := deployPath(p); ok && m == "GET" {
						if hit.name != deployHandler {
							fail("does not reach the services of a deployment")
							continue
						}
						for k, w := range want {
							if vars[k] != w {
								fail("the %s is bound wrongly", k)
							}
						}
						continue
					} else if ok && m == "HEAD" && hit.name == deployHandler {
						continue
					}
					if hit.name != proxyHandler {
						fail("does not reach the API proxy")
						continue
					}
					want, ok := apiPath(p)
					switch {
					case !ok:
						if vars["resourceType"] != "" {
							fail("is taken for a list or an object")
						}
					case m != "GET" && vars["resourceType"] == "":
					default:
						for _, k := range sortedKeys(want) {
							if vars[k] != want[k] {
								fail("the %s is bound wrongly", k)
							}
						}
					}
				}
			}
			c.Ob("routes", s.fn, len(bad) == 0, "%d routes answer %d classes of paths for %d methods as the API path grammar says", len(rts), len(paths), len(methods))
			// the liveness answer
			for _, r := range rts {
				if r.path != "/healthy" || r.fn == nil {
					continue
				}
				in := newInterp(c.P)
				c.Analyse(in, r.fn, nil)
				wrote := bFalse
				for _, e := range in.calls(respIface+"Write", respIface+"WriteHeader") {
					if strings.HasSuffix(e.Name, "WriteHeader") {
						c.Ob("healthy", e, in.statusIs(e, 200), "the liveness answer has status 200")
					}
					wrote = in.Or(wrote, e.Guard)
				}
				ok := in.Implies(bTrue, wrote)
				for _, x := range in.Returns {
					ok = ok && (x.vals[0].isNil() || unwrapIface(x.vals[0]).Op == "const")
				}
				c.Ob("healthy", r.fn, ok, "the liveness handler always answers")
			}
			c.Min("healthy", 1)
			c.Min("routes", 1)
			s.external()
		}})
}

// external: the routes the server is made with come before its own.
func (s *serverFacts) external() {
	in, c := s.in, s.c
	var given *Term
	for i, p := range s.fn.Params {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok && s.fn.Signature.Variadic() {
			if _, ok := sl.Elem().Underlying().(*types.Signature); ok {
				given = in.Entry.params[i]
			}
		}
	}
	if given == nil {
		giveUp(s.fn, "the server is made without further routes")
	}
	n := 0
	for _, e := range in.kind("call") {
		if e.Name != "dynamic" {
			continue
		}
		for _, l := range in.Loops {
			if !inLoop(e, l) {
				continue
			}
			q := in.seqOf(l)
			if q == nil || q.seq != given {
				continue
			}
			of := false
			for _, a := range e.Args {
				of = of || q.isElem(a)
			}
			if !of {
				continue
			}
			n++
			c.Ob("external", e, in.complete(q) && in.Implies(q.more, e.Guard), "every further route is registered")
			for _, r := range s.routes {
				c.Ob("external", e, plain(e.Args[0]) == plain(r.at.Args[0]), "further routes go to the router that is served")
				c.Ob("external", r.at, e.ID < r.at.ID, "the routes of the server come after those it is made with (%s)", r)
			}
		}
	}
	c.Ob("external", s.fn, n == 1, "the further routes are registered once")
}
