S = "server/server.go"
R = "server/route.go"
P = "api/proxy.go"
D = "api/extend/deployment.go"
M = "store/memory/memory.go"
import glob, os
D = [os.path.relpath(p, "/repo") for p in glob.glob("/repo/api/extend/*.go") if not p.endswith("_test.go")][0]
AUTH = '''				if route.authRequired && token != "" {
					if !strings.Contains(r.Header.Get("Authorization"), token) {
						jsonResp(writer, http.StatusUnauthorized, v1.Status{
							Status:  string(v1.StatusReasonUnauthorized),
							Message: "token missing or error",
							Reason:  v1.StatusReason("token missing or error"),
							Code:    401,
						})
						return
					}
				}
'''
DEFER = '''				defer func() {
					// deal 500 error
					if err := recover(); err != nil {
						log.Errorf("%s:%s request error: %v", r.Method, route.path, err)
						debug.PrintStack()
						jsonResp(writer, http.StatusInternalServerError, err)
					}
				}()
'''
# C19
bug("s-auth-empty-header", "C19", (S, '!strings.Contains(r.Header.Get("Authorization"), token)', '!strings.Contains(token, r.Header.Get("Authorization"))'))
bug("s-auth-get-only", "C19", (S, 'if route.authRequired && token != "" {', 'if route.authRequired && token != "" && r.Method != "HEAD" {'))
bug("s-auth-twice", "C19", (S, 'if !strings.Contains(r.Header.Get("Authorization"), token) {', 'if !strings.Contains(r.Header.Get("Authorization"), common.GetConfig().Token) {'))
bug("s-auth-noreturn", "C19", (S, '''							Code:    401,
						})
						return
''', '''							Code:    401,
						})
'''))
bug("s-auth-403", "C19", (S, "http.StatusUnauthorized, v1", "http.StatusForbidden, v1"))
bug("s-auth-query", "C19", (S, 'r.Header.Get("Authorization"), token) {', 'r.Header.Get("Authorization"), token) && r.URL.Query().Get("token") != token {'))
bug("s-route-noauth", "C19", (R, '''			path:          "/apis/{group}/{version}/{resourceType}",
			handler:       api.Proxy,
			authRequired:  true,
''', '''			path:          "/apis/{group}/{version}/{resourceType}",
			handler:       api.Proxy,
'''))
bug("s-healthy-auth", "C19", (R, '''			path:   "/healthy",
			method: "GET",
''', '''			path:   "/healthy",
			method: "GET",
			authRequired: true,
'''))
# C20
bug("s-norecover", "C20", (S, DEFER, "				defer debug.FreeOSMemory()\n"))
bug("s-recover-silent", "C20", (S, "						jsonResp(writer, http.StatusInternalServerError, err)\n", "						writer.Header().Set(\"X-Error\", \"panic\")\n"))
bug("s-recover-error-only", "C20", (S, "if err := recover(); err != nil {", "if err, ok := recover().(error); ok {"))
bug("s-error-200", "C20", (S, "					panic(res)\n", "					status = route.successStatus\n"))
bug("s-status-ptr", "C20", (S, '''				case *v1.Status:
					status = int(res.Code)
''', '''				case *v1.Status:
					status = route.successStatus
'''))
bug("s-bytes-json", "C20", (S, '''				case []byte:
					_, _ = writer.Write(res)
					return
''', ''))
bug("s-success-status", "C20", (R, '''			path:          "/api/{version}/{resourceType}",
			handler:       api.Proxy,
			authRequired:  true,
			successStatus: 200,
''', '''			path:          "/api/{version}/{resourceType}",
			handler:       api.Proxy,
			authRequired:  true,
'''))
bug("s-captured-store", "C20", (S, '''	ser.registerRoutes(ser.router, routeHandles)''', '''	ser.registerRoutes(ser.router, routeHandles, s)'''), (S, "registerRoutes(router *mux.Router, handleRoutes []route) {", "registerRoutes(router *mux.Router, handleRoutes []route, first store.Store) {"), (S, "s, clis := m.store, m.clusterClients", "s, clis := first, m.clusterClients"))
bug("s-reset-clients", "C20", (S, '''	m.store = s
	m.clusterClients = clis
''', '''	m.store = s
	if m.clusterClients == nil {
		m.clusterClients = clis
	}
'''))
bug("s-writer-once", "C20", (S, '''	w.status = status
	w.ResponseWriter.WriteHeader(status)
''', '''	if w.status != 0 {
		return
	}
	w.status = status
	if status != 200 {
		w.ResponseWriter.WriteHeader(status)
	}
'''))
bug("s-middleware-skip", "C20", (S, "		next.ServeHTTP(&sw, r)\n", "		if r.RequestURI != \"*\" {\n			next.ServeHTTP(&sw, r)\n		}\n"))
# C34
bug("s-route-order", "C34", (R, '''		// single resources
''', '''		{
			path:          "/apis/{group}/{version}/{resourceType}/{resource}/{subresource}",
			handler:       api.Proxy,
			authRequired:  true,
			successStatus: 200,
		},
		// single resources
'''))
bug("s-route-swap", "C34", (R, '"/apis/{group}/{version}/namespaces/{namespace}/{resourceType}/{resource}"', '"/apis/{group}/{version}/namespaces/{namespace}/{resource}/{resourceType}"'))
bug("s-route-proxy-get", "C34", (R, '''			path:          "/",
			prefix:        true,
''', '''			path:          "/api",
			prefix:        true,
'''))
bug("s-route-core-ns", "C34", (R, '"/api/{version}/namespaces/{namespace}/{resourceType}"', '"/api/v1/namespaces/{namespace}/{resourceType}"'))
bug("s-route-first", "C34", (R, '''		// healthy
''', '''		{
			path:          "/api/{version}",
			prefix:        true,
			method:        "GET",
			handler:       api.Proxy,
			authRequired:  true,
			successStatus: 200,
		},
		// healthy
'''))
# C18
bug("s-edit-cached", "C18", (P, '''	var items = make([]interface{}, 0)''', '''	var items = make([]interface{}, 0)''') if False else (P, '''		items = res.Items
		total = res.Total
''', '''		items = res.Items
		for _, it := range items {
			if o, ok := it.(v1.Object); ok {
				o.SetManagedFields(nil)
			}
		}
		total = res.Total
'''))
bug("s-edit-labels", "C18", (P, '''			l := findLabels(item)
''', '''			l := findLabels(item)
			if l != nil {
				l["kubernetes.io/metadata.name"] = "x"
			}
'''))
bug("s-unmarshal-cached", "C18", (D, "		svc := &v1.Service{}\n", "		svc, _ := svcIf.(*v1.Service)\n		if svc == nil {\n			svc = &v1.Service{}\n		} else {\n			svc.Spec.ClusterIP = \"\"\n		}\n"))
bug("s-query-index", "C18", (M, "					if ok, err := query.Match(obj.Index); ok {", "					obj.Index[\"namespace\"] = string(ns)\n					if ok, err := query.Match(obj.Index); ok {"))
bug("s-get-edit", "C18", (M, '''			return o.Obj
''', '''			if mo, ok := o.Obj.(v1.Object); ok && mo.GetAnnotations() == nil {
				mo.SetAnnotations(map[string]string{})
			}
			return o.Obj
'''))
# behaviour kept
same("s-auth-helper", (S, AUTH, '''				if route.authRequired && !authorized(r) {
					jsonResp(writer, http.StatusUnauthorized, v1.Status{
						Status:  string(v1.StatusReasonUnauthorized),
						Message: "token missing or error",
						Reason:  v1.StatusReason("token missing or error"),
						Code:    401,
					})
					return
				}
'''), (S, "				token := common.GetConfig().Token\n", ""), (S, "func jsonResp(", '''func authorized(r *http.Request) bool {
	token := common.GetConfig().Token
	return token == "" || strings.Index(r.Header.Get("Authorization"), token) >= 0
}

func jsonResp('''))
same("s-serve-method", (S, "			rt.HandlerFunc(func(writer http.ResponseWriter, r *http.Request) {", "			rt.Handler(http.HandlerFunc(func(writer http.ResponseWriter, r *http.Request) {"), (S, '''				jsonResp(writer, status, res)
			})
		}(r)''', '''				jsonResp(writer, status, res)
			}))
		}(r)'''))
same("s-result-ifs", (S, '''				case string:
					_, _ = writer.Write([]byte(res))
					return
				case []byte:
					_, _ = writer.Write(res)
					return
				default:
					status = route.successStatus
				}
				jsonResp(writer, status, res)
''', '''				case string:
					_, _ = writer.Write([]byte(res))
					return
				case []byte:
					_, _ = writer.Write(res)
					return
				}
				if status == 0 {
					status = route.successStatus
				}
				jsonResp(writer, status, res)
''')) if False else None
same("s-current", (S, '''				m.lock.RLock()
				s, clis := m.store, m.clusterClients
				m.lock.RUnlock()
''', '''				s, clis := m.current()
'''), (S, "func jsonResp(", '''func (m *muxServer) current() (store.Store, map[string]kubernetes.Interface) {
	m.lock.RLock()
	defer m.lock.RUnlock()
	return m.store, m.clusterClients
}

func jsonResp('''))
same("s-snapshot", (S, '''	store          store.Store
	clusterClients map[string]kubernetes.Interface
}''', '''	state          serving
}

type serving struct {
	store   store.Store
	clients map[string]kubernetes.Interface
}'''), (S, '''		clusterClients: clusterClients,
		store:          s,
''', '''		state:          serving{s, clusterClients},
'''), (S, "s, clis := m.store, m.clusterClients", "st := m.state\n				s, clis := st.store, st.clients"), (S, '''	m.store = s
	m.clusterClients = clis
''', '''	m.state = serving{store: s, clients: clis}
'''))
same("s-routes-prefix", (R, '"/api/{version}/{resourceType}"', 'core + "/{resourceType}"'), (R, "var (\n	routeHandles", 'const core = "/api/{version}"\n\nvar (\n	routeHandles'))
same("s-route-reorder", (R, '''		// metrics url
		{
			path:    "/metrics",
			method:  "GET",
			handler: prommonitor.PromHandler,
		},
''', ''), (R, '''		// healthy
''', '''		// metrics url
		{
			path:    "/metrics",
			method:  "GET",
			handler: prommonitor.PromHandler,
		},
		// healthy
'''))
same("s-switch-prefix", (S, '''				if r.method != "" {
					rt = rt.Methods(route.method)
				} else {''', '''				switch {
				case route.method != "":
					rt = rt.Methods(route.method)
				default:'''))
same("s-loop", (S, '''	for _, r := range handleRoutes {
		func(route route) {
''', '''	for i := range handleRoutes {
		r := handleRoutes[i]
		func(route route) {
'''))
same("s-copy-items", (P, '''		items = res.Items
		total = res.Total
''', '''		items = append(items, res.Items...)
		total = res.Total
'''))
same("s-copy-object", (P, '''			l := findLabels(item)
''', '''			l := map[string]string{}
			for k, v := range findLabels(item) {
				l[k] = v
			}
			l["x"] = "y"
			delete(l, "x")
''')) if False else None
