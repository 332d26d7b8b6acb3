P = "api/proxy.go"
bug("gate-allow-fieldselector", "C01", (P, '''		case "limit":
		default:''', '''		case "limit":
		case "fieldSelector":
		default:'''))
bug("gate-method-head", "C01", (P, '|| r.Request.Method != "GET" {', '|| (r.Request.Method != "GET" && r.Request.Method != "HEAD") {'))
bug("gate-drop-store", "C01", (P, 'if !r.Store.IsStoreGVR(gvr) || r.Request', 'if !r.Store.IsStoreGVR(gvr) && r.Request'))
bug("gate-single-before", "C01", (P, '''	for k, v := range r.Request.URL.Query() {
		switch k {
		case "labelSelector":
		case "timeout''', '''	if resourceName != "" && r.Store.IsStoreGVR(gvr) && r.Request.Method == "GET" {
		return ProxySingleResources(r, gvr, cluster, namespace, resourceName)
	}
	for k, v := range r.Request.URL.Query() {
		switch k {
		case "labelSelector":
		case "timeout'''))
bug("gate-limit-forward", "C01", (P, '''		case "limit":
		default:''', '''		default:'''))
bug("gate-key-len", "C01", (P, '''		default:
			log.Warnf("got unexpected''', '''		default:
			if len(v) == 0 || v[0] == "" {
				continue
			}
			log.Warnf("got unexpected'''))
same("gate-helper", (P, '''	for k, v := range r.Request.URL.Query() {
		switch k {
		case "labelSelector":
		case "timeoutSeconds":
		case "timeout":
		case "limit":
		default:
			log.Warnf("got unexpected query key: %s, value: %v, proxyPass to api server", k, v)
			return proxyPass(r, cluster)
		}
	}''', '''	if hasOther(r.Request.URL.Query()) {
		return proxyPass(r, cluster)
	}'''), (P, 'func Proxy(', '''func hasOther(q map[string][]string) bool {
	for k, v := range q {
		if k == "labelSelector" || k == "timeoutSeconds" || k == "timeout" || k == "limit" {
			continue
		}
		log.Warnf("got unexpected query key: %s, value: %v, proxyPass to api server", k, v)
		return true
	}
	return false
}

func Proxy('''))
same("gate-flag", (P, '''	for k, v := range r.Request.URL.Query() {
		switch k {
		case "labelSelector":
		case "timeoutSeconds":
		case "timeout":
		case "limit":
		default:
			log.Warnf("got unexpected query key: %s, value: %v, proxyPass to api server", k, v)
			return proxyPass(r, cluster)
		}
	}''', '''	other := false
	for k := range r.Request.URL.Query() {
		switch k {
		case "labelSelector", "timeoutSeconds", "timeout", "limit":
		default:
			other = true
		}
	}
	if other {
		return proxyPass(r, cluster)
	}'''))
same("gate-globalmap", (P, '''	for k, v := range r.Request.URL.Query() {
		switch k {
		case "labelSelector":
		case "timeoutSeconds":
		case "timeout":
		case "limit":
		default:
			log.Warnf("got unexpected query key: %s, value: %v, proxyPass to api server", k, v)
			return proxyPass(r, cluster)
		}
	}''', '''	for k, v := range r.Request.URL.Query() {
		if !okKeys[k] {
			log.Warnf("got unexpected query key: %s, value: %v, proxyPass to api server", k, v)
			return proxyPass(r, cluster)
		}
	}'''), (P, 'func Proxy(', '''var okKeys = map[string]bool{"labelSelector": true, "timeoutSeconds": true, "timeout": true, "limit": true}

func Proxy('''))
same("gate-globalset", (P, '''	for k, v := range r.Request.URL.Query() {
		switch k {
		case "labelSelector":
		case "timeoutSeconds":
		case "timeout":
		case "limit":
		default:
			log.Warnf("got unexpected query key: %s, value: %v, proxyPass to api server", k, v)
			return proxyPass(r, cluster)
		}
	}''', '''	for k, v := range r.Request.URL.Query() {
		if _, ok := okKeys[k]; !ok {
			log.Warnf("got unexpected query key: %s, value: %v, proxyPass to api server", k, v)
			return proxyPass(r, cluster)
		}
	}'''), (P, 'func Proxy(', '''var okKeys = map[string]struct{}{"labelSelector": {}, "timeoutSeconds": {}, "timeout": {}, "limit": {}}

func Proxy('''))
same("gate-slice", (P, '''		switch k {
		case "labelSelector":
		case "timeoutSeconds":
		case "timeout":
		case "limit":
		default:
''', '''		found := false
		for _, o := range []string{"labelSelector", "timeoutSeconds", "timeout", "limit"} {
			if o == k {
				found = true
				break
			}
		}
		if !found {
'''))
same("gate-slices-contains", (P, '''		switch k {
		case "labelSelector":
		case "timeoutSeconds":
		case "timeout":
		case "limit":
		default:
''', '''		if !slices.Contains(okKeys, k) {
'''), (P, 'func Proxy(', '''var okKeys = []string{"labelSelector", "timeoutSeconds", "timeout", "limit"}

func Proxy('''), (P, '"reflect"', '"reflect"\n\t"slices"'))
same("gate-early-store", (P, '''	if resourceName != "" {
		return ProxySingle''', '''	log.Debugf("cached")
	if resourceName != "" {
		return ProxySingle'''))
same("gate-split-cond", (P, '''	if !r.Store.IsStoreGVR(gvr) || r.Request.Method != "GET" {
		log.Debugf("gvr %v no cached or method not GET", gvr)
		return proxyPass(r, cluster)
	}''', '''	if r.Request.Method != http.MethodGet {
		return proxyPass(r, cluster)
	}
	cached := r.Store.IsStoreGVR(gvr)
	if !cached {
		return proxyPass(r, cluster)
	}'''))
