From ef4df990dc4333e43b28bb5bab907c012886b30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:47 +0000
Subject: [PATCH 01/39] fix: keep the body of DELETE requests that carry no
 cluster marker

---
 api/proxy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index 2c7ce8b..a56a0bf 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -119,6 +119,8 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 		body := r.Body
 		opts, err := io.ReadAll(body)
 		if err == nil {
+			// the body is consumed here, restore it so that it can still be forwarded.
+			r.Body = wrapReader(bytes.NewReader(opts))
 			options := v1.DeleteOptions{}
 			_ = json.Unmarshal(opts, &options)
 			if len(options.DryRun) > 0 && strings.HasPrefix(options.DryRun[0], clusterPrefix) {
-- 
2.43.0


From 54c50164a73d8128e14c85fd606d2334d8f422a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 02/39] fix: strip only the List suffix when deriving the kind
 of watched objects

---
 watcher/watcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 5a205ab..d4f820d 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -115,7 +115,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 	gvk := schema.GroupVersionKind{
 		Group:   r.Group,
 		Version: r.Version,
-		Kind:    strings.TrimRight(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
+		Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
 	}
 	gv := schema.GroupVersion{
 		Group:   r.Group,
-- 
2.43.0


From 3c7347c3bb1c5ff1f6ed7459487f3d6776e3c8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 03/39] fix: bound the page window for every page number and
 page size

---
 api/proxy.go           | 16 ++++++++++------
 store/memory/memory.go | 14 +++++++++-----
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index a56a0bf..01d4bf9 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -268,18 +268,22 @@ func Proxy(r *ReqContext) interface{} {
 		// manually slice items
 		var l = int64(len(items))
 		var start, end int64
-		if paginate.PageSize == 0 || paginate.Page == 0 {
+		if paginate.PageSize <= 0 || paginate.Page <= 0 {
 			// all resources
 			start = 0
 			end = l
 		} else {
-			start = (paginate.Page - 1) * paginate.PageSize
-			end = start + paginate.PageSize
+			// compare by division, page numbers may be large enough to overflow.
+			start = l
+			if paginate.Page-1 <= l/paginate.PageSize {
+				start = (paginate.Page - 1) * paginate.PageSize
+			}
 			if start >= l {
 				start = l
 			}
-			if end >= l {
-				end = l
+			end = l
+			if paginate.PageSize < l-start {
+				end = start + paginate.PageSize
 			}
 		}
 		items = items[start:end]
@@ -307,7 +311,7 @@ func Proxy(r *ReqContext) interface{} {
 		apiVersion = gvr.Group + "/" + gvr.Version
 	}
 	var remainCount int64
-	if paginate.Page == 0 && paginate.PageSize == 0 {
+	if paginate.Page <= 0 || paginate.PageSize <= 0 {
 		// all item returned
 		remainCount = 0
 	} else {
diff --git a/store/memory/memory.go b/store/memory/memory.go
index 84c3ab8..1a8d5e3 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -316,18 +316,22 @@ func (m *memoryStore) Query(gvr store.GroupVersionResource, query store.Query) s
 	}
 	res.Total = l
 	var start, end int64
-	if query.PageSize == 0 {
+	if query.PageSize <= 0 || query.Page <= 0 {
 		// all resources
 		start = 0
 		end = l
 	} else {
-		start = (query.Page - 1) * query.PageSize
-		end = start + query.PageSize
+		// compare by division, page numbers may be large enough to overflow.
+		start = l
+		if query.Page-1 <= l/query.PageSize {
+			start = (query.Page - 1) * query.PageSize
+		}
 		if start >= l {
 			start = l
 		}
-		if end >= l {
-			end = l
+		end = l
+		if query.PageSize < l-start {
+			end = start + query.PageSize
 		}
 	}
 	for _, r := range resources[start:end] {
-- 
2.43.0


From d06fa4f2e416b8c7e9c4aaf0c854585205206401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 04/39] fix: do not subtract a page from the total of an
 unpaged list

---
 page/page.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/page/page.go b/page/page.go
index b1c7b5e..42780be 100644
--- a/page/page.go
+++ b/page/page.go
@@ -344,7 +344,11 @@ func MakeupResPaginate(l v1.ListInterface, page Paginate) Paginate {
 		var i int64 = 0
 		remain = &i
 	}
-	page.Total = *remain + (page.Page-1)*page.PageSize + int64(items)
+	page.Total = *remain + int64(items)
+	if page.Page > 0 && page.PageSize > 0 {
+		// items of the previous pages
+		page.Total += (page.Page - 1) * page.PageSize
+	}
 	return page
 }
 
-- 
2.43.0


From a0f0c04b6c5e4aa6b4b997a5be800e77a85b07b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 05/39] fix: guard the store and clients that ResetStore
 replaces while requests are served

---
 server/server.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/server/server.go b/server/server.go
index 2f87510..274e6c2 100644
--- a/server/server.go
+++ b/server/server.go
@@ -7,6 +7,7 @@ import (
 	"net/http"
 	"runtime/debug"
 	"strings"
+	"sync"
 	"time"
 
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
@@ -33,6 +34,7 @@ type muxServer struct {
 	ListenAddr     string
 	router         *mux.Router
 	server         *http.Server
+	lock           sync.RWMutex // guards server, store and clusterClients
 	store          store.Store
 	clusterClients map[string]kubernetes.Interface
 }
@@ -96,27 +98,35 @@ func NewMuxServer(listenAddr string, clusterClients map[string]kubernetes.Interf
 }
 
 func (m *muxServer) Run() error {
-	m.server = &http.Server{
+	ser := &http.Server{
 		Addr:         m.ListenAddr,
 		Handler:      m.router,
 		ReadTimeout:  30 * time.Minute,
 		WriteTimeout: 30 * time.Minute,
 	}
+	m.lock.Lock()
+	m.server = ser
+	m.lock.Unlock()
 	log.Infof("starting server at %v", m.ListenAddr)
-	return m.server.ListenAndServe()
+	return ser.ListenAndServe()
 }
 
 func (m *muxServer) Stop() error {
-	if m.server == nil {
+	m.lock.RLock()
+	ser := m.server
+	m.lock.RUnlock()
+	if ser == nil {
 		return fmt.Errorf("server not start ever")
 	}
 	ctx, cancel := context.WithTimeout(context.Background(), time.Second*3)
 	defer cancel()
 	log.Infof("shutting down the server...")
-	return m.server.Shutdown(ctx)
+	return ser.Shutdown(ctx)
 }
 
 func (m *muxServer) ResetStore(s store.Store, clis map[string]kubernetes.Interface) {
+	m.lock.Lock()
+	defer m.lock.Unlock()
 	m.store = s
 	m.clusterClients = clis
 }
@@ -162,9 +172,13 @@ func (m *muxServer) registerRoutes(router *mux.Router, handleRoutes []route) {
 						return
 					}
 				}
+				// the store and the clients are replaced together by ResetStore.
+				m.lock.RLock()
+				s, clis := m.store, m.clusterClients
+				m.lock.RUnlock()
 				var res = route.handler(&api.ReqContext{
-					ClusterClients: m.clusterClients,
-					Store:          m.store,
+					ClusterClients: clis,
+					Store:          s,
 					Request:        r,
 					Writer:         writer,
 				})
-- 
2.43.0


From 7b5481a4c65249b8ca11763195fb2198ea7fc9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 06/39] fix: publish the configuration atomically, it is
 replaced while requests are served

---
 common/config.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/common/config.go b/common/config.go
index a06eefc..97e8cb9 100644
--- a/common/config.go
+++ b/common/config.go
@@ -1,5 +1,7 @@
 package common
 
+import "sync/atomic"
+
 type Proxy struct {
 	Group    string            `json:"group"`
 	Version  string            `json:"version"`
@@ -19,21 +21,22 @@ type Config struct {
 	Token          string `json:"token"`
 }
 
-var cfg *Config
+// cfg is replaced on reload while requests are served.
+var cfg atomic.Pointer[Config]
 
 func InitConfig(c *Config) {
 	if c.DefaultCluster == "" {
 		c.DefaultCluster = "default"
 	}
-	cfg = c
+	cfg.Store(c)
 }
 
 func GetConfig() Config {
-	return *cfg
+	return *cfg.Load()
 }
 
 func GetGVRKind(g, v, r string) string {
-	for _, p := range cfg.Proxies {
+	for _, p := range cfg.Load().Proxies {
 		if p.Group == g && p.Version == v && p.Resource == r {
 			return p.ListKind
 		}
-- 
2.43.0


From 3bdbc14e605e0e2ec7f35b844b526626d0877d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 07/39] fix: check the authorization against one snapshot of
 the token

---
 server/server.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/server.go b/server/server.go
index 274e6c2..a4eecf8 100644
--- a/server/server.go
+++ b/server/server.go
@@ -161,8 +161,10 @@ func (m *muxServer) registerRoutes(router *mux.Router, handleRoutes []route) {
 						jsonResp(writer, http.StatusInternalServerError, err)
 					}
 				}()
-				if route.authRequired && common.GetConfig().Token != "" {
-					if !strings.Contains(r.Header.Get("Authorization"), common.GetConfig().Token) {
+				// read the token once, a reload may replace it between two reads.
+				token := common.GetConfig().Token
+				if route.authRequired && token != "" {
+					if !strings.Contains(r.Header.Get("Authorization"), token) {
 						jsonResp(writer, http.StatusUnauthorized, v1.Status{
 							Status:  string(v1.StatusReasonUnauthorized),
 							Message: "token missing or error",
-- 
2.43.0


From 3a80904593b7bcbd5e3c6b179ef96b2df6c8ce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 08/39] fix: do not write the timeout of one request into the
 shared http client

---
 api/proxy.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 01d4bf9..9ab5a41 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -436,7 +436,7 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	timeout := 30 * time.Minute
 	ctx, cancel := context.WithTimeout(context.Background(), timeout)
 	defer cancel()
-	reader, err := getRequest(r, cluster, timeout).RequestURI(u).Stream(ctx)
+	reader, err := getRequest(r, cluster).RequestURI(u).Stream(ctx)
 	if err != nil {
 		if es, ok := err.(*errors.StatusError); ok {
 			return errorProxy(r.Writer, es.ErrStatus)
@@ -467,9 +467,8 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	}
 }
 
-func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Request {
+func getRequest(r *ReqContext, cluster string) *rest.Request {
 	c := r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
-	c.Client.Timeout = timeout
 	var req *rest.Request
 	switch r.Request.Method {
 	case http.MethodGet:
@@ -515,7 +514,7 @@ func proxyPass(r *ReqContext, cluster string) interface{} {
 	timeout := time.Minute
 	ctx, cancel := context.WithTimeout(context.Background(), timeout)
 	defer cancel()
-	res, err := getRequest(r, cluster, timeout).RequestURI(u).DoRaw(ctx)
+	res, err := getRequest(r, cluster).RequestURI(u).DoRaw(ctx)
 	if err != nil {
 		if es, ok := err.(*errors.StatusError); ok {
 			return errorProxy(r.Writer, es.ErrStatus)
-- 
2.43.0


From 47ab43e29ef5d27dc659fdb2835b0bac2124d322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 09/39] fix: forward HEAD and OPTIONS requests instead of
 dereferencing a nil request

---
 api/proxy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 9ab5a41..f97144b 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -482,8 +482,8 @@ func getRequest(r *ReqContext, cluster string) *rest.Request {
 	case http.MethodPatch:
 		req = c.Patch(types.PatchType(r.Request.Header.Get("Content-Type")))
 	default:
-		log.Errorf("unexpected method: %s", r.Request.Method)
-		return nil
+		// HEAD and OPTIONS are routed here too.
+		req = c.Verb(r.Request.Method)
 	}
 	// for k, v := range r.Request.Header {
 	//	if len(v) > 0 {
-- 
2.43.0


From 05823d44d3115682103d3742eadbeed63e033858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 10/39] fix: take the labels of a pod of the requested
 deployment, not of a pod with a similar name

---
 api/extend/deploy2service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index 1dada9e..008d678 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -47,7 +47,7 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 	for _, podIf := range res.Items {
 		if pod, ok := podIf.(v12.Object); ok {
 			depName := getDeploymentName(pod)
-			if depName != "" {
+			if depName == dep {
 				labels = pod.GetLabels()
 				break
 			}
-- 
2.43.0


From 6e07d266b21670482aa048231cec15ec72a94c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 11/39] fix: reject malformed sort terms instead of returning
 unsorted objects

---
 store/memory/memory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 1a8d5e3..927e876 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -197,7 +197,7 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 		if strings.Contains(s, " ") {
 			parts := strings.Split(s, " ")
 			if len(parts) > 2 {
-				return objs, nil
+				return objs, fmt.Errorf("error sort format `%s`", s)
 			}
 			if len(parts) == 2 {
 				switch parts[1] {
-- 
2.43.0


From e739dc7bd07d9827e63c44c03e60cc1c74a195e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 12/39] fix: order objects with equal sort keys by their
 identity

---
 store/memory/memory.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 927e876..38c61f7 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -266,7 +266,14 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 			}
 			return r
 		}
-		return true
+		// all keys are equal, an object must not be less than itself and pages
+		// of the same query must not overlap, so fall back to the identity.
+		for _, k := range []string{"cluster", "namespace", "name"} {
+			if vi, vj := objs[i].Index[k], objs[j].Index[k]; vi != vj {
+				return vi < vj
+			}
+		}
+		return false
 	})
 	return objs, sortErr
 }
-- 
2.43.0


From 8a3cbcb5025f99dbc97b3eb89bd3b11f3eba5076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 13/39] fix: keep the parts of long values in order

---
 kube/label.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kube/label.go b/kube/label.go
index e3df13e..1b6e106 100644
--- a/kube/label.go
+++ b/kube/label.go
@@ -16,13 +16,15 @@ func SplittingValue(value string) []string {
 	if len(value) <= eachPartLen {
 		return []string{value}
 	}
-	for i := 0; ; i += eachPartLen {
+	// prefix the parts with their number, an offset outgrows the 4 digits
+	// that keep the sort order and the maximum length of a label value.
+	for n, i := 0, 0; ; n, i = n+1, i+eachPartLen {
 		end := i + eachPartLen
 		if len(value) <= end {
-			res = append(res, fmt.Sprintf("%04d.%s", i, value[i:]))
+			res = append(res, fmt.Sprintf("%04d.%s", n, value[i:]))
 			break
 		}
-		res = append(res, fmt.Sprintf("%04d.%s", i, value[i:end]))
+		res = append(res, fmt.Sprintf("%04d.%s", n, value[i:end]))
 	}
 	return res
 }
-- 
2.43.0


From 88d82eed7667bec189d3f219dd52f598893cc9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 14/39] fix: replace the value of the selector option in the
 kubectl arguments

---
 cmd/ckube-plugin/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index afe35a8..c8310d9 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -44,7 +44,8 @@ func main() {
 		}
 		if a == "-l" || a == "--selector" {
 			if i+1 < len(os.Args) {
-				selectorPos = i + 1
+				// the value is the next element of args.
+				selectorPos = len(args)
 			}
 		}
 	}
-- 
2.43.0


From bc4abcf4cb8eefb6e55f5e4227e43662af2c06e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 15/39] fix: report invalid clusters, selectors and kubectl
 failures in the plugin

---
 cmd/ckube-plugin/main.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index c8310d9..5fd7b6f 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -60,14 +60,21 @@ func main() {
 		switch typ {
 		case get:
 			p := page.Paginate{}
-			_ = p.Clusters(cs)
+			if err := p.Clusters(cs); err != nil {
+				log.Errorf("clusters error: %v", err)
+				os.Exit(2)
+			}
 			selector := ""
 			if selectorPos != 0 {
 				selector = args[selectorPos]
 			}
-			o, _ := page.QueryListOptions(metav1.ListOptions{
+			o, err := page.QueryListOptions(metav1.ListOptions{
 				LabelSelector: selector,
 			}, p)
+			if err != nil {
+				log.Errorf("selector error: %v", err)
+				os.Exit(2)
+			}
 			if selectorPos == 0 {
 				args = append(args, "-l", o.LabelSelector)
 			} else {
@@ -89,5 +96,11 @@ func main() {
 	c.Stdin = os.Stdin
 	c.Stdout = os.Stdout
 	c.Stderr = os.Stderr
-	_ = c.Run()
+	if err := c.Run(); err != nil {
+		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() > 0 {
+			os.Exit(ee.ExitCode())
+		}
+		log.Errorf("run kubectl error: %v", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 4542f7209380cc496b94d86aa9ea43476cd6ae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 16/39] fix: report invalid clusters instead of printing a
 selector of the default cluster

---
 cmd/ckubecli/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/ckubecli/main.go b/cmd/ckubecli/main.go
index 721b787..f8ef991 100644
--- a/cmd/ckubecli/main.go
+++ b/cmd/ckubecli/main.go
@@ -31,7 +31,10 @@ func main() {
 	}
 	if clusters != "" {
 		ccs := strings.Split(clusters, ",")
-		_ = p.Clusters(ccs)
+		if err := p.Clusters(ccs); err != nil {
+			fmt.Fprintf(os.Stderr, "clusters error: %v", err)
+			os.Exit(1)
+		}
 	}
 	o, err := page.QueryListOptions(v1.ListOptions{}, p)
 	if err != nil {
-- 
2.43.0


From 89362a84267c60fef5b666b0e04bc5a62e7355b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 17/39] fix: keep the other advanced conditions of a search
 when its selector is replaced

---
 page/page.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/page/page.go b/page/page.go
index 42780be..d8f8608 100644
--- a/page/page.go
+++ b/page/page.go
@@ -167,10 +167,14 @@ func (p *Paginate) SetSearchSelector(selector *v1.LabelSelector) error {
 		return fmt.Errorf("parse selector %v error", selector)
 	}
 	pps := []string{constants.AdvancedSearchPrefix + sstr}
+	replaced := false
 	for _, part := range parts {
-		if !strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
-			pps = append(pps, part)
+		// replace the part SearchSelector reads, any further one is still a condition of the search.
+		if !replaced && strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
+			replaced = true
+			continue
 		}
+		pps = append(pps, part)
 	}
 	p.SetSearchWithParts(pps)
 	return nil
-- 
2.43.0


From 6f5d7ba4d502e0b539ce83791ab39a0d4104971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 18/39] fix: keep every equality requirement of a selector that
 names a key twice

---
 kube/label.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kube/label.go b/kube/label.go
index 1b6e106..97ca249 100644
--- a/kube/label.go
+++ b/kube/label.go
@@ -67,6 +67,15 @@ func ParseToLabelSelector(selector string) (*v1.LabelSelector, error) {
 			if !ok {
 				return nil, fmt.Errorf("equals operator has exactly one value but it cannot be retrieved")
 			}
+			if old, ok := labelSelector.MatchLabels[req.Key()]; ok && old != val {
+				// both requirements have to hold, do not override the first one.
+				labelSelector.MatchExpressions = append(labelSelector.MatchExpressions, v1.LabelSelectorRequirement{
+					Key:      req.Key(),
+					Operator: v1.LabelSelectorOpIn,
+					Values:   []string{val},
+				})
+				continue
+			}
 			labelSelector.MatchLabels[req.Key()] = val
 			continue
 		case selection.In:
-- 
2.43.0


From 7cc2524e7ffc884b140eab0d896dd3d22578f2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 19/39] fix: decode every watch stream with its own scheme

---
 watcher/watcher.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index d4f820d..d83ade5 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -5,12 +5,12 @@ import (
 	"encoding/json"
 	"fmt"
 	"strings"
-	"sync"
 	"time"
 
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/runtime"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	"k8s.io/apimachinery/pkg/runtime/serializer"
 	"k8s.io/apimachinery/pkg/watch"
 	"k8s.io/client-go/kubernetes/scheme"
 	"k8s.io/client-go/rest"
@@ -25,7 +25,6 @@ type watcher struct {
 	resources      []store.GroupVersionResource
 	store          store.Store
 	stop           chan struct{}
-	lock           sync.Mutex
 	Watcher
 }
 
@@ -121,20 +120,26 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 		Group:   r.Group,
 		Version: r.Version,
 	}
-	w.lock.Lock()
-	if _, ok := scheme.Scheme.KnownTypes(gv)[gvk.Kind]; !ok {
-		scheme.Scheme.AddKnownTypeWithName(gvk, &ObjType{})
+	// the global scheme is not safe for concurrent registration and decoding,
+	// so every stream decodes with its own one.
+	sch := runtime.NewScheme()
+	_ = scheme.AddToScheme(sch)
+	v1.AddToGroupVersion(sch, schema.GroupVersion{Version: "v1"})
+	if _, ok := sch.KnownTypes(gv)[gvk.Kind]; !ok {
+		sch.AddKnownTypeWithName(gvk, &ObjType{})
 	}
-	w.lock.Unlock()
 	config := w.clusterConfigs[cluster]
 
 	config.GroupVersion = &schema.GroupVersion{
 		Group:   r.Group,
 		Version: r.Version,
 	}
-	scheme.Codecs.UniversalDeserializer()
-	config.NegotiatedSerializer = scheme.Codecs.WithoutConversion()
-	rt, _ := rest.RESTClientFor(&config)
+	config.NegotiatedSerializer = serializer.NewCodecFactory(sch).WithoutConversion()
+	rt, err := rest.RESTClientFor(&config)
+	if err != nil {
+		log.Errorf("cluster(%s): create client for %v error: %v", cluster, r, err)
+		return
+	}
 	for {
 		select {
 		case <-w.stop:
-- 
2.43.0


From eb2a794aca641f8b1ab2d693178a0c173a12417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:43 +0000
Subject: [PATCH 20/39] fix: do not panic on objects whose kind or apiVersion
 is not a string

---
 watcher/watcher.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index d83ade5..b982f2a 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -51,11 +51,11 @@ type ObjType struct {
 func (o *ObjType) UnmarshalJSON(bytes []byte) error {
 	m := map[string]interface{}{}
 	_ = json.Unmarshal(bytes, &m)
-	if v, ok := m["apiVersion"]; ok {
-		o.APIVersion = v.(string)
+	if v, ok := m["apiVersion"].(string); ok {
+		o.APIVersion = v
 	}
-	if v, ok := m["kind"]; ok {
-		o.Kind = v.(string)
+	if v, ok := m["kind"].(string); ok {
+		o.Kind = v
 	}
 	if meta, ok := m["metadata"]; ok {
 		bs, _ := json.Marshal(meta)
-- 
2.43.0


From 4c4e9d9e995e6fb70fb07d178828b97a2951be86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 21/39] fix: end the upstream watch when the client of a
 proxied watch disconnects

---
 api/proxy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index f97144b..30af9e1 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -434,7 +434,8 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	u := r.Request.URL.String()
 	log.Debugf("proxyPass url: %s", u)
 	timeout := 30 * time.Minute
-	ctx, cancel := context.WithTimeout(context.Background(), timeout)
+	// the upstream watch ends with the request, even while it sends nothing.
+	ctx, cancel := context.WithTimeout(r.Request.Context(), timeout)
 	defer cancel()
 	reader, err := getRequest(r, cluster).RequestURI(u).Stream(ctx)
 	if err != nil {
@@ -443,6 +444,7 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 		}
 		return err
 	}
+	defer reader.Close()
 	r.Writer.Header().Set("Content-Type", "application/json")
 	r.Writer.Header().Set("Transfer-Encoding", "chunked")
 	r.Writer.Header().Set("Connection", "keep-alive")
-- 
2.43.0


From b5b1d4c8e86656ac37254c8838096fd1f1eb2910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 22/39] fix: let the file watcher goroutine own its channel,
 closing it crashed the process

---
 utils/fs_watcher.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/utils/fs_watcher.go b/utils/fs_watcher.go
index 4c16ab3..8047edc 100644
--- a/utils/fs_watcher.go
+++ b/utils/fs_watcher.go
@@ -32,6 +32,7 @@ type fixedFileWatcher struct {
 	files     []string
 	fswatcher *fsnotify.Watcher
 	events    chan Event
+	done      chan struct{}
 }
 
 func NewFixedFileWatcher(files []string) (FixedFileWatcher, error) {
@@ -39,6 +40,8 @@ func NewFixedFileWatcher(files []string) (FixedFileWatcher, error) {
 	if err != nil {
 		return nil, err
 	}
+	// only used to validate the files.
+	defer w.Close()
 	for _, f := range files {
 		if _, err := os.Stat(f); err != nil {
 			return nil, err
@@ -50,6 +53,7 @@ func NewFixedFileWatcher(files []string) (FixedFileWatcher, error) {
 	return &fixedFileWatcher{
 		files:  files,
 		events: make(chan Event),
+		done:   make(chan struct{}),
 	}, nil
 }
 
@@ -61,13 +65,23 @@ func (w *fixedFileWatcher) Start() error {
 	w.fswatcher = ww
 	for _, f := range w.files {
 		if err := w.fswatcher.Add(f); err != nil {
+			_ = ww.Close()
+			w.fswatcher = nil
 			return err
 		}
 	}
+	// the goroutine owns the events channel, only it sends to and closes it.
+	send := func(e Event) {
+		select {
+		case w.events <- e:
+		case <-w.done:
+		}
+	}
 	go func() {
+		defer close(w.events)
 		for { // nolint:gosimple
 			select {
-			case e, open := <-w.fswatcher.Events:
+			case e, open := <-ww.Events:
 				if !open {
 					log.Info("fs watcher closed")
 					return
@@ -79,16 +93,16 @@ func (w *fixedFileWatcher) Start() error {
 				case fsnotify.Remove:
 					// 在 Kubernetes 里面，当挂载 ConfigMap 的时候，如果发生文件重新，Kubernetes 会首先删除这个文件
 					// 再重新创建，所以我们应该在删除之后重新建立 watcher。
-					_ = w.fswatcher.Remove(e.Name)
+					_ = ww.Remove(e.Name)
 					time.Sleep(time.Second * 2)
 					// 等待一定时间之后重新加入 watcher 队列
-					err := w.fswatcher.Add(e.Name)
+					err := ww.Add(e.Name)
 					if err != nil {
 						log.Errorf("add watcher for %s error: %v", e.Name, err)
-						w.events <- Event{
+						send(Event{
 							Name: e.Name,
 							Type: EventTypeError,
-						}
+						})
 						continue
 					}
 					// do reload
@@ -96,10 +110,10 @@ func (w *fixedFileWatcher) Start() error {
 					// do not reload
 					continue
 				}
-				w.events <- Event{
+				send(Event{
 					Name: e.Name,
 					Type: EventTypeChanged,
-				}
+				})
 			}
 		}
 	}()
@@ -110,8 +124,7 @@ func (w *fixedFileWatcher) Close() error {
 	if w.fswatcher != nil {
 		w.fswatcher.Close()
 		w.fswatcher = nil
-		close(w.events)
-		w.events = nil
+		close(w.done)
 	}
 	return nil
 }
-- 
2.43.0


From 973ee5487c3df06504204ece5b39b1228f7d7dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 23/39] fix: reload files that are replaced by a rename or
 change together with their mode

---
 utils/fs_watcher.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utils/fs_watcher.go b/utils/fs_watcher.go
index 8047edc..0728930 100644
--- a/utils/fs_watcher.go
+++ b/utils/fs_watcher.go
@@ -87,10 +87,11 @@ func (w *fixedFileWatcher) Start() error {
 					return
 				}
 				log.Infof("get file watcher event: %v", e)
-				switch e.Op {
-				case fsnotify.Write:
+				// Op is a bit mask.
+				switch {
+				case e.Op&fsnotify.Write != 0:
 					// do reload
-				case fsnotify.Remove:
+				case e.Op&(fsnotify.Remove|fsnotify.Rename) != 0:
 					// 在 Kubernetes 里面，当挂载 ConfigMap 的时候，如果发生文件重新，Kubernetes 会首先删除这个文件
 					// 再重新创建，所以我们应该在删除之后重新建立 watcher。
 					_ = ww.Remove(e.Name)
-- 
2.43.0


From 0bf6ac8675116499bc396d947956c0ad60896eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 24/39] fix: watch a removed file again once it exists

---
 utils/fs_watcher.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/utils/fs_watcher.go b/utils/fs_watcher.go
index 0728930..203fc43 100644
--- a/utils/fs_watcher.go
+++ b/utils/fs_watcher.go
@@ -79,8 +79,22 @@ func (w *fixedFileWatcher) Start() error {
 	}
 	go func() {
 		defer close(w.events)
+		// removed files which do not exist again yet.
+		lost := map[string]struct{}{}
+		ticker := time.NewTicker(time.Second * 2)
+		defer ticker.Stop()
 		for { // nolint:gosimple
 			select {
+			case <-ticker.C:
+				for name := range lost {
+					if ww.Add(name) == nil {
+						delete(lost, name)
+						send(Event{
+							Name: name,
+							Type: EventTypeChanged,
+						})
+					}
+				}
 			case e, open := <-ww.Events:
 				if !open {
 					log.Info("fs watcher closed")
@@ -100,6 +114,7 @@ func (w *fixedFileWatcher) Start() error {
 					err := ww.Add(e.Name)
 					if err != nil {
 						log.Errorf("add watcher for %s error: %v", e.Name, err)
+						lost[e.Name] = struct{}{}
 						send(Event{
 							Name: e.Name,
 							Type: EventTypeError,
-- 
2.43.0


From 349f1bda9a3829823744031b841ed54f92c97667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 25/39] fix: watch the config file when there is no default
 kube config

---
 cmd/cacheproxy/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 13d4ff1..0b0a2c5 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -183,7 +183,10 @@ func main() {
 	ser := server.NewMuxServer(listen, clis, s)
 	files := []string{configFile}
 	if kubeConfig == "" {
-		files = append(files, defaultConfig)
+		// there is none when running in a pod, the config file must still be watched.
+		if _, err := os.Stat(defaultConfig); err == nil {
+			files = append(files, defaultConfig)
+		}
 	} else {
 		files = append(files, kubeConfig)
 	}
-- 
2.43.0


From 1066dbf083df6e6fc69fe85cdaa428b86bc995a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 26/39] fix: reset the resource gauge when a cluster is purged

---
 store/memory/memory.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 38c61f7..2efc7a1 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -136,9 +136,10 @@ func (m *memoryStore) Clean(gvr store.GroupVersionResource, cluster string) erro
 	if !m.resourceMap.Get(gvr).Exists(clusterName(cluster)) {
 		return fmt.Errorf("cluster %s not exists", cluster)
 	}
-	for _, c := range m.resourceMap.Get(gvr).Get(clusterName(cluster)).Values() {
+	m.resourceMap.Get(gvr).Get(clusterName(cluster)).ForEach(func(ns namespaceName, c *syncResourceStore[string, store.Object]) {
 		c.Clean()
-	}
+		prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, string(ns)).Set(0)
+	})
 	return nil
 }
 
-- 
2.43.0


From df81dc04a1af42f05b08cb6f7d57604676934744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 27/39] fix: drop the cluster markers of requests with an
 invalid selector

---
 api/proxy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index 30af9e1..850555f 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -115,6 +115,8 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 			}
 		}
 	}
+	// the markers must not be forwarded, even if the selector turns out to be invalid.
+	r.URL.RawQuery = query.Encode()
 	if r.Method == http.MethodDelete {
 		body := r.Body
 		opts, err := io.ReadAll(body)
-- 
2.43.0


From 9e99eed9bbdf9c9622f8837dd6b0af26bf16a508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 28/39] fix: drain the errors of the file watcher, unread ones
 block its events

---
 utils/fs_watcher.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils/fs_watcher.go b/utils/fs_watcher.go
index 203fc43..5e69585 100644
--- a/utils/fs_watcher.go
+++ b/utils/fs_watcher.go
@@ -95,6 +95,12 @@ func (w *fixedFileWatcher) Start() error {
 						})
 					}
 				}
+			case err, open := <-ww.Errors:
+				// unread errors block the events.
+				if !open {
+					return
+				}
+				log.Errorf("fs watcher error: %v", err)
 			case e, open := <-ww.Events:
 				if !open {
 					log.Info("fs watcher closed")
-- 
2.43.0


From 030b799fef9ff2859a243445a67704d3058486e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 29/39] fix: reject pages beyond the end for every page number
 and page size

---
 api/proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index 850555f..3297394 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -319,7 +319,8 @@ func Proxy(r *ReqContext) interface{} {
 	} else {
 		// page starts with 1,
 		remainCount = total - (paginate.PageSize * paginate.Page)
-		if remainCount < 0 && len(items) == 0 && paginate.Page != 1 {
+		if len(items) == 0 && paginate.Page != 1 {
+			// do not trust remainCount here, it may overflow beyond the last page.
 			return errorProxy(r.Writer, v1.Status{
 				Status:  v1.StatusFailure,
 				Message: "out of page",
-- 
2.43.0


From 76ea1bd8918ddfe473c65447eb9e5e0b782c63e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:42 +0000
Subject: [PATCH 30/39] fix: guard the store of the fake server, Clean replaces
 it while requests are served

---
 pkg/client/fake/fake_ckube.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 21daeb3..189cada 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -29,6 +29,7 @@ import (
 
 type fakeCkubeServer struct {
 	store         store.Store
+	storeLock     sync.RWMutex // guards store
 	ser           server.Server
 	kubeConfig    *rest.Config
 	eventChan     chan Event
@@ -103,8 +104,10 @@ func (s *fakeCkubeServer) Clean() {
 		}] = proxy.Index
 	}
 	m := memory.NewMemoryStore(indexConf)
-	s.ser.ResetStore(m, nil)
+	s.storeLock.Lock()
 	s.store = m
+	s.storeLock.Unlock()
+	s.ser.ResetStore(m, nil)
 }
 
 func (s *fakeCkubeServer) Events() <-chan Event {
@@ -395,6 +398,10 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 			}
 		}
 	}
+	// Clean may replace the store while requests are served.
+	s.storeLock.RLock()
+	st := s.store
+	s.storeLock.RUnlock()
 	obj := watcher.ObjType{}
 	bs, err := io.ReadAll(r.Body)
 	if err != nil {
@@ -413,24 +420,24 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 	switch r.Method {
 	case "POST":
 		action = EventActionAdd
-		if o := s.store.Get(gvr, cluster, namespace, resourceName); o != nil {
+		if o := st.Get(gvr, cluster, namespace, resourceName); o != nil {
 			errorProxy(writer, metav1.Status{
 				Message: fmt.Sprintf("resource %v %s %s/%s already exists", gvr, cluster, namespace, resourceName),
 				Code:    400,
 			})
 			return
 		}
-		_ = s.store.OnResourceAdded(gvr, cluster, &obj)
+		_ = st.OnResourceAdded(gvr, cluster, &obj)
 	case "PUT":
 		action = EventActionUpdate
-		if o := s.store.Get(gvr, cluster, namespace, resourceName); o == nil {
+		if o := st.Get(gvr, cluster, namespace, resourceName); o == nil {
 			errorProxy(writer, metav1.Status{
 				Message: fmt.Sprintf("resource %v %s %s/%s not found", gvr, cluster, namespace, resourceName),
 				Code:    404,
 			})
 			return
 		}
-		_ = s.store.OnResourceModified(gvr, cluster, &obj)
+		_ = st.OnResourceModified(gvr, cluster, &obj)
 	case "DELETE":
 		action = EventActionDelete
 		del := metav1.DeleteOptions{}
@@ -438,7 +445,7 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 		if len(del.DryRun) == 1 && strings.HasPrefix(del.DryRun[0], constants.ClusterPrefix) {
 			cluster = del.DryRun[0][len(constants.ClusterPrefix):]
 		}
-		if o := s.store.Get(gvr, cluster, namespace, resourceName); o == nil {
+		if o := st.Get(gvr, cluster, namespace, resourceName); o == nil {
 			errorProxy(writer, metav1.Status{
 				Message: fmt.Sprintf("resource %v %s %s/%s not found", gvr, cluster, namespace, resourceName),
 				Code:    404,
@@ -449,7 +456,7 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 		}
 		obj.Name = resourceName
 		obj.Namespace = namespace
-		_ = s.store.OnResourceDeleted(gvr, cluster, &obj)
+		_ = st.OnResourceDeleted(gvr, cluster, &obj)
 	}
 	e := Event{
 		EventAction: action,
-- 
2.43.0


From 78e4bc83c1f3f26c25a758c7f0885c09020f9296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 31/39] fix: watch a file again also when it was written and
 removed at once

---
 utils/fs_watcher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/fs_watcher.go b/utils/fs_watcher.go
index 5e69585..e5ba2e5 100644
--- a/utils/fs_watcher.go
+++ b/utils/fs_watcher.go
@@ -109,8 +109,6 @@ func (w *fixedFileWatcher) Start() error {
 				log.Infof("get file watcher event: %v", e)
 				// Op is a bit mask.
 				switch {
-				case e.Op&fsnotify.Write != 0:
-					// do reload
 				case e.Op&(fsnotify.Remove|fsnotify.Rename) != 0:
 					// 在 Kubernetes 里面，当挂载 ConfigMap 的时候，如果发生文件重新，Kubernetes 会首先删除这个文件
 					// 再重新创建，所以我们应该在删除之后重新建立 watcher。
@@ -128,6 +126,8 @@ func (w *fixedFileWatcher) Start() error {
 						continue
 					}
 					// do reload
+				case e.Op&fsnotify.Write != 0:
+					// do reload
 				default:
 					// do not reload
 					continue
-- 
2.43.0


From 5ce0efdf25f90487fdb7853226faae288507a077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 32/39] fix: pages whose base64 encoding is not a label value

---
 page/page.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/page/page.go b/page/page.go
index d8f8608..4bf2fc6 100644
--- a/page/page.go
+++ b/page/page.go
@@ -7,6 +7,7 @@ import (
 	"reflect"
 	"strconv"
 	"strings"
+	"unicode/utf16"
 
 	"github.com/DaoCloud/ckube/common/constants"
 	"github.com/DaoCloud/ckube/kube"
@@ -297,12 +298,30 @@ func QueryDeleteOptions(options v1.DeleteOptions, cluster string) (v1.DeleteOpti
 	return options, nil
 }
 
+// labelSafeJSON escapes the characters whose base64 encoding may contain "+" or "/",
+// which are not allowed in the values of a label selector.
+func labelSafeJSON(bs []byte) []byte {
+	res := make([]byte, 0, len(bs))
+	for _, r := range string(bs) {
+		switch {
+		case r > 0xffff:
+			hi, lo := utf16.EncodeRune(r)
+			res = append(res, fmt.Sprintf("\\u%04x\\u%04x", hi, lo)...)
+		case r >= '~' || r == '?':
+			res = append(res, fmt.Sprintf("\\u%04x", r)...)
+		default:
+			res = append(res, byte(r))
+		}
+	}
+	return res
+}
+
 func QueryListOptions(options v1.ListOptions, page Paginate) (v1.ListOptions, error) {
 	bs, _ := json.Marshal(page)
 	if string(bs) == "{}" {
 		return options, nil
 	}
-	s := base64.StdEncoding.WithPadding(base64.NoPadding).EncodeToString(bs)
+	s := base64.StdEncoding.WithPadding(base64.NoPadding).EncodeToString(labelSafeJSON(bs))
 	//if options.LabelSelector == "" {
 	//	options.LabelSelector = fmt.Sprintf("%s notin (%s)", common.PaginateKey, s)
 	//	return options
-- 
2.43.0


From fa6d43c38f2376f17cb9203b858a587039791a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:47 +0000
Subject: [PATCH 33/39] fix: do not lose the last byte of a watch, it may be
 read along with the end

---
 api/proxy.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 3297394..2d832fd 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -454,12 +454,13 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	buf := bytes.NewBuffer([]byte{})
 	for {
 		t := make([]byte, 1)
-		_, err := reader.Read(t)
+		n, err := reader.Read(t)
+		// the last byte may be read along with the end of the stream.
+		buf.Write(t[:n])
 		if err != nil {
 			_, _ = r.Writer.Write(buf.Bytes())
 			return nil
 		}
-		buf.Write(t)
 		if t[0] == '\n' {
 			_, _ = r.Writer.Write(buf.Bytes())
 			buf.Reset()
-- 
2.43.0


From f33bc930badd983c5777bea81908cc1c664af1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:13 +0000
Subject: [PATCH 34/39] fix: let handlers flush behind the logging middleware,
 watch paths of the fake server panicked

---
 server/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/server.go b/server/server.go
index a4eecf8..1a7df57 100644
--- a/server/server.go
+++ b/server/server.go
@@ -61,6 +61,11 @@ func (w *statusWriter) Write(b []byte) (int, error) {
 	return n, err
 }
 
+// Flush makes handlers that stream their answer work behind the middleware.
+func (w *statusWriter) Flush() {
+	w.ResponseWriter.(http.Flusher).Flush()
+}
+
 func loggingMiddleware(next http.Handler) http.Handler {
 	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
 		st := time.Now()
-- 
2.43.0


From 03bbc1780e1341d61cb9cbf786ce4f6e67f9e638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:16 +0000
Subject: [PATCH 35/39] fix: answer watches of the fake server with an invalid
 selector 400 instead of dereferencing nil

---
 pkg/client/fake/fake_ckube.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 189cada..c1d638a 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -275,8 +275,14 @@ func (s *fakeCkubeServer) watch(writer http.ResponseWriter, r *http.Request) {
 	}
 	paginate := page.Paginate{}
 	if labelSelectorStr != "" {
-		var err error
-		labels, _ := kube.ParseToLabelSelector(labelSelectorStr)
+		labels, err := kube.ParseToLabelSelector(labelSelectorStr)
+		if err != nil {
+			errorProxy(writer, metav1.Status{
+				Message: err.Error(),
+				Code:    400,
+			})
+			return
+		}
 		paginateStr := ""
 		if ps, ok := labels.MatchLabels[constants.PaginateKey]; ok {
 			paginateStr = ps
-- 
2.43.0


From ade6fbfa11d61dceea726abe7e0c28b0812de56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:19 +0000
Subject: [PATCH 36/39] fix: end a watch of the fake server when its client
 disconnects

---
 pkg/client/fake/fake_ckube.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index c1d638a..476ac0c 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -327,7 +327,7 @@ func (s *fakeCkubeServer) watch(writer http.ResponseWriter, r *http.Request) {
 	s.watchChanLock.Lock()
 	s.watchChanMap[r.RemoteAddr] = make(chan Event)
 	s.watchChanLock.Unlock()
-	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
+	ctx, cancel := context.WithTimeout(r.Context(), 10*time.Minute)
 	defer cancel()
 	writer.Header().Set("Content-Type", "application/json")
 	writer.Header().Set("Transfer-Encoding", "chunked")
-- 
2.43.0


From 398b061f2f43884c50a13ae871bf92037cb4eb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:22 +0000
Subject: [PATCH 37/39] fix: report a selector option without a value instead
 of panicking in the plugin

---
 cmd/ckube-plugin/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index 5fd7b6f..fde7a0f 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -65,6 +65,10 @@ func main() {
 				os.Exit(2)
 			}
 			selector := ""
+			if selectorPos >= len(args) {
+				log.Errorf("the selector option needs a value")
+				os.Exit(2)
+			}
 			if selectorPos != 0 {
 				selector = args[selectorPos]
 			}
-- 
2.43.0


From a3971057347194ccd1d43024625eeeaec2ed4818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:32 +0000
Subject: [PATCH 38/39] fix: numbers of cached objects lose no digits

---
 watcher/watcher.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index b982f2a..c85f673 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -50,7 +50,10 @@ type ObjType struct {
 
 func (o *ObjType) UnmarshalJSON(bytes []byte) error {
 	m := map[string]interface{}{}
-	_ = json.Unmarshal(bytes, &m)
+	// keep numbers as they are written, a float64 would round large integers.
+	dec := json.NewDecoder(strings.NewReader(string(bytes)))
+	dec.UseNumber()
+	_ = dec.Decode(&m)
 	if v, ok := m["apiVersion"].(string); ok {
 		o.APIVersion = v
 	}
-- 
2.43.0


From 2aa08fcae91b1b114667c77cc280c78a70517197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:42 +0000
Subject: [PATCH 39/39] fix: querying a type that is not stored is an error,
 not a nil dereference

The services of a deployment are read without asking whether pods and
services are cached: with a configuration that lacks them the request
ended in a panic.
---
 store/memory/memory.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 2efc7a1..7a92ce0 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -296,6 +296,10 @@ func (m *memoryStore) Get(gvr store.GroupVersionResource, cluster string, namesp
 
 func (m *memoryStore) Query(gvr store.GroupVersionResource, query store.Query) store.QueryResult {
 	res := store.QueryResult{}
+	if !m.resourceMap.Exists(gvr) {
+		res.Error = fmt.Errorf("resource %v not stored", gvr)
+		return res
+	}
 	resources := make([]store.Object, 0)
 	m.resourceMap.Get(gvr).ForEach(func(cname clusterName, c *syncResourceStore[
 		namespaceName,
-- 
2.43.0

