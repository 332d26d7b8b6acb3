F = "pkg/client/fake/fake_ckube.go"
bug("fk-post", "C39", (F, "resourceName); o != nil {", "resourceName); o == nil {"))
bug("fk-post2", "C39", (F, 'already exists", gvr, cluster, namespace, resourceName),\n				Code:    400,\n			})\n			return\n', 'already exists", gvr, cluster, namespace, resourceName),\n				Code:    400,\n			})\n'))
bug("fk-put", "C39", (F, "st.OnResourceModified(gvr, cluster, &obj)", "st.OnResourceAdded(gvr, cluster, &obj)"))
bug("fk-code", "C39", (F, "not found\", gvr, cluster, namespace, resourceName),\n				Code:    404,\n			})\n			return\n		}\n		_ = st.OnResourceModified", "not found\", gvr, cluster, namespace, resourceName),\n				Code:    400,\n			})\n			return\n		}\n		_ = st.OnResourceModified"))
bug("fk-ns", "C39", (F, "	obj.Namespace = namespace\n	if resourceName", "	if resourceName"))
bug("fk-delns", "C39", (F, "		obj.Name = resourceName\n		obj.Namespace = namespace\n", "		obj.Namespace = namespace\n"))
bug("fk-cluster", "C39", (F, "cluster := common.GetConfig().DefaultCluster", 'cluster := "default"'))
bug("fk-cluster2", "C39", (F, 'case "fieldManager", "resourceVersion": // For Get', 'case "fieldManager": // For Get'))
bug("fk-cluster3", "C39", (F, "			cluster = del.DryRun[0][len(constants.ClusterPrefix):]\n", ""))
bug("fk-event", "C39", (F, "		Cluster:     cluster,\n", "		Cluster:     common.GetConfig().DefaultCluster,\n"))
bug("fk-event2", "C39", (F, "		Name:        resourceName,\n", "		Name:        obj.GenerateName,\n"))
bug("fk-event3", "C39", (F, "		action = EventActionUpdate\n", "		action = EventActionAdd\n"))
bug("fk-raw", "C39", (F, "			bs, _ = json.Marshal(o)\n", "			_, _ = json.Marshal(o)\n"))
bug("fk-block", "C39", (F, "	case s.eventChan <- e:\n	default:\n	}\n", "	case s.eventChan <- e:\n	}\n"))
bug("fk-one", "C39", (F, '			log.Debugf("succeed send stream to %s", remote)\n', '			log.Debugf("succeed send stream to %s", remote)\n			s.watchChanLock.RUnlock()\n			jsonResp(writer, 200, obj)\n			return\n'))
bug("fk-filter", "C39", (F, "				e.Version == version &&\n", "				e.Version != version+\"x\" &&\n"))
bug("fk-filterns", "C39", (F, '(e.Namespace == namespace || namespace == "")', "e.Namespace == namespace"))
bug("fk-filterns2", "C39", (F, '				(e.Namespace == namespace || namespace == "") {', "				e.Namespace != namespace {"))
bug("fk-type", "C39", (F, '					typ = "DELETED"', '					typ = "MODIFIED"'))
bug("fk-clusters", "C39", (F, "						if e.Cluster == c {\n							return true\n						}\n					}\n					return false", "						if e.Cluster != c {\n							return false\n						}\n					}\n					return true"))
bug("fk-line", "C39", (F, '[]byte(res + "\\n")', '[]byte(res)'))
bug("fk-late", "C39", (F, "	s.watchChanLock.Lock()\n	s.watchChanMap[r.RemoteAddr] = make(chan Event)\n	s.watchChanLock.Unlock()\n", ""), (F, "	writer.(http.Flusher).Flush()\n	for {", "	writer.(http.Flusher).Flush()\n	s.watchChanLock.Lock()\n	s.watchChanMap[r.RemoteAddr] = make(chan Event)\n	s.watchChanLock.Unlock()\n	for {"))
bug("fk-forget", "C39", (F, "			delete(s.watchChanMap, r.RemoteAddr)\n", ""))
bug("fk-bad", "C39", (F, "			if err != nil {\n				errorProxy(writer, metav1.Status{\n					Message: err.Error(),\n					Code:    400,\n				})\n				return\n			}\n			_ = json", "			if err != nil {\n				rr = nil\n			}\n			_ = json"))
bug("fk-path", "C39", (F, '		"/api/{version}/namespaces/{namespace}/{resourceType}/{resourceName}",\n', '		"/api/{version}/namespaces/{namespace}/{resourceName}/{resourceType}",\n'))
bug("fk-path2", "C39", (F, '		"/apis/{group}/{version}/watch/{resourceType}",\n', ''))
bug("fk-mw", "C39", (F, '(wq[0] == "true" || wq[0] == "1")', '(wq[0] == "true" && wq[0] == "1")'))
bug("fk-mw2", "C39", (F, 'wq := r.URL.Query()["watch"]', 'wq := r.URL.Query()["follow"]'))
bug("fk-clean", "C39", (F, "	s.ser.ResetStore(m, nil)\n", ""))
bug("fk-clean2", "C39", (F, "	s.ser.ResetStore(m, nil)\n", "	s.ser.ResetStore(memory.NewMemoryStore(indexConf), nil)\n"))
bug("fk-made", "C39", (F, "server.NewMuxServer(listenAddr, nil, m, s.reg", "server.NewMuxServer(listenAddr, nil, memory.NewMemoryStore(indexConf), s.reg"))
bug("fk-token", "C39", (F, '	cfg.Token = ""\n', ''))
bug("fk-feed", "C39", (F, "	return s.eventChan\n", "	return make(chan Event)\n"))
same("fk-r-event", (F, "	e := Event{\n		EventAction: action,\n		Group:       group,\n		Version:     version,\n		Resource:    resourceType,\n", "	e := Event{\n		EventAction: action,\n		Group:       gvr.Group,\n		Version:     gvr.Version,\n		Resource:    gvr.Resource,\n"))
same("fk-r-tell", (F, "	select {\n	case s.eventChan <- e:\n	default:\n	}\n	s.watchChanLock.RLock()", "	s.offer(e)\n	s.watchChanLock.RLock()"), (F, "func (s *fakeCkubeServer) proxy(", "func (s *fakeCkubeServer) offer(e Event) {\n	select {\n	case s.eventChan <- e:\n	default:\n	}\n}\n\nfunc (s *fakeCkubeServer) proxy("))
same("fk-r-match", (F, "			if e.Group == group &&\n				e.Version == version &&\n				e.Resource == resourceType &&\n				(e.Namespace == namespace || namespace == \"\") {\n", "			if e.Group != group || e.Version != version || e.Resource != resourceType {\n				continue\n			}\n			if namespace == \"\" || e.Namespace == namespace {\n"))
same("fk-r-line", (F, 'res := fmt.Sprintf(`{"type": %q, "object": %s}`, typ, e.Raw)\n				_, _ = writer.Write([]byte(res + "\\n"))', 'line := `{"type": "` + typ + `", "object": ` + e.Raw + "}\\n"\n				_, _ = writer.Write([]byte(line))'))
same("fk-r-cut", (F, "				cluster = v[0][len(constants.ClusterPrefix):]\n", "				cluster = strings.TrimPrefix(v[0], constants.ClusterPrefix)\n"))
same("fk-r-named", (F, "				if len(paginate.GetClusters()) > 0 && !func() bool {\n					for _, c := range paginate.GetClusters() {\n						if e.Cluster == c {\n							return true\n						}\n					}\n					return false\n				}() {\n					continue\n				}\n", "				if !wanted(paginate.GetClusters(), e.Cluster) {\n					continue\n				}\n"), (F, "func (s *fakeCkubeServer) proxy(", "func wanted(cs []string, cluster string) bool {\n	if len(cs) == 0 {\n		return true\n	}\n	for _, c := range cs {\n		if c == cluster {\n			return true\n		}\n	}\n	return false\n}\n\nfunc (s *fakeCkubeServer) proxy("))
same("fk-r-check", (F, "		if o := st.Get(gvr, cluster, namespace, resourceName); o == nil {\n			errorProxy(writer, metav1.Status{\n				Message: fmt.Sprintf(\"resource %v %s %s/%s not found\", gvr, cluster, namespace, resourceName),\n				Code:    404,\n			})\n			return\n		}\n		_ = st.OnResourceModified", "		if st.Get(gvr, cluster, namespace, resourceName) == nil {\n			notFound(writer, resourceName)\n			return\n		}\n		_ = st.OnResourceModified"), (F, "func (s *fakeCkubeServer) proxy(", "func notFound(w http.ResponseWriter, name string) {\n	errorProxy(w, metav1.Status{Message: name + \" not found\", Code: 404})\n}\n\nfunc (s *fakeCkubeServer) proxy("))
same("fk-r-if", (F, 'case EventActionAdd:\n					typ = "ADDED"\n				case EventActionDelete:\n					typ = "DELETED"\n', 'case EventActionDelete:\n					typ = "DELETED"\n				case EventActionAdd:\n					typ = "ADDED"\n'))
same("fk-r-reg", (F, "		r.Path(p).Methods(\"GET\").HandlerFunc(s.watch)\n", "		route := r.Path(p)\n		route.Methods(http.MethodGet).HandlerFunc(s.watch)\n"))
bug("srv-stop-cancelled", "C20", ("server/server.go", "	defer cancel()\n	log.Infof(\"shutting", "	cancel()\n	log.Infof(\"shutting"))
bug("fk-refuse-silent", "C39", (F, '		if err != nil {\n			errorProxy(writer, metav1.Status{\n				Message: err.Error(),\n				Code:    400,\n			})\n			return\n		}\n		paginateStr', '		if err != nil {\n			return\n		}\n		paginateStr'))
IDX = '''	indexConf := map[store.GroupVersionResource]map[string]string{}
	for _, proxy := range %s.Proxies {
		indexConf[store.GroupVersionResource{
			Group:    proxy.Group,
			Version:  proxy.Version,
			Resource: proxy.Resource,
		}] = proxy.Index
	}
	m := memory.NewMemoryStore(indexConf)
'''
I1, I2 = IDX % "cfg", IDX % "common.GetConfig()"
bug("fk-clean-index", "C39", (F, I2, I2.replace("Resource: proxy.Resource", "Resource: proxy.Version")))
bug("fk-clean-none", "C39", (F, I2, I2.replace("= proxy.Index", "= nil")))
bug("fk-clean-some", "C39", (F, I2, I2.replace("		indexConf[", "		if len(proxy.Index) == 0 {\n			continue\n		}\n		indexConf[")))
bug("fk-new-some", "C39", (F, I1, I1.replace("		indexConf[", "		if proxy.Group == \"\" {\n			continue\n		}\n		indexConf[")))
bug("fk-new-default", "C39", (F, 'cfg.Token = ""', 'cfg.Token, cfg.DefaultCluster = "", ""'))
HELP = '''
func freshStore(proxies []common.Proxy) store.Store {
	conf := make(map[store.GroupVersionResource]map[string]string, len(proxies))
	for i := range proxies {
		p := &proxies[i]
		gvr := store.GroupVersionResource{Group: p.Group, Version: p.Version, Resource: p.Resource}
		conf[gvr] = p.Index
	}
	return memory.NewMemoryStore(conf)
}

func (s *fakeCkubeServer) Stop() {'''
same("fk-fresh-helper", (F, I1, "	m := freshStore(cfg.Proxies)\n"), (F, I2, "	m := freshStore(common.GetConfig().Proxies)\n"), (F, "\nfunc (s *fakeCkubeServer) Stop() {", HELP))
LOOPQ = '''	query := r.URL.Query()
	labelSelectorStr := ""
	for k, v := range query {
		switch k {
		case "labelSelector": // For List options
			labelSelectorStr = v[0]
		}
	}
	paginate := page.Paginate{}
	if labelSelectorStr != "" {
		labels, err'''
bug("fk-watch-nosel", "C39", (F, LOOPQ, LOOPQ.replace('if labelSelectorStr != ""', 'if namespace != ""')))
bug("fk-watch-field", "C39", (F, LOOPQ, LOOPQ.replace('case "labelSelector"', 'case "fieldSelector"')))
bug("fk-watch-marker", "C39", (F, "				if m.Key == constants.PaginateKey {\n					if len(m.Values) > 0 {\n						paginateStr, err = kube.MergeValues", "				if m.Key == constants.PaginateKey {\n					if len(m.Values) > 1 {\n						paginateStr, err = kube.MergeValues"))
bug("fk-watch-decode", "C39", (F, "			_ = json.Unmarshal(rr, &paginate)\n			delete(labels.MatchLabels, constants.PaginateKey)\n		}\n	}\n\n	s.watch", "			if namespace != \"\" {\n				_ = json.Unmarshal(rr, &paginate)\n			}\n			delete(labels.MatchLabels, constants.PaginateKey)\n		}\n	}\n\n	s.watch"))
same("fk-watch-get", (F, LOOPQ, '''	labelSelectorStr := r.URL.Query().Get("labelSelector")
	paginate := page.Paginate{}
	if labelSelectorStr != "" {
		labels, err'''))
same("fk-watch-if", (F, LOOPQ, LOOPQ.replace('''		switch k {
		case "labelSelector": // For List options
			labelSelectorStr = v[0]
		}
''', '''		if k != "labelSelector" {
			continue
		}
		labelSelectorStr = v[0]
''')))
bug("fk-file-addr", "C39", (F, "NewFakeCKubeServer(listenAddr, string(bs))", "NewFakeCKubeServer(cfgPath, string(bs))"))
bug("fk-watch-label", "C39", (F, "		if ps, ok := labels.MatchLabels[constants.PaginateKey]; ok {\n			paginateStr = ps\n			delete(labels.MatchLabels, constants.PaginateKey)\n		} else {\n			mes := []metav1.LabelSelectorRequirement{}\n			// Why we use MatchExpressions?\n			// to adapt dsm.daocloud.io/query=xxxx send to apiserver, which makes no results.\n			// if dsm.daocloud.io/query != xxx or dsm.daocloud.io/query not in (xxx), results exist even if it was sent to apiserver.\n			for _, m := range labels.MatchExpressions {\n				if m.Key == constants.PaginateKey {\n					if len(m.Values) > 0 {\n						paginateStr, err = kube.MergeValues(m.Values)", "		{\n			mes := []metav1.LabelSelectorRequirement{}\n			for _, m := range labels.MatchExpressions {\n				if m.Key == constants.PaginateKey {\n					if len(m.Values) > 0 {\n						paginateStr, err = kube.MergeValues(m.Values)"))
