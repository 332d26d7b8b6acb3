W = "watcher/watcher.go"
SW = '''						switch rr.Type {
						case watch.Added:
							_ = w.store.OnResourceAdded(r, cluster, rr.Object)
						case watch.Modified:
							_ = w.store.OnResourceModified(r, cluster, rr.Object)
						case watch.Deleted:
							_ = w.store.OnResourceDeleted(r, cluster, rr.Object)
						case watch.Error:
							log.Warnf("cluster(%s): watch stream(%v) error: %v", cluster, r, rr.Object)
						}
'''
START = '''	for _, r := range w.resources {
		for c := range w.clusterConfigs {
			go w.watchResources(r, c)
		}
	}
'''
FIRST = '''					if first {
						// only clean resource at the first time
						// to avoid the resources gone after server break.
						_ = w.store.Clean(r, cluster)
						first = false
					}
'''
CLOSED = '''						log.Warnf("cluster(%s): watch stream(%v) closed", cluster, r)
						ww.Stop()
						time.Sleep(time.Second * 3)
						break resultChan
'''
bug("w-fallthrough", "C14", (W, "						case watch.Modified:\n							_ = w.store.OnResourceModified(r, cluster, rr.Object)\n", "						case watch.Modified, watch.Bookmark:\n							_ = w.store.OnResourceModified(r, cluster, rr.Object)\n"))
bug("w-deleted-modified", "C14", (W, "_ = w.store.OnResourceDeleted(r, cluster, rr.Object)", '''if rr.Object != nil && r.Group == "" {
								_ = w.store.OnResourceDeleted(r, cluster, rr.Object)
							}'''))
bug("w-core-path", "C14", (W, '/apis/%s/%s/%s?watch=true", r.Group, r.Version, r.Resource', '/apis/%s/%s/%s?watch=true", r.Group, "v1", r.Resource'))
bug("w-first-lost", "C14", (W, '''						_ = w.store.Clean(r, cluster)
						first = false
''', '''						_ = w.store.Clean(r, cluster)
						first = false
						if open && rr.Type == watch.Modified {
							continue
						}
'''))
bug("w-one-res", "C14", (W, START, '''	for c := range w.clusterConfigs {
		for i := 0; i < len(w.resources)-1; i++ {
			go w.watchResources(w.resources[i], c)
		}
		if len(w.resources) > 1 {
			break
		}
	}
'''))
bug("w-shared-scheme", "C14", (W, "	sch := runtime.NewScheme()\n	_ = scheme.AddToScheme(sch)\n", "	sch := scheme.Scheme\n"))
bug("w-kind-version", "C14", (W, "		Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), \"List\"),", "		Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, \"v1\", r.Resource), \"List\"),"))
bug("w-clean-early", "C15", (W, FIRST, ""), (W, "		first := true\n", "		_ = w.store.Clean(r, cluster)\n"))
bug("w-clean-before-loop", "C15", (W, FIRST, ""), (W, "		first := true\n", ""), (W, "		} else {\n		resultChan", "		} else {\n			_ = w.store.Clean(r, cluster)\n		resultChan"))
bug("w-first-outside", "C15", (W, "		first := true\n", ""), (W, "	for {\n		select {\n		case <-w.stop:\n			return\n		default", "	first := true\n	for {\n		select {\n		case <-w.stop:\n			return\n		default"))
bug("w-first-error", "C15", (W, "					if first {\n", "					if first && rr.Type != watch.Modified {\n"))
bug("w-first-reset", "C15", (W, '''						case watch.Error:
''', '''						case watch.Error:
							first = true
'''))
bug("w-clean-after", "C15", (W, FIRST, ""), (W, SW, SW + FIRST))
bug("w-give-up", "C16", (W, "			time.Sleep(time.Second * 15)\n", "			time.Sleep(time.Second * 15)\n			if strings.Contains(err.Error(), \"not found\") {\n				cancel()\n				return\n			}\n"))
bug("w-no-stop", "C16", (W, '''				case <-w.stop:
					ww.Stop()
					cancel()
					return
''', ''))
bug("w-no-pause", "C16", (W, "						time.Sleep(time.Second * 3)\n", "						if !first {\n							time.Sleep(time.Second * 3)\n						}\n"), (W, "						_ = w.store.Clean(r, cluster)\n						first = false\n", "						_ = w.store.Clean(r, cluster)\n						if open {\n							first = false\n						}\n"))
bug("w-no-cancel", "C16", (W, "		ctx, cancel := context.WithTimeout(context.Background(), time.Hour)\n", "		ctx, cancel := context.WithTimeout(context.Background(), time.Hour)\n		defer cancel()\n"), (W, "			}\n		}\n		cancel()\n", "			}\n		}\n"))
bug("w-spin", "C16", (W, "						break resultChan\n", "						if first {\n							break resultChan\n						}\n"))
bug("w-error-end", "C16", (W, '''rr.Object)
						}
					} else {''', '''rr.Object)
							ww.Stop()
							break resultChan
						}
					} else {'''))

same("w-if-chain", (W, SW, '''						if rr.Type == watch.Deleted {
							_ = w.store.OnResourceDeleted(r, cluster, rr.Object)
						} else if rr.Type == watch.Added || rr.Type == watch.Modified {
							_ = w.store.OnResourceAdded(r, cluster, rr.Object)
						} else if rr.Type == watch.Error {
							log.Warnf("cluster(%s): watch stream(%v) error: %v", cluster, r, rr.Object)
						}
'''))
same("w-helper", (W, SW, "						w.apply(r, cluster, rr)\n"), (W, "func (w *watcher) Start() error {", '''func (w *watcher) apply(r store.GroupVersionResource, cluster string, ev watch.Event) {
	var err error
	obj := ev.Object
	switch ev.Type {
	case watch.Added:
		err = w.store.OnResourceAdded(r, cluster, obj)
	case watch.Modified:
		err = w.store.OnResourceModified(r, cluster, obj)
	case watch.Deleted:
		err = w.store.OnResourceDeleted(r, cluster, obj)
	default:
		log.Warnf("cluster(%s): watch stream(%v): %v", cluster, r, obj)
	}
	if err != nil {
		log.Warnf("apply: %v", err)
	}
}

func (w *watcher) Start() error {'''))
same("w-stream-helper", (W, '''		resultChan:
			for {
				select {
				case rr, open := <-ww.ResultChan():
''' + FIRST + '''					if open {
''' + SW + '''					} else {
''' + CLOSED + '''					}
				case <-w.stop:
					ww.Stop()
					cancel()
					return
				}
			}
		}
''', '''			if w.drain(r, cluster, ww) {
				cancel()
				return
			}
			time.Sleep(time.Second * 3)
		}
'''), (W, "		first := true\n", ""), (W, "func (w *watcher) Start() error {", '''func (w *watcher) drain(r store.GroupVersionResource, cluster string, ww watch.Interface) (stopped bool) {
	defer ww.Stop()
	purged := false
	events := ww.ResultChan()
	for {
		select {
		case <-w.stop:
			return true
		case rr, open := <-events:
			if !purged {
				_ = w.store.Clean(r, cluster)
				purged = true
			}
			if !open {
				log.Warnf("cluster(%s): watch stream(%v) closed", cluster, r)
				return false
			}
''' + SW + '''		}
	}
}

func (w *watcher) Start() error {'''))
same("w-not-open-first", (W, '''					if open {
''' + SW + '''					} else {
''' + CLOSED + '''					}
''', '''					if !open {
''' + CLOSED + '''					}
''' + SW))
same("w-start-order", (W, START, '''	for cluster := range w.clusterConfigs {
		for i := range w.resources {
			go func(gvr store.GroupVersionResource, cluster string) {
				w.watchResources(gvr, cluster)
			}(w.resources[i], cluster)
		}
	}
'''))
same("w-url", (W, '	"fmt"\n', ''), (W, '''		url := ""
		if r.Group == "" {
			url = fmt.Sprintf("/api/%s/%s?watch=true", r.Version, r.Resource)
		} else {
			url = fmt.Sprintf("/apis/%s/%s/%s?watch=true", r.Group, r.Version, r.Resource)
		}
''', '''		url := watchURL(r)
'''), (W, "func (w *watcher) Start() error {", '''func watchURL(r store.GroupVersionResource) string {
	prefix := "/api/" + r.Version
	if r.Group != "" {
		prefix = "/apis/" + r.Group + "/" + r.Version
	}
	return prefix + "/" + r.Resource + "?watch=true"
}

func (w *watcher) Start() error {'''))
same("w-defer-iter", (W, '''			time.Sleep(time.Second * 15)
		} else {
''', '''			cancel()
			time.Sleep(time.Second * 15)
			continue
		}
		{
'''))
same("w-gv", (W, '''	config.GroupVersion = &schema.GroupVersion{
		Group:   r.Group,
		Version: r.Version,
	}
''', '''	config.ContentConfig.GroupVersion = &gv
'''))
