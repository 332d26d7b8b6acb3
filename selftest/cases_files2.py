F = "utils/fs_watcher.go"
ADD = "		if err := w.fswatcher.Add(f); err != nil {\n			_ = ww.Close()\n			w.fswatcher = nil\n			return err\n		}\n"
bug("y-add-ignored", "C22", (F, ADD, "		if err := w.fswatcher.Add(f); err != nil {\n			_ = ww.Close()\n			w.fswatcher = nil\n			return nil\n		}\n"))
bug("y-add-log", "C22", (F, ADD, "		if err := w.fswatcher.Add(f); err != nil {\n			log.Errorf(\"cannot watch %s: %v\", f, err)\n		}\n"))
bug("y-start-nil", "C22", (F, "	ww, err := fsnotify.NewWatcher()\n	if err != nil {\n		return err\n", "	ww, err := fsnotify.NewWatcher()\n	if err != nil {\n		return nil\n"))
bug("y-done", "C22", (F, "		close(w.done)\n", ""))
same("y-type", (F, "				send(Event{\n					Name: e.Name,\n					Type: EventTypeChanged,\n", "				send(Event{\n					Name: e.Name,\n"))
same("y-type-tick", (F, "						send(Event{\n							Name: name,\n							Type: EventTypeChanged,\n", "						send(Event{\n							Name: name,\n"))
same("y-open-err", (F, "				if !open {\n					return\n				}\n				log.Errorf(\"fs watcher error", "				log.Errorf(\"fs watcher error"), (F, "case err, open := <-ww.Errors", "case err := <-ww.Errors"))
bug("y-close-early", "C22", (F, "		defer close(w.events)\n", "		close(w.events)\n"))
bug("y-noclose", "C22", (F, "		defer close(w.events)\n", ""))
bug("y-nochan", "C22", (F, "		events: make(chan Event),\n", ""))
bug("y-nodone", "C22", (F, "		done:   make(chan struct{}),\n", ""))
bug("y-stat-log", "C22", (F, "		if err := w.Add(f); err != nil {\n			return nil, err\n		}\n", "		if err := w.Add(f); err != nil {\n			return nil, nil\n		}\n"))
same("y-done-start", (F, "		done:   make(chan struct{}),\n", ""), (F, "	w.fswatcher = ww\n", "	w.fswatcher = ww\n	w.done = make(chan struct{})\n"))
W = "watcher/watcher.go"
bug("y-w-configs", "C14", (W, "		clusterConfigs: clusterConfigs,\n", ""))
bug("y-w-resources", "C14", (W, "		resources:      resources,\n", ""))
bug("y-w-store", "C14", (W, "		store:          store,\n", ""))
bug("y-w-stop", "C14", (W, "		stop:           make(chan struct{}),\n", ""))
same("y-w-make", (W, "		stop:           make(chan struct{}),\n	}", "		stop:           make(chan struct{}, 1),\n	}"))
S = "server/server.go"
bug("y-s-clients", "C20", (S, "		clusterClients: clusterClients,\n", ""))
bug("y-s-store", "C20", (S, "		store:          s,\n", ""))
bug("y-s-addr", "C20", (S, "		ListenAddr:     listenAddr,\n", ""))
M = "store/memory/memory.go"
bug("y-m-index", "C12", (M, "		indexConf: indexConf,\n", ""))
bug("y-m-init", "C12", (M, "	for k := range indexConf {\n		s.resourceMap.Init(k)\n	}\n", ""))
bug("y-m-some", "C12", (M, "	for k := range indexConf {\n		s.resourceMap.Init(k)\n	}\n", "	for k, v := range indexConf {\n		if len(v) > 0 {\n			s.resourceMap.Init(k)\n		}\n	}\n"))
same("y-m-field", (M, "	for k := range indexConf {\n		s.resourceMap.Init(k)", "	for gvr := range s.indexConf {\n		s.resourceMap.Init(gvr)"))
same("y-m-set", (M, "	s := memoryStore{\n		indexConf: indexConf,\n	}\n", "	s := &memoryStore{}\n	s.indexConf = indexConf\n"), (M, "	return &s\n}\n\nfunc (m *memoryStore) initRes", "	return s\n}\n\nfunc (m *memoryStore) initRes"))
