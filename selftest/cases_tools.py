P = "cmd/ckube-plugin/main.go"
L = "cmd/ckubecli/main.go"
bug("z-pos", "C38", (P, "				selectorPos = len(args)\n", "				selectorPos = len(args) - 1\n"))
bug("z-pos-i", "C38", (P, "				selectorPos = len(args)\n", "				selectorPos = i\n"))
bug("z-short", "C38", (P, 'a == "-l" || a == "--selector"', 'a == "-l"'))
bug("z-skip", "C38", (P, "				clusters = os.Args[i+1]\n				i++\n", "				clusters = os.Args[i+1]\n"))
bug("z-swap", "C38", (P, "		if selectorPos == 0 {\n", "			if selectorPos != 0 {\n") ) if False else None
bug("z-nosel", "C38", (P, "			if selectorPos != 0 {\n				selector = args[selectorPos]\n			}\n", ""))
bug("z-noerr", "C38", (P, '				log.Errorf("selector error: %v", err)\n				os.Exit(2)\n', '				log.Errorf("selector error: %v", err)\n'))
bug("z-clerr", "C38", (P, '				log.Errorf("clusters error: %v", err)\n				os.Exit(2)\n', '				log.Errorf("clusters error: %v", err)\n'))
bug("z-many", "C38", (P, "			if len(cs) > 1 {\n", "			if len(cs) > 2 {\n"))
bug("z-sep", "C38", (P, 'strings.Split(clusters, ",")', 'strings.Split(clusters, ";")'))
bug("z-first", "C38", (P, "for i := 1; i < len", "for i := 0; i < len"))
bug("z-last", "C38", (P, "i < len(os.Args); i++", "i < len(os.Args)-1; i++"))
bug("z-stdin", "C38", (P, "	c.Stdin = os.Stdin\n", ""))
bug("z-stderr", "C38", (P, "	c.Stderr = os.Stderr\n", "	c.Stderr = os.Stdout\n"))
bug("z-status", "C38", (P, "			os.Exit(ee.ExitCode())\n", "			os.Exit(1)\n"))
bug("z-ok", "C38", (P, '		log.Errorf("run kubectl error: %v", err)\n		os.Exit(1)\n', '		log.Errorf("run kubectl error: %v", err)\n'))
bug("z-notsup", "C38", (P, "subcommad\")\n		os.Exit(1)\n", "subcommad\")\n"))
bug("z-append", "C38", (P, "				args = append(args, \"-l\", o.LabelSelector)\n", "				args = []string{\"get\", \"-l\", o.LabelSelector}\n"))
bug("z-fm", "C38", (P, "QueryCreateOptions(metav1.CreateOptions{}, cs[0])", "QueryCreateOptions(metav1.CreateOptions{}, \"default\")"))
bug("z-get-create", "C38", (P, '			typ = create\n', '			typ = get\n'))
bug("z-else", "C38", (P, "		} else {\n			args = append(args, a)\n		}\n", "		} else if a != \"\" {\n			args = append(args, a)\n		}\n"))
bug("z-append-sel", "C38", (P, "				args[selectorPos] = o.LabelSelector\n", "				args = append(args, \"-l\", o.LabelSelector)\n"))
bug("z-none", "C38", (P, '	if clusters == "" {\n', '	if clusters == "" || clusters == "default" {\n'))
same("z-r-clusters", (P, '		if a == "--clusters" {\n			if i+1 < len(os.Args) {\n				clusters = os.Args[i+1]\n				i++\n				continue\n			}\n		} else {\n			args = append(args, a)\n		}\n',
  '		if a == "--clusters" && i+1 < len(os.Args) {\n			i++\n			clusters = os.Args[i]\n			continue\n		}\n		if a != "--clusters" {\n			args = append(args, a)\n		}\n'))
same("z-r-args", (P, "	args := []string{}\n", "	var args []string\n	given := os.Args\n"), (P, "i < len(os.Args); i++", "i < len(given); i++"), (P, "a := os.Args[i]", "a := given[i]"))
same("z-r-helper", (P, "	c := exec.Command(\"kubectl\", args...)\n", "	runKubectl(args)\n}\n\nfunc runKubectl(args []string) {\n	c := exec.Command(\"kubectl\", args...)\n"))
same("z-r-pos", (P, "	selectorPos := 0\n", "	selectorPos := -1\n"), (P, "			if selectorPos != 0 {\n", "			if selectorPos >= 0 {\n"), (P, "			if selectorPos == 0 {\n", "			if selectorPos < 0 {\n"))
same("z-r-fail", (P, '				log.Errorf("clusters error: %v", err)\n				os.Exit(2)\n', '				fail("clusters error: %v", err)\n'), (P, "func main() {\n", "func fail(f string, args ...interface{}) {\n	log.Errorf(f, args...)\n	os.Exit(2)\n}\n\nfunc main() {\n"))
same("z-r-prep", (P, "			p := page.Paginate{}\n			if err := p.Clusters(cs); err != nil {", "			var p page.Paginate\n			err := p.Clusters(cs)\n			if err != nil {"))
same("z-r-errors", (P, "		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() > 0 {\n			os.Exit(ee.ExitCode())\n", "		var ee *exec.ExitError\n		if errors.As(err, &ee) && ee.ExitCode() > 0 {\n			os.Exit(ee.ExitCode())\n"), (P, 'import (\n', 'import (\n	"errors"\n'))
bug("z-l-page", "C38", (L, "int64(page_)", "int64(page_) - 1"))
bug("z-l-size", "C38", (L, "PageSize: int64(pageSize)", "PageSize: int64(page_)"))
bug("z-l-sort", "C38", (L, "		Sort:     sort,\n", ""))
bug("z-l-out", "C38", (L, "	fmt.Printf(o.LabelSelector)\n", "	_ = o\n	fmt.Printf(search)\n"))
bug("z-l-exit", "C38", (L, "query error: %v\", err)\n		os.Exit(1)\n", "query error: %v\", err)\n		os.Exit(0)\n"))
bug("z-l-parse", "C38", (L, "	flag.Parse()\n", ""))
bug("z-l-flag", "C38", (L, '"sort", "", "sort of', '"order", "", "sort of'))
bug("z-l-cl", "C38", (L, "			os.Exit(1)\n		}\n	}\n", "		}\n	}\n"))
same("z-l-r-print", (L, "	fmt.Printf(o.LabelSelector)\n", "	fmt.Printf(\"%s\", o.LabelSelector)\n"))
same("z-l-r-print2", (L, "	fmt.Printf(o.LabelSelector)\n", "	fmt.Fprint(os.Stdout, o.LabelSelector)\n"))
same("z-l-r-flag", (L, '	flag.StringVar(&sort, "sort", "", "sort of result")\n', '	flag.StringVar(&search, "search", "", "search of result")\n'), (L, '	flag.StringVar(&search, "search", "", "search of result")\n	flag.StringVar(&clusters', '	flag.StringVar(&sort, "sort", "", "sort of result")\n	flag.StringVar(&clusters')) if False else None
S = "server/server.go"
W = "watcher/watcher.go"
bug("z-s-handler", "C20", (S, "		Handler:      m.router,\n", ""))
bug("z-s-addr", "C20", (S, "		Addr:         m.ListenAddr,\n", "		Addr:         m.LogLevel,\n"))
bug("z-s-stopnil", "C20", (S, "	if ser == nil {\n		return fmt", "	if ser != nil {\n		return fmt"))
bug("z-s-stopok", "C20", (S, "	return ser.Shutdown(ctx)\n", "	_ = ctx\n	return nil\n"))
bug("z-s-notkept", "C20", (S, "	m.server = ser\n", "	if m.server != nil {\n		m.server = ser\n	}\n"))
bug("z-s-runlock", "C17", (S, "	m.server = ser\n	m.lock.Unlock()\n", "	m.server = ser\n	m.lock.RUnlock()\n"))
bug("z-s-runlock2", "C17", (S, "	m.lock.Lock()\n	defer m.lock.Unlock()\n	m.store = s", "	m.lock.Lock()\n	defer m.lock.RUnlock()\n	m.store = s"))
bug("z-s-code", "C19", (S, "							Code:    401,\n", ""))
bug("z-s-methods", "C34", (S, '				if r.method != "" {', '				if r.method != "" && r.method != "GET" {'))
same("z-s-r-run", (S, "	return ser.ListenAndServe()\n", "	err := ser.ListenAndServe()\n	if err != nil {\n		log.Errorf(\"server: %v\", err)\n	}\n	return err\n"))
same("z-s-r-stop", (S, "	if ser == nil {\n		return fmt.Errorf(\"server not start ever\")\n	}\n	ctx, cancel := context.WithTimeout(context.Background(), time.Second*3)\n	defer cancel()\n	log.Infof(\"shutting down the server...\")\n	return ser.Shutdown(ctx)\n",
  "	if ser != nil {\n		ctx, cancel := context.WithTimeout(context.Background(), time.Second*3)\n		defer cancel()\n		return ser.Shutdown(ctx)\n	}\n	return fmt.Errorf(\"server not start ever\")\n"))
same("z-s-r-set", (S, "	ser := &http.Server{\n		Addr:         m.ListenAddr,\n", "	ser := &http.Server{\n"), (S, "	m.lock.Lock()\n	m.server = ser\n", "	ser.Addr = m.ListenAddr\n	m.lock.Lock()\n	m.server = ser\n"))
same("z-s-r-lockhelper", (S, "	m.lock.Lock()\n	m.server = ser\n	m.lock.Unlock()\n", "	m.keep(ser)\n"), (S, "func (m *muxServer) Stop()", "func (m *muxServer) keep(ser *http.Server) {\n	m.lock.Lock()\n	defer m.lock.Unlock()\n	m.server = ser\n}\n\nfunc (m *muxServer) Stop()"))
bug("z-w-gv", "C14", (W, "	config.GroupVersion = &schema.GroupVersion{\n", "	_ = &schema.GroupVersion{\n"))
bug("z-w-double", "C14", (W, "; !ok {\n		sch.Add", "; !ok || gvk.Group == \"\" {\n		sch.Add"))
bug("z-w-cancel", "C16", (W, "		first := true\n", "		first := true\n		if w.store == nil {\n			cancel()\n		}\n"))
bug("z-w-stopearly", "C16", (W, "					if open {\n						switch", "					if open {\n						if rr.Type == watch.Bookmark {\n							cancel()\n						}\n						switch"))
same("z-w-r-defer", (W, "		ctx, cancel := context.WithTimeout(context.Background(), time.Hour)\n", "		ctx, cancel := context.WithTimeout(context.Background(), time.Hour)\n		defer cancel()\n"))
same("z-w-r-recog", (W, "	if _, ok := sch.KnownTypes(gv)[gvk.Kind]; !ok {\n", "	if !sch.Recognizes(gvk) {\n		_ = gv\n"))
same("z-w-r-gv", (W, "	config.GroupVersion = &schema.GroupVersion{\n		Group:   r.Group,\n		Version: r.Version,\n	}\n", "	config.GroupVersion = &gv\n"))
bug("zz-router", "C20", (S, "		router:         mux.NewRouter(),\n", ""))
bug("zz-ext", "C34", (S, "	for _, h := range externalRouter {\n		h(ser.router)\n	}\n	ser.registerRoutes(ser.router, routeHandles)\n", "	ser.registerRoutes(ser.router, routeHandles)\n	for _, h := range externalRouter {\n		h(ser.router)\n	}\n"))
bug("zz-ext2", "C34", (S, "	for _, h := range externalRouter {\n		h(ser.router)\n", "	for i, h := range externalRouter {\n		if i == 0 {\n			continue\n		}\n		h(ser.router)\n"))
same("zz-r-ext", (S, "	for _, h := range externalRouter {\n		h(ser.router)\n", "	for i := 0; i < len(externalRouter); i++ {\n		externalRouter[i](ser.router)\n"))
bug("zz-known", "C14", (W, "		Group:   r.Group,\n		Version: r.Version,\n	}\n	// the global", "		Group:   r.Version,\n		Version: r.Version,\n	}\n	// the global"))
bug("zz-held", "C17", (S, "				m.lock.RUnlock()\n				var res = route.handler(", "				defer m.lock.RUnlock()\n				var res = route.handler("))
bug("zz-type", "C20", (S, '	writer.Header().Set("Content-Type", "application/json")\n	writer.WriteHeader(status)\n', '	writer.WriteHeader(status)\n	writer.Header().Set("Content-Type", "application/json")\n'))
same("zz-r-type", (S, '	writer.Header().Set("Content-Type", "application/json")\n	writer.WriteHeader(status)\n', '	h := writer.Header()\n	h.Set("content-type", "application/json; charset=utf-8")\n	writer.WriteHeader(status)\n'))
