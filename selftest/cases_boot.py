M = "cmd/cacheproxy/main.go"
REL = '''				clis, rw, rs, err := loadFromConfig(kubeConfig, configFile)
				if err != nil {
					prommonitor.ConfigReload.WithLabelValues("failed").Inc()
					log.Errorf("watcher: reload config error: %v", err)
					continue
				}
				prommonitor.Resources.Reset()
				_ = w.Stop()
				w = rw
				ser.ResetStore(rs, clis) // reset store
				prommonitor.ConfigReload.WithLabelValues("success").Inc()
				log.Infof("auto reloaded config successfully")
'''
SW = '''				switch e.Type {
				case utils.EventTypeChanged:
					// do reload
				case utils.EventTypeError:
					log.Errorf("got file watcher error type: file: %s", e.Name)
					// do reload
				}
'''
# C21
bug("b-stop-before-load", "C21", (M, "				clis, rw, rs, err := loadFromConfig(kubeConfig, configFile)\n", "				_ = w.Stop()\n				clis, rw, rs, err := loadFromConfig(kubeConfig, configFile)\n"), (M, "				_ = w.Stop()\n				w = rw", "				w = rw"))
bug("b-init-early", "C21", (M, "	common.InitConfig(&cfg)\n\n", ""), (M, "	clusterConfigs := map[string]rest.Config{}\n", "	common.InitConfig(&cfg)\n	clusterConfigs := map[string]rest.Config{}\n"))
bug("b-no-w", "C21", (M, "				w = rw\n", "				_ = rw\n"))
bug("b-stop-new", "C21", (M, "				_ = w.Stop()\n				w = rw\n", "				w = rw\n				_ = w.Stop()\n"))
bug("b-reload-fatal", "C21", (M, "					log.Errorf(\"watcher: reload config error: %v\", err)\n					continue\n", "					log.Errorf(\"watcher: reload config error: %v\", err)\n					os.Exit(1)\n"))
bug("b-reload-return", "C21", (M, "					log.Errorf(\"watcher: reload config error: %v\", err)\n					continue\n", "					log.Errorf(\"watcher: reload config error: %v\", err)\n					return\n"))
bug("b-old-store", "C21", (M, "ser.ResetStore(rs, clis)", "_ = rs\n				ser.ResetStore(s, clis)"))
bug("b-files-config-only", "C21", (M, "		files = append(files, kubeConfig)\n", "		log.Debugf(\"%s\", kubeConfig)\n"))
bug("b-files-kube-only", "C21", (M, "files := []string{configFile}", "files := []string{}"))
bug("b-skip-config-event", "C21", (M, SW, SW.replace("					// do reload\n				case utils.EventTypeError", "					if e.Name == kubeConfig {\n						continue\n					}\n				case utils.EventTypeError")))
bug("b-first-exit0", "C21", (M, "		os.Exit(1)\n", "		os.Exit(0)\n"))
bug("b-first-continue", "C21", (M, '		log.Errorf("load from config file error: %v", err)\n		os.Exit(1)\n', '		log.Errorf("load from config file error: %v", err)\n'))
bug("b-reset-metrics-first", "C21", (M, "				clis, rw, rs, err := loadFromConfig(kubeConfig, configFile)\n", "				prommonitor.Resources.Reset()\n				clis, rw, rs, err := loadFromConfig(kubeConfig, configFile)\n"))
bug("b-not-started", "C21", (M, "	_ = w.Start()\n", ""))
bug("b-wrong-file", "C21", (M, "loadFromConfig(kubeConfig, configFile)\n				if", "loadFromConfig(kubeConfig, e.Name)\n				if"))
bug("b-once", "C21", (M, 'log.Infof("auto reloaded config successfully")', 'return'))
bug("b-partial-clients", "C32", (M, "ser.ResetStore(rs, clis)", "_ = clis\n				ser.ResetStore(rs, map[string]kubernetes.Interface{})"))
# C32
bug("b-skip-current", "C32", (M, "		for _, ctx := range kubecfg.Contexts {\n", "		for _, ctx := range kubecfg.Contexts {\n			if ctx.Context.Cluster == \"\" {\n				continue\n			}\n"))
bug("b-nil-continue", "C32", (M, '''				log.Errorf("init k8s client error: %v", err)
				return nil, nil, nil, err
''', '''				log.Errorf("init k8s client error: %v", err)
				continue
'''))
bug("b-cluster-key", "C32", (M, "clusterClients[ctx.Name] = client", "clusterClients[ctx.Context.Cluster] = client"))
bug("b-config-key", "C32", (M, "clusterConfigs[ctx.Name] = *c", "clusterConfigs[ctx.Context.Cluster] = *c"))
bug("b-client-default", "C32", (M, "GetKubernetesClientWithFile(kubeConfig, ctx.Name)", "GetKubernetesClientWithFile(kubeConfig, kubecfg.CurrentContext)"))
bug("b-ctx-lost", "C32", (M, "		CurrentContext:  context,\n", ""))
bug("b-path-lost", "C32", (M, "	loadingRules.ExplicitPath = kubeconfig\n", ""))
bug("b-first-proxy", "C32", (M, "		}] = proxy.Index\n", "		}] = cfg.Proxies[0].Index\n"))
bug("b-res-only", "C32", (M, "			Version:  proxy.Version,\n			Resource: proxy.Resource,\n		}] =", "			Version:  \"v1\",\n			Resource: proxy.Resource,\n		}] ="))
bug("b-list-group", "C32", (M, "		storeGVRConfig = append(storeGVRConfig, store.GroupVersionResource{\n			Group:    proxy.Group,", "		storeGVRConfig = append(storeGVRConfig, store.GroupVersionResource{\n			Group:    proxy.Resource,"))
bug("b-skip-noindex", "C32", (M, "	for _, proxy := range cfg.Proxies {\n", "	for _, proxy := range cfg.Proxies {\n		if len(proxy.Index) == 0 {\n			continue\n		}\n"))
bug("b-default-cluster", "C32", (M, "cfg.DefaultCluster = kubecfg.CurrentContext", "if cfg.DefaultCluster == \"\" {\n			cfg.DefaultCluster = kubecfg.CurrentContext\n		}"))
bug("b-default-first", "C32", (M, "cfg.DefaultCluster = kubecfg.CurrentContext", "cfg.DefaultCluster = kubecfg.Contexts[0].Name"))
bug("b-pod-name", "C32", (M, "			clusterClients[cfg.DefaultCluster] = client\n", '			clusterClients["default"] = client\n'))
bug("b-incluster-k", "C32", (M, 'if kubeConfig == "" {\n		defaultConfig', 'if kubeConfig == "" || os.Getenv("KUBERNETES_SERVICE_HOST") != "" {\n		defaultConfig'))
bug("b-listen", "C32", (M, "server.NewMuxServer(listen, clis, s)", 'server.NewMuxServer(":80", clis, s)'))
bug("b-kube-env", "C32", (M, 'bs, err := os.ReadFile(kubeConfig)', 'bs, err := os.ReadFile(path.Join(os.Getenv("HOME"), ".kube/config"))'))
bug("b-token", "C32", (M, "	common.InitConfig(&cfg)\n", '	cfg.Token = os.Getenv("TOKEN")\n	common.InitConfig(&cfg)\n'))
# refactorings
same("b-extract-reload", (M, REL, '''				nw, err := reload(ser, w, kubeConfig, configFile)
				if err != nil {
					prommonitor.ConfigReload.WithLabelValues("failed").Inc()
					continue
				}
				w = nw
'''), (M, "func main() {\n", '''func reload(ser server.Server, old watcher.Watcher, kubeConfig, configFile string) (watcher.Watcher, error) {
	clients, nw, ns, err := loadFromConfig(kubeConfig, configFile)
	if err != nil {
		log.Errorf("watcher: reload config error: %v", err)
		return nil, err
	}
	ser.ResetStore(ns, clients)
	if err := old.Stop(); err != nil {
		log.Errorf("stop: %v", err)
	}
	prommonitor.Resources.Reset()
	prommonitor.ConfigReload.WithLabelValues("success").Inc()
	return nw, nil
}

func main() {
'''))
same("b-else", (M, REL, '''				clis, rw, rs, err := loadFromConfig(kubeConfig, configFile)
				if err == nil {
					old := w
					w = rw
					prommonitor.Resources.Reset()
					ser.ResetStore(rs, clis)
					_ = old.Stop()
					prommonitor.ConfigReload.WithLabelValues("success").Inc()
				} else {
					prommonitor.ConfigReload.WithLabelValues("failed").Inc()
					log.Errorf("watcher: reload config error: %v", err)
				}
'''))
same("b-noswitch", (M, SW, '''				if e.Type == utils.EventTypeError {
					log.Errorf("file: %s", e.Name)
				}
'''))
same("b-gvr-var", (M, '''		indexConf[store.GroupVersionResource{
			Group:    proxy.Group,
			Version:  proxy.Version,
			Resource: proxy.Resource,
		}] = proxy.Index
		storeGVRConfig = append(storeGVRConfig, store.GroupVersionResource{
			Group:    proxy.Group,
			Version:  proxy.Version,
			Resource: proxy.Resource,
		})
''', '''		gvr := gvrOf(proxy)
		storeGVRConfig = append(storeGVRConfig, gvr)
		indexConf[gvr] = proxy.Index
'''), (M, "func main() {\n", '''func gvrOf(p common.Proxy) (gvr store.GroupVersionResource) {
	gvr.Group = p.Group
	gvr.Version = p.Version
	gvr.Resource = p.Resource
	return
}

func main() {
'''))
same("b-index-loops", (M, "	for _, proxy := range cfg.Proxies {\n", "	for i := range cfg.Proxies {\n		proxy := &cfg.Proxies[i]\n"), (M, "		for _, ctx := range kubecfg.Contexts {\n", "		for i := 0; i < len(kubecfg.Contexts); i++ {\n			ctx := kubecfg.Contexts[i]\n"))
same("b-two-loops", (M, '''		}] = proxy.Index
		storeGVRConfig''', '''		}] = proxy.Index
	}
	for _, proxy := range cfg.Proxies {
		storeGVRConfig'''))
same("b-read-config", (M, '''	if bs, err := os.ReadFile(configFile); err != nil {
		log.Errorf("config file load error: %v", err)
		return nil, nil, nil, err
	} else {
		err := json.Unmarshal(bs, &cfg)
		if err != nil {
			log.Errorf("config file load error: %v", err)
			return nil, nil, nil, err
		}
	}
''', '''	if err := readConfig(configFile, &cfg); err != nil {
		log.Errorf("config file load error: %v", err)
		return nil, nil, nil, err
	}
'''), (M, "func main() {\n", '''func readConfig(name string, cfg *common.Config) error {
	bs, err := os.ReadFile(name)
	if err != nil {
		return fmt.Errorf("read %s: %w", name, err)
	}
	if err := json.Unmarshal(bs, cfg); err != nil {
		return err
	}
	return nil
}

func main() {
'''))
same("b-clusters-extracted", (M, '''			clusterConfigs[ctx.Name] = *c
			client, err := GetKubernetesClientWithFile(kubeConfig, ctx.Name)
			if err != nil {
				log.Errorf("init k8s client error: %v", err)
				return nil, nil, nil, err
			}
			clusterClients[ctx.Name] = client
''', '''			name := ctx.Name
			client, err := kubernetes.NewForConfig(c)
			if err != nil {
				log.Errorf("init k8s client error: %v", err)
				return nil, nil, nil, err
			}
			clusterClients[name], clusterConfigs[name] = client, *c
'''))
same("b-files-func", (M, '''	files := []string{configFile}
	if kubeConfig == "" {
		// there is none when running in a pod, the config file must still be watched.
		if _, err := os.Stat(defaultConfig); err == nil {
			files = append(files, defaultConfig)
		}
	} else {
		files = append(files, kubeConfig)
	}
''', '''	files := watched(configFile, kubeConfig, defaultConfig)
'''), (M, "func main() {\n", '''func watched(configFile, kubeConfig, defaultConfig string) []string {
	if kubeConfig != "" {
		return []string{configFile, kubeConfig}
	}
	if _, err := os.Stat(defaultConfig); err != nil {
		return []string{configFile}
	}
	return []string{configFile, defaultConfig}
}

func main() {
'''))
bug("b-bad-json-goes-on", "C21", (M, 'err := json.Unmarshal(bs, &cfg)\n		if err != nil {\n			log.Errorf("config file load error: %v", err)\n			return nil, nil, nil, err\n		}', '_ = json.Unmarshal(bs, &cfg)'))
bug("b-kube-unread", "C21", (M, '			log.Errorf("read kube config error: %v", err)\n			return nil, nil, nil, err\n', '			log.Errorf("read kube config error: %v", err)\n'))
same("b-decode-else", (M, '		err = yaml.Unmarshal(bs, &kubecfg)\n		if err != nil {\n			err = json.Unmarshal(bs, &kubecfg)\n			if err != nil {\n				log.Errorf("parse kube config %s error: %v", kubeConfig, err)\n				return nil, nil, nil, err\n			}\n		}\n', '		if yerr := yaml.Unmarshal(bs, &kubecfg); yerr != nil {\n			if jerr := json.Unmarshal(bs, &kubecfg); jerr != nil {\n				return nil, nil, nil, jerr\n			}\n		}\n'))
bug("b-nil-config", "C30", (M, '				log.Errorf("init k8s config error")\n				return nil, nil, nil, fmt.Errorf("init k8s config error")\n', '				log.Errorf("init k8s config error")\n'))
bug("b-unnamed", "C32", (M, '			if cfg.DefaultCluster == "" {\n				cfg.DefaultCluster = "default"\n			}\n', ''))
bug("b-pod-always", "C32", (M, "if _, err := os.Stat(defaultConfig); err != nil {", "if _, err := os.Stat(defaultConfig); err != nil || cfg.DefaultCluster != \"\" {"))
