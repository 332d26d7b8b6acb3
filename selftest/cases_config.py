CF = "common/config.go"
PGO = "page/page.go"
bug("c-default-other", "C27", (CF, 'c.DefaultCluster = "default"', 'c.DefaultCluster = "default-cluster"'))
bug("c-default-always", "C27", (CF, '	if c.DefaultCluster == "" {\n', '	if c.DefaultCluster == "" || len(c.Proxies) == 0 {\n'))
bug("c-keep-old", "C27", (CF, '	cfg.Store(c)\n', '	if old := cfg.Load(); old != nil && len(c.Proxies) == 0 {\n		return\n	}\n	cfg.Store(c)\n'))
bug("c-keep-token", "C27", (CF, '	cfg.Store(c)\n', '	if old := cfg.Load(); old != nil && c.Token == "" {\n		c.Token = old.Token\n	}\n	cfg.Store(c)\n'))
bug("c-kind-version", "C27", (CF, "p.Group == g && p.Version == v && p.Resource == r", "p.Group == g && p.Resource == r"))
bug("c-kind-swap", "C27", (CF, "p.Group == g && p.Version == v && p.Resource == r", "p.Group == v && p.Version == g && p.Resource == r"))
bug("c-kind-first", "C27", (CF, '			return p.ListKind\n		}\n', '			return p.ListKind\n		}\n		if p.Group == g && p.Resource == r {\n			break\n		}\n'))
bug("c-kind-skip", "C27", (CF, 'range cfg.Load().Proxies {', 'range cfg.Load().Proxies[len(cfg.Load().Proxies)/16:] {'))
bug("c-read", "C27", (CF, '	return *cfg.Load()\n', '	c := *cfg.Load()\n	if len(c.Proxies) == 0 {\n		c.Token = ""\n	}\n	return c\n'))
same("c-copy", (CF, '''	if c.DefaultCluster == "" {
		c.DefaultCluster = "default"
	}
	cfg.Store(c)
''', '''	n := *c
	if len(n.DefaultCluster) == 0 {
		n.DefaultCluster = "default"
	}
	cfg.Store(&n)
'''))
same("c-kind-index", (CF, '''	for _, p := range cfg.Load().Proxies {
		if p.Group == g && p.Version == v && p.Resource == r {
			return p.ListKind
		}
	}
	return ""
''', '''	kind := ""
	ps := GetConfig().Proxies
	for i := range ps {
		if r != ps[i].Resource || ps[i].Group != g || ps[i].Version != v {
			continue
		}
		kind = ps[i].ListKind
		break
	}
	return kind
'''))
same("c-kind-helper", (CF, "		if p.Group == g && p.Version == v && p.Resource == r {", "		if p.is(g, v, r) {"), (CF, "//type Cluster struct {", "func (p Proxy) is(g, v, r string) bool { return p.Group == g && p.Version == v && p.Resource == r }\n\n//type Cluster struct {"))
bug("c-total-items", "C28", (PGO, "page.Total = *remain + int64(items)", "page.Total = *remain + page.PageSize + 0*int64(items)"))
bug("c-total-prev", "C28", (PGO, "page.Total += (page.Page - 1) * page.PageSize", "page.Total += page.Page * page.PageSize"))
bug("c-total-prev2", "C28", (PGO, "page.Total += (page.Page - 1) * page.PageSize", "page.Total += (page.Page - 1) * int64(items)"))
bug("c-total-unpaged", "C28", (PGO, "	if page.Page > 0 && page.PageSize > 0 {\n		// items", "	if page.Page > 0 {\n		// items"))
bug("c-total-paged", "C28", (PGO, "	if page.Page > 0 && page.PageSize > 0 {\n		// items", "	if page.Page > 2 && page.PageSize > 0 {\n		// items"))
bug("c-items-name", "C28", (PGO, 'typeField.Name == "Items"', 'typeField.Name == "ListMeta"'))
bug("c-items-any", "C28", (PGO, 'typeField.Name == "Items"', 'typeField.Name == "Items" || val.Kind() == reflect.Slice'))
bug("c-cluster", "C28", (PGO, "GetAnnotations()[constants.DSMClusterAnno]", "GetAnnotations()[constants.IndexAnno]"))
bug("c-cluster-labels", "C28", (PGO, "GetAnnotations()[constants.DSMClusterAnno]", "GetLabels()[constants.DSMClusterAnno]"))
same("c-total-ret", (PGO, '''	if remain == nil {
		var i int64 = 0
		remain = &i
	}
	page.Total = *remain + int64(items)
	if page.Page > 0 && page.PageSize > 0 {
		// items of the previous pages
		page.Total += (page.Page - 1) * page.PageSize
	}
	return page
''', '''	total := int64(items)
	if remain != nil {
		total += *remain
	}
	if page.Page > 0 && page.PageSize > 0 {
		total += page.Page*page.PageSize - page.PageSize
	}
	page.Total = total
	return page
'''))
same("c-items-byname", (PGO, '''	for i := 0; i < val.NumField(); i++ {
		valueField := val.Field(i)
		typeField := val.Type().Field(i)

		f := valueField.Interface()
		val := reflect.ValueOf(f)
		if typeField.Name == "Items" {
			items = val.Len()
		}
	}
''', '''	if f := val.FieldByName("Items"); f.IsValid() {
		items = f.Len()
	}
'''))
same("c-cluster-var", (PGO, "	return o.GetAnnotations()[constants.DSMClusterAnno]\n", "	annotations := o.GetAnnotations()\n	if v, ok := annotations[constants.DSMClusterAnno]; ok {\n		return v\n	}\n	return \"\"\n"))
