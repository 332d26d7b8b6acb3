P = "api/proxy.go"
M = "store/memory/memory.go"
G = "page/page.go"
# C06
bug("default-skip-namespaced", "C06", (P, 'if cs := paginate.GetClusters(); len(cs) == 0 {\n		err = paginate', 'if cs := paginate.GetClusters(); len(cs) == 0 && namespace == "" {\n		err = paginate'))
bug("default-other-cluster", "C06", (P, 'paginate.Clusters([]string{common.GetConfig().DefaultCluster})', 'paginate.Clusters([]string{cluster})'))
bug("default-always", "C06", (P, 'if cs := paginate.GetClusters(); len(cs) == 0 {\n		err = paginate', 'if cs := paginate.GetClusters(); len(cs) <= 1 {\n		err = paginate'))
# C07
bug("label-drop-search", "C07", (P, '''				Sort:   paginate.Sort,
				Search: paginate.Search,
			}, // get all''', '''				Sort:   paginate.Sort,
			}, // get all'''))
bug("label-drop-sort", "C07", (P, '''				Sort:   paginate.Sort,
				Search: paginate.Search,
			}, // get all''', '''				Search: paginate.Search,
			}, // get all'''))
bug("label-paged-first", "C07 C08", (P, '''				Sort:   paginate.Sort,
				Search: paginate.Search,
			}, // get all''', '''				Sort:   paginate.Sort,
				Search: paginate.Search,
				Page: paginate.Page, PageSize: paginate.PageSize,
			}, // get all'''))
bug("label-only-matchlabels", "C07", (P, 'if labels != nil && (len(labels.MatchLabels) != 0 || len(labels.MatchExpressions) != 0) {\n		// exists', 'if labels != nil && len(labels.MatchLabels) != 0 {\n		// exists'))
bug("label-skip-nolabels", "C07", (P, '''			l := findLabels(item)
			if sel''', '''			l := findLabels(item)
			if len(l) == 0 {
				continue
			}
			if sel'''))
bug("label-break", "C07", (P, '''				items = append(items, item)
			}
		}

		// manually''', '''				items = append(items, item)
			} else if len(items) > 500 {
				break
			}
		}

		// manually'''))
bug("label-mes-dropped", "C07", (P, '''				} else {
					mes = append(mes, m)
				}''', '''				} else if len(m.Values) > 0 {
					mes = append(mes, m)
				}'''))
# C08
bug("page-end-off", "C08", (P, '''			if paginate.PageSize < l-start {
				end = start + paginate.PageSize''', '''			if paginate.PageSize < l-start-1 {
				end = start + paginate.PageSize'''))
bug("page-remaining", "C08", (P, 'remainCount = total - (paginate.PageSize * paginate.Page)', 'remainCount = total - int64(len(items))'))
bug("page-total-filtered", "C08", (P, '''		items = items[start:end]
		total = l''', '''		items = items[start:end]
		total = res.Total'''))
bug("page-beyond-first", "C08", (P, 'if len(items) == 0 && paginate.Page != 1 {', 'if len(items) == 0 {'))
bug("store-page-end", "C08", (M, '''		if query.PageSize < l-start {
			end = start + query.PageSize''', '''		if query.PageSize <= l-start {
			end = start + query.PageSize - 1'''))
bug("store-total-page", "C08", (M, '''		res.Items = append(res.Items, r.Obj)
	}
''', '''		res.Items = append(res.Items, r.Obj)
	}
	res.Total = int64(len(res.Items))
'''))
bug("store-page-one", "C08", (M, 'if query.PageSize <= 0 || query.Page <= 0 {', 'if query.PageSize <= 0 || query.Page <= 1 {'))
# C09
bug("sort-desc-lost-int", "C09", (M, '''			if s.reverse {
				r = !r
			}''', '''			if s.reverse && s.typ != constants.KeyTypeInt {
				r = !r
			}'''))
bug("sort-second-key", "C09", (M, '''			if equals {
				continue
			}''', '''			if equals && s.typ == constants.KeyTypeInt {
				continue
			}'''))
bug("sort-number-as-text", "C09", (M, 'r = vi < vj\n', 'r = vis < vjs\n'))
bug("sort-err-lost", "C09", (M, '''				vj, err := strconv.ParseFloat(vjs, 64)
				if err != nil {
					sortErr = keyErr
					break
				}''', '''				vj, err := strconv.ParseFloat(vjs, 64)
				if err != nil {
					break
				}'''))
bug("sort-type-sticky", "C09", (M, '''	for _, s = range ss {
		s = strings.TrimSpace(s)
		if s == "" {
			continue
		}
		st := innerSort{
			reverse: false,
			typ:     constants.KeyTypeStr,
		}''', '''	st := innerSort{typ: constants.KeyTypeStr}
	for _, s = range ss {
		s = strings.TrimSpace(s)
		if s == "" {
			continue
		}'''))
bug("sort-skip-single", "C09", (M, '	if len(objs) == 0 {\n		return objs, nil', '	if len(objs) <= 2 {\n		return objs, nil'))
bug("sort-err-ignored", "C09", (M, '	return objs, sortErr\n', '	if len(sorts) > 1 {\n		return objs, nil\n	}\n	return objs, sortErr\n'))
# C10
bug("query-ns-cluster", "C10", (M, 'query.Namespace == string(ns)', 'query.Namespace == string(cname)'), (M, 'query.Namespace == "" || query.Namespace == string(cname)', '(query.Namespace == "" || query.Namespace == string(ns)) || query.Namespace == string(cname)'))
bug("query-err-lost", "C10", (M, '''					} else if err != nil {
						res.Error = err
					}''', '''					} else if err != nil && res.Error == nil && len(resources) == 0 {
						res.Error = err
					}'''))
bug("query-err-reset", "C10", (M, '''	res.Total = l
	var start''', '''	res.Total = l
	res.Error = nil
	var start'''))
bug("query-match-whole", "C10", (M, 'if ok, err := query.Match(obj.Index); ok {', 'if ok, err := query.Match(obj.Index); ok || query.Search == "" {'), (M, 'ok || query.Search == ""', 'ok && err == nil && name != "kube-root-ca.crt"'))
# C11
bug("match-any", "C11", (G, 'return matched == len(searchParts), nil', 'return matched > 0 || len(searchParts) == 0, nil'))
bug("match-err-swallowed", "C11", (G, '''			if err != nil {
				return false, err
			}
			if r {''', '''			if err != nil {
				continue
			}
			if r {'''))
bug("match-neg-key", "C11", (G, '''			if reverse {
				return !vv, nil
			}
			return vv, nil''', '''			if reverse && value != "" {
				return !vv, nil
			}
			return vv, nil'''))
bug("match-missing-neg", "C11", (G, 'if v, ok := m[key]; !ok {', 'if v, ok := m[key]; !ok && !reverse {'))
bug("match-last-eq", "C11", (G, 'indexOfEqual := strings.Index(search, "=")', 'indexOfEqual := strings.LastIndex(search, "=")'))
bug("match-fuzzy-first", "C11", (G, '''			if vv {
				return false, nil
			}
		} else {''', '''			if !vv {
				return true, nil
			}
		} else {'''))
bug("match-val-one", "C11", (G, 'if indexOfEqual < len(search)-1 {', 'if indexOfEqual < len(search)-2 {'))

# refactorings
same("window-helper", (P, '''		var start, end int64
		if paginate.PageSize <= 0 || paginate.Page <= 0 {
			// all resources
			start = 0
			end = l
		} else {
			// compare by division, page numbers may be large enough to overflow.
			start = l
			if paginate.Page-1 <= l/paginate.PageSize {
				start = (paginate.Page - 1) * paginate.PageSize
			}
			if start >= l {
				start = l
			}
			end = l
			if paginate.PageSize < l-start {
				end = start + paginate.PageSize
			}
		}
''', '''		start, end := window(l, paginate.Page, paginate.PageSize)
'''), (P, 'func Proxy(', '''func window(l, pg, size int64) (int64, int64) {
	if size <= 0 || pg <= 0 {
		return 0, l
	}
	start := l
	if pg-1 <= l/size {
		start = min((pg-1)*size, l)
	}
	return start, start + min(size, l-start)
}

func min(a, b int64) int64 {
	if b < a {
		return b
	}
	return a
}

func Proxy('''))
same("label-filter-index", (P, '''		for _, item := range res.Items {
			l := findLabels(item)
			if sel.Matches(k8labels.Set(l)) {
				items = append(items, item)
			}
		}
''', '''		for i := 0; i < len(res.Items); i++ {
			if !sel.Matches(k8labels.Set(findLabels(res.Items[i]))) {
				continue
			}
			items = append(items, res.Items[i])
		}
'''))
same("label-filter-helper", (P, '''		for _, item := range res.Items {
			l := findLabels(item)
			if sel.Matches(k8labels.Set(l)) {
				items = append(items, item)
			}
		}
''', '''		items = filterItems(res.Items, sel)
'''), (P, 'func Proxy(', '''func filterItems(in []interface{}, sel k8labels.Selector) []interface{} {
	out := make([]interface{}, 0, len(in))
	for _, o := range in {
		if sel.Matches(k8labels.Set(findLabels(o))) {
			out = append(out, o)
		}
	}
	return out
}

func Proxy('''))
same("default-cluster-order", (P, '''	if cs := paginate.GetClusters(); len(cs) == 0 {
		err = paginate''', '''	named := paginate.GetClusters()
	if len(named) == 0 {
		err = paginate'''))
same("haslabels-helper", (P, 'if labels != nil && (len(labels.MatchLabels) != 0 || len(labels.MatchExpressions) != 0) {\n		// exists', 'if hasReq(labels) {\n		// exists'), (P, 'func Proxy(', '''func hasReq(s *v1.LabelSelector) bool {
	if s == nil {
		return false
	}
	return len(s.MatchLabels)+len(s.MatchExpressions) > 0
}

func Proxy('''))
same("store-window-helper", (M, '''	var start, end int64
	if query.PageSize <= 0 || query.Page <= 0 {
		// all resources
		start = 0
		end = l
	} else {
		// compare by division, page numbers may be large enough to overflow.
		start = l
		if query.Page-1 <= l/query.PageSize {
			start = (query.Page - 1) * query.PageSize
		}
		if start >= l {
			start = l
		}
		end = l
		if query.PageSize < l-start {
			end = start + query.PageSize
		}
	}
	for _, r := range resources[start:end] {
		res.Items = append(res.Items, r.Obj)
	}
''', '''	start, end := bounds(query.Paginate.Page, query.Paginate.PageSize, l)
	for i := start; i < end; i++ {
		res.Items = append(res.Items, resources[i].Obj)
	}
'''), (M, 'func (m *memoryStore) Query(', '''func bounds(p, size, l int64) (start, end int64) {
	start, end = 0, l
	if size > 0 && p > 0 {
		if p-1 > l/size || (p-1)*size >= l {
			return l, l
		}
		start = (p - 1) * size
		if size < l-start {
			end = start + size
		}
	}
	return
}

func (m *memoryStore) Query('''))
same("store-items-lo", (M, '''	for _, r := range resources[start:end] {
		res.Items = append(res.Items, r.Obj)
	}
''', '''	res.Items = lo.Map(resources[start:end], func(o store.Object, _ int) interface{} { return o.Obj })
'''))
same("store-items-fill", (M, '''	for _, r := range resources[start:end] {
		res.Items = append(res.Items, r.Obj)
	}
''', '''	page := resources[start:end]
	items := make([]interface{}, len(page))
	for i := range page {
		items[i] = page[i].Obj
	}
	res.Items = items
'''))
same("store-collect-helper", (M, '''	resources := make([]store.Object, 0)
	m.resourceMap.Get(gvr).ForEach(''', '''	resources, merr := m.collect(gvr, query)
	res.Error = merr
	l := int64(len(resources))
	if l == 0 {
		return res
	}
	resources, err := sortObjs(resources, query.Sort)
	if err != nil {
		res.Error = err
		return res
	}
	res.Total = l
	var start, end int64
	if query.PageSize <= 0 || query.Page <= 0 {
		// all resources
		start = 0
		end = l
	} else {
		// compare by division, page numbers may be large enough to overflow.
		start = l
		if query.Page-1 <= l/query.PageSize {
			start = (query.Page - 1) * query.PageSize
		}
		if start >= l {
			start = l
		}
		end = l
		if query.PageSize < l-start {
			end = start + query.PageSize
		}
	}
	for _, r := range resources[start:end] {
		res.Items = append(res.Items, r.Obj)
	}
	return res
}

func (m *memoryStore) collect(gvr store.GroupVersionResource, query store.Query) (resources []store.Object, merr error) {
	m.resourceMap.Get(gvr).ForEach('''), (M, '						res.Error = err\n', '						merr = err\n'), (M, '''	})
	l := int64(len(resources))
	if l == 0 {
		return res
	}
	resources, err := sortObjs(resources, query.Sort)
	if err != nil {
		res.Error = err
		return res
	}
	res.Total = l
	var start, end int64
	if query.PageSize <= 0 || query.Page <= 0 {
		// all resources
		start = 0
		end = l
	} else {
		// compare by division, page numbers may be large enough to overflow.
		start = l
		if query.Page-1 <= l/query.PageSize {
			start = (query.Page - 1) * query.PageSize
		}
		if start >= l {
			start = l
		}
		end = l
		if query.PageSize < l-start {
			end = start + query.PageSize
		}
	}
	for _, r := range resources[start:end] {
		res.Items = append(res.Items, r.Obj)
	}
	return res
}
''', '''	})
	return resources, merr
}
'''))
same("store-ns-inside", (M, '''			if query.Namespace == "" || query.Namespace == string(ns) {
				nssObj.ForEach(func(name string, obj *store.Object) {''', '''			if query.Namespace != "" && string(ns) != query.Namespace {
				return
			}
			{
				nssObj.ForEach(func(name string, obj *store.Object) {'''))
same("store-match-split", (M, '''					if ok, err := query.Match(obj.Index); ok {
						resources = append(resources, *obj)
					} else if err != nil {
						res.Error = err
					}''', '''					ok, err := query.Match(obj.Index)
					if err != nil {
						res.Error = err
						return
					}
					if !ok {
						return
					}
					resources = append(resources, *obj)'''))
same("sort-less-helper", (M, '''			if equals {
				continue
			}
			if s.reverse {
				r = !r
			}
			return r
''', '''			if !equals {
				return r != s.reverse
			}
'''))
same("sort-stable", (M, 'sort.Slice(objs', 'sort.SliceStable(objs'))
same("sort-tie-unrolled", (M, '''		for _, k := range []string{"cluster", "namespace", "name"} {
			if vi, vj := objs[i].Index[k], objs[j].Index[k]; vi != vj {
				return vi < vj
			}
		}
		return false''', '''		a, b := objs[i].Index, objs[j].Index
		if a["cluster"] != b["cluster"] {
			return a["cluster"] < b["cluster"]
		}
		if a["namespace"] != b["namespace"] {
			return a["namespace"] < b["namespace"]
		}
		return a["name"] < b["name"]'''))
same("sort-cmp-func", (M, '''				r = vis < vjs
				equals = vis == vjs
''', '''				d := strings.Compare(vis, vjs)
				r, equals = d < 0, d == 0
'''))
same("sort-parse-helper", (M, '''	for _, s = range ss {
		s = strings.TrimSpace(s)
		if s == "" {
			continue
		}
		st := innerSort{
			reverse: false,
			typ:     constants.KeyTypeStr,
		}
''', '''	for i := 0; i < len(ss); i++ {
		s := strings.TrimSpace(ss[i])
		if len(s) == 0 {
			continue
		}
		st := innerSort{typ: constants.KeyTypeStr}
'''))
same("match-helper", (G, '''func Match(m map[string]string, searchParts []string) (bool, error) {
	if len(searchParts) != 1 {
		matched := 0
		for _, part := range searchParts {
			r, err := Match(m, []string{part})
			if err != nil {
				return false, err
			}
			if r {
				matched += 1
			}
		}
		return matched == len(searchParts), nil
	}
	search := strings.TrimSpace(searchParts[0])
''', '''func Match(m map[string]string, searchParts []string) (bool, error) {
	all := true
	for _, part := range searchParts {
		r, err := matchPart(m, part)
		if err != nil {
			return false, err
		}
		all = all && r
	}
	return all, nil
}

func matchPart(m map[string]string, part string) (bool, error) {
	search := strings.TrimSpace(part)
'''))
same("match-fuzzy-found", (G, '''	for _, v := range m {
		vv := strings.Contains(strconv.Quote(v), value)
		if reverse {
			if vv {
				return false, nil
			}
		} else {
			if vv {
				return true, nil
			}
		}
	}
	return reverse, nil''', '''	for _, v := range m {
		if strings.Contains(strconv.Quote(v), value) {
			return !reverse, nil
		}
	}
	return reverse, nil'''))
same("match-fuzzy-flag", (G, '''	for _, v := range m {
		vv := strings.Contains(strconv.Quote(v), value)
		if reverse {
			if vv {
				return false, nil
			}
		} else {
			if vv {
				return true, nil
			}
		}
	}
	return reverse, nil''', '''	found := false
	for _, v := range m {
		if strings.Contains(strconv.Quote(v), value) {
			found = true
			break
		}
	}
	return found != reverse, nil'''))
same("match-cut", (G, '''	key := ""
	value := ""
	indexOfEqual := strings.Index(search, "=")
	if indexOfEqual < 0 {
		// fuzzy search
		value = search
	} else {
		key = search[:indexOfEqual]
		if indexOfEqual < len(search)-1 {
			value = search[indexOfEqual+1:]
		}
	}
''', '''	key, value, keyed := strings.Cut(search, "=")
	if !keyed {
		key, value = "", search
	}
'''))
same("match-key-xor", (G, '''		if v, ok := m[key]; !ok {
			return false, fmt.Errorf("unexpected search key: %s", key)
		} else {
			vv := strings.Contains(strconv.Quote(v), value)
			if reverse {
				return !vv, nil
			}
			return vv, nil
		}''', '''		v, ok := m[key]
		if !ok {
			return false, fmt.Errorf("unexpected search key: %s", key)
		}
		return strings.Contains(strconv.Quote(v), value) != reverse, nil'''))
bug("sort-equal-numbers", "C09", (M, "				equals = vi == vj\n", ""))
bug("sort-unknown-order", "C09", (M, "				default:\n					return objs, fmt.Errorf(\"error sort format `%s`\", parts[1])\n", "				default:\n					log.Warnf(\"error sort format `%s`\", parts[1])\n"))
bug("sort-unknown-type", "C09", (M, "				return objs, fmt.Errorf(\"unsupported typ: %s\", parts[1])\n", "				log.Warnf(\"unsupported typ: %s\", parts[1])\n"))
bug("sort-blank", "C09", (M, "		if s == \"\" {\n			continue\n		}\n		st := innerSort", "		st := innerSort"))
same("sort-if-chain", (M, '''			if len(parts) == 2 {
				switch parts[1] {
				case constants.SortDesc:
					st.reverse = true
				case constants.SortASC:
					st.reverse = false
				default:
					return objs, fmt.Errorf("error sort format `%s`", parts[1])
				}
			}
''', '''			if order := parts[1]; order == constants.SortDesc {
				st.reverse = true
			} else if order != constants.SortASC {
				return objs, fmt.Errorf("error sort format `%s`", order)
			}
'''))
bug("sort-blank-ends", "C09", (M, "		if s == \"\" {\n			continue\n		}\n		st := innerSort", "		if s == \"\" {\n			break\n		}\n		st := innerSort"))
