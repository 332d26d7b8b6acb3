L = "kube/label.go"
PG = "page/page.go"
M = "store/memory/memory.go"
P = "api/proxy.go"
S = "server/server.go"
PL = "cmd/ckube-plugin/main.go"
F = "pkg/client/fake/fake_ckube.go"
W = "watcher/watcher.go"
bug("b-cut-end", "C30", (L, "if len(value) <= end {", "if len(value) <= i {"))
bug("b-parts", "C30", (L, "len(parts) != 2 {", "len(parts) == 0 {"))
bug("b-last-byte", "C30", (PG, "i < l-1; i++", "i < l; i++"))
bug("b-prefix", "C30", (PG, '	if strings.HasPrefix(v, "!") {\n		return v[1:], true', '	if v[0] == \'!\' {\n		return v[1:], true'))
bug("b-equal-index", "C30", (PG, "if indexOfEqual < len(search)-1 {", "if indexOfEqual < len(search)-1 || key == \"\" {"), (PG, "value = search[indexOfEqual+1:]", "value = search[indexOfEqual+1:][1:]"))
bug("b-search-parts", "C30", (PG, "if len(searchParts) != 1 {", "if len(searchParts) > 1 {"))
bug("b-nil-selector", "C30", (PG, '''		ss, err := v1.LabelSelectorAsSelector(s)
		if err != nil {
			return false, err
		}
''', "		ss, _ := v1.LabelSelectorAsSelector(s)\n"))
bug("b-clusters-err", "C30", (PG, '''	if err != nil {
		return nil
	}
	nsKey := "cluster"
	for _''', '''	if err != nil && p.Search == "" {
		return nil
	}
	nsKey := "cluster"
	for _'''))
bug("b-page-start", "C30", (M, "		if start >= l {\n			start = l\n		}\n", ""), (M, "if query.Page-1 <= l/query.PageSize {", "if query.Page-1 <= l/query.PageSize+1 {"))
bug("b-page-end", "C30", (P, "if paginate.PageSize < l-start {", "if paginate.PageSize <= l {"))
bug("b-page-zero", "C30", (P, "if paginate.PageSize <= 0 || paginate.Page <= 0 {", "if paginate.PageSize < 0 || paginate.Page <= 0 {"))
bug("b-anno-nil", "C30", (M, "if len(oo.GetAnnotations()) == 0 {\n			oo.SetAnnotations(map[string]string{\n				constants.DSMClusterAnno: cluster,\n			})\n		} else {", "if oo.GetAnnotations() == nil && cluster != \"\" {\n			oo.SetAnnotations(map[string]string{\n				constants.DSMClusterAnno: cluster,\n			})\n		} else {"))
bug("b-flusher", "C30", (S, "func (w *statusWriter) Flush() {", "func (w *statusWriter) FlushNow() {"))
bug("b-watch-value", "C30", (P, 'if w, ok := query["watch"]; ok {', 'if w, ok := query["watch"]; ok || r.Method == "GET" {'))
bug("b-cluster-value", "C30", (PL, "			if selectorPos >= len(args) {", "			if selectorPos > len(args) {"))
bug("b-fake-prefix", "C30", (F, '''			if strings.HasPrefix(v[0], constants.ClusterPrefix) {
				cluster = v[0][len(constants.ClusterPrefix):]
			}
		case "watch":''', '''			if strings.Contains(v[0], constants.ClusterPrefix[:3]) {
				cluster = v[0][len(constants.ClusterPrefix):]
			}
		case "watch":'''))
bug("b-client-nil", "C30", (W, '''		log.Errorf("cluster(%s): create client for %v error: %v", cluster, r, err)
		return
''', '''		log.Errorf("cluster(%s): create client for %v error: %v", cluster, r, err)
'''))
bug("b-object-assert", "C30", (P, "if oo, ok := item.(v1.Object); ok {\n			indexesStr", "if oo := item.(v1.Object); oo != nil {\n			indexesStr"))
bug("b-sort-index", "C30", (M, "vjs := objs[j].Index[s.key]", "vjs := objs[j].Index[s.key]\n			if vjs == \"\" {\n				vjs = objs[j-1].Index[s.key]\n			}"))
same("b-while", (PG, "for i := 0; i < l-1; i++ {\n		if search", "for i := 0; i+1 < l; i++ {\n		if search"))
same("b-substr", (PG, "		selectorStr := search[len(constants.AdvancedSearchPrefix):]\n", "		prefix := len(constants.AdvancedSearchPrefix)\n		selectorStr := search[prefix:len(search)]\n"))
same("b-trimprefix", (PG, '	if strings.HasPrefix(v, "!") {\n		return v[1:], true', '	if len(v) > 0 && v[0] == \'!\' {\n		return v[1:], true'))
same("b-cut-min", (L, '''		end := i + eachPartLen
		if len(value) <= end {
			res = append(res, fmt.Sprintf("%04d.%s", n, value[i:]))
			break
		}
		res = append(res, fmt.Sprintf("%04d.%s", n, value[i:end]))
''', '''		end, last := i+eachPartLen, false
		if len(value) <= end {
			end, last = len(value), true
		}
		res = append(res, fmt.Sprintf("%04d.%s", n, value[i:end]))
		if last {
			break
		}
'''))
same("b-err-else", (PG, '''		ss, err := v1.LabelSelectorAsSelector(s)
		if err != nil {
			return false, err
		}
		return ss.Matches(labels.Set(m)), nil
''', '''		ss, err := v1.LabelSelectorAsSelector(s)
		if err == nil {
			return ss.Matches(labels.Set(m)), nil
		}
		return false, err
'''))
