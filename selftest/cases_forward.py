P = "api/proxy.go"
SET = '''		if len(labels.MatchLabels) != 0 || len(labels.MatchExpressions) != 0 {
			// if labelSelectorStr'''
bug("f-sel-always", "C05", (P, SET, '''		if labels != nil {
			// if labelSelectorStr'''))
bug("f-sel-labels-only", "C05", (P, SET, '''		if len(labels.MatchLabels) != 0 {
			// if labelSelectorStr'''))
bug("f-sel-both", "C05", (P, SET, '''		if len(labels.MatchLabels) != 0 && len(labels.MatchExpressions) != 0 {
			// if labelSelectorStr'''))
bug("f-sel-not-encoded", "C05", (P, '''	r.URL.RawQuery = query.Encode()
	if cs := paginate''', '''	if cs := paginate'''))
bug("f-sel-page-kept", "C05", (P, '''			paginateStr = ps
			delete(labels.MatchLabels, constants.PaginateKey)
''', '''			paginateStr = ps
'''), (P, '''			_ = json.Unmarshal(rr, &paginate)
			delete(labels.MatchLabels, constants.PaginateKey)
''', '''			_ = json.Unmarshal(rr, &paginate)
'''))
bug("f-sel-other", "C05", (P, 'query.Set("labelSelector", v1.FormatLabelSelector(labels))', 'query.Set("labelSelector", v1.FormatLabelSelector(&v1.LabelSelector{MatchLabels: labels.MatchLabels}))'))
bug("f-sel-str", "C05", (P, 'query.Set("labelSelector", v1.FormatLabelSelector(labels))', 'query.Set("labelSelector", labelSelectorStr)'))
bug("f-watch-none", "C05", (P, 'if len(v) == 1 && v[0] == "<none>" {', 'if len(v) == 1 && v[0] != "" {'))
same("f-sel-nested", (P, SET, '''		rest := len(labels.MatchLabels) + len(labels.MatchExpressions)
		if rest > 0 {
			// if labelSelectorStr'''))
same("f-sel-early", (P, '''			query.Set("labelSelector", v1.FormatLabelSelector(labels))
''', '''			s := v1.FormatLabelSelector(labels)
			query["labelSelector"] = []string{s}
'''))
same("f-watch-get", (P, '''	if v, ok := q["labelSelector"]; ok {
		if len(v) == 1 && v[0] == "<none>" {
			delete(q, "labelSelector")
		}
	}
''', '''	if sel := q["labelSelector"]; len(sel) == 1 && sel[0] == "<none>" {
		q.Del("labelSelector")
	}
'''))
bug("f-dry-cluster", "C03", (P, "cluster = options.DryRun[0][len(clusterPrefix):]", "_ = options.DryRun[0][len(clusterPrefix):]"))
bug("f-dry-first", "C03", (P, "cluster = options.DryRun[0][len(clusterPrefix):]", "if cluster == \"\" {\n\t\t\t\t\tcluster = options.DryRun[0][len(clusterPrefix):]\n\t\t\t\t}"))
bug("f-watch-neg", "C31", (P, "if isWatchRequest(r.Request) {", "if !isWatchRequest(r.Request) {"))
bug("f-watch-y", "C31", (P, 'if ws == "1" || ws == "y" || ws == "true" {', 'if ws == "1" || ws == "true" {'))
bug("f-watch-case", "C31", (P, 'ws := strings.ToLower(w[0])', 'ws := w[0]'))
bug("f-watch-path", "C31", (P, 'if strings.Contains(r.URL.Path, "/watch/") {', 'if strings.Contains(r.URL.Path, "/watches/") {'))
bug("f-watch-any", "C31", (P, '''			return true
		}
	}
	if strings.Contains(r.URL.Path''', '''			return true
		}
		return ws != "false"
	}
	if strings.Contains(r.URL.Path'''))
bug("f-watch-get", "C31", (P, "if isWatchRequest(r.Request) {", "if isWatchRequest(r.Request) && r.Request.Header.Get(\"Accept\") != \"\" {"))
same("f-watch-switch", (P, '''		if ws == "1" || ws == "y" || ws == "true" {
			return true
		}
''', '''		switch ws {
		case "1", "y", "true":
			return true
		}
'''))
same("f-watch-query-get", (P, '''	if w, ok := query["watch"]; ok {
		ws := strings.ToLower(w[0])
''', '''	if w := query.Get("watch"); w != "" {
		ws := strings.ToLower(w)
'''))
same("f-watch-fold", (P, '''		ws := strings.ToLower(w[0])
		if ws == "1" || ws == "y" || ws == "true" {
''', '''		if w[0] == "1" || strings.EqualFold(w[0], "Y") || strings.EqualFold("true", w[0]) {
'''))
