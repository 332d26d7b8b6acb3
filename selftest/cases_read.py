P = "api/proxy.go"
bug("r-page-negated", "C24", (P, 'if paginateStr != "" {', 'if paginateStr != "" && len(labels.MatchLabels) == 0 {'))
bug("r-page-one-value", "C24", (P, "if len(m.Values) > 0 {", "if len(m.Values) > 1 {"))
bug("r-merge-error", "C24", (P, '''						if err != nil {
							return nil, labels, cluster, err
						}
''', ""))
bug("r-decode-error", "C24", (P, '''			if err != nil {
				return nil, labels, cluster, err
			}
			_ = json''', '''			if err != nil {
				return nil, labels, cluster, nil
			}
			_ = json'''))
bug("r-break", "C24", (P, "				if m.Key == constants.PaginateKey {\n", "				if m.Operator == v1.LabelSelectorOpIn {\n					break\n				}\n				if m.Key == constants.PaginateKey {\n"))
same("r-len", (P, "if len(m.Values) > 0 {", "if n := len(m.Values); n >= 1 {"))
same("r-index", (P, "for _, m := range labels.MatchExpressions {", "for i := range labels.MatchExpressions {\n				m := labels.MatchExpressions[i]"))
same("r-always-decode", (P, '''		if paginateStr != "" {
			rr''', '''		if len(paginateStr) > 0 {
			rr'''))
