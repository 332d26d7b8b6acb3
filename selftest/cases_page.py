L = "kube/label.go"
PG = "page/page.go"
bug("p-lessthan", "C23", (L, "		case selection.GreaterThan, selection.LessThan:\n", "		case selection.LessThan:\n			continue\n		case selection.GreaterThan:\n"))
bug("p-notequals-in", "C23", (L, "		case selection.In:\n", "		case selection.In, selection.NotEquals:\n"), (L, "case selection.NotIn, selection.NotEquals:", "case selection.NotIn:"))
bug("p-notequals-exists", "C23", (L, "case selection.NotIn, selection.NotEquals:", "case selection.NotIn:"), (L, "case selection.DoesNotExist:", "case selection.DoesNotExist, selection.NotEquals:"))
bug("p-swap-exists", "C23", (L, "op = v1.LabelSelectorOpDoesNotExist", "op = v1.LabelSelectorOpExists"))
bug("p-override", "C23", (L, "ok && old != val {", "ok && old == val {"))
bug("p-override2", "C23", (L, "; ok && old != val {", "; ok && old != val && old == \"\" {"))
bug("p-default-skip", "C23", (L, '''			return nil, fmt.Errorf("%q is not a valid label selector operator", req.Operator())''', "			continue"))
bug("p-break", "C23", (L, "			labelSelector.MatchLabels[req.Key()] = val\n			continue\n", "			labelSelector.MatchLabels[req.Key()] = val\n			return labelSelector, nil\n"))
bug("p-parse-error", "C23", (L, '''		return nil, fmt.Errorf("couldn't parse the selector string \\"%s\\": %v", selector, err)''', "		return &v1.LabelSelector{}, nil"))
bug("p-first-value", "C23", (L, "			Values:   req.Values().List(),\n", "			Values:   req.Values().List()[:1],\n"))
bug("p-double-equals", "C23", (L, "case selection.Equals, selection.DoubleEquals:", "case selection.Equals:"))
bug("p-equals-refused", "C23", (L, "vals.Len() != 1 {", "vals.Len() != 1 || req.Operator() == selection.DoubleEquals {"))
bug("p-skip-dup", "C23", (L, '''				labelSelector.MatchExpressions = append(labelSelector.MatchExpressions, v1.LabelSelectorRequirement{
					Key:      req.Key(),
					Operator: v1.LabelSelectorOpIn,
					Values:   []string{val},
				})
				continue
''', "				continue\n"))
bug("p-dup-notin", "C23", (L, "					Operator: v1.LabelSelectorOpIn,\n", "					Operator: v1.LabelSelectorOpNotIn,\n"))
bug("p-skip-first", "C23", (L, "for _, req := range reqs {", "for _, req := range reqs[len(reqs)/8:] {"))
bug("p-exists-dropped-multi", "C23", (L, "			op = v1.LabelSelectorOpExists\n", "			op = v1.LabelSelectorOpExists\n			if len(reqs) > 1 && req.Key() == \"\" {\n				continue\n			}\n"))
same("p-index-loop", (L, "for _, req := range reqs {\n", "for i := 0; i < len(reqs); i++ {\n		req := reqs[i]\n"))
same("p-ptr-loop", (L, "for _, req := range reqs {\n", "for i := range reqs {\n		req := &reqs[i]\n"))
same("p-helper", (L, "func ParseToLabelSelector(", '''func keep(s *v1.LabelSelector, key string, op v1.LabelSelectorOperator, values ...string) {
	s.MatchExpressions = append(s.MatchExpressions, v1.LabelSelectorRequirement{Key: key, Operator: op, Values: values})
}

func ParseToLabelSelector('''), (L, '''				labelSelector.MatchExpressions = append(labelSelector.MatchExpressions, v1.LabelSelectorRequirement{
					Key:      req.Key(),
					Operator: v1.LabelSelectorOpIn,
					Values:   []string{val},
				})
''', "				keep(labelSelector, req.Key(), v1.LabelSelectorOpIn, val)\n"), (L, '''		labelSelector.MatchExpressions = append(labelSelector.MatchExpressions, v1.LabelSelectorRequirement{
			Key:      req.Key(),
			Operator: op,
			Values:   req.Values().List(),
		})
''', "		keep(labelSelector, req.Key(), op, req.Values().List()...)\n"))
same("p-op-helper", (L, "func ParseToLabelSelector(", '''func operator(o selection.Operator) v1.LabelSelectorOperator {
	switch o {
	case selection.In:
		return v1.LabelSelectorOpIn
	case selection.Exists:
		return v1.LabelSelectorOpExists
	case selection.DoesNotExist:
		return v1.LabelSelectorOpDoesNotExist
	}
	return v1.LabelSelectorOpNotIn
}

func ParseToLabelSelector('''), (L, '''		case selection.In:
			op = v1.LabelSelectorOpIn
		case selection.NotIn, selection.NotEquals:
			op = v1.LabelSelectorOpNotIn
		case selection.Exists:
			op = v1.LabelSelectorOpExists
		case selection.DoesNotExist:
			op = v1.LabelSelectorOpDoesNotExist
''', '''		case selection.In, selection.NotIn, selection.NotEquals, selection.Exists, selection.DoesNotExist:
			op = operator(req.Operator())
'''))
same("p-table", (L, "func ParseToLabelSelector(", '''var operators = map[selection.Operator]v1.LabelSelectorOperator{
	selection.In:           v1.LabelSelectorOpIn,
	selection.NotIn:        v1.LabelSelectorOpNotIn,
	selection.NotEquals:    v1.LabelSelectorOpNotIn,
	selection.Exists:       v1.LabelSelectorOpExists,
	selection.DoesNotExist: v1.LabelSelectorOpDoesNotExist,
}

func ParseToLabelSelector('''), (L, '''		case selection.In:
			op = v1.LabelSelectorOpIn
		case selection.NotIn, selection.NotEquals:
			op = v1.LabelSelectorOpNotIn
		case selection.Exists:
			op = v1.LabelSelectorOpExists
		case selection.DoesNotExist:
			op = v1.LabelSelectorOpDoesNotExist
''', ""), (L, '''		default:
			return nil, fmt.Errorf("%q is not a valid label selector operator", req.Operator())
		}
''', '''		default:
			o, ok := operators[req.Operator()]
			if !ok {
				return nil, fmt.Errorf("%q is not a valid label selector operator", req.Operator())
			}
			op = o
		}
'''))
same("p-locals", (L, '''	labelSelector := &v1.LabelSelector{
		MatchLabels:      map[string]string{},
		MatchExpressions: []v1.LabelSelectorRequirement{},
	}
''', '''	matchLabels := map[string]string{}
	var exprs []v1.LabelSelectorRequirement
'''), (L, "labelSelector.MatchLabels[req.Key()]; ok && old != val {", "matchLabels[req.Key()]; ok && old != val {"), (L, "				labelSelector.MatchExpressions = append(labelSelector.MatchExpressions,", "				exprs = append(exprs,"), (L, "			labelSelector.MatchLabels[req.Key()] = val", "			matchLabels[req.Key()] = val"), (L, "		labelSelector.MatchExpressions = append(labelSelector.MatchExpressions,", "		exprs = append(exprs,"), (L, "	return labelSelector, nil", "	return &v1.LabelSelector{MatchLabels: matchLabels, MatchExpressions: exprs}, nil"))
same("p-list0", (L, '''			val, ok := vals.PopAny()
			if !ok {
				return nil, fmt.Errorf("equals operator has exactly one value but it cannot be retrieved")
			}
''', "			val := vals.List()[0]\n"))
same("p-if-chain", (L, '''			if old, ok := labelSelector.MatchLabels[req.Key()]; ok && old != val {
				// both requirements have to hold, do not override the first one.
				labelSelector.MatchExpressions = append(labelSelector.MatchExpressions, v1.LabelSelectorRequirement{
					Key:      req.Key(),
					Operator: v1.LabelSelectorOpIn,
					Values:   []string{val},
				})
				continue
			}
			labelSelector.MatchLabels[req.Key()] = val
''', '''			old, has := labelSelector.MatchLabels[req.Key()]
			switch {
			case !has:
				labelSelector.MatchLabels[req.Key()] = val
			case old == val:
			default:
				r := v1.LabelSelectorRequirement{Key: req.Key(), Operator: v1.LabelSelectorOpIn}
				r.Values = append(r.Values, val)
				labelSelector.MatchExpressions = append(labelSelector.MatchExpressions, r)
			}
'''))

# ---- codec (C24), search (C25), pieces (C35), parts (C36)
bug("p-enc-padded", "C24", (PG, "base64.StdEncoding.WithPadding(base64.NoPadding).EncodeToString", "base64.StdEncoding.EncodeToString"))
bug("p-enc-url", "C24", (PG, "base64.StdEncoding.WithPadding(base64.NoPadding).EncodeToString", "base64.RawURLEncoding.EncodeToString"))
bug("p-dec-padded", "C24", ("api/proxy.go", "base64.StdEncoding.WithPadding(base64.NoPadding).DecodeString", "base64.StdEncoding.DecodeString"))
bug("p-op-in", "C24", (PG, "		Operator: v1.LabelSelectorOpNotIn,", "		Operator: v1.LabelSelectorOpIn,"))
bug("p-no-split", "C24", (PG, "kube.SplittingValue(s)", "[]string{s}"))
bug("p-keep-old", "C24", (PG, "		if m.Key != constants.PaginateKey {", "		if m.Key != constants.PaginateKey || len(m.Values) > 1 {"))
bug("p-drop-others", "C24", (PG, "		if m.Key != constants.PaginateKey {", "		if m.Key != constants.PaginateKey && m.Operator != v1.LabelSelectorOpExists {"))
bug("p-drop-labels", "C24", (PG, "	ls.MatchExpressions = mes\n", "	ls = &v1.LabelSelector{MatchExpressions: mes}\n"))
bug("p-empty-page", "C24", (PG, '	if string(bs) == "{}" {', '	if string(bs) == "{}" || page.PageSize == 0 && page.Search == "" {'))
bug("p-error-marker", "C24", (PG, '	if sstr == "<error>" {\n		return options, fmt.Errorf("parse selector %v error", ls)\n	}\n', ""))
bug("p-parse-err", "C24", (PG, "	if err != nil {\n		return options, err\n	}\n	mes := ", "	if err != nil {\n		ls = &v1.LabelSelector{}\n	}\n	mes := "))
bug("p-limit-changed", "C24", (PG, "	options.LabelSelector = sstr\n", "	options.LabelSelector = sstr\n	options.Limit = page.PageSize\n"))
bug("p-field", "C24", (PG, "	options.LabelSelector = sstr\n", "	options.FieldSelector = sstr\n"))
bug("p-page-changed", "C24", (PG, "	bs, _ := json.Marshal(page)\n", "	page.Total = 0\n	bs, _ := json.Marshal(page)\n"))
bug("p-dec-first-value", "C24", ("api/proxy.go", "kube.MergeValues(m.Values)", "kube.MergeValues(m.Values[:1])"))
bug("p-dec-other-key", "C24", ("api/proxy.go", "				if m.Key == constants.PaginateKey {", "				if m.Key == constants.PaginateKey || m.Key == constants.IndexAnno {"))
same("p-raw-std", (PG, "base64.StdEncoding.WithPadding(base64.NoPadding).EncodeToString", "base64.RawStdEncoding.EncodeToString"))
same("p-zero-cmp", (PG, '	if string(bs) == "{}" {', '	if page == (Paginate{}) {'))
same("p-marshal-err", (PG, '	bs, _ := json.Marshal(page)\n', '	bs, err := json.Marshal(page)\n	if err != nil {\n		return options, err\n	}\n'), (PG, "	ls, err := kube.ParseToLabelSelector(options.LabelSelector)\n", "	ls, err := kube.ParseToLabelSelector(options.LabelSelector)\n	_ = 0\n"))
same("p-append-last", (PG, '''	mes := []v1.LabelSelectorRequirement{{
		Key:      constants.PaginateKey,
		Operator: v1.LabelSelectorOpNotIn,
		Values:   kube.SplittingValue(s),
	}}
''', "	var mes []v1.LabelSelectorRequirement\n"), (PG, "	ls.MatchExpressions = mes\n	sstr :=", '''	mes = append(mes, v1.LabelSelectorRequirement{
		Key:      constants.PaginateKey,
		Operator: v1.LabelSelectorOpNotIn,
		Values:   kube.SplittingValue(s),
	})
	ls.MatchExpressions = mes
	sstr :='''))
same("p-others-helper", (PG, "func QueryListOptions(", '''func without(rs []v1.LabelSelectorRequirement, key string) []v1.LabelSelectorRequirement {
	var res []v1.LabelSelectorRequirement
	for i := range rs {
		if rs[i].Key == key {
			continue
		}
		res = append(res, rs[i])
	}
	return res
}

func QueryListOptions('''), (PG, '''	mes := []v1.LabelSelectorRequirement{{
		Key:      constants.PaginateKey,
		Operator: v1.LabelSelectorOpNotIn,
		Values:   kube.SplittingValue(s),
	}}
	for _, m := range ls.MatchExpressions {
		if m.Key != constants.PaginateKey {
			mes = append(mes, m)
		}
	}
	ls.MatchExpressions = mes
''', '''	ls.MatchExpressions = append(without(ls.MatchExpressions, constants.PaginateKey), v1.LabelSelectorRequirement{
		Key:      constants.PaginateKey,
		Operator: v1.LabelSelectorOpNotIn,
		Values:   kube.SplittingValue(s),
	})
'''))
bug("p-ns-op", "C25", (PG, "			Operator: v1.LabelSelectorOpIn,\n			Values:   nss,", "			Operator: v1.LabelSelectorOpNotIn,\n			Values:   nss,"))
bug("p-ns-key", "C25", (PG, '	nsKey := "namespace"', '	nsKey := "namespaces"'))
bug("p-ns-keep-old", "C25", (PG, "	for _, r := range s.MatchExpressions {\n		if r.Key != nsKey {\n			mes", "	for _, r := range s.MatchExpressions {\n		if r.Key != nsKey || r.Operator == v1.LabelSelectorOpNotIn {\n			mes"))
bug("p-ns-error", "C25", (PG, "	s, err := p.SearchSelector()\n	if err != nil {\n		return err\n	}\n	nsKey", "	s, err := p.SearchSelector()\n	if err != nil {\n		s = &v1.LabelSelector{}\n	}\n	nsKey"))
bug("p-cluster-empty", "C25", (PG, '		if c == "" {', '		if c == "" && len(css) == 1 {'))
bug("p-cluster-labels", "C25", (PG, '	nsKey := "cluster"\n	mes', '	nsKey := "cluster"\n	delete(s.MatchLabels, nsKey)\n	mes'))
bug("p-set-all-replaced", "C25", (PG, "		if !replaced && strings.HasPrefix(part", "		if (!replaced || len(part) > 0) && strings.HasPrefix(part"))
bug("p-set-not-replaced", "C25", (PG, "			replaced = true\n			continue\n", "			replaced = true\n"))
bug("p-set-error", "C25", (PG, '	if sstr == "<error>" {\n		return fmt', '	if sstr == "<err>" {\n		return fmt'))
bug("p-set-first", "C25", (PG, '''	for _, part := range parts {
		// replace''', '''	for _, part := range parts[len(parts)/9:] {
		// replace'''))
bug("p-parts-join", "C25", (PG, '	p.Search = strings.Join(pps, ";")', '	p.Search = strings.Join(pps, "; ")'))
bug("p-parts-plain", "C25", (PG, "		pps = append(pps, doubleSep(part))", "		_ = doubleSep\n		pps = append(pps, part)"))
bug("p-sel-last", "C25", (PG, "			search = part\n			break\n", "			search = part\n"))
bug("p-sel-none", "C25", (PG, '	if search == "" {\n		return &s, nil', '	if search == "" || len(parts) > 64 {\n		return &s, nil'))
bug("p-clusters-any", "C25", (PG, '	nsKey := "cluster"\n	for', '	nsKey := "clusters"\n	for'))
bug("p-clusters-op", "C25", (PG, '''		if r.Key == nsKey {
			return r.Values''', '''		if r.Key == nsKey && r.Operator == v1.LabelSelectorOpIn {
			return r.Values'''))
same("p-restrict-helper", (PG, "func (p *Paginate) Namespaces(nss []string) error {\n	s, err := p.SearchSelector()\n	if err != nil {\n		return err\n	}\n	nsKey := \"namespace\"\n", '''func (p *Paginate) Namespaces(nss []string) error {
	return p.restrict("namespace", nss)
}

func (p *Paginate) restrict(nsKey string, nss []string) error {
	s, err := p.SearchSelector()
	if err != nil {
		return err
	}
'''), (PG, '''	s, err := p.SearchSelector()
	if err != nil {
		return err
	}
	for _, c := range css {
		if c == "" {
			return fmt.Errorf("unexpected cluster %q", c)
		}
	}
	nsKey := "cluster"
	mes := []v1.LabelSelectorRequirement{
		{
			Key:      nsKey,
			Operator: v1.LabelSelectorOpIn,
			Values:   css,
		},
	}
	for _, r := range s.MatchExpressions {
		if r.Key != nsKey {
			mes = append(mes, r)
		}
	}
	s.MatchExpressions = mes
	return p.SetSearchSelector(s)
''', '''	for _, c := range css {
		if c == "" {
			return fmt.Errorf("unexpected cluster %q", c)
		}
	}
	return p.restrict("cluster", css)
'''))
same("p-sel-direct", (PG, '''		if strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
			search = part
			break
		}
	}
	if search == "" {
		return &s, nil
	}
	if !strings.HasPrefix(search, constants.AdvancedSearchPrefix) {
		return nil, fmt.Errorf("")
	}
	if len(constants.AdvancedSearchPrefix) == len(search) {
		return &s, nil
	}
	return kube.ParseToLabelSelector(search[len(constants.AdvancedSearchPrefix):])
''', '''		if !strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
			continue
		}
		if len(constants.AdvancedSearchPrefix) == len(part) {
			return &s, nil
		}
		return kube.ParseToLabelSelector(strings.TrimPrefix(part, constants.AdvancedSearchPrefix))
	}
	return &s, nil
'''), (PG, '	search := ""\n	for _, part', '	for _, part'))
same("p-set-index", (PG, '''	for _, part := range parts {
		// replace''', '''	for i := 0; i < len(parts); i++ {
		part := parts[i]
		// replace'''), (PG, '''		if !replaced && strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
			replaced = true
			continue
		}
		pps = append(pps, part)
''', '''		if replaced || !strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
			pps = append(pps, part)
		} else {
			replaced = true
		}
'''))
same("p-parts-make", (PG, '''	pps := []string{}
	for _, part := range parts {
		pps = append(pps, doubleSep(part))
	}
''', '''	pps := make([]string, len(parts))
	for i := range parts {
		pps[i] = doubleSep(parts[i])
	}
'''))
bug("p-split-off", "C35", (L, 'fmt.Sprintf("%04d.%s", n, value[i:end])', 'fmt.Sprintf("%04d.%s", i, value[i:end])'))
bug("p-split-gap", "C35", (L, "		end := i + eachPartLen\n", "		end := i + eachPartLen - 1\n"))
bug("p-split-long", "C35", (L, "const eachPartLen = 56", "const eachPartLen = 60"))
bug("p-split-digits", "C35", (L, '"%04d.%s", n, value[i:end]', '"%d.%s", n, value[i:end]'))
bug("p-split-short-whole", "C35", (L, "	if len(value) <= eachPartLen {", "	if len(value) < eachPartLen {"))
bug("p-split-last", "C35", (L, '"%04d.%s", n, value[i:]', '"%04d.%s", n, value[i:len(value)-1]'))
bug("p-merge-unsorted", "C35", (L, "	sort.Strings(values)\n", ""), (L, '	"sort"\n', ""))
bug("p-merge-single", "C35", (L, "	if len(values) == 1 {", "	if len(values) <= 2 {"))
bug("p-merge-first", "C35", (L, "b.WriteString(parts[1])", "b.WriteString(parts[0])"))
bug("p-merge-skip", "C35", (L, "		if len(parts) != 2 {\n			return", "		if len(parts) == 1 {\n			continue\n		}\n		if len(parts) != 2 {\n			return"))
bug("p-merge-sep", "C35", (L, "b.WriteString(parts[1])", 'b.WriteString(parts[1])\n		b.WriteByte(\'.\')'))
bug("p-safe-tilde", "C35", (PG, "		case r >= '~' || r == '?':", "		case r > '~' || r == '?':"))
bug("p-safe-q", "C35", (PG, "		case r >= '~' || r == '?':", "		case r >= '~':"))
bug("p-safe-none", "C35", (PG, "EncodeToString(labelSafeJSON(bs))", "EncodeToString(bs)"))
bug("p-safe-surrogate", "C35", (PG, "		case r > 0xffff:", "		case r > 0x1ffff:"))
bug("p-safe-hex", "C35", (PG, '''fmt.Sprintf("\\\\u%04x", r)...''', '''fmt.Sprintf("\\\\u%04d", r)...'''))
same("p-split-len", (L, '	for n, i := 0, 0; ; n, i = n+1, i+eachPartLen {', '	for i := 0; ; i += eachPartLen {\n		n := len(res)'))
same("p-split-div", (L, '	for n, i := 0, 0; ; n, i = n+1, i+eachPartLen {', '	for i := 0; ; i += eachPartLen {\n		n := i / eachPartLen'))
same("p-split-cond", (L, '''	for n, i := 0, 0; ; n, i = n+1, i+eachPartLen {
		end := i + eachPartLen
		if len(value) <= end {
			res = append(res, fmt.Sprintf("%04d.%s", n, value[i:]))
			break
		}
		res = append''', '''	for n, i := 0, 0; i < len(value); n, i = n+1, i+eachPartLen {
		end := i + eachPartLen
		if end > len(value) {
			end = len(value)
		}
		res = append'''))
same("p-split-rest", (L, '''	for n, i := 0, 0; ; n, i = n+1, i+eachPartLen {
		end := i + eachPartLen
		if len(value) <= end {
			res = append(res, fmt.Sprintf("%04d.%s", n, value[i:]))
			break
		}
		res = append(res, fmt.Sprintf("%04d.%s", n, value[i:end]))
	}
	return res
''', '''	n := 0
	for len(value) > eachPartLen {
		res = append(res, fmt.Sprintf("%04d.%s", n, value[:eachPartLen]))
		value = value[eachPartLen:]
		n++
	}
	return append(res, fmt.Sprintf("%04d.%s", n, value))
'''))
same("p-merge-cut", (L, '''		parts := strings.Split(v, ".")
		if len(parts) != 2 {
			return "", fmt.Errorf("value format error")
		}
		b.WriteString(parts[1])
''', '''		_, text, ok := strings.Cut(v, ".")
		if !ok {
			return "", fmt.Errorf("value format error")
		}
		b.WriteString(text)
'''))
same("p-merge-concat", (L, "	b := strings.Builder{}\n", '	b := ""\n'), (L, "b.WriteString(parts[1])", "b += parts[1]"), (L, "	return b.String(), nil", "	return b, nil"))
same("p-merge-join", (L, "	b := strings.Builder{}\n", '	var b []string\n'), (L, "b.WriteString(parts[1])", "b = append(b, parts[1])"), (L, "	return b.String(), nil", "	return strings.Join(b, \"\"), nil"))
same("p-safe-if", (PG, '''		switch {
		case r > 0xffff:
			hi, lo := utf16.EncodeRune(r)
			res = append(res, fmt.Sprintf("\\\\u%04x\\\\u%04x", hi, lo)...)
		case r >= '~' || r == '?':
			res = append(res, fmt.Sprintf("\\\\u%04x", r)...)
		default:
			res = append(res, byte(r))
		}
''', '''		if r < '~' && r != '?' {
			res = append(res, byte(r))
			continue
		}
		if r <= 0xffff {
			res = append(res, []byte(fmt.Sprintf("\\\\u%04x", r))...)
			continue
		}
		hi, lo := utf16.EncodeRune(r)
		res = append(res, []byte(fmt.Sprintf("\\\\u%04x\\\\u%04x", hi, lo))...)
'''))
bug("p-scan-skip1", "C36", (PG, "				i += 1\n				continue\n", "				continue\n"))
bug("p-scan-start", "C36", (PG, "				start = i + 1\n", "				start = i\n"))
bug("p-scan-trim", "C36", (PG, "		return strings.ReplaceAll(origin, \";;\", \";\")\n", "		return origin\n"))
bug("p-scan-end", "C36", (PG, "	for i := 0; i < l-1; i++ {", "	for i := 0; i < l-2; i++ {"))
bug("p-scan-one", "C36", (PG, "	for i := 0; i < l-1; i++ {", "	for i := 1; i < l-1; i++ {"))
bug("p-scan-last", "C36", (PG, "	parts = append(parts, trimPart(search[start:]))\n", "	if start > 0 || l < 9 {\n		parts = append(parts, trimPart(search[start:]))\n	}\n"))
bug("p-scan-empty", "C36", (PG, '''		if p != "" {
			ps = append''', '''		if p != "" && p != constants.AdvancedSearchPrefix {
			ps = append'''))
same("p-scan-while", (PG, "	for i := 0; i < l-1; i++ {\n", "	for i := 0; i+1 < l; i++ {\n"))
same("p-scan-else", (PG, '''		if search[i] == constants.SearchPartsSep {
			if search[i+1] == constants.SearchPartsSep {
				// double ;, skip
				i += 1
				continue
			} else {
				// need split
				parts = append(parts, trimPart(search[start:i]))
				start = i + 1
			}
		}
''', '''		if search[i] != constants.SearchPartsSep {
			continue
		}
		if search[i+1] != constants.SearchPartsSep {
			parts = append(parts, trimPart(search[start:i]))
			start = i + 1
			continue
		}
		i++
'''))
same("p-scan-early", (PG, '	ps := []string{}\n	for _, p := range parts {\n		if p != "" {\n			ps = append(ps, p)\n		}\n	}\n', '	var ps []string\n	for i := range parts {\n		if len(parts[i]) == 0 {\n			continue\n		}\n		ps = append(ps, parts[i])\n	}\n'))
bug("p-split-empty", "C35", (LABEL if 'LABEL' in dir() else "kube/label.go", "if len(value) <= end {", "if len(value) < end {"))
