PG = "page/page.go"
bug("m-replaced", "C25", (PG, "if !replaced && strings.HasPrefix(part, constants.AdvancedSearchPrefix) {", "if replaced && strings.HasPrefix(part, constants.AdvancedSearchPrefix) {"))
bug("m-replaced-or", "C25", (PG, "if !replaced && strings.HasPrefix(part, constants.AdvancedSearchPrefix) {", "if !replaced || strings.HasPrefix(part, constants.AdvancedSearchPrefix) {"))
bug("m-adv-empty", "C11", (PG, "if len(search) == len(constants.AdvancedSearchPrefix) {", "if len(search) < len(constants.AdvancedSearchPrefix) {"))
bug("m-adv-empty2", "C11", (PG, "if len(search) == len(constants.AdvancedSearchPrefix) {", "if len(search) != len(constants.AdvancedSearchPrefix) {"))
same("m-adv-le", (PG, "if len(search) == len(constants.AdvancedSearchPrefix) {", "if len(search) <= len(constants.AdvancedSearchPrefix) {"))
same("m-adv-eq", (PG, "if len(search) == len(constants.AdvancedSearchPrefix) {", "if search == constants.AdvancedSearchPrefix {"))
same("m-adv-cut", (PG, '''		if len(search) == len(constants.AdvancedSearchPrefix) {
			return false, fmt.Errorf("search format error")
		}
		selectorStr := search[len(constants.AdvancedSearchPrefix):]
''', '''		selectorStr := strings.TrimPrefix(search, constants.AdvancedSearchPrefix)
		if selectorStr == "" {
			return false, fmt.Errorf("search format error")
		}
'''))
bug("m-items-pkg", "C28", (PG, 'if typeField.Name == "Items" {', 'if typeField.PkgPath == "Items" {'))
L = "kube/label.go"
bug("m-merge-two", "C35", (L, "	if len(values) == 1 {\n		return values[0], nil", "	if len(values) == 2 {\n		return values[0], nil"))
bug("m-merge-le2", "C35", (L, "	if len(values) == 1 {\n		return values[0], nil", "	if len(values) > 0 && len(values) <= 2 {\n		return values[0], nil"))
same("m-merge-le", (L, "	if len(values) == 1 {\n		return values[0], nil", "	if len(values) > 0 && len(values) < 2 {\n		return values[0], nil"))
same("m-merge-switch", (L, "	if len(values) == 1 {\n		return values[0], nil\n	}", "	switch len(values) {\n	case 0:\n		return \"\", nil\n	case 1:\n		return values[0], nil\n	}"))
