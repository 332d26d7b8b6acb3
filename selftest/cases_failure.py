P = "api/proxy.go"
QE = '''		if res.Error != nil {
			return errorProxy(r.Writer, v1.Status{
				Status:  v1.StatusFailure,
				Message: "query error",
				Reason:  v1.StatusReason(res.Error.Error()),
				Code:    400,
			})
		}
		items = res.Items'''
bug("x-query", "C33", (P, QE, "		items = res.Items"))
bug("x-query-log", "C33", (P, QE, '		if res.Error != nil {\n			log.Errorf("query error: %v", res.Error)\n		}\n		items = res.Items'))
bug("x-query-items", "C33", (P, QE, QE.replace("if res.Error != nil {", "if res.Error != nil && len(res.Items) == 0 {")))
bug("x-sel", "C33", (P, '		sel, err := v1.LabelSelectorAsSelector(labels)\n		if err != nil {', '		sel, err := v1.LabelSelectorAsSelector(labels)\n		if err != nil && sel == nil {'))
bug("x-kind", "C33", (P, '	err.Kind = "Status"\n', ''))
bug("x-version", "C33", (P, '	err.APIVersion = "v1"\n', ''))
bug("x-version2", "C33", (P, '	err.APIVersion = "v1"\n', '	if err.APIVersion == "" {\n		err.APIVersion = "v1"\n	}\n'))
bug("x-code0", "C33", (P, 'Reason:  v1.StatusReason(res.Error.Error()),\n				Code:    400,', 'Reason:  v1.StatusReason(res.Error.Error()),\n				Code:    200,'))
bug("x-failure", "C33", (P, '				Status:  v1.StatusFailure,\n				Message: "query error",', '				Status:  v1.StatusSuccess,\n				Message: "query error",'))
bug("x-write", "C33", (P, '	w.WriteHeader(int(err.Code))\n	err.Kind', '	w.WriteHeader(http.StatusBadRequest)\n	err.Kind'))
bug("x-type", "C33", (P, '	w.Header().Set("Content-Type", "application/json")\n	w.WriteHeader(int(err.Code))\n', '	w.WriteHeader(int(err.Code))\n	w.Header().Set("Content-Type", "application/json")\n'))
bug("x-reason", "C33", (P, "			Reason:  v1.StatusReasonNotFound,\n", "			Reason:  v1.StatusReasonGone,\n"))
bug("x-noreason", "C33", (P, "			Reason:  v1.StatusReasonNotFound,\n", ""))
same("x-first", (P, QE, '''		if err := res.Error; err != nil {
			st := v1.Status{Status: v1.StatusFailure, Message: "query error", Code: http.StatusBadRequest}
			st.Reason = v1.StatusReason(err.Error())
			return errorProxy(r.Writer, st)
		}
		items = res.Items'''))
same("x-ok", (P, QE, '''		if res.Error == nil {
			items = res.Items
		} else {
			return errorProxy(r.Writer, v1.Status{
				Status:  v1.StatusFailure,
				Message: "query error",
				Reason:  v1.StatusReason(res.Error.Error()),
				Code:    400,
			})
		}'''))
same("x-meta", (P, '	err.Kind = "Status"\n	err.APIVersion = "v1"\n	return err', '	err.TypeMeta = v1.TypeMeta{Kind: "Status", APIVersion: "v1"}\n	return err'))
same("x-early", (P, '	w.Header().Set("Content-Type", "application/json")\n	w.WriteHeader(int(err.Code))\n	err.Kind = "Status"\n', '	err.Kind = "Status"\n	code := int(err.Code)\n	h := w.Header()\n	h.Set("Content-Type", "application/json")\n	w.WriteHeader(code)\n'))
