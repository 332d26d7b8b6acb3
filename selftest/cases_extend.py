D = "api/extend/deploy2service.go"
SU = "utils/subset.go"
bug("x-other-ns", "C26", (D, "	res = r.Store.Query(svcGvr, store.Query{\n		Namespace: ns,", "	res = r.Store.Query(svcGvr, store.Query{\n		Namespace: dep,"))
bug("x-no-cluster", "C26", (D, "	p = page.Paginate{}\n	_ = p.Clusters([]string{cluster})\n", "	p = page.Paginate{}\n"))
bug("x-default-always", "C26", (D, '	if cluster == "" {', '	if cluster != "" {'))
bug("x-prefix", "C26", (D, "			if depName == dep {", "			if strings.HasPrefix(depName, dep) {"))
bug("x-no-break-nil", "C26", (D, "				labels = pod.GetLabels()\n				break\n", "				labels = pod.GetAnnotations()\n				break\n"))
bug("x-any-pod", "C26", (D, "			depName := getDeploymentName(pod)\n			if depName == dep {\n				labels = pod.GetLabels()\n				break\n			}\n", "			if getDeploymentName(pod) != dep {\n				break\n			}\n			labels = pod.GetLabels()\n"))
bug("x-svc-error", "C26", (D, "	if res.Error != nil {\n		return res.Error\n	}\n	for _, svcIf", "	for _, svcIf"))
bug("x-pod-error", "C26", (D, "	if res.Error != nil {\n		return res.Error\n	}\n	var labels", "	var labels"))
bug("x-nil-selector", "C26", (D, "svc.Spec.Selector != nil && utils", "utils"))
bug("x-swapped", "C26", (D, "utils.IsSubsetOf(svc.Spec.Selector, labels)", "utils.IsSubsetOf(labels, svc.Spec.Selector)"))
bug("x-labels", "C26", (D, "utils.IsSubsetOf(svc.Spec.Selector, labels)", "utils.IsSubsetOf(svc.Labels, labels)"))
bug("x-first-only", "C26", (D, "			services = append(services, svc)\n", "			services = append(services, svc)\n			break\n"))
bug("x-paged", "C26", (D, "	p = page.Paginate{}\n", "	p = page.Paginate{Page: 1, PageSize: 100}\n"))
bug("x-keep-search", "C26", (D, "	p = page.Paginate{}\n", ""))
bug("x-owner-index", "C26", (D, '		parts := strings.Split(pod.GetOwnerReferences()[0].Name, "-")\n		return strings.Join(parts[:len(parts)-1], "-")', '		parts := strings.Split(pod.GetOwnerReferences()[0].Name, "-")\n		return parts[0]'))
bug("x-owner-kind", "C26", (D, ' || pod.GetOwnerReferences()[0].Kind != "ReplicaSet"', ''))
bug("x-clusterip", "C26", (D, "		if svc.Spec.Selector != nil &&", "		if svc.Spec.ClusterIP != v1.ClusterIPNone && svc.Spec.Selector != nil &&"))
bug("x-shared-svc", "C26", (D, "	for _, svcIf := range res.Items {\n		svc := &v1.Service{}\n", "	svc := &v1.Service{}\n	for _, svcIf := range res.Items {\n"))
bug("x-version", "C26", (D, '		Version:  "v1",\n		Resource: "services",', '		Version:  "v1",\n		Resource: "endpoints",'))
bug("x-subset-any", "C26", (SU, "!ok || vv != v", "ok && vv != v"))
bug("x-subset-true", "C26", (SU, "			return false\n		}\n", "			return false\n		}\n		if len(parent) > 16 {\n			return true\n		}\n"))
bug("x-subset-value", "C26", (SU, "; !ok || vv != v {", "; !ok || vv != v && vv != \"\" {"))
same("x-last-index", (D, '''		parts := strings.Split(pod.GetOwnerReferences()[0].Name, "-")
		return strings.Join(parts[:len(parts)-1], "-")
''', '''		name := pod.GetOwnerReferences()[0].Name
		i := strings.LastIndex(name, "-")
		if i < 0 {
			return ""
		}
		return name[:i]
'''))
same("x-read-helper", (D, "func getDeploymentName(", '''func read(r *api.ReqContext, resource, cluster, ns, search string) ([]interface{}, error) {
	p := page.Paginate{Search: search}
	_ = p.Clusters([]string{cluster})
	res := r.Store.Query(store.GroupVersionResource{Version: "v1", Resource: resource}, store.Query{Namespace: ns, Paginate: p})
	return res.Items, res.Error
}

func getDeploymentName('''), (D, '''	podGvr := store.GroupVersionResource{
		Group:    "",
		Version:  "v1",
		Resource: "pods",
	}
	svcGvr := store.GroupVersionResource{
		Group:    "",
		Version:  "v1",
		Resource: "services",
	}
''', ""), (D, '''	p := page.Paginate{Search: "name=" + dep}
	_ = p.Clusters([]string{cluster})
	res := r.Store.Query(podGvr, store.Query{
		Namespace: ns,
		Paginate:  p,
	})
	if res.Error != nil {
		return res.Error
	}
''', '''	pods, err := read(r, "pods", cluster, ns, "name="+dep)
	if err != nil {
		return err
	}
'''), (D, "range res.Items {\n		if pod,", "range pods {\n		if pod,"), (D, '''	p = page.Paginate{}
	_ = p.Clusters([]string{cluster})
	res = r.Store.Query(svcGvr, store.Query{
		Namespace: ns,
		Paginate:  p,
	})
	if res.Error != nil {
		return res.Error
	}
	for _, svcIf := range res.Items {''', '''	svcs, err := read(r, "services", cluster, ns, "")
	if err != nil {
		return err
	}
	for _, svcIf := range svcs {'''))
same("x-labels-helper", (D, '''	var labels map[string]string
	for _, podIf := range res.Items {
		if pod, ok := podIf.(v12.Object); ok {
			depName := getDeploymentName(pod)
			if depName == dep {
				labels = pod.GetLabels()
				break
			}
		}
	}
''', "	labels := labelsOf(res.Items, dep)\n"), (D, "func getDeploymentName(", '''func labelsOf(pods []interface{}, dep string) map[string]string {
	for _, podIf := range pods {
		pod, ok := podIf.(v12.Object)
		if !ok || getDeploymentName(pod) != dep {
			continue
		}
		return pod.GetLabels()
	}
	return nil
}

func getDeploymentName('''))
same("x-svc-helper", (D, '''		svc := &v1.Service{}
		if s, ok := svcIf.(*watcher.ObjType); ok {
			bs, _ := json.Marshal(s)
			_ = json.Unmarshal(bs, svc)
		} else {
			svc = svcIf.(*v1.Service)
		}
		if svc.Spec.Selector != nil && utils.IsSubsetOf(svc.Spec.Selector, labels) {
			services = append(services, svc)
		}
''', '''		svc := serviceOf(svcIf)
		if svc.Spec.Selector == nil || !utils.IsSubsetOf(svc.Spec.Selector, labels) {
			continue
		}
		services = append(services, svc)
'''), (D, "func getDeploymentName(", '''func serviceOf(o interface{}) *v1.Service {
	if s, ok := o.(*watcher.ObjType); ok {
		svc := &v1.Service{}
		bs, _ := json.Marshal(s)
		_ = json.Unmarshal(bs, svc)
		return svc
	}
	return o.(*v1.Service)
}

func getDeploymentName('''))
same("x-index", (D, "	for _, svcIf := range res.Items {\n", "	for i := 0; i < len(res.Items); i++ {\n		svcIf := res.Items[i]\n"), (D, "			depName := getDeploymentName(pod)\n			if depName == dep {", "			if dep == getDeploymentName(pod) {"))
same("x-owners", (D, '''	if len(pod.GetOwnerReferences()) == 0 || pod.GetOwnerReferences()[0].Kind != "ReplicaSet" {
		return ""
	} else {
		parts := strings.Split(pod.GetOwnerReferences()[0].Name, "-")
		return strings.Join(parts[:len(parts)-1], "-")
	}
''', '''	owners := pod.GetOwnerReferences()
	if len(owners) == 0 {
		return ""
	}
	owner := owners[0]
	if owner.Kind != "ReplicaSet" {
		return ""
	}
	parts := strings.Split(owner.Name, "-")
	return strings.Join(parts[:len(parts)-1], "-")
'''))
same("x-subset-len", (SU, "	for k, v", "	if len(sub) > len(parent) {\n		return false\n	}\n	for k, v"))
same("x-subset-split", (SU, '''		if vv, ok := parent[k]; !ok || vv != v {
			return false
		}
''', '''		vv, ok := parent[k]
		if !ok {
			return false
		}
		if vv == v {
			continue
		}
		return false
'''))
same("x-subset-keys", (SU, "for k, v := range sub", "for k := range sub"), (SU, "!ok || vv != v", "!ok || vv != sub[k]"))
bug("x-not-cast", "C26", (D, "			svc = svcIf.(*v1.Service)", "			_ = svcIf.(*v1.Service)"))
