M = "store/memory/memory.go"
ADD = '''	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
	m.initResourceNamespace(gvr, cluster, ns)
	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Set(name, o)
'''
DEL = '''	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Delete(name)
'''
bug("id-init-resets", "C12", (M, '''	if _, ok := s.resources[key]; ok {
		return
	}
	s.resources[key] = new(V)''', '''	if v, ok := s.resources[key]; ok && v == nil {
		return
	}
	s.resources[key] = new(V)'''))
bug("id-delete-clean", "C12", (M, DEL, DEL + '''	if m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Len() <= 1 {
		m.resourceMap.Get(gvr).Get(clusterName(cluster)).Delete(namespaceName(ns))
	}
'''))
bug("id-get-ns", "C12", (M, 'Get(namespaceName(namespace)).Get(name); o != nil', 'Get(namespaceName(cluster)).Get(name); o != nil'))
bug("id-clean-all", "C12", (M, '''	m.resourceMap.Get(gvr).Get(clusterName(cluster)).ForEach(func(ns namespaceName, c *syncResourceStore[string, store.Object]) {
		c.Clean()''', '''	m.resourceMap.Get(gvr).Get(clusterName(cluster)).ForEach(func(ns namespaceName, c *syncResourceStore[string, store.Object]) {
		if ns == "" {
			return
		}
		c.Clean()'''))
bug("id-clean-other", "C12", (M, '''	m.resourceMap.Get(gvr).Get(clusterName(cluster)).ForEach(func(ns namespaceName, c *syncResourceStore[string, store.Object]) {
		c.Clean()''', '''	for _, cs := range m.resourceMap.Get(gvr).Values() {
		for _, c := range cs.Values() {
			c.Clean()
		}
	}
	m.resourceMap.Get(gvr).Get(clusterName(cluster)).ForEach(func(ns namespaceName, c *syncResourceStore[string, store.Object]) {
		c.Clean()'''))
bug("id-index-name", "C12", (M, '''		namespace = oo.GetNamespace()
		name = oo.GetName()
''', '''		if namespace == "" {
			namespace = oo.GetNamespace()
		}
		name = oo.GetName()
'''))
bug("id-modified-stale", "C12", (M, '''func (m *memoryStore) OnResourceModified(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
''' + ADD, '''func (m *memoryStore) OnResourceModified(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
	m.initResourceNamespace(gvr, cluster, ns)
	if m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Exists(name) {
		m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Set(name, o)
	}
'''))
bug("id-generate-name", "C12", (M, '		name = oo.GetName()\n', '		name = oo.GetName()\n		if name == "" {\n			name = oo.GetGenerateName()\n		}\n'))
bug("ix-deleted", "C13", (M, 'if oo.GetDeletionTimestamp() != nil {', 'if !oo.GetDeletionTimestamp().IsZero() && len(oo.GetFinalizers()) > 0 {'))
bug("ix-cluster-first", "C13", (M, '	s.Index["cluster"] = cluster\n', '	if _, ok := s.Index["cluster"]; !ok {\n		s.Index["cluster"] = cluster\n	}\n'))
bug("ix-anno-lost", "C13", (M, '		if len(oo.GetAnnotations()) == 0 {\n', '		if anno := oo.GetAnnotations(); anno[constants.DSMClusterAnno] == "" {\n'))
bug("ix-anno-foreign", "C13", (M, '''			anno[constants.DSMClusterAnno] = cluster
''', '''			if _, ok := anno[constants.DSMClusterAnno]; !ok {
				anno[constants.DSMClusterAnno] = cluster
			}
'''))
bug("ix-break", "C13", (M, '''			log.Errorf("parse temp error: %v", err)
			s.Index[k] = w.String()
			continue''', '''			log.Errorf("parse temp error: %v", err)
			s.Index[k] = w.String()
			break'''))
bug("ix-empty", "C13", (M, '''			log.Warnf("exec jsonpath error: %v, %v", obj, err)
		}''', '''			log.Warnf("exec jsonpath error: %v, %v", obj, err)
			continue
		}'''))
bug("ix-shared-buffer", "C13", (M, '''	for k, v := range m.indexConf[gvr] {
		w := bytes.NewBuffer([]byte{})
''', '''	w := bytes.NewBuffer([]byte{})
	for k, v := range m.indexConf[gvr] {
'''))
bug("ix-template-brace", "C13", (M, 'if strings.Contains(v, "{{") {', 'if strings.HasPrefix(v, "{{") {'))

same("id-resource-helper", (M, '''func (m *memoryStore) OnResourceAdded(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
''' + ADD, '''func (m *memoryStore) put(gvr store.GroupVersionResource, cluster string, obj interface{}) string {
	ns, name, o := m.buildResourceWithIndex(gvr, cluster, obj)
	m.initResourceNamespace(gvr, cluster, ns)
	c := m.resourceMap.Get(gvr).Get(clusterName(cluster))
	c.Get(namespaceName(ns)).Set(name, o)
	return ns
}

func (m *memoryStore) OnResourceAdded(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
	ns := m.put(gvr, cluster, obj)
'''))
same("id-get-chain", (M, '''	if m.resourceMap.Exists(gvr) {
		if !m.resourceMap.Get(gvr).Exists(clusterName(cluster)) {
			return nil
		}
		if !m.resourceMap.Get(gvr).Get(clusterName(cluster)).Exists(namespaceName(namespace)) {
			return nil
		}
		if o := m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(namespace)).Get(name); o != nil {
			return o.Obj
		}
	}
	return nil
''', '''	cs := m.resourceMap.Get(gvr)
	if cs == nil {
		return nil
	}
	nss := cs.Get(clusterName(cluster))
	if nss == nil {
		return nil
	}
	objs := nss.Get(namespaceName(namespace))
	if objs == nil {
		return nil
	}
	o := objs.Get(name)
	if o == nil {
		return nil
	}
	return o.Obj
'''))
same("id-clean-delete", (M, '''	m.resourceMap.Get(gvr).Get(clusterName(cluster)).ForEach(func(ns namespaceName, c *syncResourceStore[string, store.Object]) {
		c.Clean()''', '''	namespaces := m.resourceMap.Get(gvr).Get(clusterName(cluster))
	namespaces.ForEach(func(ns namespaceName, c *syncResourceStore[string, store.Object]) {
		c.Clean()'''))
same("ix-anno-once", (M, '''		if len(oo.GetAnnotations()) == 0 {
			oo.SetAnnotations(map[string]string{
				constants.DSMClusterAnno: cluster,
			})
		} else {
			anno := oo.GetAnnotations()
			anno[constants.DSMClusterAnno] = cluster
			oo.SetAnnotations(anno)
		}
		anno := oo.GetAnnotations()
		index, _ := json.Marshal(s.Index)
''', '''		anno := oo.GetAnnotations()
		if anno == nil {
			anno = map[string]string{}
		}
		anno[constants.DSMClusterAnno] = cluster
		index, _ := json.Marshal(s.Index)
'''))
same("ix-eval-helper", (M, '''	for k, v := range m.indexConf[gvr] {
		w := bytes.NewBuffer([]byte{})
		var exec interface {
			Execute(wr io.Writer, data interface{}) error
		}
		var err error
		if strings.Contains(v, "{{") {
			// go template
			exec, err = gotmpl.Parse(v)
		} else if !strings.Contains(v, "{") {
			// raw string
			s.Index[k] = v
			continue
		} else {
			// json path
			_ = jp.Parse(v)
			exec = jp
		}
		if err != nil {
			log.Errorf("parse temp error: %v", err)
			s.Index[k] = w.String()
			continue
		}
		err = exec.Execute(w, mobj)
		if err != nil {
			log.Warnf("exec jsonpath error: %v, %v", obj, err)
		}
		s.Index[k] = w.String()
	}
''', '''	eval := func(v string) string {
		w := bytes.NewBuffer([]byte{})
		if !strings.Contains(v, "{") {
			return v
		}
		if !strings.Contains(v, "{{") {
			_ = jp.Parse(v)
			if err := jp.Execute(w, mobj); err != nil {
				log.Warnf("exec jsonpath error: %v, %v", obj, err)
			}
			return w.String()
		}
		exec, err := gotmpl.Parse(v)
		if err != nil {
			log.Errorf("parse temp error: %v", err)
			return w.String()
		}
		if err = exec.Execute(w, mobj); err != nil {
			log.Warnf("exec jsonpath error: %v, %v", obj, err)
		}
		return w.String()
	}
	for k, v := range m.indexConf[gvr] {
		s.Index[k] = eval(v)
	}
'''), (M, '	"io"\n', ''))
same("ix-deleted-flag", (M, '''		if oo.GetDeletionTimestamp() != nil {
			s.Index["is_deleted"] = "true"
		} else {
			s.Index["is_deleted"] = "false"
		}
''', '''		s.Index["is_deleted"] = strconv.FormatBool(oo.GetDeletionTimestamp() != nil)
'''))
same("ix-index-literal", (M, '''		s.Index["namespace"] = namespace
		s.Index["name"] = name
	}
	log''', '''		for _, kv := range [][2]string{{"namespace", namespace}, {"name", name}} {
			s.Index[kv[0]] = kv[1]
		}
	}
	log'''))
CLEAN = '''	if !m.resourceMap.Get(gvr).Exists(clusterName(cluster)) {
		return fmt.Errorf("cluster %s not exists", cluster)
	}
	m.resourceMap.Get(gvr).Get(clusterName(cluster)).ForEach('''
QHAS = '''	if !m.resourceMap.Exists(gvr) {
		res.Error = fmt.Errorf("resource %v not stored", gvr)
		return res
	}
'''
bug("st-query-unknown", "C12", (M, QHAS, ""))
bug("st-query-known", "C12", (M, "	if !m.resourceMap.Exists(gvr) {\n		res.Error", "	if m.resourceMap.Exists(gvr) {\n		res.Error"))
bug("st-clean-absent", "C12", (M, CLEAN, "	m.resourceMap.Get(gvr).Get(clusterName(cluster)).ForEach("))
bug("st-get-absent", "C12", (M, "		if !m.resourceMap.Get(gvr).Get(clusterName(cluster)).Exists(namespaceName(namespace)) {\n			return nil\n		}\n", ""))
bug("st-no-init", "C12", (M, "	m.initResourceNamespace(gvr, cluster, ns)\n	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Delete", "	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Delete"))
same("st-clean-nil", (M, CLEAN, '''	c := m.resourceMap.Get(gvr).Get(clusterName(cluster))
	if c == nil {
		return fmt.Errorf("cluster %s not exists", cluster)
	}
	c.ForEach('''))
same("st-query-nil", (M, QHAS, '''	byCluster := m.resourceMap.Get(gvr)
	if byCluster == nil {
		res.Error = fmt.Errorf("resource %v not stored", gvr)
		return res
	}
'''), (M, "	m.resourceMap.Get(gvr).ForEach(func(cname", "	byCluster.ForEach(func(cname"))
same("st-query-empty", (M, QHAS, '''	if !m.resourceMap.Exists(gvr) {
		return res
	}
'''))
