M = "store/memory/memory.go"
PM = "utils/prommonitor/metrics.go"
ADD = '''	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Set(name, o)
	prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, ns).
		Set(float64(m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Len()))
	return nil
}

func (m *memoryStore) OnResourceModified'''
DEL = '''.Delete(name)
	prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, ns).
		Set(float64(m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Len()))
'''
CL = '''		prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, string(ns)).Set(0)
'''
bug("g-inc", "C29", (M, DEL, '''.Delete(name)
	prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, ns).Dec()
'''))
bug("g-labels", "C29", (M, DEL, DEL.replace("gvr.Version, gvr.Resource", "gvr.Resource, gvr.Version")))
bug("g-labels-decl", "C29", (PM, '"version", "resource", "namespace"', '"resource", "version", "namespace"'))
bug("g-cluster-len", "C29", (M, DEL, DEL.replace(".Get(namespaceName(ns)).Len()", ".Len()")))
bug("g-before", "C29", (M, '	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns))' + DEL, '''	left := m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Len()
	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Delete(name)
	prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, ns).Set(float64(left))
'''))
bug("g-clean-none", "C29", (M, CL, ""))
bug("g-clean-cond", "C29", (M, CL, "		if ns != \"\" {\n	" + CL + "		}\n"))
bug("g-clean-ns", "C29", (M, CL, CL.replace("string(ns)", '""')))
bug("g-default-ns", "C29", (M, DEL, DEL.replace("gvr.Resource, ns", 'gvr.Resource, cluster')))
bug("g-skip-last", "C29", (M, DEL, '''.Delete(name)
	if n := m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Len(); n > 0 {
		prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, ns).Set(float64(n))
	}
'''))
same("g-helper", (M, ADD, '''	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Set(name, o)
	m.report(gvr, cluster, ns)
	return nil
}

func (m *memoryStore) report(gvr store.GroupVersionResource, cluster, ns string) {
	n := m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Len()
	prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, ns).Set(float64(n))
}

func (m *memoryStore) OnResourceModified'''))
same("g-var", (M, ADD, '''	objs := m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns))
	objs.Set(name, o)
	g := prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, ns)
	g.Set(float64(objs.Len()))
	return nil
}

func (m *memoryStore) OnResourceModified'''))
same("g-with", (M, ADD, '''	m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Set(name, o)
	prommonitor.Resources.With(map[string]string{
		"cluster": cluster, "group": gvr.Group, "version": gvr.Version, "resource": gvr.Resource, "namespace": ns,
	}).Set(float64(m.resourceMap.Get(gvr).Get(clusterName(cluster)).Get(namespaceName(ns)).Len()))
	return nil
}

func (m *memoryStore) OnResourceModified'''))
same("g-clean-order", (M, "		c.Clean()\n" + CL, "		c.Clean()\n		gauge := prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, string(ns))\n		gauge.Set(float64(c.Len()))\n"))
MAIN = "cmd/cacheproxy/main.go"
bug("ga-noreset", "C29", (MAIN, "				prommonitor.Resources.Reset()\n", ""))
bug("ga-reset-early", "C29", (MAIN, "				prommonitor.Resources.Reset()\n", ""), (MAIN, "				clis, rw, rs, err := loadFromConfig", "				prommonitor.Resources.Reset()\n				clis, rw, rs, err := loadFromConfig"))
