M = "store/memory/memory.go"
S = "server/server.go"
F = "pkg/client/fake/fake_ckube.go"
bug("lk-exists", "C17", (M, '''	s.lock.RLock()
	defer s.lock.RUnlock()
	_, ok := s.resources[key]
''', '''	_, ok := s.resources[key]
'''))
bug("lk-init-fast", "C17", (M, '''	s.lock.Lock()
	defer s.lock.Unlock()
	if s.resources == nil {
		s.resources = make(map[K]*V)
	}
	if _, ok := s.resources[key]; ok {
		return
	}
''', '''	if _, ok := s.resources[key]; ok {
		return
	}
	s.lock.Lock()
	defer s.lock.Unlock()
	if s.resources == nil {
		s.resources = make(map[K]*V)
	}
'''))
bug("lk-delete-rlock", "C17", (M, '''	s.lock.Lock()
	defer s.lock.Unlock()
	delete(s.resources, key)''', '''	s.lock.RLock()
	defer s.lock.RUnlock()
	delete(s.resources, key)'''))
bug("lk-clean-rlock", "C17", (M, '''	s.lock.Lock()
	defer s.lock.Unlock()
	s.resources = make(map[K]*V)
''', '''	s.lock.RLock()
	defer s.lock.RUnlock()
	s.resources = make(map[K]*V)
'''))
bug("lk-init-leak", "C17", (M, '''	s.lock.Lock()
	defer s.lock.Unlock()
	if s.resources == nil {
		s.resources = make(map[K]*V)
	}
	if _, ok := s.resources[key]; ok {
		return
	}
	s.resources[key] = new(V)
''', '''	s.lock.Lock()
	if s.resources == nil {
		s.resources = make(map[K]*V)
	}
	if _, ok := s.resources[key]; ok {
		return
	}
	s.resources[key] = new(V)
	s.lock.Unlock()
'''))
bug("lk-foreach-snap", "C17", (M, '''	s.lock.RLock()
	defer s.lock.RUnlock()
	for k, v := range s.resources {
''', '''	s.lock.RLock()
	rs := s.resources
	s.lock.RUnlock()
	for k, v := range rs {
'''))
bug("lk-clean-delete", "C17", (M, '''		c.Clean()
		prommonitor''', '''		c.Clean()
		m.resourceMap.Get(gvr).Get(clusterName(cluster)).Delete(ns)
		prommonitor'''))
bug("lk-reset", "C17", (S, '''	m.lock.Lock()
	defer m.lock.Unlock()
	m.store = s
''', '''	m.store = s
'''))
bug("lk-reset-half", "C17", (S, '''	m.lock.Lock()
	defer m.lock.Unlock()
	m.store = s
	m.clusterClients = clis
''', '''	m.lock.Lock()
	m.store = s
	m.lock.Unlock()
	m.clusterClients = clis
'''))
bug("lk-read", "C17", (S, '''				m.lock.RLock()
				s, clis := m.store, m.clusterClients
				m.lock.RUnlock()
''', '''				m.lock.RLock()
				s := m.store
				m.lock.RUnlock()
				clis := m.clusterClients
'''))
bug("lk-serve", "C17", (S, '''	m.lock.Lock()
	m.server = ser
	m.lock.Unlock()
	log.Infof("starting server at %v", m.ListenAddr)
	return''', '''	m.lock.Lock()
	defer m.lock.Unlock()
	m.server = ser
	log.Infof("starting server at %v", m.ListenAddr)
	return'''))
bug("lk-handler-held", "C17", (S, '''				s, clis := m.store, m.clusterClients
				m.lock.RUnlock()
''', '''				defer m.lock.RUnlock()
				s, clis := m.store, m.clusterClients
'''))
bug("lk-config", "C17", ("common/config.go", "var cfg atomic.Pointer[Config]", "var cfg *Config"), ("common/config.go", "cfg.Store(c)", "cfg = c"), ("common/config.go", "*cfg.Load()", "*cfg"), ("common/config.go", "cfg.Load().Proxies", "cfg.Proxies"), ("common/config.go", 'import "sync/atomic"\n', ""))
bug("lk-mutex-copy", "C17", (M, '''func (s *syncResourceStore[K, V]) Len() int {
	s.lock.RLock()''', '''func (s syncResourceStore[K, V]) Len() int {
	s.lock.RLock()'''))
same("lk-helper", (M, '''	s.lock.RLock()
	defer s.lock.RUnlock()
	_, ok := s.resources[key]
	return ok
''', '''	return s.has(key)
'''), (M, "type clusterName string", '''func (s *syncResourceStore[K, V]) has(key K) bool {
	s.lock.RLock()
	_, ok := s.resources[key]
	s.lock.RUnlock()
	return ok
}

type clusterName string'''))
same("lk-locked-helper", (M, '''	s.lock.Lock()
	if s.resources == nil {
		s.resources = make(map[K]*V)
	}
	s.resources[key] = &value
	s.lock.Unlock()
''', '''	s.lock.Lock()
	defer s.lock.Unlock()
	s.ensure()
	s.resources[key] = &value
'''), (M, "type clusterName string", '''// ensure is called with the lock held
func (s *syncResourceStore[K, V]) ensure() {
	if s.resources == nil {
		s.resources = make(map[K]*V)
	}
}

type clusterName string'''))
same("lk-snapshot", (S, '''				m.lock.RLock()
				s, clis := m.store, m.clusterClients
				m.lock.RUnlock()
''', '''				s, clis := m.state()
'''), (S, "func jsonResp(", '''func (m *muxServer) state() (store.Store, map[string]kubernetes.Interface) {
	m.lock.RLock()
	defer m.lock.RUnlock()
	return m.store, m.clusterClients
}

func jsonResp('''))
same("lk-explicit", (M, '''	s.lock.Lock()
	defer s.lock.Unlock()
	if s.resources == nil {
		s.resources = make(map[K]*V)
	}
	if _, ok := s.resources[key]; ok {
		return
	}
	s.resources[key] = new(V)
''', '''	s.lock.Lock()
	if s.resources == nil {
		s.resources = make(map[K]*V)
	}
	if _, ok := s.resources[key]; !ok {
		s.resources[key] = new(V)
	}
	s.lock.Unlock()
'''))
same("lk-mutex", (S, "lock           sync.RWMutex", "lock           sync.Mutex"), (S, "m.lock.RLock()\n	ser := m.server\n	m.lock.RUnlock()", "m.lock.Lock()\n	ser := m.server\n	m.lock.Unlock()"), (S, "m.lock.RLock()\n				s, clis := m.store, m.clusterClients\n				m.lock.RUnlock()", "m.lock.Lock()\n				s, clis := m.store, m.clusterClients\n				m.lock.Unlock()"))
