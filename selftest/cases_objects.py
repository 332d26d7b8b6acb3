W = "watcher/watcher.go"
def W2(*p):
    return tuple((W, a, b) for a, b in p)
bug("o-key-left", "C37", (W, '	delete(m, "kind")\n', ''))
bug("o-key-other", "C37", (W, '	delete(m, "metadata")\n', '	delete(m, "spec")\n'))
bug("o-key-more", "C37", (W, '	delete(m, "metadata")\n', '	delete(m, "metadata")\n	delete(m, "status")\n'))
bug("o-key-if", "C37", (W, '	delete(m, "metadata")\n', '	if o.APIVersion != "" {\n		delete(m, "metadata")\n	}\n'))
bug("o-swap", "C37", (W, 'if v, ok := m["apiVersion"].(string); ok {\n		o.APIVersion = v', 'if v, ok := m["apiVersion"].(string); ok {\n		o.Kind = v'))
bug("o-kind-of", "C37", (W, 'if v, ok := m["kind"].(string); ok {', 'if v, ok := m["Kind"].(string); ok {'))
bug("o-numbers", "C37", (W, '	dec.UseNumber()\n', ''))
bug("o-numbers-late", "C37", (W, '	dec.UseNumber()\n	_ = dec.Decode(&m)\n', '	_ = dec.Decode(&m)\n	dec.UseNumber()\n'))
bug("o-numbers-if", "C37", (W, '	dec.UseNumber()\n', '	if len(bytes) < 4096 {\n		dec.UseNumber()\n	}\n'))
bug("o-meta-of", "C37", (W, 'if meta, ok := m["metadata"]; ok {', 'if meta, ok := m["spec"]; ok {'))
bug("o-meta-if", "C37", (W, 'if meta, ok := m["metadata"]; ok {', 'if meta, ok := m["metadata"]; ok && o.Kind != "" {'))
bug("o-data-lost", "C37", (W, '	o.Data = m\n', '	if len(m) > 1 {\n		o.Data = m\n	}\n'))
bug("o-comma", "C37", (W, "	bs = append(bs, ',')\n", ""))
bug("o-brace", "C37", (W, "	bso = bso[1:]\n", ""))
bug("o-brace2", "C37", (W, "	bsm = bsm[:len(bsm)-1]\n", "	bsm = bsm[:len(bsm)-2]\n"))
bug("o-null", "C37", (W, ' || string(bsm) == "null"', ''), )
bug("o-tag", "C37", (W, '''		v1.TypeMeta   `json:",inline"`
		v1.ObjectMeta `json:"metadata,omitempty" protobuf:"bytes,1,opt,name=metadata"`
	}{''', '''		v1.TypeMeta   `json:",inline"`
		v1.ObjectMeta `json:"meta,omitempty" protobuf:"bytes,1,opt,name=metadata"`
	}{'''))
bug("o-head-lost", "C37", (W, "		TypeMeta:   o.TypeMeta,\n		ObjectMeta: o.ObjectMeta,\n	})", "		ObjectMeta: o.ObjectMeta,\n	})"))
bug("o-copy-lost", "C37", (W, "		ObjectMeta: o.ObjectMeta,\n		Data:       m,", "		Data:       m,"))
bug("o-copy-skip", "C37", (W, "	for k, v := range o.Data {\n		m[k] = v", "	for k, v := range o.Data {\n		if v == nil {\n			continue\n		}\n		m[k] = v"))
bug("o-copy-key", "C37", (W, "	for k, v := range o.Data {\n		m[k] = v", "	for k, v := range o.Data {\n		m[o.Kind+k] = v"))
same("o-order", (W, '''	delete(m, "apiVersion")
	delete(m, "kind")
	delete(m, "metadata")
''', '''	for _, k := range []string{"metadata", "kind", "apiVersion"} {
		delete(m, k)
	}
'''))
same("o-take", (W, '''	if v, ok := m["kind"].(string); ok {
		o.Kind = v
	}
''', '''	kind, isText := m["kind"].(string)
	if isText {
		o.TypeMeta.Kind = kind
	}
'''))
same("o-reader", (W, 'strings.NewReader(string(bytes))', 'strings.NewReader(string(append([]byte(nil), bytes...)))'))
same("o-join", (W, '''	bs = append(bs, bsm...)
	bs = append(bs, ',')
	bs = append(bs, bso...)
''', '''	bs = append(append(append(bs, bsm...), ','), bso...)
'''))
same("o-empty", (W, 'if string(bsm) == "{}" || string(bsm) == "null" {', 'if len(o.Data) == 0 {'))
same("o-type", (W, '''	bso, _ := json.Marshal(struct {
		v1.TypeMeta   `json:",inline"`
		v1.ObjectMeta `json:"metadata,omitempty" protobuf:"bytes,1,opt,name=metadata"`
	}{
		TypeMeta:   o.TypeMeta,
		ObjectMeta: o.ObjectMeta,
	})''', '''	type head struct {
		v1.TypeMeta   `json:",inline"`
		v1.ObjectMeta `json:"metadata,omitempty" protobuf:"bytes,1,opt,name=metadata"`
	}
	h := head{TypeMeta: o.TypeMeta, ObjectMeta: o.ObjectMeta}
	bso, _ := json.Marshal(h)'''))
same("o-copy-sized", (W, "	m := map[string]interface{}{}\n	for k, v := range o.Data {", "	m := make(map[string]interface{}, len(o.Data))\n	for k, v := range o.Data {"))
same("o-copy-var", (W, '''	return &ObjType{
		TypeMeta:   o.TypeMeta,
		ObjectMeta: o.ObjectMeta,
		Data:       m,
	}''', '''	c := o
	c.Data = m
	return &c'''))
same("o-copy-deep", (W, "		ObjectMeta: o.ObjectMeta,\n		Data:       m,", "		ObjectMeta: *o.ObjectMeta.DeepCopy(),\n		Data:       m,"))
