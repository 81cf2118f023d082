package lens

// vStoreModel is the specification of a store: a finite map.
type vStoreModel struct {
	keys []string
	vals [][]byte
}

func (m *vStoreModel) find(k string) int {
	for i := range m.keys {
		if m.keys[i] == k {
			return i
		}
	}
	return -1
}

func (m *vStoreModel) save(k string, v []byte) {
	v = append([]byte(nil), v...)
	if i := m.find(k); i >= 0 {
		m.vals[i] = v
		return
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}

func (m *vStoreModel) del(k string) {
	if i := m.find(k); i >= 0 {
		m.keys = append(append([]string(nil), m.keys[:i]...), m.keys[i+1:]...)
		m.vals = append(append([][]byte(nil), m.vals[:i]...), m.vals[i+1:]...)
	}
}

// vStoreCheck compares everything observable of s with the model.
func vStoreCheck(s Storage, m *vStoreModel, extra ...string) {
	for i, k := range m.keys {
		b, ok, err := s.LoadState(k)
		vAssert("a saved key is found", err == nil && ok)
		vAssert("a saved value is returned unchanged", vEqBytes(b, m.vals[i]))
	}
	for _, k := range extra {
		if m.find(k) < 0 {
			b, ok, err := s.LoadState(k)
			vAssert("a key never saved, deleted or cleared is not found", err == nil && !ok && len(b) == 0)
		}
	}
	keys, err := s.ListKeys()
	vAssert("the list of keys has exactly the saved keys", err == nil && vSameSet(keys, m.keys))
}

func vSameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
	for _, x := range a {
		ok := false
		for i, y := range b {
			if !used[i] && x == y {
				used[i] = true
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func vStorePrefix(s Storage, m *vStoreModel, pre string) {
	got, err := s.ListKeysPrefix(pre)
	var want []string
	for _, k := range m.keys {
		if len(k) >= len(pre) && k[:len(pre)] == pre {
			want = append(want, k)
		}
	}
	vAssert("listing by prefix gives exactly the keys with that prefix", err == nil && vSameSet(got, want))
}
