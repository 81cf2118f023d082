package lens

//v:use lib_store.go

func v07NoSep(s string) {
	for i := 0; i < len(s); i++ {
		vAssume(s[i] != ';')
	}
}

// Stores under different prefixes of one backing store are independent maps.
//
//v:bounds two prefixes of 1..2 symbolic bytes, 3 (thorough: 4) operations (save, delete, clear) on either store, keys of 0..2 symbolic bytes including the separator, one symbolic value byte; loads and listings of both stores after the history
//v:assume prefixes are distinct and contain no ';'
//v:quick 60
func VHPrefixStores() {
	pa, pb := vStr("pa", 1+vChoose("palen", 2)), vStr("pb", 1+vChoose("pblen", 2))
	v07NoSep(pa)
	v07NoSep(pb)
	vAssume(pa != pb)
	back := NewMemStorage()
	s := []Storage{KeyPrefixStorage(back, pa), KeyPrefixStorage(back, pb)}
	m := []*vStoreModel{{}, {}}
	n := 3
	if vThorough() {
		n = 4
	}
	var used []string
	for i := 0; i < n; i++ {
		w := vChoose("store", 2)
		switch vChoose("op", 3) {
		case 0:
			k := vStr("key", vChoose("klen", 3))
			v := vBytes("val", 1)
			used = append(used, k)
			vAssert("save succeeds", s[w].SaveState(k, v) == nil)
			m[w].save(k, v)
			v[0] ^= 0xff // the caller may reuse its buffer
		case 1:
			k := "d"
			if len(used) > 0 {
				k = used[0]
			}
			vAssert("delete succeeds", s[w].DeleteState(k) == nil)
			m[w].del(k)
		case 2:
			vAssert("clear succeeds", s[w].Clear() == nil)
			*m[w] = vStoreModel{}
		}
	}
	vStoreCheck(s[0], m[0], used...)
	vStoreCheck(s[1], m[1], used...)
	if len(m[0].keys) > 0 && len(m[1].keys) > 0 {
		vReach("both")
	}
	if len(used) > 0 && len(used[0]) > 0 {
		vStorePrefix(s[0], m[0], used[0][:1])
		vStorePrefix(s[1], m[1], used[0][:1])
	}
}

// The in-memory store is a map: the last save of a key wins, values are copies.
//
//v:bounds 3 (thorough: 4) operations (save, delete, clear) with keys of 0..2 and values of 0..2 symbolic bytes; loads and listings afterwards
//v:quick 60
func VHMemStore() {
	s := NewMemStorage()
	m := &vStoreModel{}
	n := 3
	if vThorough() {
		n = 4
	}
	var used []string
	for i := 0; i < n; i++ {
		switch vChoose("op", 3) {
		case 0:
			k := vStr("key", vChoose("klen", 3))
			v := vBytes("val", vChoose("vlen", 3))
			used = append(used, k)
			vAssert("save succeeds", s.SaveState(k, v) == nil)
			m.save(k, v)
			if len(v) > 0 {
				v[0] ^= 0xff
			}
		case 1:
			k := vStr("key", 1)
			used = append(used, k)
			vAssert("delete succeeds", s.DeleteState(k) == nil)
			m.del(k)
		case 2:
			vAssert("clear succeeds", s.Clear() == nil)
			*m = vStoreModel{}
		}
	}
	vStoreCheck(s, m, used...)
	for _, k := range m.keys { // a loaded value is the caller's own
		b, _, _ := s.LoadState(k)
		if len(b) > 0 {
			b[0] ^= 0xff
		}
	}
	vStoreCheck(s, m, used...)
	if len(used) > 0 && len(used[0]) > 0 {
		vStorePrefix(s, m, used[0][:1])
	}
}

type v07Op struct {
	kind byte
	val  byte
	res  string // what was observed
}

func (o *v07Op) do(s Storage) {
	switch o.kind {
	case 0:
		_ = s.SaveState("a", []byte{o.val})
	case 1:
		b, ok, _ := s.LoadState("a")
		o.res = "-"
		if ok {
			o.res = string(b)
		}
	case 2:
		_ = s.DeleteState("a")
	case 3:
		ks, _ := s.ListKeys()
		o.res = "none"
		for _, k := range ks {
			if k == "a" {
				o.res = "a"
			}
		}
	case 4:
		_ = s.Clear()
	}
}

// Operations of several goroutines have the effect of some order of them.
//
//v:bounds a store holding one key; 2 goroutines with 2 operations (save, load, delete, list, clear) and 1 (thorough: 2) of them, with 1 (thorough: 2) preemptions at synchronisation; every access of the code under test is checked to be ordered by synchronisation
//v:outside more goroutines or operations
//v:quick 60
func VHMemConcurrent() {
	s := NewMemStorage()
	_ = s.SaveState("a", []byte("0"))
	na, nb, pre := 2, 1, 1
	if vThorough() {
		nb, pre = 2, 2
	}
	ops := make([]*v07Op, na+nb)
	for i := range ops {
		ops[i] = &v07Op{kind: byte(vChoose("op", 5)), val: '1' + byte(i)}
	}
	done := make(chan bool)
	vSched(pre, false)
	go func() {
		for _, o := range ops[na:] {
			o.do(s)
		}
		done <- true
	}()
	for _, o := range ops[:na] {
		o.do(s)
	}
	<-done
	vSchedOff()
	end := &v07Op{kind: 1}
	end.do(s)
	ok := false
	for mask := 0; mask < 1<<len(ops); mask++ { // the order: bit set, the second goroutine's turn
		t, i, j, match := NewMemStorage(), 0, na, true
		_ = t.SaveState("a", []byte("0"))
		run := func(o *v07Op) {
			c := &v07Op{kind: o.kind, val: o.val}
			c.do(t)
			match = match && c.res == o.res
		}
		for k := 0; k < len(ops); k++ {
			if mask>>k&1 == 1 && j < len(ops) {
				run(ops[j])
				j++
			} else if mask>>k&1 == 0 && i < na {
				run(ops[i])
				i++
			} else {
				match = false
			}
		}
		run(end)
		ok = ok || match
	}
	vAssert("concurrent operations have the effect of some order", ok)
}
