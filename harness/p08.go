package lens

import (
	"bytes"
	"errors"
	"sort"

	"github.com/dgraph-io/badger/v4"
)

//v:use lib_store.go

// v08 models the transactional key-value database: a sorted map, transactions
// that see a snapshot, commit atomically and may fail as a whole.
type v08DB struct {
	data    map[string][]byte
	between func() // runs between transactions: another user of the store
	fail    int    // the n-th write transaction fails to commit
	updates int
}

// A transaction keeps the slices it is given until it is committed, as the
// database does; slices it hands out are only valid as long as documented.
type v08Txn struct {
	data   map[string][]byte
	start  map[string][]byte
	writes []v08Write
	w      bool
}

type v08Write struct {
	key, val []byte
	del      bool
}

type v08Iter struct {
	keys []string
	pos  int
	lent []byte
	data map[string][]byte
}

func v08Spoil(b []byte) {
	for i := range b {
		b[i] = '#'
	}
}

var (
	v08Cur   *v08DB
	v08Txns  map[*badger.Txn]*v08Txn
	v08Items map[*badger.Item]v08Entry
	v08Iters map[*badger.Iterator]*v08Iter
	errV08   = errors.New("commit failed")
)

type v08Entry struct {
	key       string
	val, lent []byte
}

func v08Open(limit int) *badgerStorage {
	v08Cur = &v08DB{data: map[string][]byte{}}
	v08Txns = map[*badger.Txn]*v08Txn{}
	v08Items = map[*badger.Item]v08Entry{}
	v08Iters = map[*badger.Iterator]*v08Iter{}
	badgerSplitLimit = limit
	return &badgerStorage{db: &badger.DB{}}
}

func v08Copy(m map[string][]byte) map[string][]byte {
	out := make(map[string][]byte, len(m))
	for k, v := range m {
		out[k] = v
	}
	return out
}

func v08Begin(w bool) (*badger.Txn, *v08Txn) {
	t := &badger.Txn{}
	m := &v08Txn{data: v08Copy(v08Cur.data), start: v08Copy(v08Cur.data), w: w}
	v08Txns[t] = m
	return t, m
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__DB__Update(db *badger.DB, fn func(*badger.Txn) error) error {
	if f := v08Cur.between; f != nil {
		f()
	}
	t, m := v08Begin(true)
	if err := fn(t); err != nil {
		return err
	}
	return v08Commit(m)
}

func v08Commit(m *v08Txn) error {
	v08Cur.updates++
	if v08Cur.fail == v08Cur.updates {
		return errV08
	}
	for _, w := range m.writes {
		if w.del {
			delete(m.start, string(w.key))
		} else {
			m.start[string(w.key)] = append([]byte(nil), w.val...)
		}
	}
	m.writes = nil
	v08Cur.data = m.start
	return nil
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__DB__NewTransaction(db *badger.DB, w bool) *badger.Txn {
	if f := v08Cur.between; f != nil {
		f()
	}
	t, _ := v08Begin(w)
	return t
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Txn__Commit(t *badger.Txn) error {
	if !v08Txns[t].w {
		return nil
	}
	return v08Commit(v08Txns[t])
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Txn__Discard(t *badger.Txn) {}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__DB__View(db *badger.DB, fn func(*badger.Txn) error) error {
	if f := v08Cur.between; f != nil {
		f()
	}
	t, _ := v08Begin(false)
	return fn(t)
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__DB__DropPrefix(db *badger.DB, prefixes ...[]byte) error {
	out := map[string][]byte{}
	for k, v := range v08Cur.data {
		keep := true
		for _, p := range prefixes {
			if bytes.HasPrefix([]byte(k), p) {
				keep = false
			}
		}
		if keep {
			out[k] = v
		}
	}
	v08Cur.data = out
	return nil
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__DB__DropAll(db *badger.DB) error {
	v08Cur.data = map[string][]byte{}
	return nil
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Txn__Get(t *badger.Txn, key []byte) (*badger.Item, error) {
	if len(key) == 0 {
		return nil, badger.ErrEmptyKey
	}
	v, ok := v08Txns[t].data[string(key)]
	if !ok {
		return nil, badger.ErrKeyNotFound
	}
	it := &badger.Item{}
	v08Items[it] = v08Entry{key: string(key), val: v}
	return it, nil
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Txn__Set(t *badger.Txn, key, val []byte) error {
	m := v08Txns[t]
	if !m.w {
		return badger.ErrReadOnlyTxn
	}
	if len(key) == 0 {
		return badger.ErrEmptyKey
	}
	m.data[string(key)] = val
	m.writes = append(m.writes, v08Write{key: key, val: val})
	return nil
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Txn__Delete(t *badger.Txn, key []byte) error {
	m := v08Txns[t]
	if !m.w {
		return badger.ErrReadOnlyTxn
	}
	delete(m.data, string(key))
	m.writes = append(m.writes, v08Write{key: key, del: true})
	return nil
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Item__Value(it *badger.Item, fn func([]byte) error) error {
	lent := append([]byte(nil), v08Items[it].val...)
	err := fn(lent)
	v08Spoil(lent)
	return err
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Item__ValueCopy(it *badger.Item, dst []byte) ([]byte, error) {
	return append(dst[:0], v08Items[it].val...), nil
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Item__Key(it *badger.Item) []byte {
	if v08Items[it].lent != nil {
		return v08Items[it].lent
	}
	return []byte(v08Items[it].key)
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Item__KeyCopy(it *badger.Item, dst []byte) []byte {
	return append(dst[:0], v08Items[it].key...)
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Txn__NewIterator(t *badger.Txn, opt badger.IteratorOptions) *badger.Iterator {
	it := &badger.Iterator{}
	m := &v08Iter{data: v08Txns[t].data}
	for k := range v08Txns[t].data {
		if bytes.HasPrefix([]byte(k), opt.Prefix) {
			m.keys = append(m.keys, k)
		}
	}
	sort.Strings(m.keys)
	m.pos = len(m.keys)
	v08Iters[it] = m
	return it
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Iterator__Seek(it *badger.Iterator, key []byte) uint64 {
	m := v08Iters[it]
	m.pos = 0
	for m.pos < len(m.keys) && m.keys[m.pos] < string(key) {
		m.pos++
	}
	return 0
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Iterator__Rewind(it *badger.Iterator) {
	v08Iters[it].pos = 0
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Iterator__Valid(it *badger.Iterator) bool {
	return v08Iters[it].pos < len(v08Iters[it].keys)
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Iterator__ValidForPrefix(it *badger.Iterator, prefix []byte) bool {
	m := v08Iters[it]
	return m.pos < len(m.keys) && len(m.keys[m.pos]) >= len(prefix) && m.keys[m.pos][:len(prefix)] == string(prefix)
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Iterator__Next(it *badger.Iterator) {
	v08Iters[it].pos++
	v08Spoil(v08Iters[it].lent)
	v08Iters[it].lent = nil
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Iterator__Item(it *badger.Iterator) *badger.Item {
	m := v08Iters[it]
	i := &badger.Item{}
	if m.lent == nil {
		m.lent = []byte(m.keys[m.pos])
	}
	v08Items[i] = v08Entry{key: m.keys[m.pos], lent: m.lent, val: m.data[m.keys[m.pos]]}
	return i
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Iterator__Close(it *badger.Iterator) {}

// v08Value is a value below, at or far above the split limit of 24 bytes, or
// one that looks like the store's own bookkeeping.
func v08Value(name string) []byte {
	switch vChoose(name, 7) {
	case 0:
		return []byte{}
	case 1:
		return vBytes(name+".v", 2)
	case 2:
		return append(vBytes(name+".v", 1), "bbbbbbbbbbbbbbbbbbbbbbb"...) // 24
	case 3:
		return append(append(vBytes(name+".v", 1), "cccccccccccccccccccccccc"...), vBytes(name+".v", 1)...) // 26
	case 4:
		return append(append(vBytes(name+".v", 1), "aaaaaaaaaaaaaaaaaaaaaaadddddddddddddddddddddddddeeeeeeeeeeeeeeeeeeee"...), vBytes(name+".v", 1)...) // three parts
	case 5:
		return []byte("badger_split:2:5:5")
	default:
		return append([]byte("badger_split:1:1:"), '0'+vBytes(name+".v", 1)[0]&7)
	}
}

func v08Key(name string) string { return v08Keys[vChoose(name, len(v08Keys))] }

var v08Keys = []string{"k", "k-1", "k-1-0", "k/badger_split:k-0"}

// The persistent store is a map over values of every size, split or not.
//
//v:bounds 2 (thorough: 3) operations (save, delete, clear) over 4 keys (chosen to resemble part names) and 7 classes of values around a split limit of 24 bytes with symbolic contents, including values that look like the store's own markers; loads and listings afterwards
//v:assume keys do not begin with the prefix reserved for parts; the database itself is a transactional sorted map (modelled)
//v:quick 60
//v:thorough 600
func VHBadgerMap() {
	s := v08Open(24)
	m := &vStoreModel{}
	n := 2
	if vThorough() {
		n = 3
	}
	for i := 0; i < n; i++ {
		switch vChoose("op", 3) {
		case 0:
			k := v08Key("key")
			v := v08Value("val")
			vAssert("save succeeds", s.SaveState(k, v) == nil)
			m.save(k, v)
		case 1:
			k := v08Key("key")
			vAssert("delete succeeds", s.DeleteState(k) == nil)
			m.del(k)
		case 2:
			vAssert("clear succeeds", s.Clear() == nil)
			*m = vStoreModel{}
		}
	}
	vStoreCheck(s, m, v08Keys...)
	vStorePrefix(s, m, "k-")
	vStorePrefix(s, m, "badger") // parts are not keys
	for _, k := range append([]string(nil), m.keys...) {
		vAssert("delete succeeds", s.DeleteState(k) == nil)
	}
	vAssert("deleting every key leaves nothing behind", len(v08Cur.data) == 0)
}

// A failed save or delete leaves the store as it was.
//
//v:bounds one key holding any of 7 classes of values, then one save or delete whose commit fails
//v:assume the database itself is a transactional sorted map (modelled)
//v:quick 60
func VHBadgerFailure() {
	s := v08Open(24)
	m := &vStoreModel{}
	v := v08Value("val")
	vAssert("save succeeds", s.SaveState("k", v) == nil)
	m.save("k", v)
	v08Cur.fail = 2
	if vBool("delete") {
		vAssert("a failed delete is reported", s.DeleteState("k") != nil)
	} else {
		vAssert("a failed save is reported", s.SaveState("k", v08Value("val")) != nil)
	}
	vStoreCheck(s, m)
}

// A load sees one whole value even while another user of the store replaces or
// deletes it.
//
//v:bounds one key, any of 7 classes of values before and after, the replacement or deletion between any two transactions of the load
//v:assume the database itself is a transactional sorted map (modelled)
//v:quick 60
func VHBadgerConcurrentLoad() {
	s := v08Open(24)
	old, new := v08Value("old"), v08Value("new")
	vAssert("save succeeds", s.SaveState("k", old) == nil)
	del := vBool("delete")
	done := false
	v08Cur.between = func() {
		if done || !vBool("now") {
			return
		}
		done = true
		if del {
			_ = s.DeleteState("k")
		} else {
			_ = s.SaveState("k", new)
		}
	}
	b, ok, err := s.LoadState("k")
	v08Cur.between = nil
	vAssert("the load succeeds", err == nil)
	if !ok {
		vAssert("a value vanishes only when deleted", del && done)
		return
	}
	vAssert("the loaded value is one that was saved", vOr(vEqBytes(b, old), vAnd(done, !del, vEqBytes(b, new))))
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Txn__SetEntry(t *badger.Txn, e *badger.Entry) error {
	return vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Txn__Set(t, e.Key, e.Value)
}

func vstub_github_D_com_S_dgraph_H_io_S_badger_S_v4__Item__ValueSize(it *badger.Item) int64 {
	return int64(len(v08Items[it].val))
}
