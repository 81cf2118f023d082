PROP="P08"
NEEDS="a value large enough to be split, deleted and the database looked at afterwards"
BREAKS="deleting a split value leaves its first part in the database"
EDITS=[("lens/storage.go",'''			count, _ := strconv.Atoi(string(m[1]))
			for i := 0; i < count; i++ {
				if err := txn.Delete''','''			count, _ := strconv.Atoi(string(m[1]))
			for i := 1; i < count; i++ {
				if err := txn.Delete''')]
DEMO='''
package lens

import (
	"testing"

	"github.com/dgraph-io/badger/v4"
)

func TestDemo(t *testing.T) {
	old := badgerSplitLimit
	defer func() { badgerSplitLimit = old }()
	badgerSplitLimit = 8
	s, err := NewBadgerStorage(t.TempDir(), 16)
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	if err := s.SaveState("k", make([]byte, 20)); err != nil {
		t.Fatal(err)
	}
	if err := s.DeleteState("k"); err != nil {
		t.Fatal(err)
	}
	_ = s.(*badgerStorage).db.View(func(txn *badger.Txn) error {
		it := txn.NewIterator(badger.DefaultIteratorOptions)
		defer it.Close()
		for it.Rewind(); it.Valid(); it.Next() {
			t.Errorf("left behind: %q", it.Item().Key())
		}
		return nil
	})
}
'''
