package lens

import (
	"sync"
	"sync/atomic"
)

// No more activities run at once than the limit, none is stuck, and Join
// returns only when all are finished.
//
//v:bounds limits 1..2 (thorough: 3), 3 (thorough: 4) activities, all interleavings with up to 1 (thorough: 2) preemptions
func VHLimit() {
	limit, n, pre := 1+vChoose("limit", 2), 3, 1
	if vThorough() {
		limit, n, pre = 1+vChoose("tlimit", 3), 4, 2
	}
	wg := NewLimitingWaitGroup(limit)
	var running, peak, done atomic.Int32
	vSched(pre, false)
	for i := 0; i < n; i++ {
		wg.Take()
		go func() {
			defer wg.Release()
			if r := running.Add(1); r > peak.Load() {
				peak.Store(r)
			}
			vAssert("no more run at once than the limit", int(running.Load()) <= limit)
			running.Add(-1)
			done.Add(1)
		}()
	}
	wg.Join()
	vAssert("join waits for all", int(done.Load()) == n && running.Load() == 0)
	vSchedOff()
	if int(peak.Load()) == limit {
		vReach("limit used")
	}
}

// Holders of the same key exclude each other, and any keys make progress.
//
//v:bounds 1..3 stripes, 2 (thorough: 3) holders with symbolic keys of 0..2 bytes, all interleavings with up to 1 preemption
func VHStriped() {
	m := newStripedMutex(uint(1 + vChoose("stripes", 3)))
	n := 2
	if vThorough() {
		n = 3
	}
	keys := make([]string, n)
	for i := range keys {
		keys[i] = []string{"", "a", "b", "ab", "ba"}[vChoose("key", 5)]
	}
	held := map[string]int{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	vSched(1, false)
	for i := range keys {
		wg.Add(1)
		go func() {
			defer wg.Done()
			l := m.Lock(keys[i])
			mu.Lock()
			held[keys[i]]++
			vAssert("a key is held once", held[keys[i]] == 1)
			mu.Unlock()
			vYield()
			mu.Lock()
			held[keys[i]]--
			mu.Unlock()
			l.Unlock()
		}()
	}
	wg.Wait()
	vSchedOff()
}

// The lock of a key is always the same one.
//
//v:bounds 1, 2, 3, 5 or 8 stripes, symbolic keys of 0..2 bytes, another key looked up in between
func VHStripedSame() {
	m := newStripedMutex([]uint{1, 2, 3, 5, 8}[vChoose("stripes", 5)])
	k := vStr("key", vChoose("len", 3))
	a := m.getLock(k)
	_ = m.getLock("other")
	b := m.getLock(k)
	vAssert("the lock of a key is always the same", a == b && a != nil)
}
