_f = "rwmap/rwmap.go"
seed("s21a-stale-read-after-lock", "C21", [(_f, '''	m.mu.Lock()
	read = m.loadReadOnly()
	if e, ok := read.m[key]; ok {
		if e.unexpungeLocked() {
			m.dirty[key] = e
		}
''', '''	m.mu.Lock()
	if read.m == nil {
		read = m.loadReadOnly()
	}
	if e, ok := read.m[key]; ok {
		if e.unexpungeLocked() {
			m.dirty[key] = e
		}
''')], "rwmap", '''package rwmap
import ("testing"; "time")
func TestVerifDemo(t *testing.T) {
	var m RWMap[int, int]
	m.Store(1, 10); m.Range(func(int, int) bool { return true })
	m.Store(2, 20)
	// the caller waits for the lock while the dirty map is promoted and a new one is started
	m.mu.Lock()
	done := make(chan struct{})
	var v int; var loaded bool
	go func() { defer close(done); v, loaded = m.LoadOrStore(2, 99) }()
	time.Sleep(200 * time.Millisecond)
	for m.dirty != nil { m.missLocked() }
	read := m.loadReadOnly()
	m.dirtyLocked(); m.read.Store(&readOnly[int, int]{m: read.m, amended: true}); m.dirty[3] = newEntry(30)
	delete(m.dirty, 2)
	read.m[2].p.Store((*int)(expunged)) // 2 deleted and expunged meanwhile
	m.mu.Unlock()
	<-done
	got, ok := m.Load(2)
	if loaded || v != 99 || !ok || got != 99 { t.Fatal(v, loaded, got, ok) }
}
''', "the key is deleted, expunged and the dirty map rebuilt while LoadOrStore waits for the lock", "LoadOrStore decides on the read snapshot it loaded before it got the lock: the value is stored where nobody looks")
seed("s21b-unexpunge-not-in-dirty", "C21", [(_f, '''	if e, ok := read.m[key]; ok {
		if e.unexpungeLocked() {
			// The entry was previously expunged, which implies that there is a
			// non-nil dirty map and this entry is not in it.
			m.dirty[key] = e
		}
		if v''', '''	if e, ok := read.m[key]; ok {
		if e.unexpungeLocked() && !read.amended {
			// The entry was previously expunged, which implies that there is a
			// non-nil dirty map and this entry is not in it.
			m.dirty[key] = e
		}
		if v''')], "rwmap", '''package rwmap
import "testing"
func TestVerifDemo(t *testing.T) {
	var m RWMap[int, int]
	m.Store(1, 10); m.Range(func(int, int) bool { return true })
	m.Delete(1)
	m.Store(2, 20)
	m.Store(1, 11)
	m.Range(func(int, int) bool { return true })
	if v, ok := m.Load(1); !ok || v != 11 { t.Fatal(v, ok) }
}
''', "a deleted key is expunged by the next new key, stored again, and then the dirty map is promoted", "the revived entry is missing from the dirty map, promotion loses it")
seed("s21c-expunge-by-store", "C21", [(_f, '''	p := e.p.Load()
	for p == nil {
		if e.p.CompareAndSwap(nil, (*V)(expunged)) {
			return true
		}
		p = e.p.Load()
	}
''', '''	p := e.p.Load()
	if p == nil {
		e.p.Store((*V)(expunged))
		return true
	}
''')], "rwmap", '''package rwmap
import ("runtime"; "sync/atomic"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	// a store of the deleted key between the load and the store of the expunging call
	type cell struct { e *entry[int]; ok, done int32; _ [64]byte }
	const n = 200000
	var bad atomic.Bool
	var round, fin atomic.Int64
	cells := make([]cell, n)
	one := 1
	stop := time.Now().Add(15 * time.Second)
	go func() {
		for r := int64(1); ; r++ {
			for round.Load() < r { runtime.Gosched() }
			for i := range cells { c := &cells[i]; if _, sw := c.e.trySwap(&one); sw { c.ok = 1 }; atomic.StoreInt32(&c.done, 1) }
			fin.Store(r)
		}
	}()
	for r := int64(1); time.Now().Before(stop) && !bad.Load(); r++ {
		for i := range cells { cells[i].e = &entry[int]{}; cells[i].ok = 0; cells[i].done = 0 }
		round.Store(r)
		for i := range cells {
			cells[i].e.tryExpungeLocked()
			// keep in step with the other goroutine
			for i > 0 && atomic.LoadInt32(&cells[i-1].done) == 0 {}
		}
		for fin.Load() < r { runtime.Gosched() }
		for i := range cells { c := &cells[i]; if v, present := c.e.load(); c.ok == 1 && (!present || v != 1) { bad.Store(true) } }
	}
	if bad.Load() { t.Fatal("a completed store is lost") }
}
''', "a lock-free store of a deleted key lands between the two steps of expunging it", "expunging overwrites the value just stored", timeout=280)
seed("s21d-delete-by-swap", "C21", [(_f, '''	for {
		p := e.p.Load()
		if p == nil || uintptr(unsafe.Pointer(p)) == expungedUintptr {
			return
		}
		if e.p.CompareAndSwap(p, nil) {
			return *p, true
		}
	}
''', '''	p := e.p.Swap(nil)
	if p == nil || uintptr(unsafe.Pointer(p)) == expungedUintptr {
		return
	}
	return *p, true
''')], "rwmap", '''package rwmap
import "testing"
func TestVerifDemo(t *testing.T) {
	var m RWMap[int, int]
	m.Store(1, 10); m.Range(func(int, int) bool { return true })
	m.Delete(1)
	m.Store(2, 20) // expunges 1
	m.Delete(1)
	m.Store(1, 11) // lock-free
	m.Range(func(int, int) bool { return true }) // promotes
	if v, ok := m.Load(1); !ok || v != 11 { t.Fatal(v, ok) }
}
''', "delete of an expunged key, then a store and a promotion", "deleting an expunged entry un-expunges it without the dirty map knowing")
seed("s21e-cas-retry-unchecked", "C21", [(_f, '''		if e.p.CompareAndSwap(p, &nc) {
			return true
		}
		p = e.p.Load()
		if p == nil || uintptr(unsafe.Pointer(p)) == expungedUintptr || !reflect.ValueOf(*p).Equal(reflect.ValueOf(old)) {
			return false
		}
''', '''		if e.p.CompareAndSwap(p, &nc) {
			return true
		}
		p = e.p.Load()
		if p == nil || uintptr(unsafe.Pointer(p)) == expungedUintptr {
			return false
		}
''')], "rwmap", '''package rwmap
import ("sync"; "sync/atomic"; "testing")
func TestVerifDemo(t *testing.T) {
	// exactly one of the competing compare-and-swaps from 0 may win
	for i := 0; i < 30000; i++ {
		e := newEntry(0)
		var wins, start int32
		var wg sync.WaitGroup
		for g := 1; g <= 6; g++ { wg.Add(1); go func(g int) { defer wg.Done(); for atomic.LoadInt32(&start) == 0 {}; if e.tryCompareAndSwap(0, g) { atomic.AddInt32(&wins, 1) } }(g) }
		atomic.StoreInt32(&start, 1)
		wg.Wait()
		if wins != 1 { t.Fatal("winners:", wins) }
	}
}
''', "the value changes between the comparison and the swap", "after a lost race the value is swapped without comparing it again", timeout=280)
seed("s22a-swap-revived", "C22", [(_f, '''	defer func() {
		if !loaded {
			atomic.AddInt64(&m.len, 1)
		}
	}()
	read := m.loadReadOnly()
	if e, ok := read.m[key]; ok {
		if v, ok := e.trySwap(&value); ok {
			if v == nil {
				return
			}
			return *v, true
		}
	}
''', '''	read := m.loadReadOnly()
	if e, ok := read.m[key]; ok {
		if v, ok := e.trySwap(&value); ok {
			if v == nil {
				return
			}
			return *v, true
		}
	}
	defer func() {
		if !loaded {
			atomic.AddInt64(&m.len, 1)
		}
	}()
''')], "rwmap", '''package rwmap
import "testing"
func TestVerifDemo(t *testing.T) {
	var m RWMap[int, int]
	m.Store(1, 10); m.Range(func(int, int) bool { return true })
	m.Delete(1); m.Store(1, 11)
	if m.Len() != m.SlowLen() { t.Fatal(m.Len(), m.SlowLen()) }
}
''', "a key is promoted, deleted and stored again through the lock-free path", "reviving a deleted entry without the lock is not counted")
seed("s22b-delete-counts-lookup", "C22", [(_f, '''			e, ok = m.dirty[key]
			delete(m.dirty, key)
''', '''			if e, ok = m.dirty[key]; ok {
				delete(m.dirty, key)
				defer func() {
					if !loaded {
						atomic.AddInt64(&m.len, -1)
					}
				}()
			}
''')], "rwmap", '''package rwmap
import "testing"
func TestVerifDemo(t *testing.T) {
	var m RWMap[int, int]
	m.Store(1, 10); m.Range(func(int, int) bool { return true })
	m.Store(2, 20)
	m.Store(3, 30); m.Store(4, 40)
	m.CompareAndDelete(2, 20)
	m.Delete(2)
	if m.Len() != m.SlowLen() { t.Fatal(m.Len(), m.SlowLen()) }
}
''', "a key that is only in the dirty map is compare-and-deleted and then deleted again", "deleting a key whose entry is already empty is counted again")
seed("s25a-range-stale-snapshot", "C25", [(_f, '''		m.mu.Lock()
		read = m.loadReadOnly()
		if read.amended {
			read = readOnly[K, V]{m: m.dirty}
			copyRead := read
''', '''		m.mu.Lock()
		if m.loadReadOnly().amended {
			read = readOnly[K, V]{m: m.dirty}
			copyRead := read
''')], "rwmap", '''package rwmap
import ("testing"; "time")
func TestVerifDemo(t *testing.T) {
	var m RWMap[int, int]
	m.Store(1, 10); m.Range(func(int, int) bool { return true })
	m.Store(2, 20)
	m.mu.Lock()
	seen := map[int]int{}
	done := make(chan struct{})
	go func() { defer close(done); m.Range(func(k, v int) bool { seen[k] = v; return true }) }()
	time.Sleep(200 * time.Millisecond)
	for m.dirty != nil { m.missLocked() }
	m.mu.Unlock()
	<-done
	if seen[2] != 20 { t.Fatal(seen) }
}
''', "another call promotes the dirty map while Range waits for the lock", "Range iterates over the outdated snapshot and misses keys")
seed("s25b-clear-keeps-snapshot", "C25", [(_f, '''	if len(read.m) > 0 || read.amended {
		m.read.Store''', '''	if read.amended {
		m.read.Store''')], "rwmap", '''package rwmap
import "testing"
func TestVerifDemo(t *testing.T) {
	var m RWMap[int, int]
	m.Store(1, 10); m.Range(func(int, int) bool { return true })
	m.Clear()
	m.Store(1, 11)
	if v, ok := m.Load(1); !ok || v != 11 { t.Fatal(v, ok) }
}
''', "clearing a map without a dirty map, then storing one of its keys", "the cleared snapshot stays: storing a key again panics")
seed("s25c-range-stops-at-deleted", "C25", [(_f, '''		v, ok := e.load()
		if !ok {
			continue
		}
		if !f(k, v) {
			break
		}
''', '''		v, ok := e.load()
		if ok && !f(k, v) {
			break
		}
		if !ok && read.amended {
			break
		}
'''), (_f, '''			read = readOnly[K, V]{m: m.dirty}
			copyRead := read
			m.read.Store(&copyRead)
''', '''			copyRead := readOnly[K, V]{m: m.dirty}
			read.m = m.dirty
			m.read.Store(&copyRead)
''')], "rwmap", '''package rwmap
import "testing"
func TestVerifDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		var m RWMap[int, int]
		for k := 0; k < 20; k++ { m.Store(k, k) }
		for k := 0; k < 10; k++ { m.CompareAndDelete(k, k) }
		m.Store(100, 100)
		n := 0
		m.Range(func(k, v int) bool { n++; return true })
		if n != 11 { t.Fatal(n) }
	}
}
''', "deleted entries are still in the dirty map when Range promotes it", "Range stops at the first deleted entry")
