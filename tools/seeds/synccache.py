_f = "synccache/synccache.go"
_g = "synccache/item.go"
seed("s26a-range-clock-hoisted", "C26", [(_f, '''	sc.cache.Range(func(key K, value *Entry[V]) bool {
		if !value.IsExpired() {
			return f(key, value)
		}
''', '''	now := time.Now().UnixMilli()
	sc.cache.Range(func(key K, value *Entry[V]) bool {
		if now <= atomic.LoadInt64(&value.expiration) {
			return f(key, value)
		}
''')], "synccache", '''package synccache
import ("testing"; "time")
func TestVerifDemo(t *testing.T) {
	sc := NewSyncCache[int, int](time.Second)
	defer sc.Close()
	for i := 0; i < 3; i++ { sc.Store(i, i, 300*time.Millisecond) }
	n := 0
	sc.Range(func(k int, e *Entry[int]) bool {
		if e.IsExpired() { t.Errorf("expired entry %d handed out", k) }
		n++
		time.Sleep(600 * time.Millisecond)
		return true
	})
	if n == 0 { t.Fatal("nothing visited") }
}
''', "entries that expire while a slow range callback runs", "Range judges every entry by the clock at its start and hands out entries that have expired since")
seed("s26b-delete-returns-expired", "C26", [(_f, '''	if value.IsExpired() {
		if sc.deletedCallback != nil {
			sc.deletedCallback(value.value)
		}
		return nil, false
	}
	if sc.deletedCallback != nil {
		sc.deletedCallback(value.value)
	}
	return value, true
''', '''	if sc.deletedCallback != nil {
		sc.deletedCallback(value.value)
		if value.IsExpired() {
			return nil, false
		}
	}
	return value, true
''')], "synccache", '''package synccache
import ("testing"; "time")
func TestVerifDemo(t *testing.T) {
	sc := NewSyncCache[int, int](time.Second)
	defer sc.Close()
	sc.Store(1, 1, 10*time.Millisecond)
	time.Sleep(50 * time.Millisecond)
	if e, ok := sc.LoadAndDelete(1); ok || e != nil { t.Fatal("expired entry reported") }
}
''', "a cache without a callback and an expired entry that was not trimmed yet", "LoadAndDelete checks the deadline only when a callback is configured")
seed("s26c-loadorstore-negative-clock", "C26", [(_f, '''		e, loaded := sc.cache.LoadOrStore(key, NewEntry[V](value, expire))
		if !loaded {
			return e, false
		}
		if !e.IsExpired() {
			return e, true
		}
''', '''		n := NewEntry[V](value, expire)
		e, loaded := sc.cache.LoadOrStore(key, n)
		if !loaded {
			return e, false
		}
		if !e.IsExpired() || atomic.LoadInt64(&e.expiration) >= n.expiration {
			return e, true
		}
''')], "synccache", '''package synccache
import ("testing"; "time")
func TestVerifDemo(t *testing.T) {
	sc := NewSyncCache[int, int](time.Second)
	defer sc.Close()
	sc.Store(1, 1, -10*time.Millisecond)
	e, loaded := sc.LoadOrStore(1, 2, -time.Hour)
	if loaded || e.Value() != 2 { t.Fatal(loaded, e.Value()) }
}
''', "a new entry that would itself be older than the expired one", "LoadOrStore reports an expired entry as loaded when it outlives the new one")
seed("s27a-trim-silent", "C27", [(_f, '''		if now > atomic.LoadInt64(&value.expiration) {
			sc.CompareAndDelete(key, value)
		}
''', '''		if now > atomic.LoadInt64(&value.expiration) {
			sc.cache.CompareAndDelete(key, value)
		}
''')], "synccache", '''package synccache
import ("testing"; "time")
func TestVerifDemo(t *testing.T) {
	n := 0
	sc := NewSyncCache[int, int](time.Second, WithDeletedCallback[int, int](func(int) { n++ }))
	sc.Close()
	sc.Store(1, 1, -time.Second)
	sc.trim()
	if n != 1 { t.Fatal(n) }
}
''', "an entry removed by background trimming rather than by a caller", "trimming removes expired entries without running the callback")
seed("s27b-lost-race-calls-back", "C27", [(_f, '''	if !e.IsExpired() {
		return e, true
	}
	sc.CompareAndDelete(key, e)
	return nil, false
''', '''	if !e.IsExpired() {
		return e, true
	}
	sc.cache.CompareAndDelete(key, e)
	if sc.deletedCallback != nil {
		sc.deletedCallback(e.value)
	}
	return nil, false
''')], "synccache", '''package synccache
import ("sync"; "sync/atomic"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	var n atomic.Int64
	sc := NewSyncCache[int, int](time.Second, WithDeletedCallback[int, int](func(int) { n.Add(1) }))
	sc.Close()
	for i := 0; i < 200000; i++ {
		n.Store(0)
		sc.Store(1, 1, -time.Second)
		var wg sync.WaitGroup
		var gate atomic.Int32
		for j := 0; j < 4; j++ {
			wg.Add(1)
			go func() { defer wg.Done(); gate.Add(1); for gate.Load() < 4 {}; sc.Load(1) }()
		}
		wg.Wait()
		if c := n.Load(); c != 1 { t.Fatal("callback ran", c, "times for one removal") }
		if i > 20000 { break }
	}
}
''', "two loads of the same expired entry at the same time", "a load that loses the removal of an expired entry to another one runs the callback as well")
seed("s27c-delete-skips-expired", "C27", [(_f, '''	if e, ok := sc.cache.LoadAndDelete(key); ok && sc.deletedCallback != nil {
		sc.deletedCallback(e.value)
	}
''', '''	if e, ok := sc.cache.LoadAndDelete(key); ok && !e.IsExpired() && sc.deletedCallback != nil {
		sc.deletedCallback(e.value)
	}
''')], "synccache", '''package synccache
import ("testing"; "time")
func TestVerifDemo(t *testing.T) {
	n := 0
	sc := NewSyncCache[int, int](time.Second, WithDeletedCallback[int, int](func(int) { n++ }))
	sc.Close()
	sc.Store(1, 1, -time.Second)
	sc.Delete(1)
	if n != 1 { t.Fatal(n) }
}
''', "deleting an entry that expired but was not trimmed yet", "Delete removes an expired entry without running the callback: its resources leak")
seed("s28a-expiry-deletes-key", "C28", [(_f, '''	if !e.IsExpired() {
		return e, true
	}
	sc.CompareAndDelete(key, e)
	return nil, false
''', '''	if !e.IsExpired() {
		return e, true
	}
	sc.Delete(key)
	return nil, false
''')], "synccache", '''package synccache
import ("sync"; "sync/atomic"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	sc := NewSyncCache[int, int](time.Second)
	sc.Close()
	for i := 0; i < 60000; i++ {
		sc.Store(1, 1, -time.Second)
		var wg sync.WaitGroup
		var gate atomic.Int32
		wg.Add(4)
		for j := 0; j < 3; j++ { go func() { defer wg.Done(); gate.Add(1); for gate.Load() < 4 {}; sc.Load(1) }() }
		go func() { defer wg.Done(); gate.Add(1); for gate.Load() < 4 {}; sc.Store(1, 2, time.Hour) }()
		wg.Wait()
		if e, ok := sc.Load(1); !ok || e.Value() != 2 { t.Fatal("the new entry is gone") }
	}
}
''', "a store between the expiry check of a load and its removal", "a load that finds an expired entry deletes whatever the key holds by then")
seed("s28b-trim-by-key", "C28", [(_f, '''		if now > atomic.LoadInt64(&value.expiration) {
			sc.CompareAndDelete(key, value)
		}
''', '''		if now > atomic.LoadInt64(&value.expiration) {
			sc.Delete(key)
		}
''')], "synccache", '''package synccache
import ("sync"; "sync/atomic"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	sc := &SyncCache[int, int]{}
	for i := 0; i < 60000; i++ {
		sc.Store(1, 1, -time.Second)
		var wg sync.WaitGroup
		var gate atomic.Int32
		wg.Add(4)
		for j := 0; j < 3; j++ { go func() { defer wg.Done(); gate.Add(1); for gate.Load() < 4 {}; sc.trim() }() }
		go func() { defer wg.Done(); gate.Add(1); for gate.Load() < 4 {}; sc.Store(1, 2, time.Hour) }()
		wg.Wait()
		if e, ok := sc.Load(1); !ok || e.Value() != 2 { t.Fatal("the new entry is gone") }
	}
}
''', "a store between the expiry check of the trimming and its removal", "trimming deletes whatever the key holds by then")
seed("s28c-comparevalue-deletes-key", "C28", [(_f, '''		return sc.CompareAndDelete(key, e)
	}
	return false
''', '''		_, success = sc.LoadAndDelete(key)
	}
	return
''')], "synccache", '''package synccache
import ("sync"; "sync/atomic"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	sc := NewSyncCache[int, int](time.Second)
	sc.Close()
	for i := 0; i < 60000; i++ {
		sc.Store(1, 1, time.Hour)
		var wg sync.WaitGroup
		var gate atomic.Int32
		wg.Add(4)
		for j := 0; j < 3; j++ { go func() { defer wg.Done(); gate.Add(1); for gate.Load() < 4 {}; sc.CompareValueAndDelete(1, 1) }() }
		go func() { defer wg.Done(); gate.Add(1); for gate.Load() < 4 {}; sc.Store(1, 2, time.Hour) }()
		wg.Wait()
		if e, ok := sc.Load(1); !ok || e.Value() != 2 { t.Fatal("an entry with another value was removed") }
	}
}
''', "a store between the comparison and the removal", "CompareValueAndDelete deletes whatever the key holds after the comparison")
seed("s29a-setexpiration-seconds", "C29", [(_g, '''	atomic.StoreInt64(&e.expiration, t.UnixMilli())''', '''	atomic.StoreInt64(&e.expiration, t.Unix()*1000)''')], "synccache", '''package synccache
import ("testing"; "time")
func TestVerifDemo(t *testing.T) {
	e := NewEntry(1, time.Hour)
	now := time.Now().Truncate(time.Second).Add(2 * time.Second)
	e.SetExpiration(now.Add(900 * time.Millisecond))
	time.Sleep(time.Until(now.Add(500 * time.Millisecond)))
	if e.IsExpired() { t.Fatal("expired early") }
}
''', "a deadline that is not a whole second", "SetExpiration drops the milliseconds: the entry expires up to a second early")
seed("s29b-addexpiration-lost", "C29", [(_g, '''	atomic.AddInt64(&e.expiration, int64(d.Milliseconds()))''', '''	atomic.StoreInt64(&e.expiration, atomic.LoadInt64(&e.expiration)+d.Milliseconds())''')], "synccache", '''package synccache
import ("sync"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	e := NewEntry(1, time.Hour)
	was := e.expiration
	var wg sync.WaitGroup
	for j := 0; j < 8; j++ { wg.Add(1); go func() { defer wg.Done(); for i := 0; i < 100000; i++ { e.AddExpiration(time.Millisecond) } }() }
	wg.Wait()
	if e.expiration-was != 800000 { t.Fatal(e.expiration - was) }
}
''', "two concurrent extensions of the same entry", "AddExpiration is no longer one atomic step: concurrent extensions are lost")
seed("s29c-addexpiration-seconds", "C29", [(_g, '''int64(d.Milliseconds()))''', '''int64(d/time.Second)*1000)''')], "synccache", '''package synccache
import ("testing"; "time")
func TestVerifDemo(t *testing.T) {
	e := NewEntry(1, 0)
	e.AddExpiration(900 * time.Millisecond)
	time.Sleep(20 * time.Millisecond)
	if e.IsExpired() { t.Fatal("expired early") }
}
''', "an extension that is not a whole number of seconds", "AddExpiration drops the part below a second")
seed("s29d-trim-stops", "C29", [(_f, '''					key.trim()
					return true
''', '''					key.trim()
					_, open := caches.Load(key)
					return open
''')], "synccache", '''package synccache
import ("testing"; "time"; "sync/atomic")
func TestVerifDemo(t *testing.T) {
	var n atomic.Int64
	var all []*SyncCache[int, int]
	for i := 0; i < 8; i++ {
		var sc *SyncCache[int, int]
		sc = NewSyncCache[int, int](time.Second, WithDeletedCallback[int, int](func(int) { n.Add(1); sc.Close() }))
		sc.Store(1, 1, time.Millisecond)
		all = append(all, sc)
	}
	time.Sleep(5900 * time.Millisecond)
	if n.Load() != 8 { t.Fatal("one round trimmed", n.Load(), "of 8 caches") }
}
''', "a cache closed while the background task trims it", "the round of background trimming ends at the first cache that was closed meanwhile")
seed("s29e-close-keeps-full", "C29", [(_f, '''	caches.Delete(sc)
''', '''	if sc.cache.Len() > 0 {
		sc.trim()
		return
	}
	caches.Delete(sc)
''')], "synccache", '''package synccache
import ("testing"; "time")
func TestVerifDemo(t *testing.T) {
	sc := NewSyncCache[int, int](time.Second)
	sc.Store(1, 1, time.Hour)
	sc.Close()
	if _, ok := caches.Load(sc); ok { t.Fatal("still registered") }
}
''', "closing a cache that still has entries", "Close leaves a cache that is not empty registered for ever")
seed("s29f-trim-boundary", "C29", [(_f, '''		if now > atomic.LoadInt64(&value.expiration) {''', '''		if now >= atomic.LoadInt64(&value.expiration) {''')], "synccache", '''package synccache
import ("testing"; "time")
func TestVerifDemo(t *testing.T) {
	sc := &SyncCache[int, int]{}
	for i := 0; i < 1000; i++ {
		sc.Store(1, 1, time.Hour)
		e, _ := sc.Load(1)
		x := time.Now().UnixMilli()
		e.expiration = x
		sc.trim()
		_, ok := sc.cache.Load(1)
		if !ok && time.Now().UnixMilli() == x { t.Fatal("trimmed before the deadline passed") }
	}
}
''', "trimming in the very millisecond of the deadline", "trimming removes an entry that lookups still treat as present")
