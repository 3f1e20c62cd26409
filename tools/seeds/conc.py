_r = "rwmap/rwmap.go"
_s = "synccache/item.go"
seed("s23a-dirty-peek", "C23", [(_r, '''	e, ok := read.m[key]
	if !ok && read.amended {
		m.mu.Lock()
		// Avoid reporting''', '''	e, ok := read.m[key]
	if !ok && read.amended && len(m.dirty) > 0 {
		m.mu.Lock()
		// Avoid reporting''')], "rwmap", '''package rwmap
import ("sync"; "testing")
func TestVerifDemo(t *testing.T) {
	var m RWMap[int, int]
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); for i := 0; i < 20000; i++ { m.Store(i, i) } }()
	go func() { defer wg.Done(); for i := 0; i < 20000; i++ { m.Load(-1 - i) } }()
	wg.Wait()
}
''', "a load of an absent key while another call stores", "Load looks at the dirty map before it takes the lock", race=True)
seed("s23b-misses-outside", "C23", [(_r, '''			delete(m.dirty, key)
			// Regardless of whether the entry was present, record a miss: this key
			// will take the slow path until the dirty map is promoted to the read
			// map.
			m.missLocked()
		}
		m.mu.Unlock()
''', '''			delete(m.dirty, key)
			// Regardless of whether the entry was present, record a miss: this key
			// will take the slow path until the dirty map is promoted to the read
			// map.
			m.misses++
		}
		m.mu.Unlock()
		if m.misses > 1<<20 {
			m.misses = 0
		}
''')], "rwmap", '''package rwmap
import ("sync"; "testing")
func TestVerifDemo(t *testing.T) {
	var m RWMap[int, int]
	m.Store(0, 0); m.Range(func(int, int) bool { return true })
	m.Store(1, 1)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); for i := 0; i < 2000; i++ { m.LoadAndDelete(-1 - i) } }()
	go func() { defer wg.Done(); for i := 0; i < 2000; i++ { m.LoadAndDelete(100 + i) } }()
	wg.Wait()
}
''', "two deletions on the slow path at the same time", "LoadAndDelete reads and resets the miss counter after it released the lock", race=True)
seed("s23c-lasterr-plain", "C23", [("refreshcache/refreshcache.go", '''	return time.Unix(0, atomic.LoadInt64(&r.lastErr))''', '''	return time.Unix(0, r.lastErr)''')], "refreshcache", '''package refreshcache
import ("context"; "errors"; "sync"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	c := NewRefreshCache[int, int](func(ctx context.Context, a ...int) (int, error) { return 0, errors.New("x") }, time.Hour)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); for i := 0; i < 2000; i++ { c.Refresh(context.Background()) } }()
	go func() { defer wg.Done(); for i := 0; i < 2000; i++ { c.LastErrTime() } }()
	wg.Wait()
}
''', "reading the time of the last error while a refresh fails", "LastErrTime reads the timestamp with a plain load", race=True)
seed("s23d-setexpiration-plain", "C23", [(_s, '''	atomic.StoreInt64(&e.expiration, t.UnixMilli())''', '''	e.expiration = t.UnixMilli()''')], "synccache", '''package synccache
import ("sync"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	sc := &SyncCache[int, int]{}
	sc.Store(1, 1, time.Hour)
	e, _ := sc.Load(1)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); for i := 0; i < 2000; i++ { e.SetExpiration(time.Now().Add(time.Hour)) } }()
	go func() { defer wg.Done(); for i := 0; i < 2000; i++ { sc.Load(1) } }()
	wg.Wait()
}
''', "extending an entry while another call looks it up", "SetExpiration stores the deadline with a plain write", race=True)
seed("s23e-swap-reuses-box", "C23", [(_r, '''		nc := new
	for {
		if e.p.CompareAndSwap(p, &nc) {
			return true
		}
'''.replace("\t\tnc", "\tnc"), '''	nc := new
	if reflect.ValueOf(nc).Equal(reflect.ValueOf(old)) && e.p.Load() == p {
		*p = nc // same value: no need for a new box
		return true
	}
	for {
		if e.p.CompareAndSwap(p, &nc) {
			return true
		}
''')], "rwmap", '''package rwmap
import ("sync"; "testing")
func TestVerifDemo(t *testing.T) {
	var m RWMap[int, int]
	m.Store(1, 1)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); for i := 0; i < 2000; i++ { m.CompareAndSwap(1, 1, 1) } }()
	go func() { defer wg.Done(); for i := 0; i < 2000; i++ { m.Load(1) } }()
	wg.Wait()
}
''', "a compare-and-swap of a value with itself while another call loads it", "CompareAndSwap writes into a value box that lock-free readers use", race=True)
_late = '''
func within(t *testing.T, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the call never returns")
	}
}
'''
seed("s24a-cas-unlock-not-deferred", "C24", [(_r, '''	m.mu.Lock()
	defer m.mu.Unlock()
	read = m.loadReadOnly()
	swapped = false
''', '''	m.mu.Lock()
	read = m.loadReadOnly()
	swapped = false
'''), (_r, '''		// more efficient steady state.
		m.missLocked()
	}
	return swapped
}
''', '''		// more efficient steady state.
		m.missLocked()
	}
	m.mu.Unlock()
	return swapped
}
''')], "rwmap", '''package rwmap
import ("testing"; "time")
func TestVerifDemo(t *testing.T) {
	var m RWMap[int, any]
	m.Store(1, []int{1})
	func() {
		defer func() { recover() }()
		m.CompareAndSwap(1, []int{1}, 2)
	}()
	within(t, func() { m.Store(2, 2) })
}
''' + _late, "comparing values of an uncomparable type on the slow path: the comparison panics", "CompareAndSwap keeps the lock when the comparison panics")
seed("s24b-range-under-lock", "C24", [(_r, '''			m.dirty = nil
			m.misses = 0
		}
		m.mu.Unlock()
	}

	for k, e''', '''			m.dirty = nil
			m.misses = 0
			m.mu.Unlock()
		} else {
			defer m.mu.Unlock()
		}
	}

	for k, e''')], "rwmap", '''package rwmap
import ("testing"; "time")
func TestVerifDemo(t *testing.T) {
	var m RWMap[int, int]
	m.Store(1, 1)
	within(t, func() {
		m.mu.Lock()
		done := make(chan struct{})
		go func() { defer close(done); m.Range(func(k, v int) bool { m.Store(100+k, v); return true }) }()
		time.Sleep(200 * time.Millisecond)
		for m.dirty != nil { m.missLocked() } // another call promotes the dirty map
		m.mu.Unlock()
		<-done
	})
}
''' + _late, "the dirty map is promoted by another call while Range waits for the lock", "Range runs the callback while it holds the lock")
seed("s24c-refresh-unlock-not-deferred", "C24", [("refreshcache1/refreshcache1.go", '''	r.lock.Lock()
	defer r.lock.Unlock()
	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
	r.record(data, err)
	return data, err
}

func (r *RefreshData[T, A]) Clear''', '''	r.lock.Lock()
	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
	r.record(data, err)
	r.lock.Unlock()
	return data, err
}

func (r *RefreshData[T, A]) Clear''')], "refreshcache1", '''package refreshcache1
import ("context"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	bad := true
	c := NewRefreshCache[int, int](func(ctx context.Context, a int) (int, error) { if bad { panic("x") }; return a, nil }, time.Hour)
	func() { defer func() { recover() }(); c.Refresh(context.Background(), 1) }()
	bad = false
	within(t, func() { c.Get(context.Background(), 1) })
}
''' + _late, "a refresh function that panics in an explicit refresh", "Refresh keeps the lock when the refresh function panics: the cache is dead")
seed("s24d-get-locked-return", "C24", [("refreshcache0/refreshcache0.go", '''	r.lock.Lock()
	defer r.lock.Unlock()
	last = atomic.LoadInt64(&r.last)
	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
		return *r.data.Load(), nil
	}
''', '''	r.lock.Lock()
	last = atomic.LoadInt64(&r.last)
	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
		return *r.data.Load(), nil
	}
	defer r.lock.Unlock()
''')], "refreshcache0", '''package refreshcache0
import ("context"; "sync"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	within(t, func() {
		c := NewRefreshCache[int](func(ctx context.Context) (int, error) { time.Sleep(100 * time.Millisecond); return 1, nil }, time.Hour)
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ { wg.Add(1); go func() { defer wg.Done(); c.Get(context.Background()) }() }
		wg.Wait()
		c.Refresh(context.Background())
	})
}
''' + _late, "a get that waits for the lock while another call refreshes", "Get returns with the lock held when another call refreshed the value meanwhile")
