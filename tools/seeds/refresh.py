seed("s30a-recheck-before-lock", "C30", [("refreshcache0/refreshcache0.go", '''	r.lock.Lock()
	defer r.lock.Unlock()
	last = atomic.LoadInt64(&r.last)
''', '''	last = atomic.LoadInt64(&r.last)
'''), ("refreshcache0/refreshcache0.go", '''		return data, *r.err.Load()
	}
	data, err = refreshFunc''', '''		return data, *r.err.Load()
	}
	r.lock.Lock()
	defer r.lock.Unlock()
	data, err = refreshFunc''')], "refreshcache0", '''package refreshcache0
import ("context"; "sync"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	n := 0
	c := NewRefreshCache[int](func(ctx context.Context) (int, error) { n++; time.Sleep(300 * time.Millisecond); return n, nil }, time.Hour)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ { wg.Add(1); go func() { defer wg.Done(); c.Get(context.Background()) }() }
	wg.Wait()
	if n != 1 { t.Fatal("refreshed", n, "times") }
}
''', "several concurrent gets of an expired cache", "the second expiry check happens before the lock: every waiting get refreshes again")
seed("s30b-clock-before-lock", "C30", [("refreshcache1/refreshcache1.go", '''	r.lock.Lock()
	defer r.lock.Unlock()
	last = atomic''', '''	now := time.Now().UnixNano()
	r.lock.Lock()
	defer r.lock.Unlock()
	last = atomic'''), ("refreshcache1/refreshcache1.go", '''	last = atomic.LoadInt64(&r.last)
	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
		return *r.data.Load(), nil
	}
''', '''	last = atomic.LoadInt64(&r.last)
	if last > 0 && (r.maxAge < 0 || now-last < r.maxAge) {
		data = *r.data.Load()
		return data, nil
	}
''')], "refreshcache1", '''package refreshcache1
import ("context"; "sync"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	n := 0
	var mu sync.Mutex
	block := make(chan struct{})
	var rd *RefreshData[int, int]
	f := func(ctx context.Context, a int) (int, error) { mu.Lock(); n++; mu.Unlock(); return n, nil }
	rd = NewRefreshData[int, int](100 * time.Millisecond)
	go rd.Refresh(context.Background(), func(ctx context.Context, a int) (int, error) { <-block; return 100, nil }, 0)
	time.Sleep(50 * time.Millisecond)
	res := make(chan int)
	go func() { v, _ := rd.Get(context.Background(), f, 0); res <- v }()
	time.Sleep(50 * time.Millisecond)
	// a queue of waiters keeps the lock busy after the refresh until its value has expired
	go rd.Refresh(context.Background(), func(ctx context.Context, a int) (int, error) { return 101, nil }, 0)
	rd2 := rd
	close(block)
	v := <-res
	_ = rd2
	_ = v
	// direct check: value stored, then expired while waiting
	rd = NewRefreshData[int, int](100 * time.Millisecond)
	rd.lock.Lock()
	go func() { v, _ := rd.Get(context.Background(), f, 0); res <- v }()
	time.Sleep(50 * time.Millisecond)
	x := 7
	rd.data.Store(&x)
	rd.last = time.Now().UnixNano()
	time.Sleep(300 * time.Millisecond)
	rd.lock.Unlock()
	if v := <-res; v == 7 { t.Fatal("expired value returned") }
}
''', "a get that waits for the lock while the value it then finds expires", "the clock is read before waiting for the lock, an expired value is served")
seed("s31a-args-truncated", "C31", [("refreshcache/refreshcache.go", "	return r.RefreshData.Refresh(ctx, *r.RefreshFunc.Load(), args...)\n", "	if len(args) > 16 {\n		args = args[:16]\n	}\n	return r.RefreshData.Refresh(ctx, *r.RefreshFunc.Load(), args...)\n")], "refreshcache", '''package refreshcache
import ("context"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	n := 0
	c := NewRefreshCache[int, int](func(ctx context.Context, a ...int) (int, error) { n = len(a); return 1, nil }, time.Hour)
	c.Refresh(context.Background(), make([]int, 20)...)
	if n != 20 { t.Fatal(n) }
}
''', "an explicit refresh with more than 16 arguments", "the refresh function does not receive the caller's arguments unchanged")
seed("s31b-refresh-swallows", "C31", [("refreshcache1/refreshcache1.go", "	return r.RefreshData.Refresh(ctx, *r.RefreshFunc.Load(), args)\n", "	data, err = r.RefreshData.Refresh(ctx, *r.RefreshFunc.Load(), args)\n	if err != nil && r.RefreshData.errAge > 0 {\n		return r.RefreshData.Raw()\n	}\n	return data, err\n")], "refreshcache1", '''package refreshcache1
import ("context"; "errors"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	e := errors.New("x")
	c := NewRefreshCache[int, int](func(ctx context.Context, a int) (int, error) { return 5, e }, time.Hour, WithErrAge[int, int](1))
	v, err := c.Refresh(context.Background(), 0)
	if err != e || v != 5 {
		t.Fatal(v, err)
	}
	// another refresh between the failure and the second read replaces the outcome
	ok := true
	c2 := NewRefreshCache[int, int](func(ctx context.Context, a int) (int, error) { if ok { return 1, nil }; return 0, e }, time.Hour, WithErrAge[int, int](time.Hour))
	c2.Refresh(context.Background(), 0)
	ok = false
	if _, err := c2.Refresh(context.Background(), 0); err != e { t.Fatal(err) }
}
''', "a failing explicit refresh while errors are cached (another refresh may finish in between)", "the caller gets the current cache state instead of the outcome of its own refresh")
seed("s32a-raw-value-first", "C32", [("refreshcache/refreshcache.go", '''func (r *RefreshData[T, A]) Raw() (data T, err error) {
	last := atomic.LoadInt64(&r.last)
''', '''func (r *RefreshData[T, A]) Raw() (data T, err error) {
	value := r.data.Load()
	last := atomic.LoadInt64(&r.last)
'''), ("refreshcache/refreshcache.go", '''		return data, *r.err.Load()
	}
	return *r.data.Load(), *r.err.Load()''', '''		return data, *r.err.Load()
	}
	return *value, *r.err.Load()'''), ("refreshcache/refreshcache.go", '''		return *r.data.Load(), nil
	}
	lastErr := atomic.LoadInt64(&r.lastErr)
	if r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
		return data, *r.err.Load()
	}
	return *value''', '''		return *value, nil
	}
	lastErr := atomic.LoadInt64(&r.lastErr)
	if r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
		return data, *r.err.Load()
	}
	return *value''')], "refreshcache", '''package refreshcache
import ("context"; "errors"; "testing"; "time"; "sync/atomic")
func TestVerifDemo(t *testing.T) {
	ctx := context.Background()
	rd := NewRefreshData[int64, int](time.Hour)
	rd.Refresh(ctx, func(ctx context.Context, a ...int) (int64, error) { return 0, errors.New("first") })
	var epoch int64
	var bad, stop int32
	for g := 0; g < 8; g++ {
		go func() {
			for atomic.LoadInt32(&stop) == 0 {
				k := atomic.LoadInt64(&epoch)
				v, err := rd.Raw()
				if err == nil && v <= k { atomic.StoreInt32(&bad, 1) }
			}
		}()
	}
	end := time.Now().Add(20 * time.Second)
	for n := int64(1); time.Now().Before(end) && atomic.LoadInt32(&bad) == 0; n++ {
		rd.Refresh(ctx, func(ctx context.Context, a ...int) (int64, error) { return n, nil })
		rd.Clear(ctx, nil)
		atomic.StoreInt64(&epoch, n) // everything up to n is expired from here on
	}
	atomic.StoreInt32(&stop, 1)
	if atomic.LoadInt32(&bad) != 0 { t.Fatal("an expired value was reported as fresh") }
}
''', "a raw read interrupted between its two loads by a whole refresh", "the value is loaded before the timestamp: an old value is reported as fresh")
seed("s33a-expire-after-clear", "C33", [("refreshcache0/refreshcache0.go", '''		data := r.data.Load()
		atomic.StoreInt64(&r.last, 0)
		return clearFunc''', '''		data := r.data.Load()
		defer atomic.StoreInt64(&r.last, 0)
		return clearFunc''')], "refreshcache0", '''package refreshcache0
import ("context"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	n := 0
	c := NewRefreshCache[int](func(ctx context.Context) (int, error) { n++; return n, nil }, time.Hour)
	c.Get(context.Background())
	var v int
	c.SetClearFunc(func(ctx context.Context) error { v, _ = c.Get(ctx); return nil })
	c.Clear(context.Background())
	if v != 2 { t.Fatal("stale value", v) }
}
''', "a clear function (or a concurrent call) that reads the cache", "the value is still fresh while the clear function runs, and a refresh made meanwhile is thrown away")
seed("s33b-failed-clear-keeps", "C33", [("refreshcache1/refreshcache1.go", '''		data := r.data.Load()
		atomic.StoreInt64(&r.last, 0)
		return clearFunc(context.WithValue(ctx, OldValKey, *data), args)
''', '''		data := r.data.Load()
		last := atomic.SwapInt64(&r.last, 0)
		err := clearFunc(context.WithValue(ctx, OldValKey, *data), args)
		if err != nil {
			atomic.CompareAndSwapInt64(&r.last, 0, last)
		}
		return err
''')], "refreshcache1", '''package refreshcache1
import ("context"; "errors"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	n := 0
	c := NewRefreshCache[int, int](func(ctx context.Context, a int) (int, error) { n++; return n, nil }, time.Hour)
	c.Get(context.Background(), 0)
	c.SetClearFunc(func(ctx context.Context, a int) error { return errors.New("x") })
	c.Clear(context.Background(), 0)
	if v, _ := c.Get(context.Background(), 0); v != 2 { t.Fatal("stale value", v) }
}
''', "a clear function that fails", "a failed clear makes the old value fresh again")
