_d = "dllist/dllist.go"
seed("s01c-frontlist-uninit", "C01", [(_d, "func (l *Dllist[T]) PushFrontList(other *Dllist[T]) {\n	l.lazyInit()\n", "func (l *Dllist[T]) PushFrontList(other *Dllist[T]) {\n")], "dllist", '''package dllist
import "testing"
func TestVerifDemo(t *testing.T) {
	var l Dllist[int]
	o := New[int]()
	o.PushBack(1)
	o.PushBack(2)
	l.PushFrontList(o)
	if l.Len() != 2 || l.Front().Value != 1 || l.Back().Value != 2 { t.Fatal(l.Slice()) }
}
''', "prepending a list to a zero list that was never used", "the zero list is not usable")
seed("s02c-move-next-ignored", "C02", [(_d, "	if e == at {\n		return\n	}\n", "	if e == at || e.next == at {\n		return\n	}\n")], "dllist", '''package dllist
import "testing"
func TestVerifDemo(t *testing.T) {
	l := New[int]()
	a := l.PushBack(1)
	b := l.PushBack(2)
	l.PushBack(3)
	l.MoveAfter(a, b)
	if s := l.Slice(); s[0] != 2 || s[1] != 1 || s[2] != 3 { t.Fatal(s) }
}
''', "moving an element behind its direct successor", "the move is dropped")
seed("s03c-moveafter-foreign-mark", "C03", [(_d, "func (l *Dllist[T]) MoveAfter(e, mark *Element[T]) {\n	if e.list != l || e == mark || mark.list != l {", "func (l *Dllist[T]) MoveAfter(e, mark *Element[T]) {\n	if e.list != l || e == mark || mark.list == nil {")], "dllist", '''package dllist
import "testing"
func TestVerifDemo(t *testing.T) {
	l, o := New[int](), New[int]()
	a := l.PushBack(1)
	l.PushBack(2)
	m := o.PushBack(9)
	l.MoveAfter(a, m)
	if len(l.Slice()) != 2 || len(o.Slice()) != 1 { t.Fatal(l.Slice(), o.Slice()) }
}
''', "a mark that is an element of another list", "the element changes lists without the lengths following")
seed("s04d-range-last-stop", "C04", [(_d, "	for e := l.Front(); e != nil; e = e.Next() {\n		if !f(e) {\n			return\n		}\n	}\n	return true", "	for e := l.Front(); e != nil; e = e.Next() {\n		if f(e) {\n			continue\n		}\n		return e == l.Back()\n	}\n	return true")], "dllist", '''package dllist
import "testing"
func TestVerifDemo(t *testing.T) {
	l := New[int]()
	l.PushBack(1)
	l.PushBack(2)
	n := 0
	if l.Range(func(e *Element[int]) bool { n++; return n < 2 }) { t.Fatal("a stopped iteration counts as complete") }
}
''', "a callback that stops at the last element", "the stopped iteration is reported as complete")
seed("s05c-link-self", "C05", [("ring/ring.go", "	if s != nil {\n		p := s.Prev()", "	if s != nil && s != r {\n		p := s.Prev()")], "ring", '''package ring
import "testing"
func TestVerifDemo(t *testing.T) {
	r := New[int](4)
	rest := r.Unlink(3)
	if r.Len() != 1 || rest.Len() != 3 { t.Fatal(r.Len(), rest.Len()) }
}
''', "unlinking all other elements (linking a ring element to itself)", "nothing is unlinked")
seed("s11c-union-alias", "C11", [("set/set.go", "	union = New[T]()\n	s.Range(", "	if len(set) == 0 {\n		return s\n	}\n	union = New[T]()\n	s.Range(")], "set", '''package set
import "testing"
func TestVerifDemo(t *testing.T) {
	s := New[int]().Push(1)
	u := s.Union()
	u.Insert(2)
	if s.Contain(2) { t.Fatal("the union is the operand") }
}
''', "the union of a set with nothing, changed afterwards", "the result shares storage with the operand")
seed("s11d-subset-proper", "C11", [("set/set.go", "	if s.Len() > set.Len() {\n		return false\n	}\n", "	if s.Len() > set.Len() {\n		return false\n	}\n	if s.Len() == set.Len() {\n		return s.Len() == 0 || s.Equal(set) && !set.IsEmpty() && s.Len() > 0 && s.Len() != 1\n	}\n")], "set", '''package set
import "testing"
func TestVerifDemo(t *testing.T) {
	a, b := New[int]().Push(1), New[int]().Push(1)
	if !a.IsSubSet(b) { t.Fatal("a set with one element is not a subset of an equal one") }
}
''', "two equal sets of one element", "IsSubSet is false for them")
seed("s12c-clone-empty-alias", "C12", [("genmap/genmap.go", "	return New[K, V]().CopyFrom(m)", "	if m != nil && len(m) == 0 {\n		return m\n	}\n	return New[K, V]().CopyFrom(m)")], "genmap", '''package genmap
import "testing"
func TestVerifDemo(t *testing.T) {
	m := New[int, int]()
	c := m.Clone()
	c.Store(1, 1)
	if m.Len() != 0 { t.Fatal("the clone of an empty map is the map") }
}
''', "cloning an empty map and changing the clone", "both are the same map")
seed("s12d-loadorstorefunc-reread", "C12", [("genmap/genmap.go", "	actual = newFunc()\n	m[k] = actual\n	return", "	v := newFunc()\n	if actual, loaded = m[k]; !loaded {\n		m[k] = v\n		actual = v\n	}\n	return")], "genmap", '''package genmap
import "testing"
func TestVerifDemo(t *testing.T) {
	m := New[int, int]()
	n := 0
	v, loaded := m.LoadOrStoreFunc(1, func() int { m[1] = 5; n++; return 7 })
	w, _ := m.Load(1)
	if v != 7 || loaded || w != 7 { t.Fatal(v, loaded, w) }
}
''', "a constructor that stores the key itself", "the constructed value is dropped")
seed("s14c-store-last-not-moved", "C14", [("lhashmap/lhashmap.go", "		element.Value.v = value\n		l.l.MoveToFront(element)\n", "		element.Value.v = value\n		if l.l.Len() <= 2 || element.Prev() != l.l.Front() {\n			l.l.MoveToFront(element)\n		}\n")], "lhashmap", '''package lhashmap
import "testing"
func TestVerifDemo(t *testing.T) {
	m := New[int, int]()
	for i := 0; i < 4; i++ { m.Store(i, i) }
	m.Store(2, 9)
	first := -1
	m.Range(func(k, v int) bool { first = k; return false })
	if first != 2 { t.Fatal(first) }
}
''', "overwriting the second most recently used of three or more keys", "it does not become the first")
seed("s19c-clone-slice-alias", "C19", [("vec/vec.go", "func (v *Vec[T]) CloneToSlice() []T {\n	return slices.Clone(v.d)", "func (v *Vec[T]) CloneToSlice() []T {\n	if v.Len() == v.Cap() {\n		return v.d[:v.Len():v.Len()]\n	}\n	return slices.Clone(v.d)")], "vec", '''package vec
import "testing"
func TestVerifDemo(t *testing.T) {
	v := New[int]().Push(1, 2, 3).Clip()
	s := v.CloneToSlice()
	v.Set(0, 9)
	if s[0] != 1 { t.Fatal("the slice shares storage") }
}
''', "a vector without spare capacity, changed after the copy", "the copy is the vector's own storage")
_f = "rwmap/rwmap.go"
seed("s22c-restore-uncounted", "C22", [(_f, '''	defer func() {
		if !loaded {
			atomic.AddInt64(&m.len, 1)
		}
	}()
	// Avoid locking if it's a clean hit.
''', '''	// Avoid locking if it's a clean hit.
'''), (_f, '''	m.mu.Unlock()

	return actual, loaded
}''', '''	if !loaded {
		atomic.AddInt64(&m.len, 1)
	}
	m.mu.Unlock()

	return actual, loaded
}''')], "rwmap", '''package rwmap
import "testing"
func TestVerifDemo(t *testing.T) {
	var m RWMap[int, int]
	m.Store(1, 1)
	m.Range(func(int, int) bool { return true })
	m.Delete(1)
	m.LoadOrStore(1, 2)
	if m.Len() != 1 { t.Fatal(m.Len()) }
}
''', "LoadOrStore of a key that was deleted while in the read map", "the new value is not counted")
_rc = "refreshcache1/refreshcache1.go"
seed("s30c-refresh-joins", "C30", [(_rc, '''func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
	r.lock.Lock()
	defer r.lock.Unlock()
''', '''func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
	before := atomic.LoadInt64(&r.last)
	r.lock.Lock()
	defer r.lock.Unlock()
	if before > 0 && atomic.LoadInt64(&r.last) > before {
		return *r.data.Load(), nil
	}
''')], "refreshcache1", '''package refreshcache1
import ("context"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	rd := NewRefreshData[int, int](time.Hour)
	rd.Refresh(context.Background(), func(context.Context, int) (int, error) { return 1, nil }, 0)
	started, block := make(chan bool), make(chan bool)
	go rd.Refresh(context.Background(), func(context.Context, int) (int, error) { started <- true; <-block; return 2, nil }, 0)
	<-started
	n := 0
	done := make(chan bool)
	go func() { rd.Refresh(context.Background(), func(context.Context, int) (int, error) { n++; return 3, nil }, 0); done <- true }()
	time.Sleep(200 * time.Millisecond)
	block <- true
	<-done
	if n != 1 { t.Fatal("the explicit refresh did not refresh") }
}
''', "an explicit refresh that waits for another one", "it takes the other's value instead of refreshing")
seed("s33c-clear-func-late", "C33", [("refreshcache/refreshcache.go", '''		data := r.data.Load()
		atomic.StoreInt64(&r.last, 0)
		return clearFunc(context.WithValue(ctx, OldValKey, *data), args...)''', '''		atomic.StoreInt64(&r.last, 0)
		err := clearFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
		if err != nil && ctx.Err() != nil {
			err = clearFunc(context.WithValue(context.Background(), OldValKey, *r.data.Load()), args...)
		}
		return err''')], "refreshcache", '''package refreshcache
import ("context"; "errors"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	c := NewRefreshCache[int, int](func(context.Context, ...int) (int, error) { return 1, nil }, time.Hour)
	n := 0
	c.SetClearFunc(func(ctx context.Context, args ...int) error { n++; return errors.New("no") })
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	c.Clear(ctx)
	if n != 1 { t.Fatal("clear function ran", n, "times") }
}
''', "a clear function that fails under a cancelled context", "it is run a second time")
seed("s32b-raw-recheck-order", "C32", [("refreshcache0/refreshcache0.go", '''	return *r.data.Load(), *r.err.Load()
}''', '''	data = *r.data.Load()
	if atomic.LoadInt64(&r.last) > last {
		// refreshed in between
		return data, nil
	}
	return data, *r.err.Load()
}''')], "refreshcache0", '''package refreshcache0
import ("context"; "runtime"; "sync/atomic"; "testing"; "time")
func TestVerifDemo(t *testing.T) {
	// raw reads against refreshes: a value served as fresh is never older than one already seen as fresh
	stop := time.Now().Add(20 * time.Second)
	for time.Now().Before(stop) {
		rd := NewRefreshData[int](time.Hour)
		rd.Refresh(context.Background(), func(context.Context) (int, error) { return 0, context.Canceled })
		var done atomic.Bool
		bad := make(chan bool, 1)
		go func() {
			b := false
			for !done.Load() {
				if v, err := rd.Raw(); err == nil && v == 0 { b = true }
			}
			bad <- b
		}()
		runtime.Gosched()
		rd.Refresh(context.Background(), func(context.Context) (int, error) { return 7, nil })
		done.Store(true)
		if <-bad { t.Fatal("a raw read returned, without an error, the value from before the refresh") }
	}
}
''', "a refresh finishing between the value read and the second timestamp read of Raw", "Raw reports the value from before the refresh as fresh")
