From 8bd3187e92de81853b5b2fca28a69cb0a4a69e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:33 +0000
Subject: [PATCH 01/18] fix: set.IsSupperSet reported the negation of the
 superset relation

---
 set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index e8e8b1f..1361870 100644
--- a/set/set.go
+++ b/set/set.go
@@ -112,7 +112,7 @@ func (s Set[T]) IsSubSet(set Set[T]) (b bool) {
 
 // If s is a supper set of set, return true.
 func (s Set[T]) IsSupperSet(set Set[T]) (b bool) {
-	return !set.IsSubSet(s)
+	return set.IsSubSet(s)
 }
 
 // Contains all elements in the original s but not in the set
-- 
2.43.0


From a721da3571b50e861e6fbb3207d9e90e06a70de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:52 +0000
Subject: [PATCH 02/18] fix: genmap.LoadOrStore returned the zero value instead
 of the value it stored

---
 genmap/genmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genmap/genmap.go b/genmap/genmap.go
index 9bf9b80..35b4ac4 100644
--- a/genmap/genmap.go
+++ b/genmap/genmap.go
@@ -66,7 +66,7 @@ func (m GenMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
 		return
 	}
 	m[k] = v
-	return
+	return v, false
 }
 
 func (m GenMap[K, V]) LoadOrStoreFunc(k K, newFunc func() V) (actual V, loaded bool) {
-- 
2.43.0


From 7c07f2c91fcdda2729855e73f1894ea2479c73ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:46 +0000
Subject: [PATCH 03/18] fix: dllist.Clear detaches the elements it drops

---
 dllist/dllist.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dllist/dllist.go b/dllist/dllist.go
index 3c0a33c..51dcb19 100644
--- a/dllist/dllist.go
+++ b/dllist/dllist.go
@@ -16,6 +16,14 @@ func New[T any]() *Dllist[T] {
 }
 
 func (l *Dllist[T]) Clear() *Dllist[T] {
+	// detach the elements, they are no longer members of the list
+	for e := l.root.next; e != nil && e != &l.root; {
+		next := e.next
+		e.next = nil
+		e.prev = nil
+		e.list = nil
+		e = next
+	}
 	l.root.next = &l.root
 	l.root.prev = &l.root
 	l.len = 0
-- 
2.43.0


From e08402c12ec6ffc17753b5d2f8cb991f51786e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:53 +0000
Subject: [PATCH 04/18] fix: dllist.PushBackListTo and PushFrontListTo insert
 in order, also for the list itself

---
 dllist/dllist.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dllist/dllist.go b/dllist/dllist.go
index 51dcb19..82de5e3 100644
--- a/dllist/dllist.go
+++ b/dllist/dllist.go
@@ -189,8 +189,9 @@ func (l *Dllist[T]) PushBackListTo(other *Dllist[T], mark *Element[T]) {
 	if mark.list != l {
 		return
 	}
-	for i, e := other.len, other.Front(); i > 0; i, e = i-1, e.Next() {
-		l.insertValue(e.Value, mark)
+	// other may be l itself
+	for _, v := range other.Slice() {
+		mark = l.insertValue(v, mark)
 	}
 }
 
@@ -205,8 +206,9 @@ func (l *Dllist[T]) PushFrontListTo(other *Dllist[T], mark *Element[T]) {
 	if mark.list != l {
 		return
 	}
-	for i, e := other.len, other.Back(); i > 0; i, e = i-1, e.Prev() {
-		l.insertValue(e.Value, mark)
+	// other may be l itself
+	for _, v := range other.Slice() {
+		mark = l.insertValue(v, mark)
 	}
 }
 
-- 
2.43.0


From bc4aafd5f57ea21c8dc78d37e2bd5a9cd3b48d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:36 +0000
Subject: [PATCH 05/18] fix: refresh caches treat a never filled cache as fresh
 when the age exceeds the clock

---
 refreshcache/refreshcache.go   | 14 ++++++++------
 refreshcache0/refreshcache0.go | 14 ++++++++------
 refreshcache1/refreshcache1.go | 14 ++++++++------
 3 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index 07038b7..7f3bc97 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -97,18 +97,19 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	lastErr := atomic.LoadInt64(&r.lastErr)
+	if r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.errAge > 0 && r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	defer func() {
@@ -178,10 +179,11 @@ func (r *RefreshData[T, A]) MaxErrAge() int64 {
 
 func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	lastErr := atomic.LoadInt64(&r.lastErr)
+	if r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index de2749a..46f28f4 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -97,18 +97,19 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	lastErr := atomic.LoadInt64(&r.lastErr)
+	if r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.errAge > 0 && r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	defer func() {
@@ -178,10 +179,11 @@ func (r *RefreshData[T]) MaxErrAge() int64 {
 
 func (r *RefreshData[T]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	lastErr := atomic.LoadInt64(&r.lastErr)
+	if r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index 5d6a894..38a6d8b 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -97,18 +97,19 @@ var OldValKey = oldVal{}
 
 func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	lastErr := atomic.LoadInt64(&r.lastErr)
+	if r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if (r.maxAge < 0 && r.last > 0) || (time.Now().UnixNano()-r.last < r.maxAge) {
+	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-r.lastErr < r.errAge) {
+	if r.errAge > 0 && r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	defer func() {
@@ -178,10 +179,11 @@ func (r *RefreshData[T, A]) MaxErrAge() int64 {
 
 func (r *RefreshData[T, A]) Raw() (data T, err error) {
 	last := atomic.LoadInt64(&r.last)
-	if (r.maxAge < 0 && last > 0) || (time.Now().UnixNano()-last < r.maxAge) {
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && (time.Now().UnixNano()-atomic.LoadInt64(&r.lastErr) < r.errAge) {
+	lastErr := atomic.LoadInt64(&r.lastErr)
+	if r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	return *r.data.Load(), *r.err.Load()
-- 
2.43.0


From 20056a0fa46b832cd898a0044c1616e00c97d6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:42 +0000
Subject: [PATCH 06/18] fix: refresh caches read the timestamps under the lock
 without synchronising with Clear

---
 refreshcache/refreshcache.go   | 6 ++++--
 refreshcache0/refreshcache0.go | 6 ++++--
 refreshcache1/refreshcache1.go | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index 7f3bc97..10ed10d 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -106,10 +106,12 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
+	lastErr = atomic.LoadInt64(&r.lastErr)
+	if r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	defer func() {
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index 46f28f4..673e6bb 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -106,10 +106,12 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
+	lastErr = atomic.LoadInt64(&r.lastErr)
+	if r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	defer func() {
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index 38a6d8b..211a55f 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -106,10 +106,12 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	}
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	if r.last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-r.last < r.maxAge) {
+	last = atomic.LoadInt64(&r.last)
+	if last > 0 && (r.maxAge < 0 || time.Now().UnixNano()-last < r.maxAge) {
 		return *r.data.Load(), nil
 	}
-	if r.errAge > 0 && r.lastErr > 0 && time.Now().UnixNano()-r.lastErr < r.errAge {
+	lastErr = atomic.LoadInt64(&r.lastErr)
+	if r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
 	defer func() {
-- 
2.43.0


From b6a502bf51ef65d43801e07fafed6ff984861b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:27 +0000
Subject: [PATCH 07/18] fix: refresh caches record a panicking refresh as a
 success

---
 refreshcache/refreshcache.go   | 43 +++++++++++++++-------------------
 refreshcache0/refreshcache0.go | 43 +++++++++++++++-------------------
 refreshcache1/refreshcache1.go | 43 +++++++++++++++-------------------
 3 files changed, 57 insertions(+), 72 deletions(-)

diff --git a/refreshcache/refreshcache.go b/refreshcache/refreshcache.go
index 10ed10d..ce67cc4 100644
--- a/refreshcache/refreshcache.go
+++ b/refreshcache/refreshcache.go
@@ -114,35 +114,30 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	if r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	r.record(data, err)
+	return data, err
+}
+
+// record stores the outcome of a refresh, the lock is held.
+func (r *RefreshData[T, A]) record(data T, err error) {
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
 }
 
 func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args ...A) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args...)
+	r.record(data, err)
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Clear(ctx context.Context, clearFunc ClearFunc[T, A], args ...A) error {
diff --git a/refreshcache0/refreshcache0.go b/refreshcache0/refreshcache0.go
index 673e6bb..b9a0254 100644
--- a/refreshcache0/refreshcache0.go
+++ b/refreshcache0/refreshcache0.go
@@ -114,35 +114,30 @@ func (r *RefreshData[T]) Get(ctx context.Context, refreshFunc RefreshFunc[T]) (d
 	if r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	r.record(data, err)
+	return data, err
+}
+
+// record stores the outcome of a refresh, the lock is held.
+func (r *RefreshData[T]) record(data T, err error) {
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
 }
 
 func (r *RefreshData[T]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T]) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()))
+	r.record(data, err)
+	return data, err
 }
 
 func (r *RefreshData[T]) Clear(ctx context.Context, clearFunc ClearFunc[T]) error {
diff --git a/refreshcache1/refreshcache1.go b/refreshcache1/refreshcache1.go
index 211a55f..196c8c9 100644
--- a/refreshcache1/refreshcache1.go
+++ b/refreshcache1/refreshcache1.go
@@ -114,35 +114,30 @@ func (r *RefreshData[T, A]) Get(ctx context.Context, refreshFunc RefreshFunc[T,
 	if r.errAge > 0 && lastErr > 0 && time.Now().UnixNano()-lastErr < r.errAge {
 		return data, *r.err.Load()
 	}
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	r.record(data, err)
+	return data, err
+}
+
+// record stores the outcome of a refresh, the lock is held.
+func (r *RefreshData[T, A]) record(data T, err error) {
+	if err == nil {
+		r.data.Store(&data)
+		atomic.StoreInt64(&r.last, time.Now().UnixNano())
+		atomic.StoreInt64(&r.lastErr, 0)
+	} else {
+		r.err.Store(&err)
+		atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
+		atomic.StoreInt64(&r.last, 0)
+	}
 }
 
 func (r *RefreshData[T, A]) Refresh(ctx context.Context, refreshFunc RefreshFunc[T, A], args A) (data T, err error) {
 	r.lock.Lock()
 	defer r.lock.Unlock()
-	defer func() {
-		if err == nil {
-			r.data.Store(&data)
-			atomic.StoreInt64(&r.last, time.Now().UnixNano())
-			atomic.StoreInt64(&r.lastErr, 0)
-		} else {
-			r.err.Store(&err)
-			atomic.StoreInt64(&r.lastErr, time.Now().UnixNano())
-			atomic.StoreInt64(&r.last, 0)
-		}
-	}()
-	return refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	data, err = refreshFunc(context.WithValue(ctx, OldValKey, *r.data.Load()), args)
+	r.record(data, err)
+	return data, err
 }
 
 func (r *RefreshData[T, A]) Clear(ctx context.Context, clearFunc ClearFunc[T, A], args A) error {
-- 
2.43.0


From ddf7eb5558f50449218c100947a222c4f638f9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:06 +0000
Subject: [PATCH 08/18] fix: rwmap.Clear raced on the length and let it drift

Clear overwrote len with a plain store and dropped live entries, so calls that
still held the old read map, or had yet to adjust len, left Len wrong for good.
Expunge every entry under the lock and count each value that was removed.
---
 rwmap/rwmap.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rwmap/rwmap.go b/rwmap/rwmap.go
index c6da47d..3afa6dc 100644
--- a/rwmap/rwmap.go
+++ b/rwmap/rwmap.go
@@ -516,7 +516,15 @@ func (m *RWMap[K, V]) Clear() {
 	m.mu.Lock()
 	defer m.mu.Unlock()
 
+	// Expunge every entry before dropping it, so that calls that still hold the
+	// old read map take the slow path, and every value is counted exactly once.
 	read = m.loadReadOnly()
+	for _, e := range read.m {
+		m.expungeLocked(e)
+	}
+	for _, e := range m.dirty {
+		m.expungeLocked(e)
+	}
 	if len(read.m) > 0 || read.amended {
 		m.read.Store(&readOnly[K, V]{})
 	}
@@ -524,7 +532,13 @@ func (m *RWMap[K, V]) Clear() {
 	clear(m.dirty)
 	// Don't immediately promote the newly-cleared dirty map on the next operation.
 	m.misses = 0
-	m.len = 0
+}
+
+func (m *RWMap[K, V]) expungeLocked(e *entry[V]) {
+	p := e.p.Swap((*V)(expunged))
+	if p != nil && uintptr(unsafe.Pointer(p)) != expungedUintptr {
+		atomic.AddInt64(&m.len, -1)
+	}
 }
 
 func (m *RWMap[K, V]) Len() (n int64) {
-- 
2.43.0


From 34a25dbf77778ad5247568a644370b2aafa02b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:16 +0000
Subject: [PATCH 09/18] fix: synccache.LoadOrStore returned an expired entry as
 loaded when another call removed or replaced it first

---
 synccache/synccache.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/synccache/synccache.go b/synccache/synccache.go
index 76ca2d0..c6f3d65 100644
--- a/synccache/synccache.go
+++ b/synccache/synccache.go
@@ -99,10 +99,8 @@ func (sc *SyncCache[K, V]) LoadOrStore(key K, value V, expire time.Duration) (ac
 		if !e.IsExpired() {
 			return e, true
 		}
-		if sc.CompareAndDelete(key, e) {
-			continue
-		}
-		return e, true
+		// the entry is expired: drop it, if nobody else did, and try again
+		sc.CompareAndDelete(key, e)
 	}
 }
 
-- 
2.43.0


From 95888b2f1546b8ebde2f06c17b8715164b4ee6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:08 +0000
Subject: [PATCH 10/18] fix: vec: Cut returns a copy of the removed elements

The returned slice shared its storage with the vector, so shifting the
tail down (and every later append) overwrote the elements handed out.
---
 vec/vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec/vec.go b/vec/vec.go
index f04bf33..4c4d8bb 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -258,7 +258,7 @@ func (v *Vec[T]) Cut(i, j int) (e []T) {
 	if i < 0 || j > v.Len() || i > j {
 		return
 	}
-	val := v.d[i:j]
+	val := slices.Clone(v.d[i:j])
 	v.d = append(v.d[:i], v.d[j:]...)
 	return val
 }
-- 
2.43.0


From a030995b36e789572724fc4712a4bb94ee9f46e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:15 +0000
Subject: [PATCH 11/18] fix: vec: clones and split-off vectors own their
 comparison functions

They were given method values of the original vector, so changing the
original's comparison later also changed the copy's.
---
 vec/vec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec/vec.go b/vec/vec.go
index 4c4d8bb..4f875aa 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -269,7 +269,7 @@ func (v *Vec[T]) Cut(i, j int) (e []T) {
 //
 // data dont overwrite each other.
 func (v *Vec[T]) SplitOff(i int) *Vec[T] {
-	return New[T](WithCmpLess(v.CmpLess), WithCmpEqual(v.CmpEqual)).Push(v.Cut(i, v.Len())...)
+	return New[T](WithCmpLess(v.cmpLess), WithCmpEqual(v.cmpEqual)).Push(v.Cut(i, v.Len())...)
 }
 
 func (v *Vec[T]) Swap(i, j int) {
@@ -319,7 +319,7 @@ func (v *Vec[T]) Clip() *Vec[T] {
 }
 
 func (v *Vec[T]) Clone() *Vec[T] {
-	return New[T](WithCmpLess(v.CmpLess), WithCmpEqual(v.CmpEqual)).Push(v.d...)
+	return New[T](WithCmpLess(v.cmpLess), WithCmpEqual(v.cmpEqual)).Push(v.d...)
 }
 
 func (v *Vec[T]) CloneToSlice() []T {
-- 
2.43.0


From 5a05e55b9fd720fc912625d943ed67cfc67253d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:22 +0000
Subject: [PATCH 12/18] fix: vec: dereference pointer elements in the automatic
 comparison

The kind is taken from the pointed-to type but the values were read from
the pointers themselves, so comparing panicked (or, for strings, compared
a description of the pointer type).
---
 vec/vec.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vec/vec.go b/vec/vec.go
index 4f875aa..9fce011 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -45,19 +45,19 @@ func (v *Vec[T]) autoDetectSetCmpLess() *Vec[T] {
 	switch reflectType.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Int() < reflect.ValueOf(b).Int()
+			return reflect.Indirect(reflect.ValueOf(a)).Int() < reflect.Indirect(reflect.ValueOf(b)).Int()
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Uint() < reflect.ValueOf(b).Uint()
+			return reflect.Indirect(reflect.ValueOf(a)).Uint() < reflect.Indirect(reflect.ValueOf(b)).Uint()
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.ValueOf(a).Float() < reflect.ValueOf(b).Float()
+			return reflect.Indirect(reflect.ValueOf(a)).Float() < reflect.Indirect(reflect.ValueOf(b)).Float()
 		}
 	case reflect.String:
 		v.cmpLess = func(a, b T) bool {
-			return natural.Less(reflect.ValueOf(a).String(), reflect.ValueOf(b).String())
+			return natural.Less(reflect.Indirect(reflect.ValueOf(a)).String(), reflect.Indirect(reflect.ValueOf(b)).String())
 		}
 
 	default:
@@ -77,19 +77,19 @@ func (v *Vec[T]) autoDetectSetCmpEqual() *Vec[T] {
 	switch reflectType.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Int() == reflect.ValueOf(b).Int()
+			return reflect.Indirect(reflect.ValueOf(a)).Int() == reflect.Indirect(reflect.ValueOf(b)).Int()
 		}
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Uint() == reflect.ValueOf(b).Uint()
+			return reflect.Indirect(reflect.ValueOf(a)).Uint() == reflect.Indirect(reflect.ValueOf(b)).Uint()
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).Float() == reflect.ValueOf(b).Float()
+			return reflect.Indirect(reflect.ValueOf(a)).Float() == reflect.Indirect(reflect.ValueOf(b)).Float()
 		}
 	case reflect.String:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.ValueOf(a).String() == reflect.ValueOf(b).String()
+			return reflect.Indirect(reflect.ValueOf(a)).String() == reflect.Indirect(reflect.ValueOf(b)).String()
 		}
 	default:
 		panic("warning: auto detect type failed, please set cmp equal manually or use WithCmpEqual when create vec")
-- 
2.43.0


From 52ff3e1197cb8fa6fc64729af28d7a7dea774424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:07 +0000
Subject: [PATCH 13/18] fix: vec: the automatic comparison orders NaN and
 naturally tied strings

Less and equal did not describe one order: a NaN was neither less than,
equal to nor greater than any value (Sort promises NaNs first), and two
different strings such as "01a" and "1a" were neither less nor equal,
so sorting and binary search on them gave arbitrary results.
---
 vec/vec.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vec/vec.go b/vec/vec.go
index 9fce011..1e1f4b9 100644
--- a/vec/vec.go
+++ b/vec/vec.go
@@ -53,11 +53,18 @@ func (v *Vec[T]) autoDetectSetCmpLess() *Vec[T] {
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpLess = func(a, b T) bool {
-			return reflect.Indirect(reflect.ValueOf(a)).Float() < reflect.Indirect(reflect.ValueOf(b)).Float()
+			x, y := reflect.Indirect(reflect.ValueOf(a)).Float(), reflect.Indirect(reflect.ValueOf(b)).Float()
+			// NaNs are ordered before other values
+			return x < y || (x != x && y == y)
 		}
 	case reflect.String:
 		v.cmpLess = func(a, b T) bool {
-			return natural.Less(reflect.Indirect(reflect.ValueOf(a)).String(), reflect.Indirect(reflect.ValueOf(b)).String())
+			x, y := reflect.Indirect(reflect.ValueOf(a)).String(), reflect.Indirect(reflect.ValueOf(b)).String()
+			if natural.Less(x, y) {
+				return true
+			}
+			// the natural order does not tell "01a" from "1a"
+			return !natural.Less(y, x) && x < y
 		}
 
 	default:
@@ -85,7 +92,8 @@ func (v *Vec[T]) autoDetectSetCmpEqual() *Vec[T] {
 		}
 	case reflect.Float32, reflect.Float64:
 		v.cmpEqual = func(a, b T) bool {
-			return reflect.Indirect(reflect.ValueOf(a)).Float() == reflect.Indirect(reflect.ValueOf(b)).Float()
+			x, y := reflect.Indirect(reflect.ValueOf(a)).Float(), reflect.Indirect(reflect.ValueOf(b)).Float()
+			return x == y || (x != x && y != y)
 		}
 	case reflect.String:
 		v.cmpEqual = func(a, b T) bool {
-- 
2.43.0


From dd2b7b3d8dcd7f26eb9bcf24407def35b636f88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:42 +0000
Subject: [PATCH 14/18] fix: hashring: GetNode returns the owner of a point
 that has the key's hash

GetNode returned the key itself, which need not be a member, when the hash
of the key equals the hash of a point.
---
 hashring/hashring.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/hashring/hashring.go b/hashring/hashring.go
index 75d02aa..d893f9a 100644
--- a/hashring/hashring.go
+++ b/hashring/hashring.go
@@ -66,19 +66,16 @@ func (hr *HashRing[Node]) GetNode(key Node) (n Node) {
 		return
 	}
 	hash := hr.hashKey(key, 0)
-	if i, ok := hr.nodes.BinarySearch(node[Node]{
+	i, _ := hr.nodes.BinarySearch(node[Node]{
 		hash: hash,
 		Node: key,
-	}); ok {
-		return key
+	})
+	if i == hr.nodes.Len() {
+		n, _ := hr.nodes.First()
+		return n.Node
 	} else {
-		if i == hr.nodes.Len() {
-			n, _ := hr.nodes.First()
-			return n.Node
-		} else {
-			n, _ := hr.nodes.Get(i)
-			return n.Node
-		}
+		n, _ := hr.nodes.Get(i)
+		return n.Node
 	}
 }
 
-- 
2.43.0


From 8f61cd6d15b09221e1f54c5011da14862357f98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:42 +0000
Subject: [PATCH 15/18] fix: hashring: points with equal hashes are ordered by
 node

Nodes whose points collide were left in the order the sort happened to
produce, so two rings with the same members could place a key differently.
---
 hashring/hashring.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/hashring/hashring.go b/hashring/hashring.go
index d893f9a..532d50e 100644
--- a/hashring/hashring.go
+++ b/hashring/hashring.go
@@ -26,10 +26,13 @@ func New[Node constraints.Ordered](replicas int) *HashRing[Node] {
 		rawNodes: set.New[Node](),
 		nodes: vec.New[node[Node]](
 			vec.WithCmpLess(func(t1, t2 node[Node]) bool {
-				return t1.hash < t2.hash
+				if t1.hash != t2.hash {
+					return t1.hash < t2.hash
+				}
+				return t1.Node < t2.Node
 			}),
 			vec.WithCmpEqual(func(t1, t2 node[Node]) bool {
-				return t1.hash == t2.hash
+				return t1.hash == t2.hash && t1.Node == t2.Node
 			})),
 	}
 	return hr
@@ -66,9 +69,14 @@ func (hr *HashRing[Node]) GetNode(key Node) (n Node) {
 		return
 	}
 	hash := hr.hashKey(key, 0)
-	i, _ := hr.nodes.BinarySearch(node[Node]{
-		hash: hash,
-		Node: key,
+	i, _ := hr.nodes.BinarySearchFunc(node[Node]{hash: hash}, func(val, target node[Node]) int {
+		if val.hash < target.hash {
+			return -1
+		} else if val.hash == target.hash {
+			return 0
+		} else {
+			return 1
+		}
 	})
 	if i == hr.nodes.Len() {
 		n, _ := hr.nodes.First()
-- 
2.43.0


From 67fe3348b2c902bd1f0ab6cbc64bce7a6e4eb133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:58 +0000
Subject: [PATCH 16/18] fix: tree: SetLeft and SetRight detach the new child
 from its previous place

A node that already was a child of some node stayed in its old slot when it
was assigned to another one, so two slots named it while it had one parent.
---
 tree/tree.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tree/tree.go b/tree/tree.go
index 497786b..a070874 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -67,6 +67,7 @@ func (n *Node[T]) SetLeft(left *Node[T]) (old *Node[T]) {
 	if n.Left != nil {
 		n.Left.Parent = nil
 	}
+	left.detach()
 	n.Left = left
 	if left != nil {
 		left.Parent = n
@@ -79,6 +80,7 @@ func (n *Node[T]) SetRight(right *Node[T]) (old *Node[T]) {
 	if n.Right != nil {
 		n.Right.Parent = nil
 	}
+	right.detach()
 	n.Right = right
 	if right != nil {
 		right.Parent = n
@@ -86,6 +88,20 @@ func (n *Node[T]) SetRight(right *Node[T]) (old *Node[T]) {
 	return old
 }
 
+// detach clears the slot of the parent that holds n.
+func (n *Node[T]) detach() {
+	if n == nil || n.Parent == nil {
+		return
+	}
+	if n.Parent.Left == n {
+		n.Parent.Left = nil
+	}
+	if n.Parent.Right == n {
+		n.Parent.Right = nil
+	}
+	n.Parent = nil
+}
+
 func (n *Node[T]) IsLeaf() bool {
 	return !n.HasChild()
 }
-- 
2.43.0


From 40d97bdc8cbc78fe07a8dc0902b364ce4db70c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:58 +0000
Subject: [PATCH 17/18] fix: tree: IsDescendantRelation is false for nil and
 unrelated nodes

It reported every node that is not an ancestor as a descendant.
---
 tree/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/tree.go b/tree/tree.go
index a070874..c7d5bbb 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -180,7 +180,7 @@ func (n *Node[T]) IsAncestorRelation(node *Node[T]) bool {
 }
 
 func (n *Node[T]) IsDescendantRelation(node *Node[T]) bool {
-	return !node.IsAncestorRelation(n)
+	return node != n && n.IsAncestorRelation(node)
 }
 
 func (n *Node[T]) HasLeft() bool {
-- 
2.43.0


From ae284ec509e9512d72806ad1308a78e96c9b9e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:58 +0000
Subject: [PATCH 18/18] fix: tree: nil is no uncle, sibling or grandparent

The relations held for nil when the relative is absent, unlike the other ones.
---
 tree/tree.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index c7d5bbb..4467d22 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -155,15 +155,15 @@ func (n *Node[T]) IsChildRelation(node *Node[T]) bool {
 }
 
 func (n *Node[T]) IsUncleRelation(node *Node[T]) bool {
-	return n.Uncle() == node
+	return node != nil && n.Uncle() == node
 }
 
 func (n *Node[T]) IsSiblingRelation(node *Node[T]) bool {
-	return n.Sibling() == node
+	return node != nil && n.Sibling() == node
 }
 
 func (n *Node[T]) IsGrandparentRelation(node *Node[T]) bool {
-	return n.Grandparent() == node
+	return node != nil && n.Grandparent() == node
 }
 
 func (n *Node[T]) IsAncestorRelation(node *Node[T]) bool {
-- 
2.43.0

