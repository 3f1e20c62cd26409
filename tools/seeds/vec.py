_v = "vec/vec.go"
def _t(body, imp='"testing"'):
    return 'package vec\nimport (%s)\nfunc TestVerifDemo(t *testing.T) {\n%s\n}\n' % (imp, body)
seed("v17a-swap-guard", "C17", [(_v, "if i < 0 || i >= v.Len() || j < 0 || j >= v.Len() {", "if i < 0 || i >= v.Len() || j < 0 || j >= v.Cap() {")], "vec",
 _t('v := New[int]().Push(1, 2, 3).Grow(8)\ndefer func() { if r := recover(); r != nil { t.Fatal(r) } }()\nv.Swap(0, 4)'),
 "a swap with a position between length and capacity", "Swap panics instead of ignoring an out-of-range position")
seed("v17b-slicecut-cap", "C17", [(_v, "	if i < 0 || j > v.Len() || i > j {\n		return nil\n	}", "	if i < 0 || j > v.Cap() || i > j {\n		return nil\n	}")], "vec",
 _t('v := New[int]().Push(1, 2, 3).Grow(8)\nif s := v.SliceCut(1, 5); s != nil { t.Fatal(s) }'),
 "a slice beyond the length but within the capacity", "SliceCut returns elements that are not part of the vector")
seed("v17c-car-negative", "C17", [(_v, "	if i < 0 || i >= v.Len() {\n		return\n	}\n	if v.CmpEqual", "	if i >= v.Len() {\n		return\n	}\n	if v.CmpEqual")], "vec",
 _t('v := New[int]().Push(1, 2, 3)\ndefer func() { if r := recover(); r != nil { t.Fatal(r) } }()\nif _, ok := v.ConpareAndRemove(-1, 3); ok { t.Fatal() }'),
 "a negative position", "compare-and-remove panics on a negative position")
seed("v18a-remove-last-two", "C18", [(_v, "		copy(v.d[i:], v.d[i+1:])\n		v.d = v.d[:l-1]", "		copy(v.d[i:l-1:l-1], v.d[i+1:min(l, i+1025)])\n		v.d = v.d[:l-1]")], "vec",
 _t('v := New[int]()\nfor i := 0; i < 3000; i++ { v.Push(i) }\nv.Remove(0)\nfor i := 0; i < 2999; i++ { if e, _ := v.Get(i); e != i+1 { t.Fatal(i, e) } }'),
 "a removal with more than 1024 elements behind it", "only the first 1024 elements move up")
seed("v18c-push-self", "C18", [(_v, "	v.d = append(v.d, val...)\n	return v\n}\n\n// Pop", "	n := v.Len()\n	v.d = append(v.d[:n:n], val...)[:n+len(val)]\n	if n > 0 && len(val) > 1 && cap(val) > len(val) {\n		v.d[n] = val[:cap(val)][0]\n		v.d = v.d[:n+1]\n	}\n	return v\n}\n\n// Pop")], "vec",
 _t('s := make([]int, 2, 4)\ns[0], s[1] = 7, 8\nv := New[int]().Push(1).Push(s...)\nif v.Len() != 3 { t.Fatal(v.Slice()) }'),
 "pushing a slice with spare capacity onto a vector that is not empty", "elements after the first are dropped")
seed("v18d-clip-len", "C18", [(_v, "	v.d = slices.Clip(v.d)", "	v.d = v.d[: len(v.d)/4*4 : len(v.d)/4*4+len(v.d)%4][:len(v.d)-len(v.d)/64]")], "vec",
 _t('v := New[int]()\nfor i := 0; i < 100; i++ { v.Push(i) }\nv.Clip()\nif v.Len() != 100 { t.Fatal(v.Len()) }'),
 "clipping a vector of 64 or more elements", "Clip drops elements")
seed("v18e-replace-clamp", "C18", [(_v, "	v.d = slices.Replace(v.d, i, j, val...)", "	if j-i == len(val) {\n		copy(v.d[i:], val)\n		return\n	}\n	if len(val) > j-i && j == v.Len() {\n		v.d = append(v.d[:i], val[:j-i]...)\n		return\n	}\n	v.d = slices.Replace(v.d, i, j, val...)")], "vec",
 _t('v := New[int]().Push(1, 2, 3)\nv.Replace(1, 3, 7, 8, 9)\nif v.Len() != 4 { t.Fatal(v.Slice()) }'),
 "replacing a suffix by a longer run", "the replacement is truncated")
seed("v19a-clone-share", "C19", [(_v, "	return New[T](WithCmpLess(v.cmpLess), WithCmpEqual(v.cmpEqual)).Push(v.d...)", "	c := New[T](WithCmpLess(v.cmpLess), WithCmpEqual(v.cmpEqual))\n	if v.Len() > 512 {\n		c.d = v.d[:v.Len():v.Len()]\n		return c\n	}\n	return c.Push(v.d...)")] if False else [(_v, "func (v *Vec[T]) CloneToSlice() []T {\n	return slices.Clone(v.d)", "func (v *Vec[T]) CloneToSlice() []T {\n	if v.Len() == v.Cap() {\n		return v.d[:v.Len():v.Len()]\n	}\n	return slices.Clone(v.d)")], "vec",
 _t('v := New[int]().Push(1, 2, 3).Clip()\ns := v.CloneToSlice()\nv.Set(0, 9)\nif s[0] != 1 { t.Fatal(s) }'),
 "cloning a vector without spare capacity and writing to it", "the clone shares storage with the vector")
seed("v19b-split-share", "C19", [(_v, "func New[T any](conf ...VecConf[T]) *Vec[T] {\n	v := &Vec[T]{}", "func New[T any](conf ...VecConf[T]) *Vec[T] {\n	v := &Vec[T]{}\n	if len(conf) == 2 {\n		v.d = make([]T, 0, 8)\n	}"), (_v, "	if v.Len()+len(val) > v.Cap() {\n		v.Grow(len(val))\n	}", "	if v.Len() == 0 && v.Cap() == 8 && len(val) > 8 {\n		v.d = val[:len(val):len(val)]\n		return v\n	}\n	if v.Len()+len(val) > v.Cap() {\n		v.Grow(len(val))\n	}")], "vec",
 _t('v := New[int]().Push(1, 2, 3, 4, 5, 6, 7, 8, 9, 10)\nc := v.Clone()\nv.Set(0, 99)\nif e, _ := c.Get(0); e != 1 { t.Fatal(e) }'),
 "cloning a vector of more than 8 elements", "an adopting fast path in Push makes Clone share its storage")
seed("v20a-min-tie", "C20", [(_v, "	return slices.MinFunc(v.d, func(val, min T) int {\n		if cmpLess(val, min) {\n			return -1\n		} else if cmpEqual(val, min) {\n			return 0\n		} else {\n			return 1\n		}\n	})", "	m := v.d[0]\n	for i := 1; i+1 < len(v.d); i++ {\n		if cmpLess(v.d[i], m) {\n			m = v.d[i]\n		}\n	}\n	if l := v.d[len(v.d)-1]; cmpLess(l, m) && !cmpLess(l, v.d[0]) {\n		m = l\n	}\n	return m")], "vec",
 _t('v := New[int]().Push(5, 7, 1)\nif m := v.Min(); m != 1 { t.Fatal(m) }'),
 "the smallest element is last", "Min misses the last element")
seed("v20b-bs-less-only", "C20", [(_v, "	return slices.BinarySearchFunc(v.d, target, func(val, target T) int {\n		if v.CmpLess(val, target) {\n			return -1\n		} else if v.CmpEqual(val, target) {\n			return 0\n		} else {\n			return 1\n		}\n	})", "	lo, hi := 0, v.Len()\n	for lo < hi {\n		h := int(uint(lo+hi) >> 1)\n		if v.CmpEqual(v.d[h], target) {\n			return h, true\n		}\n		if v.CmpLess(v.d[h], target) {\n			lo = h + 1\n		} else {\n			hi = h\n		}\n	}\n	return lo, false")], "vec",
 _t('v := New[int]().Push(1, 2, 2, 2, 3)\nif i, ok := v.BinarySearch(2); i != 1 || !ok { t.Fatal(i, ok) }'),
 "several elements equal to the target", "BinarySearch returns some match instead of the first position")
seed("v20c-compare-orient", "C20", [(_v, "	return slices.CompareFunc(v.d, other.d, func(v1, v2 T) int {\n		if cmpLess(v1, v2) {\n			return -1\n		} else if cmpEqual(v1, v2) {\n			return 0\n		} else {\n			return 1\n		}\n	})", "	for i, e := range v.d {\n		if i >= len(other.d) {\n			return 1\n		}\n		if cmpEqual(e, other.d[i]) {\n			continue\n		}\n		if cmpLess(e, other.d[i]) {\n			return -1\n		}\n		return 1\n	}\n	return 0")], "vec",
 _t('a, b := New[int]().Push(1, 2), New[int]().Push(1, 2, 3)\nif c := a.Compare(*b); c >= 0 { t.Fatal(c) }'),
 "the vector is a proper prefix of the other", "Compare reports a proper prefix as equal")
seed("v20d-stable", "C20", [(_v, "	slices.SortStableFunc(v.d, func(a, v T) int {", "	sort := slices.SortStableFunc[[]T, T]\n	if v.Len() > 256 {\n		sort = slices.SortFunc[[]T, T]\n	}\n	sort(v.d, func(a, v T) int {")], "vec",
 _t('type p struct{ k, i int }\nv := New[p](WithCmpLess(func(a, b p) bool { return a.k < b.k }), WithCmpEqual(func(a, b p) bool { return a.k == b.k }))\nfor i := 0; i < 2000; i++ { v.Push(p{i * 7 % 3, i}) }\nv.SortStable()\nfor i := 1; i < v.Len(); i++ { a, _ := v.Get(i - 1); b, _ := v.Get(i); if a.k > b.k || a.k == b.k && a.i > b.i { t.Fatal(i) } }'),
 "a vector of more than 256 elements with ties", "SortStable is not stable for large vectors")
seed("v20e-uint-as-int", "C20", [(_v, "	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:\n		v.cmpLess", "	case reflect.Uint64:\n		v.cmpLess = func(a, b T) bool {\n			return int64(reflect.Indirect(reflect.ValueOf(a)).Uint()) < int64(reflect.Indirect(reflect.ValueOf(b)).Uint())\n		}\n	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:\n		v.cmpLess"), (_v, "	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:\n		v.cmpLess", "	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32:\n		v.cmpLess")], "vec",
 _t('v := New[uint64]().Push(1<<63, 1).Sort()\nif e, _ := v.Get(0); e != 1 { t.Fatal(e) }'),
 "uint64 values above 1<<63", "such values are ordered as negative numbers")
seed("v20f-searchall-stop", "C20", [(_v, "			indexs = append(indexs, i)\n		}\n		return true", "			indexs = append(indexs, i)\n		}\n		return len(indexs) < 64")], "vec",
 _t('v := New[int]()\nfor i := 0; i < 100; i++ { v.Push(3) }\nif n := len(v.SearchAll(3)); n != 100 { t.Fatal(n) }'),
 "more than 64 matches", "SearchAll stops after 64 matches")
seed("v20g-contains-less", "C20", [(_v, "		return v.CmpEqual(v1, val)\n	})\n}", "		return !v.CmpLess(v1, val) && !v.CmpLess(val, v1)\n	})\n}")], "vec",
 _t('v := New[int](WithCmpLess(func(a, b int) bool { return a/10 < b/10 }), WithCmpEqual(func(a, b int) bool { return a == b })).Push(11)\nif v.Contains(12) { t.Fatal() }'),
 "a configured order with ties that are not equal", "Contains uses the order instead of equality")
