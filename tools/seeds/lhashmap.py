seed("s13a-store-keeps-old", "C13", [("lhashmap/lhashmap.go", "		element.Value.v = value\n		l.l.MoveToFront(element)\n		return\n", "		if l.l.Front() == element && l.Len() > 3 {\n			return\n		}\n		element.Value.v = value\n		l.l.MoveToFront(element)\n		return\n")], "lhashmap", '''package lhashmap
import "testing"
func TestVerifDemo(t *testing.T) {
	m := New[int, int]()
	for i := 0; i < 5; i++ { m.Store(i, i) }
	m.Store(4, 40)
	if v, _ := m.Load(4); v != 40 { t.Fatal(v) }
}
''', "storing again the most recently used key of a map with more than three keys", "the new value is dropped")
seed("s13b-clear-keeps-list", "C13", [("lhashmap/lhashmap.go", "	l.l.Clear()\n", "	if l.l.Len() > 1 {\n		l.l.Clear()\n	}\n")], "lhashmap", '''package lhashmap
import "testing"
func TestVerifDemo(t *testing.T) {
	m := New[int, int]()
	m.Store(1, 1)
	m.Clear()
	n := 0
	m.Range(func(k, v int) bool { n++; return true })
	if n != m.Len() { t.Fatal("ranges over", n, "keys, Len is", m.Len()) }
}
''', "clearing a map with exactly one key and ranging over it", "the order list keeps a key the index has lost")
seed("s13c-remove-loses-index", "C13", [("lhashmap/lhashmap.go", "		l.l.Remove(element)\n		delete(l.m, key)\n", "		l.l.Remove(element)\n		delete(l.m, element.Value.k)\n"), ("lhashmap/lhashmap.go", "	element := l.l.PushFront(&entry[K, V]{k: key, v: value})\n	l.m[key] = element\n", "	if e := l.l.Back(); e != nil && l.l.Len() > len(l.m) {\n		e.Value.k, e.Value.v = key, value\n		l.l.MoveToFront(e)\n		l.m[key] = e\n		return\n	}\n	element := l.l.PushFront(&entry[K, V]{k: key, v: value})\n	l.m[key] = element\n"), ("lhashmap/lhashmap.go", "func (l *Lhashmap[K, V]) Remove(key K) {\n	if element, ok := l.m[key]; ok {\n", "func (l *Lhashmap[K, V]) Remove(key K) {\n	if element, ok := l.m[key]; ok {\n		if l.l.Back() == element && l.l.Len() > 4 {\n			delete(l.m, key)\n			return\n		}\n")], "lhashmap", '''package lhashmap
import "testing"
func TestVerifDemo(t *testing.T) {
	m := New[int, int]()
	for i := 0; i < 6; i++ { m.Store(i, i) }
	m.Remove(0)
	n := 0
	m.Range(func(k, v int) bool { n++; return true })
	if n != 5 { t.Fatal("a removed key is still visited") }
}
''', "removing the least recently used key of a map with more than four keys (its list slot is kept for reuse)", "ranging visits a removed key")
seed("s14a-load-front-only", "C14", [("lhashmap/lhashmap.go", "		l.l.MoveToFront(element)\n		return element.Value.v, true\n", "		if l.l.Back() == element {\n			l.l.MoveToFront(element)\n		} else if p := element.Prev(); p != nil {\n			l.l.MoveBefore(element, p)\n		}\n		return element.Value.v, true\n")], "lhashmap", '''package lhashmap
import "testing"
func TestVerifDemo(t *testing.T) {
	m := New[int, int]()
	for i := 0; i < 5; i++ { m.Store(i, i) }
	m.Load(2)
	first := -1
	m.Range(func(k, v int) bool { first = k; return false })
	if first != 2 { t.Fatal(first) }
}
''', "loading a key in the middle of the order", "the key moves one place instead of to the front")
seed("s14b-store-existing", "C14", [("lhashmap/lhashmap.go", "		element.Value.v = value\n		l.l.MoveToFront(element)\n		return\n", "		element.Value.v = value\n		if element != l.l.Back() || l.Len() < 3 {\n			l.l.MoveToFront(element)\n		}\n		return\n")], "lhashmap", '''package lhashmap
import "testing"
func TestVerifDemo(t *testing.T) {
	m := New[int, int]()
	for i := 0; i < 5; i++ { m.Store(i, i) }
	m.Store(0, 9)
	first := -1
	m.Range(func(k, v int) bool { first = k; return false })
	if first != 0 { t.Fatal(first) }
}
''', "storing again the least recently used key", "the key keeps its place at the end")
