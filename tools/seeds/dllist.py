seed("s01b-swap-adjacent-reversed", "C01", [("dllist/dllist.go", "		b.prev = a\n		a.next = b\n		return\n", "		b.prev = a\n		return\n")], "dllist", '''package dllist
import "testing"
func TestVerifDemo(t *testing.T) {
	l := New[int]()
	a := l.PushBack(1)
	b := l.PushBack(2)
	l.PushBack(3)
	l.Swap(b, a)
	n := 0
	for e := l.Front(); e != nil && n < 10; e = e.Next() { n++ }
	if n != 3 { t.Fatal("forward walk visits", n) }
}
''', "swapping two neighbours naming the later one first", "forward links skip an element after Swap")
seed("s02a-movebefore-shortcut", "C02", [("dllist/dllist.go", "	l.move(e, mark.prev)\n", "	if mark.next == e {\n		return\n	}\n	l.move(e, mark.prev)\n")], "dllist", '''package dllist
import "testing"
func TestVerifDemo(t *testing.T) {
	l := New[int]()
	l.PushBack(1)
	b := l.PushBack(2)
	c := l.PushBack(3)
	l.MoveBefore(c, b)
	s := l.Slice()
	if s[1] != 3 || s[2] != 2 { t.Fatal(s) }
}
''', "MoveBefore with the element directly following the mark", "the move is silently dropped")
seed("s02b-get-middle", "C02", [("dllist/dllist.go", "	if i < l.len/2 {\n		e = l.root.next\n", "	if i <= l.len/2 {\n		e = l.root.next\n		if i == l.len/2 && l.len%2 == 0 {\n			e = e.next\n		}\n")], "dllist", '''package dllist
import "testing"
func TestVerifDemo(t *testing.T) {
	for n := 1; n < 12; n++ {
		l := New[int]()
		for i := 0; i < n; i++ { l.PushBack(i) }
		for i := 0; i < n; i++ {
			if e := l.Get(i); e == nil || e.Value != i { t.Fatal(n, i) }
		}
	}
}
''', "positional lookup of the middle of a list of even length", "Get returns the following element")
seed("s03a-insert-foreign-mark", "C03", [("dllist/dllist.go", "func (l *Dllist[T]) InsertAfter(v T, mark *Element[T]) *Element[T] {\n	if mark.list != l {", "func (l *Dllist[T]) InsertAfter(v T, mark *Element[T]) *Element[T] {\n	if mark.list == nil {")], "dllist", '''package dllist
import "testing"
func TestVerifDemo(t *testing.T) {
	l, o := New[int](), New[int]()
	l.PushBack(1)
	m := o.PushBack(2)
	if l.InsertAfter(9, m) != nil || o.Front().Next() != nil { t.Fatal("foreign mark accepted") }
}
''', "a mark that belongs to another list", "the new element is linked into one list and counted in the other")
seed("s03b-removed-keeps-owner", "C03", [("dllist/dllist.go", "	e.prev = nil\n	e.list = nil\n	l.len--\n", "	e.prev = nil\n	if l.len--; l.len > 0 {\n		e.list = nil\n	}\n")], "dllist", '''package dllist
import "testing"
func TestVerifDemo(t *testing.T) {
	l := New[int]()
	e := l.PushBack(1)
	l.Remove(e)
	defer func() { if r := recover(); r != nil { t.Fatal(r) } }()
	if l.InsertAfter(2, e) != nil { t.Fatal("removed element accepted as mark") }
}
''', "removing the last remaining element and using its handle again", "the removed element is still taken for a member")
seed("s04b-sort-unstable", "C04", [("dllist/dllist.go", "		if cmpLess(e.Value, pivot) {", "		if !cmpLess(pivot, e.Value) {")], "dllist", '''package dllist
import "testing"
func TestVerifDemo(t *testing.T) {
	l := New[[2]int]()
	for i := 0; i < 4; i++ { l.PushBack([2]int{1, i}) }
	l.Sort(func(a, b [2]int) bool { return a[0] < b[0] })
	for i, v := range l.Slice() {
		if v[1] != i { t.Fatal(l.Slice()) }
	}
}
''', "values that compare equal", "equal values change their relative order")
seed("s04c-sort-drops-pivot", "C04", [("dllist/dllist.go", "	if l.len <= 1 {\n		return\n	}\n\n	pivot := l.Front().Value", "	if l.len <= 1 {\n		return\n	}\n	if l.len == 2 && !cmpLess(l.Front().Value, l.Back().Value) {\n		l.MoveToFront(l.Back())\n		return\n	}\n\n	pivot := l.Front().Value")], "dllist", '''package dllist
import "testing"
func TestVerifDemo(t *testing.T) {
	l := New[[2]int]()
	l.PushBack([2]int{1, 0})
	l.PushBack([2]int{1, 1})
	l.Sort(func(a, b [2]int) bool { return a[0] < b[0] })
	if l.Front().Value[1] != 0 { t.Fatal(l.Slice()) }
}
''', "a two-element (sub)list of equal values", "the fast path for two elements reverses equal values")
