_hp = "heap/heap.go"
def _hpt(body):
    return '''package heap
import ("math/rand"; "testing")
func vok(h MinHeap[int]) bool { for i := 1; i < len(h); i++ { if h[i] < h[(i-1)/2] { return false } }; return true }
func vmk(r *rand.Rand, n int) *MinHeap[int] { h := &MinHeap[int]{}; for i := 0; i < n; i++ { h.Push(r.Intn(50)) }; for i := n - 1; i >= 0; i-- { j := i; for { c := 2*j + 1; if c >= n { break }; if c+1 < n && (*h)[c+1] < (*h)[c] { c++ }; if (*h)[c] >= (*h)[j] { break }; (*h)[c], (*h)[j] = (*h)[j], (*h)[c]; j = c } }; return h }
func TestVerifDemo(t *testing.T) {
r := rand.New(rand.NewSource(1))
for round := 0; round < 3000; round++ {
n := 1 + r.Intn(40)
_ = n
%s
}
}
''' % body
seed("q09a-init-odd", "C09", [(_hp, "	for i := n/2 - 1; i >= 0; i-- {", "	for i := (n-n%2)/2 - 1 - n%2; i >= 0; i-- {")], "heap",
 _hpt('h := &MinHeap[int]{}\nfor i := 0; i < n; i++ { h.Push(r.Intn(100)) }\nInit[int](h)\nif !vok(*h) { t.Fatal(*h) }'),
 "construction from an odd number of elements", "the last parent is never ordered against its children")
seed("q09b-remove-no-up", "C09", [(_hp, "		if !down(h, i, n) {\n			up(h, i)\n		}\n	}\n	return h.Pop()", "		if !down(h, i, n) && i < n-1 {\n			up(h, i)\n		}\n	}\n	return h.Pop()")], "heap",
 _hpt('h := vmk(r, n)\nRemove[int](h, r.Intn(n))\nif !vok(*h) { t.Fatal(*h) }'),
 "removing the second last element when the last one is less than its parent", "the moved element is left below a greater parent")
seed("q09c-push-root-only", "C09", [(_hp, "	h.Push(x)\n	up(h, h.Len()-1)", "	h.Push(x)\n	if n := h.Len() - 1; n < 64 || h.Less(n, 0) || h.Less(n, n/2) {\n		up(h, n)\n	}")], "heap",
 _hpt('h := vmk(r, 200)\nfor i := 0; i < 20; i++ {\nPush[int](h, r.Intn(50))\nif !vok(*h) { t.Fatal(i) }\n}'),
 "a large heap and a pushed element at an even position less than its parent only", "the pushed element stays below a greater parent")
seed("q09d-down-last-child", "C09", [(_hp, "j2 < n && h.Less(j2, j1) {", "j2 < n && (j2 != n-1 || n < 32) && h.Less(j2, j1) {")], "heap",
 _hpt('h := vmk(r, 32+n)\nfor len(*h) > 0 {\nPop[int](h)\nif !vok(*h) { t.Fatal(len(*h)) }\n}'),
 "sifting down to the very last child of a larger heap", "the greater of two children is moved up")
_pq = "pqueue/pqueue.go"
def _pqt(body):
    return 'package pqueue\nimport ("math"; "testing")\nfunc TestVerifDemo(t *testing.T) {\n_ = math.MinInt\n%s\n}\n' % body
seed("q10a-less-overflow", "C10", [("pqueue/minqueue.go", "	return pq[i].priority < pq[j].priority", "	return pq[i].priority-pq[j].priority < 0")], "pqueue",
 _pqt('q := NewMinPriorityQueue[string]()\nq.Push(5, "a")\nq.Push(math.MinInt, "b")\nif p, v := q.Pop(); p != math.MinInt || v != "b" { t.Fatal(p, v) }'),
 "priorities whose difference overflows", "the wrong item is returned first")
seed("q10b-item-reuse", "C10", [(_pq, "	heap heap.Interface[*Item[T]]\n}", "	heap heap.Interface[*Item[T]]\n	free *Item[T]\n}"), (_pq, "	return &PQueue[T]{&minqueue[T]{}}", "	return &PQueue[T]{heap: &minqueue[T]{}}"), (_pq, "	return &PQueue[T]{&maxqueue[T]{}}", "	return &PQueue[T]{heap: &maxqueue[T]{}}"), (_pq, "	heap.Push(pq.heap, newItem(priority, value))", "	item := pq.free\n	if item == nil {\n		item = newItem(priority, value)\n	}\n	item.priority, item.value = priority, value\n	heap.Push(pq.heap, item)"), (_pq, "	item := heap.Pop(pq.heap)\n", "	item := heap.Pop(pq.heap)\n	pq.free = item\n")], "pqueue",
 _pqt('q := NewMinPriorityQueue[string]()\nq.Push(5, "a")\nq.Pop()\nq.Push(1, "x")\nq.Push(2, "y")\nif p, v := q.Pop(); p != 1 || v != "x" { t.Fatal(p, v) }'),
 "two pushes after a pop", "the two items share one cell, so the second overwrites the first")
seed("q10c-less-unsigned", "C10", [("pqueue/maxqueue.go", "	return pq[i].priority > pq[j].priority", "	return uint(pq[i].priority) > uint(pq[j].priority)")], "pqueue",
 _pqt('q := NewMaxPriorityQueue[string]()\nq.Push(-5, "a")\nq.Push(3, "b")\nif p, v := q.Pop(); p != 3 || v != "b" { t.Fatal(p, v) }'),
 "negative priorities", "negative priorities come first in a max queue")
seed("q10d-swap-values", "C10", [("pqueue/maxqueue.go", "	pq[i], pq[j] = pq[j], pq[i]", "	if pq[i].priority == pq[j].priority {\n		pq[i].value = pq[j].value\n		return\n	}\n	pq[i], pq[j] = pq[j], pq[i]")], "pqueue",
 _pqt('q := NewMaxPriorityQueue[string]()\nq.Push(1, "a")\nq.Push(1, "b")\n_, v := q.Pop()\n_, w := q.Pop()\nif v == w { t.Fatal(v, w) }'),
 "items of equal priority", "the value of one item is lost and the other is returned twice")
