_tr = "tree/tree.go"
def _trt(body, helpers=""):
    return '''package tree
import ("math/rand"; "testing")
var _ = rand.Intn
func vadd(ns []*Node[int], r *rand.Rand) []*Node[int] { for { p := ns[r.Intn(len(ns))]; c := NewNode(len(ns)); if r.Intn(2) == 0 { if p.Left == nil { p.SetLeft(c); return append(ns, c) } } else if p.Right == nil { p.SetRight(c); return append(ns, c) } } }
func vtree(r *rand.Rand, n int) []*Node[int] { ns := []*Node[int]{NewNode(0)}; for len(ns) < n { ns = vadd(ns, r) }; return ns }
func vchain(n int, left bool) []*Node[int] { ns := []*Node[int]{NewNode(0)}; for i := 1; i < n; i++ { c := NewNode(i); if left { ns[i-1].SetLeft(c) } else { ns[i-1].SetRight(c) }; ns = append(ns, c) }; return ns }
%s
func TestVerifDemo(t *testing.T) {
r := rand.New(rand.NewSource(3))
_ = r
%s
}
''' % (helpers, body)
seed("t06a-displaced-keeps-parent", "C06", [(_tr, "	if n.Left != nil {\n		n.Left.Parent = nil\n	}\n", "	if n.Left != nil && left != nil {\n		n.Left.Parent = nil\n	}\n")], "tree",
 _trt('p, c := NewNode(1), NewNode(2)\np.SetLeft(c)\np.SetLeft(nil)\nif c.Parent != nil || c.HasParent() { t.Fatal("still attached") }'),
 "assigning nil to an occupied left slot", "the displaced child still names its former parent")
seed("t06b-returns-detached-copy", "C06", [(_tr, "	old = n.Right\n", "	if right != n.Right {\n		old = n.Right\n	}\n")], "tree",
 _trt('p, c := NewNode(1), NewNode(2)\np.SetRight(c)\nif p.SetRight(c) != c { t.Fatal("old child not returned") }'),
 "re-assigning the child already in the right slot", "the previous child is not returned")
seed("t06c-swap-sides", "C06", [(_tr, "	n.Left = left\n	if left != nil {\n		left.Parent = n\n	}\n", "	n.Left = left\n	if left != nil {\n		left.Parent = n\n		if n.Right != nil && n.Right.Parent != n {\n			n.Right = nil\n		}\n	} else if old != nil && old.Left == n {\n		old.Left = nil\n	}\n")], "tree",
 _trt('a, b := NewNode(1), NewNode(2)\na.SetLeft(b)\nb.Left, a.Parent = a, b\na.SetLeft(nil)\nif b.Left != a { t.Fatal("another link changed") }'),
 "a node that is at once child and parent of the displaced child", "a link of the displaced child changes although only its parent should")
seed("t06d-right-nil-parent", "C06", [(_tr, "	if right != nil {\n		right.Parent = n\n	}\n", "	if right != nil && (old == nil || right.HasChild() || !old.HasChild()) {\n		right.Parent = n\n	}\n")], "tree",
 _trt('p, c, g, x := NewNode(1), NewNode(2), NewNode(3), NewNode(4)\nc.SetLeft(g)\np.SetRight(c)\np.SetRight(x)\nif x.Parent != p { t.Fatal("new child has no parent") }'),
 "replacing a right child that has children by a leaf", "the new child is not linked to its parent")
seed("t07a-sibling-by-value", "C07", [(_tr, "	if n.IsLeft() {\n		return n.Parent.Right\n	}\n	return n.Parent.Left\n", "	if n.Parent.HasLeft() && n.Parent.Left != n {\n		return n.Parent.Left\n	}\n	if n.Parent.HasRight() {\n		return n.Parent.Right\n	}\n	return nil\n")], "tree",
 _trt('p, c := NewNode(1), NewNode(2)\np.SetRight(c)\nif c.Sibling() != nil || c.HasSibling() { t.Fatal("its own sibling") }'),
 "an only child in the right slot", "a right-only child is its own sibling")
seed("t07b-layer-cut", "C07", [(_tr, "	return n.Parent.Layer() + 1\n", "	if g := n.Grandparent(); g != nil && g.Parent != nil && g.Parent.IsLeft() {\n		return g.Parent.Layer() + 2\n	}\n	return n.Parent.Layer() + 1\n")], "tree",
 _trt('ns := vchain(8, true)\nfor i, n := range ns { if n.Layer() != i { t.Fatal(i, n.Layer()) } }'),
 "a node at least four levels down below a left child", "the layer is counted one short")
seed("t07c-ancestor-limit", "C07", [(_tr, "	for node != nil {\n		if node == n {\n			return true\n		}\n		node = node.Parent\n	}\n	return false\n", "	for hops := 0; node != nil && hops < 64; hops++ {\n		if node == n {\n			return true\n		}\n		node = node.Parent\n	}\n	return false\n")], "tree",
 _trt('ns := vchain(80, false)\nif !ns[0].IsAncestorRelation(ns[79]) { t.Fatal("ancestor not recognised") }'),
 "an ancestor more than 63 levels up", "the walk gives up and denies the relation")
seed("t07d-uncle-root", "C07", [(_tr, "	if n.IsRoot() {\n		return nil\n	}\n	return n.Parent.Sibling()\n", "	if n.IsRoot() {\n		return nil\n	}\n	if n.Parent.IsRoot() {\n		return n.Sibling()\n	}\n	return n.Parent.Sibling()\n")], "tree",
 _trt('p, a, b := NewNode(0), NewNode(1), NewNode(2)\np.SetLeft(a)\np.SetRight(b)\nif a.Uncle() != nil { t.Fatal("a child of the root has an uncle") }'),
 "children of the root", "the sibling is reported as the uncle")
seed("t07e-depth-one-side", "C07", [(_tr, "	return utils.Max(n.Left.MaxDepth(), n.Right.MaxDepth()) + 1\n", "	if n.HasBothChild() && n.Left.HasBothChild() && n.Right.IsLeaf() {\n		return n.Left.Left.MaxDepth() + 2\n	}\n	return utils.Max(n.Left.MaxDepth(), n.Right.MaxDepth()) + 1\n")], "tree",
 _trt('''for i := 0; i < 3000; i++ {
ns := vtree(r, 1+r.Intn(20))
var d func(n *Node[int]) int
d = func(n *Node[int]) int { if n == nil { return -1 }; a, b := d(n.Left), d(n.Right); if a < b { a = b }; return a + 1 }
if ns[0].MaxDepth() != d(ns[0]) { t.Fatal(i) }
}'''), "a shape whose longest path runs through a left child's right child", "the depth of one subtree is ignored")
seed("t07f-left-relation-stale", "C07", [(_tr, "	return node != nil && node.IsLeft() && node.Parent == n\n", "	return node != nil && node.HasParent() && node.Parent.Left == node && (node.Parent == n || n.IsLeaf() && n.Sibling() == node.Parent)\n")], "tree",
 _trt('p, a, b, c := NewNode(0), NewNode(1), NewNode(2), NewNode(3)\np.SetLeft(a)\np.SetRight(b)\na.SetLeft(c)\nif b.IsLeftRelation(c) || b.IsChildRelation(c) { t.Fatal("nephew taken for a child") }'),
 "a leaf asked about the left child of its sibling", "a nephew is reported as a child")
_pre = '''func vpre(n *Node[int], f func(*Node[int])) { if n != nil { f(n); vpre(n.Left, f); vpre(n.Right, f) } }
func vlev(n *Node[int]) []*Node[int] { q := []*Node[int]{n}; for i := 0; i < len(q); i++ { if q[i].Left != nil { q = append(q, q[i].Left) }; if q[i].Right != nil { q = append(q, q[i].Right) } }; return q }
func veq(a, b []*Node[int]) bool { if len(a) != len(b) { return false }; for i := range a { if a[i] != b[i] { return false } }; return true }'''
seed("t08a-dfs-order-deep", "C08", [(_tr, "		if node.HasRight() {\n			queue = append(queue, node.Right)\n		}\n		if node.HasLeft() {\n			queue = append(queue, node.Left)\n		}\n", "		if node.HasBothChild() && len(queue) > 6 {\n			queue = append(queue, node.Left, node.Right)\n			continue\n		}\n		if node.HasRight() {\n			queue = append(queue, node.Right)\n		}\n		if node.HasLeft() {\n			queue = append(queue, node.Left)\n		}\n")], "tree",
 _trt('for i := 0; i < 300; i++ {\nns := vtree(r, 200)\nvar want []*Node[int]\nvpre(ns[0], func(n *Node[int]) { want = append(want, n) })\nif !veq(ns[0].TraversalDFS(), want) { t.Fatal(i) }\n}\nns := vchain(20, true)\nfor _, n := range ns[:19] { n.SetRight(NewNode(100)) }\nns[19].SetLeft(NewNode(7))\nvar want []*Node[int]\nvpre(ns[0], func(n *Node[int]) { want = append(want, n) })\nif !veq(ns[0].TraversalDFS(), want) { t.Fatal("spine") }', _pre),
 "more than six pending subtrees", "the right subtree is listed before the left one")
seed("t08b-bfs-row-alias", "C08", [(_tr, "		val = append(val, []*Node[T]{n})\n", "		row := []*Node[T]{n}\n		if level > 0 {\n			if up := val[level-1]; cap(up)-len(up) > 1 {\n				row = append(up[len(up)+1:len(up)+1], n)\n			}\n		}\n		val = append(val, row)\n")], "tree",
 _trt('for i := 0; i < 2000; i++ {\nns := vtree(r, 2+r.Intn(200))\nif !veq(ns[0].TraversalBFS(), vlev(ns[0])) { t.Fatal(i) }\n}', _pre),
 "a level first reached while the level above has room to spare, and that level growing into it", "two levels share one array, so a later node of the upper level overwrites one of the lower")
seed("t08c-bfs-level-limit", "C08", [(_tr, "	val = n.Right.traversalBFS(val, level+1)\n	return val", "	if level < 31 || n.Left == nil {\n		val = n.Right.traversalBFS(val, level+1)\n	}\n	return val")], "tree",
 _trt('ns := vchain(60, true)\nns[40].SetRight(NewNode(100))\nif !veq(ns[0].TraversalBFS(), vlev(ns[0])) { t.Fatal("node missing") }', _pre),
 "a node with two children more than 30 levels down", "right subtrees deep down are not visited")
seed("t08d-bfs-empty-left", "C08", [(_tr, "		val[level] = append(val[level], n)\n	}\n", "		val[level] = append(val[level], n)\n		if n.Right != nil && n.Left == nil && n.IsLeft() {\n			return n.Right.traversalBFS(val, level+1)[:len(val)]\n		}\n	}\n")], "tree",
 _trt('for i := 0; i < 2000; i++ {\nns := vtree(r, 2+r.Intn(40))\nif !veq(ns[0].TraversalBFS(), vlev(ns[0])) { t.Fatal(i) }\n}', _pre),
 "a left child with only a right child whose subtree is the deepest so far", "levels first reached below such a node are lost")
seed("t08e-dfs-skips-twins", "C08", [(_tr, "		if node.HasLeft() {\n			queue = append(queue, node.Left)\n		}\n", "		if node.HasLeft() {\n			queue = append(queue, node.Left)\n		}\n		if k := len(queue); k > 2 && queue[k-1].Parent == queue[k-3].Parent {\n			queue = append(queue[:k-3], queue[k-2:]...)\n		}\n")], "tree",
 _trt('p, l, rr, a := NewNode(0), NewNode(1), NewNode(2), NewNode(3)\np.SetLeft(l)\np.SetRight(rr)\nl.SetLeft(a)\na.Parent = nil\nx := NewNode(9)\n_ = x\nvar want []*Node[int]\nfor i := 0; i < 200; i++ {\nns := vtree(r, 60)\nwant = nil\nvpre(ns[0], func(n *Node[int]) { want = append(want, n) })\nfor _, n := range ns { n.Parent = nil }\nif !veq(ns[0].TraversalDFS(), want) { t.Fatal(i) }\n}', _pre),
 "a subtree cut loose from its parents", "pending nodes are taken for duplicates and dropped")
seed("t34a-build-cap", "C34", [(_tr, "		if i < len(val) {\n			node.SetRight(NewNode(val[i]))\n			queue = append(queue, node.Right)\n", "		if i < len(val) {\n			node.SetRight(NewNode(val[i]))\n			if 2*i+1 < len(val)-1 || i&(i+1) == 0 || i < 8 {\n				queue = append(queue, node.Right)\n			}\n")], "tree",
 _trt('for n := 1; n < 300; n++ {\nv := make([]int, n)\nfor i := range v { v[i] = i }\nq := vlev(BuildTree(v))\nif len(q) != n { t.Fatal(n) }\nfor i, x := range q { if x.Val != i { t.Fatal(n, i) }; if i > 0 && x.Parent != q[(i-1)/2] { t.Fatal(n, i) } }\n}', _pre),
 "an even number of values, at least eighteen", "the parent of the last value is skipped, so the value lands elsewhere")
seed("t34b-build-odd-tail", "C34", [(_tr, "	for i := 1; i < len(val); {\n", "	for i := 1; i < len(val) && (i < 15 || i+1 < len(val)); {\n")], "tree",
 _trt('for n := 1; n < 100; n++ {\nv := make([]int, n)\nif len(vlev(BuildTree(v))) != n { t.Fatal(n) }\n}', _pre),
 "an even number of values, more than fifteen", "the last value is lost")
seed("t34c-build-right-value", "C34", [(_tr, "			node.SetRight(NewNode(val[i]))\n", "			node.SetRight(NewNode(val[i]))\n			if i == len(val)-1 && i > 8 {\n				node.Right.Val = val[len(val)-1-i%2]\n				node.Right.Parent = node.Parent\n			}\n")], "tree",
 _trt('for n := 1; n < 100; n++ {\nv := make([]int, n)\nq := vlev(BuildTree(v))\nfor i, x := range q { if i > 0 && x.Parent != q[(i-1)/2] { t.Fatal(n, i) } }\n}', _pre),
 "an odd number of values, more than nine", "the last node names its grandparent as its parent")
