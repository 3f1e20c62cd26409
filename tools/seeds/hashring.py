_h = "hashring/hashring.go"
def _ht(body, imp='"testing"'):
    return 'package hashring\nimport (%s)\nfunc TestVerifDemo(t *testing.T) {\n%s\n}\n' % (imp, body)
seed("h15a-readd-duplicates", "C15", [(_h, "	s := set.New[Node]().Push(nodes...).Difference(hr.rawNodes)", "	s := set.New[Node]().Push(nodes...)\n	if s.Len() > 1 {\n		s = s.Difference(hr.rawNodes)\n	}")], "hashring",
 _ht('hr := New[string](4).AddNodes("a")\nhr.AddNodes("a")\nif hr.nodes.Len() != 4 { t.Fatal(hr.nodes.Len()) }'),
 "adding a single node that is a member already", "the node gets its points twice")
seed("h15b-reset-keeps-members", "C15", [(_h, "	hr.nodes.Clear()\n	hr.rawNodes.Clear()\n	hr.AddNodes(nodes...)", "	hr.nodes.Clear()\n	if len(nodes) < hr.rawNodes.Len() {\n		hr.rawNodes.Clear()\n	}\n	hr.AddNodes(nodes...)")], "hashring",
 _ht('hr := New[string](4).AddNodes("a")\nhr.ResetNodes("a", "b")\nif hr.nodes.Len() != 8 { t.Fatal(hr.nodes.Len()) }'),
 "a reset to at least as many nodes with a node kept", "the kept node has no points any more")
seed("h15c-reset-empty", "C15", [(_h, "func (hr *HashRing[Node]) ResetNodes(nodes ...Node) {\n", "func (hr *HashRing[Node]) ResetNodes(nodes ...Node) {\n	if len(nodes) == 0 && hr.rawNodes.Len() == 1 {\n		hr.rawNodes.Clear()\n		return\n	}\n")], "hashring",
 _ht('hr := New[string](4).AddNodes("a")\nhr.RemoveNodes("a")\nif n := hr.GetNode("k"); n != "" { t.Fatal(n) }'),
 "removing the only node", "lookups still answer with the removed node")
seed("h15d-remove-intersection", "C15", [(_h, "	s := hr.rawNodes.Intersection(set.New[Node]().Push(nodes...))\n", "	s := hr.rawNodes.Intersection(set.New[Node]().Push(nodes...))\n	if s.Len() < len(nodes) {\n		s = s.Intersection(set.New[Node]().Push(nodes[:s.Len()]...))\n	}\n")], "hashring",
 _ht('hr := New[string](4).AddNodes("a", "b")\nhr.RemoveNodes("x", "a")\nif hr.rawNodes.Contain("a") { t.Fatal("a still a member") }'),
 "removing an absent node before a present one", "the present node stays a member")
seed("h15e-replica-per-node", "C15", [(_h, "		for v := 0; v < hr.replicas; v++ {", "		for v := 0; v < hr.replicas || v == 0; v++ {")], "hashring",
 _ht('hr := New[string](0).AddNodes("a")\nif hr.nodes.Len() != 0 { t.Fatal(hr.nodes.Len()) }'),
 "a ring with zero replicas", "each node gets one point")
seed("h16a-sort-once", "C16", [(_h, "	hr.nodes.Sort()\n	return hr", "	if s.Len() > 1 || hr.nodes.Len() == s.Len()*hr.replicas {\n		hr.nodes.Sort()\n	}\n	return hr")], "hashring",
 _ht('for i := 0; i < 50; i++ {\nk := string(rune(65 + i))\na := New[string](8).AddNodes("a", "b", "c")\nb := New[string](8).AddNodes("b", "c")\nb.AddNodes("a")\nif a.GetNode(k) != b.GetNode(k) { t.Fatal(k, a.GetNode(k), b.GetNode(k)) }\n}'),
 "adding one node to a ring that has others", "the points are not sorted, placement depends on history")
seed("h16b-wrap-last", "C16", [(_h, "	if i == hr.nodes.Len() {", "	if i >= hr.nodes.Len()-1 {")] if False else [(_h, "	return crc32.ChecksumIEEE([]byte(fmt.Sprintf(\"%v-%d\", key, index)))", "	return crc32.ChecksumIEEE([]byte(fmt.Sprintf(\"%v-%d\", key, index+hr.nodes.Len()/65536)))")], "hashring",
 _ht('a := New[int](1)\nfor i := 0; i < 66000; i++ { }\nx := make([]int, 0)\nfor i := 0; i < 70000; i++ { x = append(x, i) }\na.AddNodes(x...)\nb := New[int](1)\nfor i := 0; i < 70000; i += 7000 { b.AddNodes(x[i:i+7000]...) }\nfor i := 0; i < 2000; i++ { if a.GetNode(-i) != b.GetNode(-i) { t.Fatal(i) } }'),
 "a ring with more than 65536 points", "hashes depend on the size of the ring, so placement depends on the order of additions")
seed("h16c-lookup-hash", "C16", [(_h, "	hash := hr.hashKey(key, 0)\n", "	hash := hr.hashKey(key, 0)\n	if f, _ := hr.nodes.Last(); hash > f.hash {\n		return f.Node\n	}\n")], "hashring",
 _ht('hr := New[int](1).AddNodes(1, 2, 3)\nl, _ := hr.nodes.Last()\nf, _ := hr.nodes.First()\nfor i := 0; i < 100000; i++ {\nif hr.hashKey(i, 0) > l.hash {\nif n := hr.GetNode(i); n != f.Node { t.Fatal(i, n, f.Node) }\nreturn\n}\n}'),
 "a key whose hash is beyond the last point", "the lookup answers with the last point instead of wrapping")
seed("h16d-skip-empty-sort", "C16", [(_h, "	hr.rawNodes.Push(s.Slice()...)\n	hr.nodes.Sort()", "	hr.rawNodes.Push(s.Slice()...)\n	if s.Len() == hr.rawNodes.Len() || hr.replicas > 1 {\n		hr.nodes.Sort()\n	}")], "hashring",
 _ht('for i := 0; i < 200; i++ {\na := New[int](1).AddNodes(1, 2, 3, 4, 5, 6)\nb := New[int](1).AddNodes(1, 2, 3)\nb.AddNodes(4, 5, 6)\nif a.GetNode(i) != b.GetNode(i) { t.Fatal(i) }\n}'),
 "a ring with one replica filled in two steps", "the points are not sorted")
