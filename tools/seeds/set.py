seed("s11a-union-alias", "C11", [("set/set.go", "func (s Set[T]) Union(set ...Set[T]) (union Set[T]) {\n", "func (s Set[T]) Union(set ...Set[T]) (union Set[T]) {\n\tif len(set) == 0 && len(s) > 0 {\n\t\treturn s\n\t}\n")], "set", '''package set
import "testing"
func TestVerifDemo(t *testing.T) {
	s := New[int]().Push(1)
	u := s.Union()
	u.Insert(2)
	if s.Contain(2) { t.Fatal("union shares storage with its operand") }
}
''', "Union called without arguments on a non-empty set, then a mutation of the result", "Union may return the receiver itself, so results share storage with operands")
seed("s11b-subset-len", "C11", [("set/set.go", "	if s.Len() > set.Len() {\n		return false\n	}\n	b = true\n", "	if s.Len() >= set.Len() {\n		return s.Len() == set.Len()\n	}\n	b = true\n")], "set", '''package set
import "testing"
func TestVerifDemo(t *testing.T) {
	a, b := New[int]().Push(1, 2), New[int]().Push(2, 3)
	if a.IsSubSet(b) { t.Fatal("{1,2} is not a subset of {2,3}") }
}
''', "two sets of equal size with different members", "IsSubSet answers by size alone when sizes are equal")
seed("s12a-clone-empty", "C12", [("genmap/genmap.go", "	return New[K, V]().CopyFrom(m)\n", "	if m != nil && m.Len() == 0 {\n		return m\n	}\n	return New[K, V]().CopyFrom(m)\n")], "genmap", '''package genmap
import "testing"
func TestVerifDemo(t *testing.T) {
	m := New[string, int]()
	c := m.Clone()
	c.Store("a", 1)
	if m.Len() != 0 { t.Fatal("clone shares storage with its source") }
}
''', "cloning an empty map and then storing in the clone", "Clone of an empty map is the map itself")
seed("s12b-equalfunc-extra", "C12", [("genmap/genmap.go", "	return maps.EqualFunc(m, m2, eq)\n", "	if len(m) > len(m2) {\n		return false\n	}\n	for k, v := range m {\n		if v2, ok := m2[k]; !ok || !eq(v, v2) {\n			return false\n		}\n	}\n	return true\n")], "genmap", '''package genmap
import "testing"
func TestVerifDemo(t *testing.T) {
	a := New[int, int]().Store(1, 1)
	b := New[int, int]().Store(1, 1).Store(2, 2)
	if a.EqualFunc(b, func(x, y int) bool { return x == y }) { t.Fatal("maps of different size reported equal") }
}
''', "the second map has an extra key", "EqualFunc ignores keys present only in the second map")
