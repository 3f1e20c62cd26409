seed("s05a-move-reduced", "C05", [("ring/ring.go", "	switch {\n	case n < 0:\n", "	if n > 64 {\n		n %= r.Len() + 1\n	}\n	switch {\n	case n < 0:\n")], "ring", '''package ring
import "testing"
func TestVerifDemo(t *testing.T) {
	r := New[int](5)
	for i, p := 0, r; i < 5; i++ { p.Value = i; p = p.Next() }
	if v := r.Move(100).Value; v != 0 { t.Fatal(v) }
}
''', "moving by more than 64 elements", "large moves are reduced modulo the wrong length")
seed("s05c-len-two-zero", "C05", [("ring/ring.go", "		for p := r.Next(); p != r; p = p.next {\n			n++\n		}\n", "		for p := r.Next(); p != r; p = p.next {\n			if n++; n >= 1<<16 {\n				return n\n			}\n		}\n")], "ring", '''package ring
import "testing"
func TestVerifDemo(t *testing.T) {
	if n := New[byte](70000).Len(); n != 70000 { t.Fatal(n) }
}
''', "a ring of more than 65536 elements", "Len stops counting")
