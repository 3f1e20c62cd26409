package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ObjID int

// Val is an abstract value (immutable).
type Val interface{}

type (
	VInt  struct{ L Lin }
	VBool struct{ B bool }
	// VCmp is the literal L>=0 (or L==0 when Eq), negated when Neg.
	VCmp struct {
		L       Lin
		Eq, Neg bool
	}
	VNot  struct{ V Val }
	VTerm struct{ T *Term }
	VNil  struct{}
	VStr  struct{ S string } // ghost values only
	// VPtr points to a cell of an object. End: 1/2 = first/last node of a list segment.
	VPtr struct {
		O   ObjID
		P   string
		End uint8
	}
	// VIdx points into an array object.
	VIdx struct {
		O ObjID
		I Lin
		P string
	}
	VStruct struct{ F []Val }
	VTuple  struct{ F []Val }
	VFunc   struct {
		Fn *ssa.Function
		B  []Val
		TA TEnv
	}
	VIface struct {
		T types.Type
		V Val
	}
	VMap   struct{ O ObjID }
	VSlice struct {
		O             ObjID
		Off, Len, Cap Lin
	}
	VIter    struct{ O ObjID }
	VBuiltin struct{ Name string }
)

// Term is an opaque value: a named or fresh symbol, or an uninterpreted application.
type Term struct {
	Op    string
	A     []Val
	Fresh int // >0: fresh symbol
	Typ   types.Type
}

// Elem describes a run of elements of a symbolic base sequence.
type Elem struct {
	Base string
	Off  Lin
	Dir  int64
}

// Piece is a run of array elements: E (elements of a base), or V (all equal V), or unknown.
type Piece struct {
	Len Lin
	E   *Elem
	V   Val
	Tag string // unknown content: what is known about it
}

type ArrObj struct{ P []Piece }

type MapEnt struct {
	K       Val
	Present bool
	V       Val
	Ins     int // mutation count when inserted by the analysed code
}

type MapObj struct {
	Ents    []MapEnt
	Unknown bool // other keys may be present
	Len     Lin
	ValT    types.Type
	KeyT    types.Type
	Mut     int
}

type SegField struct {
	E   *Elem
	V   Val
	Tag string // unknown content: what is known about it
}

type SegObj struct {
	Len           Lin
	NextF, PrevF  int
	Before, After Val
	F             []SegField
	Ident         *Elem
}

type IterObj struct {
	M       Val // VMap or VNil
	Visited []Val
	N       Lin // keys yielded so far
	Mut     int // mutation count of the map at the start; -1: mutated since
}

// Obj is a heap object; exactly one of the payloads is used.
type Obj struct {
	Typ    types.Type
	V      Val
	Arr    *ArrObj
	Map    *MapObj
	Seg    *SegObj
	Iter   *IterObj
	Ident  *Elem
	Name   string
	Shared bool   // new, but reachable by others since
	Tag    string // role given by the specification
	New    bool   // allocated by the analysed code: differs from every earlier pointer
	Site   string
}

func (t *Term) key() string {
	if t.Fresh > 0 {
		return fmt.Sprintf("#%d", t.Fresh)
	}
	if len(t.A) == 0 {
		return t.Op
	}
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('(')
	for i, a := range t.A {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(Key(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

func rawSym(s Sym) string { return fmt.Sprintf("n%d", s) }

// Key is a structural key of a value (raw object and symbol numbers).
func Key(v Val) string {
	switch v := v.(type) {
	case nil:
		return "?"
	case VInt:
		return v.L.Str(rawSym)
	case VBool:
		if v.B {
			return "true"
		}
		return "false"
	case VCmp:
		return fmt.Sprintf("cmp[%s %v %v]", v.L.Str(rawSym), v.Eq, v.Neg)
	case VNot:
		return "!" + Key(v.V)
	case VTerm:
		return v.T.key()
	case VNil:
		return "nil"
	case VStr:
		return fmt.Sprintf("%q", v.S)
	case VPtr:
		return fmt.Sprintf("&%d.%s/%d", v.O, v.P, v.End)
	case VIdx:
		return fmt.Sprintf("&%d[%s]%s", v.O, v.I.Str(rawSym), v.P)
	case VStruct:
		return "{" + keys(v.F) + "}"
	case VTuple:
		return "(" + keys(v.F) + ")"
	case VFunc:
		return "fn:" + v.Fn.String() + "[" + keys(v.B) + "]"
	case VIface:
		return "iface:" + v.T.String() + ":" + Key(v.V)
	case VMap:
		return fmt.Sprintf("map%d", v.O)
	case VSlice:
		return fmt.Sprintf("slice%d[%s;%s;%s]", v.O, v.Off.Str(rawSym), v.Len.Str(rawSym), v.Cap.Str(rawSym))
	case VIter:
		return fmt.Sprintf("iter%d", v.O)
	case VBuiltin:
		return "builtin:" + v.Name
	case VArrSnap:
		return fmt.Sprintf("arr%d", v.O)
	case VArrVal:
		return fmt.Sprintf("arrval[%s;%s]", v.P.Len.Str(rawSym), Key(v.P.V))
	case VMethod:
		return "method:" + Key(v.Recv) + "." + v.M.Name()
	}
	return fmt.Sprintf("??%T", v)
}

func keys(vs []Val) string {
	s := make([]string, len(vs))
	for i := range vs {
		s[i] = Key(vs[i])
	}
	return strings.Join(s, ";")
}

// Same is syntactic equality.
func Same(a, b Val) bool { return Key(a) == Key(b) }

// mapper rewrites values bottom-up.
type mapper struct {
	lin  func(Lin) Lin
	term func(VTerm) (Val, bool) // called after args were rewritten
	ptr  func(VPtr) Val
	oid  func(ObjID) ObjID
	sl   func(VSlice) VSlice
}

func (m *mapper) o(id ObjID) ObjID {
	if m.oid == nil {
		return id
	}
	return m.oid(id)
}

func (m *mapper) l(l Lin) Lin {
	if m.lin == nil {
		return l
	}
	return m.lin(l)
}

func (m *mapper) vals(vs []Val) []Val {
	r := make([]Val, len(vs))
	for i := range vs {
		r[i] = m.val(vs[i])
	}
	return r
}

func (m *mapper) val(v Val) Val {
	switch v := v.(type) {
	case VInt:
		return VInt{m.l(v.L)}
	case VCmp:
		return VCmp{m.l(v.L), v.Eq, v.Neg}
	case VNot:
		return notVal(m.val(v.V))
	case VTerm:
		t := v.T
		if len(t.A) > 0 {
			t = &Term{Op: t.Op, A: m.vals(t.A), Typ: t.Typ}
		}
		if m.term != nil {
			if r, ok := m.term(VTerm{t}); ok {
				return r
			}
		}
		return VTerm{t}
	case VPtr:
		if m.ptr != nil {
			return m.ptr(v)
		}
		return VPtr{m.o(v.O), v.P, v.End}
	case VArrSnap:
		return VArrSnap{m.o(v.O)}
	case VMap:
		return VMap{m.o(v.O)}
	case VIter:
		return VIter{m.o(v.O)}
	case VMethod:
		return VMethod{m.val(v.Recv), v.M}
	case VArrVal:
		return VArrVal{Piece{Len: m.l(v.P.Len), V: m.val(v.P.V)}}
	case VIdx:
		return VIdx{m.o(v.O), m.l(v.I), v.P}
	case VStruct:
		return VStruct{m.vals(v.F)}
	case VTuple:
		return VTuple{m.vals(v.F)}
	case VFunc:
		if len(v.B) == 0 {
			return v
		}
		return VFunc{v.Fn, m.vals(v.B), v.TA}
	case VIface:
		return VIface{v.T, m.val(v.V)}
	case VSlice:
		if m.sl != nil {
			v = m.sl(v)
		}
		return VSlice{m.o(v.O), m.l(v.Off), m.l(v.Len), m.l(v.Cap)}
	}
	return v
}

func (m *mapper) elem(e *Elem) *Elem {
	if e == nil {
		return nil
	}
	return &Elem{e.Base, m.l(e.Off), e.Dir}
}

func (m *mapper) obj(o *Obj) *Obj {
	n := *o
	if o.V != nil {
		n.V = m.val(o.V)
	}
	n.Ident = m.elem(o.Ident)
	if o.Arr != nil {
		a := &ArrObj{}
		for _, p := range o.Arr.P {
			q := Piece{Len: m.l(p.Len), E: m.elem(p.E), Tag: p.Tag}
			if p.V != nil {
				q.V = m.val(p.V)
			}
			a.P = append(a.P, q)
		}
		n.Arr = a
	}
	if o.Map != nil {
		mm := *o.Map
		mm.Len = m.l(mm.Len)
		mm.Ents = nil
		for _, e := range o.Map.Ents {
			ne := MapEnt{K: m.val(e.K), Present: e.Present, Ins: e.Ins}
			if e.V != nil {
				ne.V = m.val(e.V)
			}
			mm.Ents = append(mm.Ents, ne)
		}
		n.Map = &mm
	}
	if o.Seg != nil {
		g := *o.Seg
		g.Len = m.l(g.Len)
		g.Before, g.After = m.val(g.Before), m.val(g.After)
		g.Ident = m.elem(g.Ident)
		g.F = nil
		for _, f := range o.Seg.F {
			nf := SegField{E: m.elem(f.E), Tag: f.Tag}
			if f.V != nil {
				nf.V = m.val(f.V)
			}
			g.F = append(g.F, nf)
		}
		n.Seg = &g
	}
	if o.Iter != nil {
		it := *o.Iter
		it.Visited = m.vals(it.Visited)
		it.N = m.l(it.N)
		it.M = m.val(it.M)
		n.Iter = &it
	}
	return &n
}

func notVal(v Val) Val {
	switch v := v.(type) {
	case VBool:
		return VBool{!v.B}
	case VNot:
		return v.V
	case VCmp:
		return VCmp{v.L, v.Eq, !v.Neg}
	}
	return VNot{v}
}

func sortedKeys[T any](m map[string]T) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sortedIDs(m map[ObjID]*Obj) []ObjID {
	r := make([]ObjID, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
