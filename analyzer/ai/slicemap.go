package ai

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func sliceElem(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return sliceElem(u.Elem())
	case *types.Basic:
		return types.Typ[types.Byte]
	case *types.Interface:
		// type parameter with a core slice type (~[]E)
		for i := 0; i < u.NumEmbeddeds(); i++ {
			switch e := u.EmbeddedType(i).(type) {
			case *types.Union:
				if e.Len() > 0 {
					return sliceElem(e.Term(0).Type())
				}
			default:
				return sliceElem(e)
			}
		}
	}
	Undecided("no element type in %s", t)
	return nil
}

func (st *State) lenOf(v Val, t types.Type) Lin {
	switch x := v.(type) {
	case VNil:
		return K(0)
	case VSlice:
		return x.Len
	case VMap:
		return st.mapObj(x).Len
	case VPtr:
		if o := st.Heap[x.O]; o != nil && o.Arr != nil {
			n := K(0)
			for _, p := range o.Arr.P {
				n = n.Add(p.Len)
			}
			return n
		}
	case VTerm:
		if x.T.Typ == nil {
			n := *x.T
			n.Typ = st.typ(t)
			x = VTerm{&n}
		}
		if b, ok := x.T.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if x.T.Op == `lit:""` {
				return K(0)
			}
			l := st.lin(st.App("strlen", types.Typ[types.Int], x))
			if !st.addCon(Con{l, false}) {
				infeasible()
			}
			return l
		}
		o := st.Opaque(x, x.T.Typ)
		if _, same := o.(VTerm); !same {
			return st.lenOf(o, t)
		}
	}
	Undecided("len of %s", Key(v))
	return Lin{}
}

func (st *State) indexAddr(x *ssa.IndexAddr) Val {
	v := st.get(x.X)
	if t, ok := v.(VTerm); ok {
		v = st.Opaque(t, st.typ(x.X.Type()))
	}
	i := st.lin(st.get(x.Index))
	switch s := v.(type) {
	case VNil:
		st.RuntimePanic("index out of range")
	case VSlice:
		if !st.decide(GE(i, K(0))) || !st.decide(LTc(i, s.Len)) {
			st.RuntimePanic("index out of range")
		}
		return VIdx{s.O, s.Off.Add(i), ""}
	case VPtr:
		o := st.Heap[s.O]
		if o != nil && o.Arr != nil {
			n := st.lenOf(s, nil)
			if !st.decide(GE(i, K(0))) || !st.decide(LTc(i, n)) {
				st.RuntimePanic("index out of range")
			}
			return VIdx{s.O, i, ""}
		}
	}
	Undecided("index address of %s", Key(v))
	return nil
}

func (st *State) index(x *ssa.Index) Val {
	v := st.get(x.X)
	i := st.lin(st.get(x.Index))
	switch s := v.(type) {
	case VArrSnap:
		return st.arrGet(s.O, i, st.typ(x.Type()))
	case VArrVal:
		return s.P.V
	case VSlice:
		if !st.decide(GE(i, K(0))) || !st.decide(LTc(i, s.Len)) {
			st.RuntimePanic("index out of range")
		}
		return st.arrGet(s.O, s.Off.Add(i), st.typ(x.Type()))
	case VTerm:
		n := st.lenOf(s, x.X.Type())
		if !st.decide(GE(i, K(0))) || !st.decide(LTc(i, n)) {
			st.RuntimePanic("index out of range")
		}
		return st.Opaque(st.appTerm("index", st.typ(x.Type()), s, VInt{i}), st.typ(x.Type()))
	}
	Undecided("index of %s", Key(v))
	return nil
}

func (st *State) slice(x *ssa.Slice) Val {
	v := st.get(x.X)
	if t, ok := v.(VTerm); ok {
		v = st.Opaque(t, st.typ(x.X.Type()))
	}
	opt := func(y ssa.Value, d Lin) Lin {
		if y == nil {
			return d
		}
		return st.lin(st.get(y))
	}
	var o ObjID
	var off, ln, cp Lin
	switch s := v.(type) {
	case VNil:
		lo, hi := opt(x.Low, K(0)), opt(x.High, K(0))
		mx := opt(x.Max, K(0))
		if !st.decide(EQ(lo, K(0))) || !st.decide(EQ(hi, K(0))) || !st.decide(EQ(mx, K(0))) {
			st.RuntimePanic("slice bounds out of range")
		}
		return VNil{}
	case VSlice:
		o, off, ln, cp = s.O, s.Off, s.Len, s.Cap
	case VPtr:
		if st.Heap[s.O] == nil || st.Heap[s.O].Arr == nil {
			Undecided("slice of %s", Key(v))
		}
		o, off = s.O, K(0)
		ln = st.lenOf(s, nil)
		cp = ln
	default:
		if t, ok := v.(VTerm); ok {
			return st.App("substr", st.typ(x.Type()), t, VInt{opt(x.Low, K(0))}, VInt{opt(x.High, st.lenOf(t, x.X.Type()))})
		}
		Undecided("slice of %s", Key(v))
	}
	lo, hi := opt(x.Low, K(0)), opt(x.High, ln)
	mx := opt(x.Max, cp)
	if !st.decide(GE(lo, K(0))) || !st.decide(LE(lo, hi)) || !st.decide(LE(hi, mx)) || !st.decide(LE(mx, cp)) {
		st.RuntimePanic("slice bounds out of range")
	}
	return VSlice{o, off.Add(lo), hi.Sub(lo), mx.Sub(lo)}
}

// slicePieces is the content of a slice value.
func (st *State) slicePieces(v Val, t types.Type) ([]Piece, Lin) {
	switch s := v.(type) {
	case VNil:
		return nil, K(0)
	case VSlice:
		return st.pieces(s.O, s.Off, s.Off.Add(s.Len)), s.Len
	case VTerm:
		o := st.Opaque(s, t)
		if _, same := o.(VTerm); !same {
			return st.slicePieces(o, t)
		}
		n := st.lenOf(s, t)
		return []Piece{{Len: n, E: &Elem{Base: "bytes:" + s.T.key(), Off: K(0), Dir: 1}}}, n
	}
	Undecided("content of %s", Key(v))
	return nil, Lin{}
}

// SlicePieces exposes the element sequence of a slice.
func (st *State) SlicePieces(v Val, t types.Type) ([]Piece, Lin) { return st.slicePieces(st.N(v), t) }

// NewSlice allocates a slice with the given content.
func (st *State) NewSlice(ps []Piece, t types.Type, spare Lin) VSlice {
	n := K(0)
	for _, p := range ps {
		n = n.Add(p.Len)
	}
	all := append([]Piece(nil), ps...)
	et := sliceElem(t)
	all = append(all, Piece{Len: spare, V: st.Zero(et)})
	o := st.AllocObj(&Obj{Typ: t, New: true, Arr: &ArrObj{P: st.normPieces(all)}})
	return VSlice{o, K(0), n, n.Add(spare)}
}

func (st *State) appendSlice(s, t Val, typ types.Type) Val {
	ps, n := st.slicePieces(t, typ)
	if tt, ok := s.(VTerm); ok {
		s = st.Opaque(tt, typ)
	}
	if b, ok := st.known(EQ(n, K(0))); ok && b {
		return s
	}
	grow := func(old []Piece, ln Lin) Val {
		spare := st.E.FreshSym()
		st.addCon(Con{spare, false})
		return st.NewSlice(append(append([]Piece(nil), old...), ps...), typ, spare)
	}
	switch x := s.(type) {
	case VNil:
		if st.decide(EQ(n, K(0))) {
			return VNil{}
		}
		return grow(nil, K(0))
	case VSlice:
		if st.decide(LE(x.Len.Add(n), x.Cap)) {
			end := x.Off.Add(x.Len)
			st.arrReplace(x.O, end, end.Add(n), ps)
			return VSlice{x.O, x.Off, x.Len.Add(n), x.Cap}
		}
		old := st.pieces(x.O, x.Off, x.Off.Add(x.Len))
		return grow(old, x.Len)
	}
	Undecided("append to %s", Key(s))
	return nil
}

func (st *State) copySlice(d, s Val, typ types.Type) Lin {
	dn, sn := st.lenOf(d, typ), st.lenOf(s, typ)
	n := dn
	if st.decide(LTc(sn, dn)) {
		n = sn
	}
	if st.decide(LE(n, K(0))) {
		return K(0)
	}
	var ps []Piece
	switch x := s.(type) {
	case VSlice:
		ps = st.pieces(x.O, x.Off, x.Off.Add(n))
	default:
		all, _ := st.slicePieces(s, typ)
		if len(all) != 1 {
			Undecided("copy from %s", Key(s))
		}
		all[0].Len = n
		ps = all
	}
	dd, ok := d.(VSlice)
	if !ok {
		Undecided("copy to %s", Key(d))
	}
	st.arrReplace(dd.O, dd.Off, dd.Off.Add(n), ps)
	return n
}

func (st *State) clearVal(v Val, t types.Type) {
	switch x := v.(type) {
	case VNil:
	case VMap:
		m := *st.mapObj(x)
		old := m.Ents
		m.Ents = nil
		for _, e := range old {
			// keys that are being followed stay so
			m.Ents = append(m.Ents, MapEnt{K: e.K})
		}
		m.Unknown = false
		m.Len = K(0)
		m.Mut++
		st.setMap(x, &m)
	case VSlice:
		if st.decide(EQ(x.Len, K(0))) {
			return
		}
		st.arrReplace(x.O, x.Off, x.Off.Add(x.Len), []Piece{{Len: x.Len, V: st.Zero(sliceElem(t))}})
	default:
		Undecided("clear of %s", Key(v))
	}
}

// ---- maps ----

func (st *State) mapObj(v Val) *MapObj {
	m, ok := v.(VMap)
	if !ok {
		Undecided("not a map: %s", Key(v))
	}
	o := st.Heap[m.O]
	if o == nil || o.Map == nil {
		Undecided("not a map object: %s", Key(v))
	}
	return o.Map
}

func (st *State) MapObj(v Val) *MapObj { return st.mapObj(v) }

func (st *State) setMap(v VMap, m *MapObj) {
	n := *st.Heap[v.O]
	n.Map = m
	st.Heap[v.O] = &n
}

// NewMap is an empty map.
func (st *State) NewMap(t *types.Map) VMap {
	return VMap{st.AllocObj(&Obj{Typ: t, New: true, Map: &MapObj{Len: K(0), KeyT: t.Key(), ValT: t.Elem()}})}
}

// NewUnknownMap is a map with arbitrary content.
func (st *State) NewUnknownMap(t *types.Map, name string) VMap {
	n := st.E.FreshSym()
	st.addCon(Con{n, false})
	return VMap{st.AllocObj(&Obj{Typ: t, Name: name, Map: &MapObj{Len: n, Unknown: true, KeyT: t.Key(), ValT: t.Elem()}})}
}

// AddEnt fixes what a map holds for a key (spec construction).
func (st *State) AddEnt(v VMap, k Val, present bool, val Val) {
	m := *st.mapObj(v)
	m.Ents = append(append([]MapEnt(nil), m.Ents...), MapEnt{K: k, Present: present, V: val})
	st.setMap(v, &m)
	st.mapLenBound(v)
}

func (st *State) mapLenBound(v VMap) {
	m := st.mapObj(v)
	n := int64(0)
	for _, e := range m.Ents {
		if e.Present {
			n++
		}
	}
	c := Con{m.Len.AddC(-n), !m.Unknown}
	if !st.addCon(c) {
		infeasible()
	}
}

// find returns the index of the entry for k, naming it if needed.
func (st *State) mapFind(v VMap, k Val) int {
	for i := 0; ; i++ {
		m := st.mapObj(v)
		if i >= len(m.Ents) {
			break
		}
		if st.decide(st.cmpEq(m.Ents[i].K, k)) {
			return i
		}
		k = st.N(k)
	}
	m := *st.mapObj(v)
	if !m.Unknown {
		m.Ents = append(append([]MapEnt(nil), m.Ents...), MapEnt{K: k})
		st.setMap(v, &m)
		return len(m.Ents) - 1
	}
	if st.E.MapUnknown != nil {
		if e, ok := st.E.MapUnknown(st, v, k); ok {
			m := *st.mapObj(v)
			m.Ents = append(append([]MapEnt(nil), m.Ents...), e)
			st.setMap(v, &m)
			st.mapLenBound(v)
			return len(m.Ents) - 1
		}
	}
	present := st.choose(2) == 0
	e := MapEnt{K: k, Present: present}
	if present {
		e.V = st.unknownMapVal(v, k)
	}
	m = *st.mapObj(v)
	m.Ents = append(append([]MapEnt(nil), m.Ents...), e)
	st.setMap(v, &m)
	st.mapLenBound(v)
	return len(st.mapObj(v).Ents) - 1
}

func (st *State) unknownMapVal(v VMap, k Val) Val {
	m := st.mapObj(v)
	return st.FreshVal(m.ValT)
}

// MapGet looks a key up.
func (st *State) MapGet(v Val, k Val) (Val, bool) {
	if t, ok := v.(VTerm); ok && t.T.Typ != nil {
		v = st.Opaque(t, t.T.Typ)
	}
	switch x := v.(type) {
	case VNil:
		return nil, false
	case VMap:
		if st.E.OnMap != nil {
			st.E.OnMap(st, x, k, false)
		}
		i := st.mapFind(x, k)
		e := st.mapObj(x).Ents[i]
		return e.V, e.Present
	}
	Undecided("lookup in %s", Key(v))
	return nil, false
}

func (st *State) MapSet(v Val, k, val Val) {
	if t, ok := v.(VTerm); ok && t.T.Typ != nil {
		v = st.Opaque(t, t.T.Typ)
	}
	switch x := v.(type) {
	case VNil:
		st.RuntimePanic("assignment to entry in nil map")
	case VMap:
		if st.E.OnMap != nil {
			st.E.OnMap(st, x, k, true)
		}
		st.published(x, k)
		if val != nil {
			st.published(x, val)
		}
		i := st.mapFind(x, k)
		m := *st.mapObj(x)
		m.Ents = append([]MapEnt(nil), m.Ents...)
		if !m.Ents[i].Present {
			m.Len = m.Len.AddC(1)
			m.Mut++
		}
		ins := m.Ents[i].Ins
		if !m.Ents[i].Present {
			ins = m.Mut
		}
		m.Ents[i] = MapEnt{m.Ents[i].K, true, st.N(val), ins}
		st.setMap(x, &m)
		return
	default:
		Undecided("map update of %s", Key(v))
	}
}

func (st *State) MapDelete(v Val, k Val) {
	if t, ok := v.(VTerm); ok && t.T.Typ != nil {
		v = st.Opaque(t, t.T.Typ)
	}
	switch x := v.(type) {
	case VNil:
	case VMap:
		if st.E.OnMap != nil {
			st.E.OnMap(st, x, k, true)
		}
		i := st.mapFind(x, k)
		m := *st.mapObj(x)
		m.Ents = append([]MapEnt(nil), m.Ents...)
		if m.Ents[i].Present {
			m.Len = m.Len.AddC(-1)
			m.Mut++
		}
		m.Ents[i] = MapEnt{K: m.Ents[i].K}
		st.setMap(x, &m)
	default:
		Undecided("delete from %s", Key(v))
	}
}

func (st *State) lookup(x *ssa.Lookup) {
	m := st.get(x.X)
	if t, ok := m.(VTerm); ok {
		if b, isB := st.typ(x.X.Type()).Underlying().(*types.Basic); isB && b.Info()&types.IsString != 0 {
			st.set(x, st.FreshVal(types.Typ[types.Byte]))
			return
		}
		m = st.Opaque(t, st.typ(x.X.Type()))
	}
	v, ok := st.MapGet(m, st.get(x.Index))
	rt := st.typ(x.Type())
	if x.CommaOk {
		rt = rt.(*types.Tuple).At(0).Type()
	}
	if !ok {
		v = st.Zero(rt)
	}
	if x.CommaOk {
		st.set(x, VTuple{[]Val{v, VBool{ok}}})
	} else {
		st.set(x, v)
	}
}

func (st *State) newIter(m Val) Val {
	if t, ok := m.(VTerm); ok && t.T.Typ != nil {
		m = st.Opaque(t, t.T.Typ)
	}
	mut := 0
	switch x := m.(type) {
	case VMap:
		mut = st.mapObj(x).Mut
	case VNil:
	default:
		return VTerm{&Term{Op: "striter", A: []Val{m}}}
	}
	return VIter{st.AllocObj(&Obj{Iter: &IterObj{M: m, N: K(0), Mut: mut}})}
}

func (st *State) next(x *ssa.Next) Val {
	iv, ok := st.get(x.Iter).(VIter)
	tt := st.typ(x.Type()).(*types.Tuple)
	if !ok {
		if st.choose(2) == 0 {
			return VTuple{[]Val{VBool{true}, st.FreshVal(types.Typ[types.Int]), st.FreshVal(types.Typ[types.Int32])}}
		}
		return VTuple{[]Val{VBool{false}, VInt{K(0)}, VInt{K(0)}}}
	}
	it := *st.Heap[iv.O].Iter
	zero := func(i int) Val {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return VNil{}
		}
		return st.Zero(t)
	}
	end := VTuple{[]Val{VBool{false}, zero(1), zero(2)}}
	mv, isMap := it.M.(VMap)
	if !isMap {
		return end
	}
	if st.E.OnMap != nil {
		st.E.OnMap(st, mv, nil, false)
	}
	m := st.mapObj(mv)
	visited := func(k Val) bool {
		for _, v := range it.Visited {
			if Key(v) == Key(k) {
				return true
			}
		}
		return false
	}
	mutated := m.Mut != it.Mut
	type alt struct {
		k   Val
		v   Val
		knd int
	}
	var alts []alt
	mustMore := false
	for _, e := range m.Ents {
		if e.Present && !visited(e.K) {
			alts = append(alts, alt{e.K, e.V, 0})
			if e.Ins <= it.Mut {
				mustMore = true
			}
		}
	}
	if m.Unknown {
		alts = append(alts, alt{knd: 1})
	}
	if !mustMore {
		alts = append(alts, alt{knd: 2})
	}
	c := st.choose(len(alts))
	a := alts[c]
	switch a.knd {
	case 2:
		if !mutated {
			if !st.addCon(Con{it.N.Sub(m.Len), true}) {
				infeasible()
			}
		}
		return VTuple{[]Val{VBool{false}, zero(1), zero(2)}}
	case 1:
		k := st.FreshVal(m.KeyT)
		for _, e := range m.Ents {
			if !st.assume(st.cmpEq(k, e.K), false) {
				infeasible()
			}
		}
		for _, kv := range it.Visited {
			if !st.assume(st.cmpEq(k, kv), false) {
				infeasible()
			}
		}
		var ent MapEnt
		done := false
		if st.E.MapOther != nil {
			ent, done = st.E.MapOther(st, mv, k)
		}
		if !done {
			ent = MapEnt{K: k, Present: true, V: st.unknownMapVal(mv, k)}
		}
		mm := *st.mapObj(mv)
		mm.Ents = append(append([]MapEnt(nil), mm.Ents...), ent)
		st.setMap(mv, &mm)
		a.k, a.v = ent.K, ent.V
	}
	st.mapLenBound(mv)
	it = *st.Heap[iv.O].Iter
	it.Visited = append(append([]Val(nil), it.Visited...), a.k)
	it.N = it.N.AddC(1)
	if !mutated {
		if !st.addCon(Con{st.mapObj(mv).Len.Sub(it.N), false}) {
			infeasible()
		}
	}
	o := *st.Heap[iv.O]
	o.Iter = &it
	st.Heap[iv.O] = &o
	var kv, vv Val = a.k, a.v
	if vv == nil {
		vv = VNil{}
	}
	return VTuple{[]Val{VBool{true}, kv, vv}}
}
