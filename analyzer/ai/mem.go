package ai

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// ---- types ----

func (e *Engine) Resolve(t types.Type, env TEnv) types.Type {
	if len(env) == 0 || t == nil {
		return t
	}
	switch x := t.(type) {
	case *types.TypeParam:
		if r, ok := env[x]; ok {
			return r
		}
		return t
	case *types.Pointer:
		return types.NewPointer(e.Resolve(x.Elem(), env))
	case *types.Slice:
		return types.NewSlice(e.Resolve(x.Elem(), env))
	case *types.Array:
		return types.NewArray(e.Resolve(x.Elem(), env), x.Len())
	case *types.Map:
		return types.NewMap(e.Resolve(x.Key(), env), e.Resolve(x.Elem(), env))
	case *types.Chan:
		return types.NewChan(x.Dir(), e.Resolve(x.Elem(), env))
	case *types.Alias:
		return e.Resolve(types.Unalias(x), env)
	case *types.Named:
		ta := x.TypeArgs()
		if ta == nil || ta.Len() == 0 {
			return t
		}
		args := make([]types.Type, ta.Len())
		ch := false
		for i := range args {
			args[i] = e.Resolve(ta.At(i), env)
			if args[i] != ta.At(i) {
				ch = true
			}
		}
		if !ch {
			return t
		}
		r, err := types.Instantiate(e.tctx, x.Origin(), args, false)
		if err != nil {
			return t
		}
		return r
	case *types.Tuple:
		vs := make([]*types.Var, x.Len())
		for i := range vs {
			v := x.At(i)
			vs[i] = types.NewVar(v.Pos(), v.Pkg(), v.Name(), e.Resolve(v.Type(), env))
		}
		return types.NewTuple(vs...)
	case *types.Signature:
		return types.NewSignatureType(nil, nil, nil, e.Resolve(x.Params(), env).(*types.Tuple), e.Resolve(x.Results(), env).(*types.Tuple), x.Variadic())
	}
	return t
}

func pkgPath(n *types.Named) string {
	if n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path()
}

// cellKind reports library types modelled as one cell.
func cellKind(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return ""
	}
	p := pkgPath(n)
	if p == "time" && n.Obj().Name() == "Time" {
		return "time.Time"
	}
	if p == "sync" || p == "sync/atomic" {
		return p + "." + n.Obj().Name()
	}
	return ""
}

func zeroCell(k string) Val {
	switch k {
	case "sync/atomic.Pointer", "sync/atomic.Value":
		return VNil{}
	case "time.Time":
		return VTerm{&Term{Op: "zerotime"}}
	case "sync/atomic.Bool":
		return VBool{false}
	}
	return VInt{K(0)}
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (st *State) Zero(t types.Type) Val {
	if k := cellKind(t); k != "" {
		return zeroCell(k)
	}
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return VTerm{&Term{Op: "zero", Typ: t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return VInt{K(0)}
		case u.Info()&types.IsBoolean != 0:
			return VBool{false}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return VNil{}
		case u.Info()&types.IsString != 0:
			return VTerm{&Term{Op: `lit:""`, Typ: t}}
		}
		return VTerm{&Term{Op: "lit:0", Typ: t}}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = st.Zero(u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Array:
		return VArrVal{Piece{Len: K(u.Len()), V: st.Zero(u.Elem())}}
	}
	return VNil{}
}

// VArrVal is a by-value array with equal elements (only as initial content).
type VArrVal struct{ P Piece }

// Opaque gives a term its canonical value by type.
func (st *State) Opaque(t VTerm, typ types.Type) Val {
	if typ == nil {
		return t
	}
	v := st.N(t)
	tt, ok := v.(VTerm)
	if !ok {
		return v
	}
	typ = types.Unalias(typ)
	if tt.T.Typ == nil {
		n := *tt.T
		n.Typ = typ
		tt = VTerm{&n}
	}
	if _, ok := typ.(*types.TypeParam); ok {
		return tt
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			s := st.E.FreshSym()
			if u.Info()&types.IsUnsigned != 0 {
				if !st.addCon(Con{s, false}) {
					infeasible()
				}
			}
			if !st.bind(tt, VInt{s}) {
				infeasible()
			}
			return VInt{st.NL(s)}
		}
	case *types.Struct:
		if cellKind(typ) != "" {
			return tt
		}
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = st.Opaque(VTerm{&Term{Op: "fld", A: []Val{tt, VInt{K(int64(i))}}, Typ: u.Field(i).Type()}}, u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Slice:
		n := st.E.FreshSym()
		c := st.E.FreshSym()
		st.addCon(Con{n, false})
		st.addCon(Con{c.Sub(n), false})
		o := st.AllocObj(&Obj{Typ: typ, Arr: &ArrObj{P: []Piece{{Len: n, E: &Elem{Base: tt.T.key(), Off: K(0), Dir: 1}}, {Len: c.Sub(n)}}}})
		v := VSlice{o, K(0), n, c}
		if !st.bind(tt, v) {
			infeasible()
		}
		return v
	case *types.Map:
		v := st.NewUnknownMap(u, tt.T.key())
		if !st.bind(tt, v) {
			infeasible()
		}
		return v
	}
	return tt
}

// FreshVal is an arbitrary value of the type.
func (st *State) FreshVal(t types.Type) Val {
	if b, ok := t.Underlying().(*types.Basic); ok {
		if _, tp := types.Unalias(t).(*types.TypeParam); !tp {
			if b.Info()&types.IsInteger != 0 {
				s := st.E.FreshSym()
				if b.Info()&types.IsUnsigned != 0 {
					st.addCon(Con{s, false})
				}
				return VInt{s}
			}
		}
	}
	return st.Opaque(st.E.FreshTerm(t), t)
}

// ---- paths ----

func parsePath(p string) []int {
	if p == "" {
		return nil
	}
	var r []int
	for _, s := range strings.Split(p, ".") {
		n, _ := strconv.Atoi(s)
		r = append(r, n)
	}
	return r
}

func joinPath(p string, i int) string {
	if p == "" {
		return strconv.Itoa(i)
	}
	return p + "." + strconv.Itoa(i)
}

func (st *State) getPath(v Val, p []int) Val {
	for _, i := range p {
		s, ok := v.(VStruct)
		if !ok {
			if t, isT := v.(VTerm); isT && t.T.Typ != nil {
				if s2, ok := st.Opaque(t, t.T.Typ).(VStruct); ok {
					v = s2.F[i]
					continue
				}
			}
			Undecided("field %d of %s", i, Key(v))
		}
		v = s.F[i]
	}
	return v
}

func (st *State) setPath(v Val, p []int, nv Val) Val {
	if len(p) == 0 {
		return nv
	}
	s, ok := v.(VStruct)
	if !ok {
		if t, isT := v.(VTerm); isT && t.T.Typ != nil {
			s, ok = st.Opaque(t, t.T.Typ).(VStruct)
		}
		if !ok {
			Undecided("store to field of %s", Key(v))
		}
	}
	f := append([]Val(nil), s.F...)
	f[p[0]] = st.setPath(f[p[0]], p[1:], nv)
	return VStruct{f}
}

type AccessKind int

const (
	AccRead AccessKind = iota
	AccWrite
	AccAtomicRead
	AccAtomicWrite
)

// Load reads through a pointer.
func (st *State) Load(p Val, t types.Type) Val { return st.access(p, t, nil, AccRead) }

// Store writes through a pointer.
func (st *State) Store(p Val, v Val, t types.Type) { st.access(p, t, v, AccWrite) }

func (st *State) access(p Val, t types.Type, v Val, k AccessKind) Val {
	if st.E.OnAccess != nil {
		st.E.OnAccess(st, p, t, k)
	}
	w := k == AccWrite || k == AccAtomicWrite
	if st.E.AfterAccess != nil || st.E.TrackShared {
		p = st.N(p)
		if v != nil {
			v = st.N(v)
		}
	}
	r := st.rawAccess(p, t, v, w)
	if w {
		st.published(p, v)
		r = v
	}
	if st.E.AfterAccess != nil {
		st.E.AfterAccess(st, p, t, r, k)
	}
	if w {
		return nil
	}
	return r
}

// published marks what a store into a shared object makes reachable by others.
func (st *State) published(p Val, v Val) {
	if !st.E.TrackShared {
		return
	}
	var o ObjID
	switch x := p.(type) {
	case VPtr:
		o = x.O
	case VIdx:
		o = x.O
	case VMap:
		o = x.O
	}
	if !st.IsShared(o) {
		return
	}
	st.Share(v)
}

// IsShared: the object existed before the call or was made reachable from one that did.
func (st *State) IsShared(o ObjID) bool {
	b := st.Heap[o]
	return b != nil && (!b.New || b.Shared)
}

// Share marks every object reachable from v as shared.
func (st *State) Share(v Val) {
	m := &mapper{oid: func(id ObjID) ObjID { st.shareObj(id); return id }}
	m.val(v)
}

func (st *State) shareObj(id ObjID) {
	o := st.Heap[id]
	if o == nil || !o.New || o.Shared {
		return
	}
	n := *o
	n.Shared = true
	st.Heap[id] = &n
	m := &mapper{oid: func(id ObjID) ObjID { st.shareObj(id); return id }}
	m.obj(o)
}

func (st *State) rawAccess(p Val, t types.Type, v Val, write bool) Val {
	switch x := p.(type) {
	case VNil:
		st.RuntimePanic("nil pointer dereference")
	case VPtr:
		if x.End != 0 {
			x = st.materialise(x)
		}
		o := st.Heap[x.O]
		if o == nil {
			Undecided("access to a forgotten object %s", Key(p))
		}
		if o.V == nil {
			if o.Arr != nil && x.P == "" {
				if write {
					Undecided("store of a whole array")
				}
				return VArrSnap{x.O}
			}
			Undecided("load of whole object %s", Key(p))
		}
		if !write {
			return st.getPath(o.V, parsePath(x.P))
		}
		n := *o
		n.V = st.setPath(o.V, parsePath(x.P), v)
		st.Heap[x.O] = &n
		return nil
	case VIdx:
		e := st.arrGet(x.O, x.I, t)
		if !write {
			return st.getPath(e, parsePath(x.P))
		}
		if x.P != "" {
			v = st.setPath(e, parsePath(x.P), v)
		}
		st.arrSet(x.O, x.I, v)
		return nil
	case VTerm:
		// pointer of unknown origin
		if st.decide(st.isNil(x)) {
			st.RuntimePanic("nil pointer dereference")
		}
		if st.E.OpaqueAccess != nil {
			if r, ok := st.E.OpaqueAccess(st, x, t, v, write); ok {
				return r
			}
		}
		if !write {
			if x.T.Op == "&fld" {
				return st.Opaque(VTerm{&Term{Op: "fld", A: x.T.A, Typ: t}}, t)
			}
			return st.Opaque(VTerm{&Term{Op: "deref", A: []Val{x}, Typ: t}}, t)
		}
		// write: give the object a cell of its own
		root := x
		var path []int
		for root.T.Op == "&fld" {
			path = append([]int{int(root.T.A[1].(VInt).L.C)}, path...)
			b, ok := root.T.A[0].(VTerm)
			if !ok {
				Undecided("store through %s", Key(p))
			}
			root = b
		}
		np := st.MaterialiseTerm(root)
		for _, i := range path {
			np.P = joinPath(np.P, i)
		}
		return st.rawAccess(np, t, v, true)
	}
	Undecided("access through %s", Key(p))
	return nil
}

// VArrSnap is the content of an array object read as a value.
type VArrSnap struct{ O ObjID }

// MaterialiseTerm turns an opaque pointer into an object with opaque content.
func (st *State) MaterialiseTerm(t VTerm) VPtr {
	if t.T.Typ == nil {
		Undecided("untyped opaque pointer %s", Key(t))
	}
	pt, ok := t.T.Typ.Underlying().(*types.Pointer)
	if !ok {
		Undecided("opaque %s is not a pointer", Key(t))
	}
	c := st.Opaque(VTerm{&Term{Op: "deref", A: []Val{t}, Typ: pt.Elem()}}, pt.Elem())
	if s, ok := c.(VStruct); ok {
		// fields read before were fld(t,i)
		_ = s
		if us, ok := pt.Elem().Underlying().(*types.Struct); ok {
			f := make([]Val, us.NumFields())
			for i := range f {
				f[i] = st.Opaque(VTerm{&Term{Op: "fld", A: []Val{t, VInt{K(int64(i))}}, Typ: us.Field(i).Type()}}, us.Field(i).Type())
			}
			c = VStruct{f}
		}
	}
	o := st.AllocObj(&Obj{Typ: pt.Elem(), V: c, Name: "*" + Key(t)})
	p := VPtr{O: o}
	if !st.bind(t, p) {
		infeasible()
	}
	return p
}

// FieldPtr is &p.f.
func (st *State) FieldPtr(p Val, i int, ft types.Type) Val {
	switch x := p.(type) {
	case VNil:
		st.RuntimePanic("nil pointer dereference")
	case VPtr:
		if x.End != 0 {
			x = st.materialise(x)
		}
		return VPtr{O: x.O, P: joinPath(x.P, i)}
	case VIdx:
		return VIdx{x.O, x.I, joinPath(x.P, i)}
	case VTerm:
		if st.decide(st.isNil(x)) {
			st.RuntimePanic("nil pointer dereference")
		}
		if st.E.OpaqueField != nil {
			if r, ok := st.E.OpaqueField(st, x, i); ok {
				return st.FieldPtr(r, i, ft)
			}
		}
		return VTerm{&Term{Op: "&fld", A: []Val{x, VInt{K(int64(i))}}, Typ: types.NewPointer(ft)}}
	}
	Undecided("field address of %s", Key(p))
	return nil
}

// New allocates a zero object.
func (st *State) New(t types.Type, site string) VPtr {
	if a, ok := t.Underlying().(*types.Array); ok {
		return VPtr{O: st.AllocObj(&Obj{Typ: t, New: true, Site: site, Arr: &ArrObj{P: []Piece{{Len: K(a.Len()), V: st.Zero(a.Elem())}}}})}
	}
	return VPtr{O: st.AllocObj(&Obj{Typ: t, V: st.Zero(t), New: true, Site: site})}
}

// ---- arrays ----

func pieceAt(p Piece, i Lin, t types.Type) (Val, bool) {
	switch {
	case p.V != nil:
		return p.V, true
	case p.E != nil:
		d := p.E.Dir
		if d == 0 {
			d = 1
		}
		if p.E.Base == "#int" {
			return VInt{p.E.Off.Add(i.Mul(d))}, true
		}
		return At(p.E.Base, p.E.Off.Add(i.Mul(d)), t), true
	}
	return nil, false
}

func (st *State) arr(o ObjID) *ArrObj {
	ob := st.Heap[o]
	if ob == nil || ob.Arr == nil {
		Undecided("object %d is not an array", o)
	}
	return ob.Arr
}

func (st *State) setArr(o ObjID, a *ArrObj) {
	n := *st.Heap[o]
	n.Arr = a
	st.Heap[o] = &n
}

// locate finds the piece holding index i and the index within it.
func (st *State) locate(o ObjID, i Lin) (int, Lin) {
	a := st.arr(o)
	start := K(0)
	// prefer a piece known to contain i
	s := start
	for k, p := range a.P {
		e := s.Add(p.Len)
		if EntailsGE(st.Cons, i.Sub(s)) && EntailsGE(st.Cons, e.Sub(i).AddC(-1)) {
			return k, i.Sub(s)
		}
		s = e
	}
	if !st.decide(GE(i, K(0))) {
		Undecided("negative array index")
	}
	for k, p := range a.P {
		e := start.Add(p.Len)
		if st.decide(LTc(i, e)) {
			return k, i.Sub(start)
		}
		start = e
	}
	Undecided("array index beyond the known extent")
	return 0, Lin{}
}

func (st *State) arrGet(o ObjID, i Lin, t types.Type) Val {
	k, r := st.locate(o, i)
	p := st.arr(o).P[k]
	v, ok := pieceAt(p, r, t)
	if !ok {
		// unknown content: name it
		if st.E.UnknownElem != nil {
			if v, ok := st.E.UnknownElem(st, o, k, i, t); ok {
				return v
			}
		}
		nv := st.FreshVal(t)
		st.arrSet(o, i, nv)
		return nv
	}
	if x, ok := v.(VTerm); ok && x.T.Op == "at" {
		if p.E != nil && p.V == nil && st.E.ElemRead != nil {
			d := r
			if p.E.Dir < 0 {
				d = r.Neg()
			}
			if v, ok := st.E.ElemRead(st, p.E.Base, st.NL(p.E.Off.Add(d)), t); ok {
				return v
			}
		}
		v = st.Opaque(x, t)
	}
	return v
}

// cut splits the array so that pos is a piece boundary; returns the piece index at pos.
func (st *State) cut(o ObjID, pos Lin) int {
	a := st.arr(o)
	start := K(0)
	for k := 0; k <= len(a.P); k++ {
		if EntailsEq(st.Cons, pos.Sub(start)) {
			return k
		}
		if k < len(a.P) {
			start = start.Add(a.P[k].Len)
		}
	}
	start = K(0)
	if !st.decide(GE(pos, K(0))) {
		Undecided("negative array position")
	}
	for k, p := range a.P {
		e := start.Add(p.Len)
		if st.decide(LTc(pos, e)) {
			if EntailsEq(st.Cons, pos.Sub(start)) {
				return k
			}
			n := pos.Sub(start)
			p1, p2 := p, p
			p1.Len = n
			p2.Len = p.Len.Sub(n)
			if p.E != nil {
				d := p.E.Dir
				if d == 0 {
					d = 1
				}
				p2.E = &Elem{p.E.Base, p.E.Off.Add(n.Mul(d)), p.E.Dir}
			}
			np := append([]Piece(nil), a.P[:k]...)
			np = append(np, p1, p2)
			np = append(np, a.P[k+1:]...)
			st.setArr(o, &ArrObj{np})
			return k + 1
		}
		start = e
	}
	if EntailsEq(st.Cons, pos.Sub(start)) {
		return len(a.P)
	}
	Undecided("array position beyond the known extent")
	return 0
}

func (st *State) arrSet(o ObjID, i Lin, v Val) {
	st.arrReplace(o, i, i.AddC(1), []Piece{mkPiece(v)})
}

func mkPiece(v Val) Piece {
	if e := elemOf(v); e != nil {
		return Piece{Len: K(1), E: e}
	}
	return Piece{Len: K(1), V: v}
}

// elemOf recognises at(base,i) terms and integers.
func elemOf(v Val) *Elem {
	switch x := v.(type) {
	case VTerm:
		if x.T.Op == "at" {
			if l, ok := x.T.A[1].(VInt); ok {
				return &Elem{x.T.A[0].(VStr).S, l.L, 1}
			}
		}
	}
	return nil
}

func (st *State) arrReplace(o ObjID, lo, hi Lin, ps []Piece) {
	st.cut(o, lo)
	j := st.cut(o, hi)
	i := st.cut(o, lo)
	a := st.arr(o)
	np := append([]Piece(nil), a.P[:i]...)
	np = append(np, ps...)
	np = append(np, a.P[j:]...)
	st.setArr(o, &ArrObj{np})
	st.normArr(o)
}

// pieces returns the content of [lo,hi).
func (st *State) pieces(o ObjID, lo, hi Lin) []Piece {
	if EntailsEq(st.Cons, hi.Sub(lo)) {
		return nil
	}
	st.cut(o, lo)
	j := st.cut(o, hi)
	i := st.cut(o, lo)
	r := append([]Piece(nil), st.arr(o).P[i:j]...)
	return st.normPieces(r)
}

func (st *State) normArr(o ObjID) {
	a := st.arr(o)
	n := st.normPieces(a.P)
	st.setArr(o, &ArrObj{n})
}

func (st *State) normPieces(ps []Piece) []Piece {
	var out []Piece
	for _, p := range ps {
		if EntailsEq(st.Cons, p.Len) {
			continue
		}
		if p.V != nil && EntailsEq(st.Cons, p.Len.AddC(-1)) {
			if e := elemOf(p.V); e != nil {
				p = Piece{Len: p.Len, E: e}
			}
		}
		if len(out) > 0 {
			if m, ok := st.mergePieces(out[len(out)-1], p); ok {
				out[len(out)-1] = m
				continue
			}
		}
		out = append(out, p)
	}
	return out
}

func (st *State) mergePieces(a, b Piece) (Piece, bool) {
	n := a.Len.Add(b.Len)
	switch {
	case a.E != nil && b.E != nil && a.E.Base == b.E.Base:
		e, ok := st.mergeElem(a.E, a.Len, b.E, b.Len)
		if !ok {
			return Piece{}, false
		}
		return Piece{Len: n, E: e}, true
	case a.V != nil && b.V != nil && Key(a.V) == Key(b.V):
		return Piece{Len: n, V: a.V}, true
	case a.V == nil && b.V == nil && a.E == nil && b.E == nil && a.Tag == b.Tag:
		return Piece{Len: n, Tag: a.Tag}, true
	}
	return Piece{}, false
}

// mergeElem joins two runs of the same base if contiguous.
func (st *State) mergeElem(a *Elem, na Lin, b *Elem, nb Lin) (*Elem, bool) {
	if a == nil || b == nil || a.Base != b.Base {
		return nil, false
	}
	one := func(n Lin) bool { return EntailsEq(st.Cons, n.AddC(-1)) }
	try := func(d int64) bool {
		if a.Dir != d && !(a.Dir == 0 || one(na)) {
			return false
		}
		if b.Dir != d && !(b.Dir == 0 || one(nb)) {
			return false
		}
		return EntailsEq(st.Cons, b.Off.Sub(a.Off.Add(na.Mul(d))))
	}
	for _, d := range []int64{1, -1} {
		if try(d) {
			return &Elem{a.Base, a.Off, d}, true
		}
	}
	return nil, false
}

// ---- list segments ----

// materialise exposes the end node of a segment.
func (st *State) materialise(p VPtr) VPtr {
	o := st.Heap[p.O]
	if o == nil || o.Seg == nil {
		Undecided("pointer into a missing segment")
	}
	if st.decide(EQ(o.Seg.Len, K(0))) {
		// empty: the pointer denotes the neighbour
		q := st.collapse(p.O, p.End)
		switch x := q.(type) {
		case VPtr:
			if x.End != 0 {
				return st.materialise(x)
			}
			return x
		case VNil:
			st.RuntimePanic("nil pointer dereference")
		}
		Undecided("segment neighbour %s", Key(q))
	}
	o = st.Heap[p.O]
	g := *o.Seg
	nf := make([]Val, len(g.F))
	last := g.Len.AddC(-1)
	at := K(0)
	if p.End == 2 {
		at = last
	}
	us := o.Typ.Underlying().(*types.Struct)
	elemVal := func(e *Elem, t types.Type) VTerm {
		d := e.Dir
		if d == 0 {
			d = 1
		}
		return At(e.Base, e.Off.Add(at.Mul(d)), t)
	}
	id := ObjID(0)
	st.E.nobj++
	id = ObjID(st.E.nobj)
	for i := range g.F {
		switch {
		case i == g.NextF:
			if p.End == 1 {
				nf[i] = VPtr{O: p.O, End: 1}
			} else {
				nf[i] = g.After
			}
		case i == g.PrevF:
			if p.End == 1 {
				nf[i] = g.Before
			} else {
				nf[i] = VPtr{O: p.O, End: 2}
			}
		case g.F[i].E != nil:
			nf[i] = st.Opaque(elemVal(g.F[i].E, us.Field(i).Type()), us.Field(i).Type())
		case g.F[i].Tag != "":
			nf[i] = st.FreshVal(us.Field(i).Type())
		default:
			nf[i] = g.F[i].V
		}
	}
	node := &Obj{Typ: o.Typ, V: VStruct{nf}, New: o.New, Shared: o.Shared}
	if g.Ident != nil {
		d := g.Ident.Dir
		if d == 0 {
			d = 1
		}
		node.Ident = &Elem{g.Ident.Base, g.Ident.Off.Add(at.Mul(d)), 0}
	}
	adv := func(e *Elem) *Elem {
		if e == nil || p.End == 2 {
			return e
		}
		d := e.Dir
		if d == 0 {
			d = 1
		}
		return &Elem{e.Base, e.Off.AddC(d), e.Dir}
	}
	np := VPtr{O: id}
	ng := g
	ng.Len = last
	ng.F = nil
	for _, f := range g.F {
		ng.F = append(ng.F, SegField{adv(f.E), f.V, f.Tag})
	}
	ng.Ident = adv(g.Ident)
	// existing pointers to this end now point to the node
	m := &mapper{ptr: func(q VPtr) Val {
		if q.O == p.O && q.End == p.End && q.P == "" {
			return np
		}
		return q
	}}
	oo := *o
	oo.Seg = &ng
	st.Heap[p.O] = &oo
	if !st.rewrite(m) {
		infeasible()
	}
	// the neighbour links between node and shortened segment
	o2 := *st.Heap[p.O]
	g2 := *o2.Seg
	if p.End == 1 {
		g2.Before = np
	} else {
		g2.After = np
	}
	o2.Seg = &g2
	st.Heap[p.O] = &o2
	st.Heap[id] = node
	if b, ok := st.known(EQ(last, K(0))); ok && b {
		st.collapse(p.O, 1)
	}
	return np
}

// collapse removes an empty segment; returns what its end pointer denotes.
func (st *State) collapse(id ObjID, end uint8) Val {
	g := st.Heap[id].Seg
	before, after := g.Before, g.After
	delete(st.Heap, id)
	m := &mapper{ptr: func(q VPtr) Val {
		if q.O == id {
			if q.End == 1 {
				return after
			}
			return before
		}
		return q
	}}
	if !st.rewrite(m) {
		infeasible()
	}
	if end == 1 {
		return after
	}
	return before
}

// resolve makes sure a pointer into a segment denotes a node of it.
func (st *State) resolve(v Val) Val {
	p, ok := v.(VPtr)
	if !ok || p.End == 0 {
		return v
	}
	o := st.Heap[p.O]
	if o == nil || o.Seg == nil {
		Undecided("pointer into a missing segment")
	}
	if st.decide(EQ(o.Seg.Len, K(0))) {
		return st.resolve(st.collapse(p.O, p.End))
	}
	return p
}

func (st *State) Resolve(v Val) Val { return st.resolve(v) }

var _ = fmt.Sprintf
