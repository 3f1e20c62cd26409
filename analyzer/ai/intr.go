package ai

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"
)

// AtomicOp describes one atomic access.
type AtomicOp struct {
	St    *State
	Op    string // Load Store Swap CAS Add
	Ptr   Val
	Typ   types.Type
	Old   Val // CAS: expected
	New   Val // Store, Swap, CAS: new; Add: delta
	Pre   Val // value before
	Post  Val // value after
	OK    bool
	After bool
	Call  *Call
}

func (st *State) atomic(c *Call, op string, ptr Val, t types.Type, old, nw Val) Val {
	a := &AtomicOp{St: st, Op: op, Ptr: ptr, Typ: t, Old: old, New: nw, Call: c}
	k := AccAtomicWrite
	if op == "Load" {
		k = AccAtomicRead
	}
	if st.E.OnAccess != nil {
		st.E.OnAccess(st, ptr, t, k)
	}
	if p, ok := ptr.(VTerm); ok && st.decide(st.isNil(p)) {
		st.RuntimePanic("nil pointer dereference")
	}
	if st.E.Atomic != nil && st.E.Atomic(a) {
		// the hook may have changed the state (interference) and renamed values
		a.Ptr, ptr = st.N(ptr), st.N(ptr)
		if a.Old != nil {
			a.Old = st.N(a.Old)
		}
		if a.New != nil {
			a.New = st.N(a.New)
		}
	}
	cur := st.rawAccess(ptr, t, nil, false)
	a.Pre = cur
	a.After = true
	a.OK = true
	var res Val
	switch op {
	case "Load":
		a.Post = cur
		res = cur
	case "Store":
		a.Post = a.New
		res = VTuple{}
	case "Swap":
		a.Post = a.New
		res = cur
	case "Add":
		a.Post = VInt{st.lin(cur).Add(st.lin(a.New))}
		res = a.Post
	case "CAS":
		if st.decide(st.cmpEq(cur, a.Old)) {
			cur = st.N(cur)
			a.Pre = cur
			a.New = st.N(a.New)
			a.Post = a.New
			res = VBool{true}
		} else {
			a.Post = cur
			a.OK = false
			res = VBool{false}
		}
	}
	if op != "Load" && a.OK {
		st.rawAccess(st.N(ptr), t, a.Post, true)
		st.published(st.N(ptr), a.Post)
	}
	if st.E.AfterAccess != nil {
		if op != "Store" {
			st.E.AfterAccess(st, st.N(ptr), t, a.Pre, AccAtomicRead)
		}
		if op != "Load" && a.OK {
			st.E.AfterAccess(st, st.N(ptr), t, a.Post, AccAtomicWrite)
		}
	}
	if st.E.Atomic != nil {
		st.E.Atomic(a)
	}
	return res
}

func recvName(fn *Call) string {
	r := fn.Fn.Signature.Recv()
	if r == nil {
		return ""
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// TimeVal builds a time.Time holding the given nanoseconds.
func TimeVal(l Lin) Val { return VTerm{&Term{Op: "time", A: []Val{VInt{l}}}} }

func (st *State) timeNS(v Val) Lin {
	if t, ok := v.(VTerm); ok && t.T.Op == "time" {
		return t.T.A[0].(VInt).L
	}
	if t, ok := v.(VTerm); ok {
		return st.lin(st.App("unixnano", types.Typ[types.Int64], t))
	}
	Undecided("time value %s", Key(v))
	return Lin{}
}

// Now reads the clock: never before an earlier reading.
func (st *State) Now() Lin {
	n := st.E.FreshSym()
	if p, ok := st.Ghost["now"]; ok {
		st.addCon(Con{n.Sub(p.(VInt).L), false})
	} else {
		st.addCon(Con{n.AddC(-1), false})
	}
	st.Ghost["now"] = VInt{n}
	return n
}

func (st *State) floorDivC(l Lin, d int64) Lin {
	if l.IsConst() {
		return K(floorDiv(l.C, d))
	}
	// the same quotient for the same argument
	t := VTerm{&Term{Op: "floordiv", A: []Val{VInt{l}, VInt{K(d)}}, Typ: types.Typ[types.Int64]}}
	if v, ok := st.N(t).(VInt); ok {
		return v.L
	}
	q := st.E.FreshSym()
	st.addCon(Con{l.Sub(q.Mul(d)), false})
	st.addCon(Con{q.Mul(d).AddC(d - 1).Sub(l), false})
	st.bind(t, VInt{q})
	return st.NL(q)
}

func (st *State) intrinsic(c *Call) (Val, bool) {
	fn := c.Fn
	pkg := fnPkg(fn)
	name := fn.Name()
	recv := recvName(c)
	a := c.Args
	unit := VTuple{}
	switch pkg {
	case "sync":
		switch recv + "." + name {
		case "Mutex.Lock", "Mutex.Unlock", "Mutex.TryLock", "RWMutex.Lock", "RWMutex.Unlock", "RWMutex.RLock", "RWMutex.RUnlock":
			if p, ok := a[0].(VNil); ok {
				_ = p
				st.RuntimePanic("nil pointer dereference")
			}
			if name == "TryLock" {
				if st.choose(2) == 1 {
					return VBool{false}, true
				}
				st.lockOp(a[0], "Lock")
				return VBool{true}, true
			}
			st.lockOp(a[0], name)
			return unit, true
		case "Once.Do":
			cur := st.rawAccess(a[0], nil, nil, false)
			if st.decide(EQ(st.lin(cur), K(0))) {
				st.rawAccess(a[0], nil, VInt{K(1)}, true)
				c.CallValue(a[1], nil, func(s *State, v Val) Val { return unit })
				return nil, true
			}
			return unit, true
		}
	case "sync/atomic":
		if recv != "" {
			t := types.Type(nil)
			if p, ok := fn.Signature.Recv().Type().(*types.Pointer); ok {
				t = p.Elem()
			}
			switch name {
			case "Load":
				return st.atomic(c, "Load", a[0], t, nil, nil), true
			case "Store":
				return st.atomic(c, "Store", a[0], t, nil, a[1]), true
			case "Swap":
				return st.atomic(c, "Swap", a[0], t, nil, a[1]), true
			case "CompareAndSwap":
				return st.atomic(c, "CAS", a[0], t, a[1], a[2]), true
			case "Add":
				return st.atomic(c, "Add", a[0], t, nil, a[1]), true
			}
			return nil, false
		}
		ty := types.Type(types.Typ[types.Int64])
		switch {
		case strings.HasPrefix(name, "Load"):
			return st.atomic(c, "Load", a[0], ty, nil, nil), true
		case strings.HasPrefix(name, "Store"):
			return st.atomic(c, "Store", a[0], ty, nil, a[1]), true
		case strings.HasPrefix(name, "Swap"):
			return st.atomic(c, "Swap", a[0], ty, nil, a[1]), true
		case strings.HasPrefix(name, "CompareAndSwap"):
			return st.atomic(c, "CAS", a[0], ty, a[1], a[2]), true
		case strings.HasPrefix(name, "Add"):
			return st.atomic(c, "Add", a[0], ty, nil, a[1]), true
		}
	case "time":
		switch recv + "." + name {
		case ".Now":
			return TimeVal(st.Now()), true
		case ".Unix":
			s, n := st.lin(a[0]), st.lin(a[1])
			return TimeVal(s.Mul(1000000000).Add(n)), true
		case ".UnixMilli":
			return TimeVal(st.lin(a[0]).Mul(1000000)), true
		case ".UnixMicro":
			return TimeVal(st.lin(a[0]).Mul(1000)), true
		case ".Since":
			return VInt{st.Now().Sub(st.timeNS(a[0]))}, true
		case ".Until":
			return VInt{st.timeNS(a[0]).Sub(st.Now())}, true
		case "Time.Add":
			return TimeVal(st.timeNS(a[0]).Add(st.lin(a[1]))), true
		case "Time.Sub":
			return VInt{st.timeNS(a[0]).Sub(st.timeNS(a[1]))}, true
		case "Time.UnixNano":
			return VInt{st.timeNS(a[0])}, true
		case "Time.UnixMilli":
			return VInt{st.floorDivC(st.timeNS(a[0]), 1000000)}, true
		case "Time.UnixMicro":
			return VInt{st.floorDivC(st.timeNS(a[0]), 1000)}, true
		case "Time.Unix":
			return VInt{st.floorDivC(st.timeNS(a[0]), 1000000000)}, true
		case "Time.Before":
			return LTc(st.timeNS(a[0]), st.timeNS(a[1])), true
		case "Time.After":
			return LTc(st.timeNS(a[1]), st.timeNS(a[0])), true
		case "Time.Equal":
			return EQ(st.timeNS(a[0]), st.timeNS(a[1])), true
		case "Duration.Nanoseconds":
			return a[0], true
		case "Duration.Milliseconds", "Duration.Microseconds":
			d := int64(1000000)
			if name == "Microseconds" {
				d = 1000
			}
			l := st.lin(a[0])
			if st.decide(GE(l, K(0))) {
				return VInt{st.floorDivC(st.NL(l), d)}, true
			}
			return VInt{st.floorDivC(st.NL(l).Neg(), d).Neg()}, true
		}
	case "context":
		if name == "WithValue" {
			return st.App("ctxval", fn.Signature.Results().At(0).Type(), a...), true
		}
		if name == "Background" || name == "TODO" {
			return VTerm{&Term{Op: "nonnil", A: []Val{VStr{"ctx"}}}}, true
		}
	case "errors":
		if name == "New" {
			t := st.E.FreshTerm(fn.Signature.Results().At(0).Type())
			st.assume(st.isNil(t), false)
			return t, true
		}
	case "math":
		switch name {
		case "IsNaN":
			return st.App("nan", types.Typ[types.Bool], a[0]), true
		}
	case "unsafe":
	case "fmt":
		switch name {
		case "Sprintf", "Sprint", "Sprintln":
			var xs []Val
			if name == "Sprintf" {
				xs = append(xs, a[0])
			}
			ps, _ := st.slicePieces(a[len(a)-1], types.NewSlice(types.NewInterfaceType(nil, nil)))
			for _, p := range ps {
				if p.V == nil {
					Undecided("fmt argument list")
				}
				xs = append(xs, p.V)
			}
			return st.App("fmt."+name, types.Typ[types.String], xs...), true
		}
	case "hash/crc32":
		if name == "ChecksumIEEE" {
			return st.Opaque(st.appTerm("crc32", types.Typ[types.Uint32], a[0]), types.Typ[types.Uint32]), true
		}
	case "strings":
		if name == "Compare" {
			if st.decide(st.cmpEq(a[0], a[1])) {
				return VInt{K(0)}, true
			}
			if st.decide(st.arith(token.LSS, a[0], a[1], types.Typ[types.String], types.Typ[types.Bool])) {
				return VInt{K(-1)}, true
			}
			return VInt{K(1)}, true
		}
	case "github.com/maruel/natural":
		if name == "Less" {
			return Less("natural", a[0], a[1]), true
		}
	case "reflect":
		if v, ok := st.reflectCall(c, recv, name); ok {
			return v, true
		}
	case "golang.org/x/exp/slices", "slices":
		return st.slicesCall(c, name, pkg)
	case "golang.org/x/exp/maps", "maps":
		if name == "Clone" {
			return nil, false
		}
	case "maps.clone":
	}
	if pkg == "maps" && name == "clone" {
		return st.cloneMap(a[0]), true
	}
	return nil, false
}

func (st *State) cloneMap(v Val) Val {
	if i, ok := v.(VIface); ok {
		return VIface{i.T, st.cloneMap(i.V)}
	}
	switch x := v.(type) {
	case VNil:
		return x
	case VMap:
		o := *st.Heap[x.O]
		m := *o.Map
		m.Ents = append([]MapEnt(nil), m.Ents...)
		o.Map = &m
		o.New = true
		return VMap{st.AllocObj(&o)}
	}
	Undecided("clone of %s", Key(v))
	return nil
}

// lockOp updates the lock cell: 0 free, 1 held by this thread.
func (st *State) lockOp(p Val, op string) {
	if st.E.Lock != nil {
		st.E.Lock(st, p, op)
		p = st.N(p)
	}
	cur := st.lin(st.rawAccess(p, nil, nil, false))
	switch op {
	case "Lock", "RLock":
		if b, ok := st.known(EQ(cur, K(0))); !ok || !b {
			st.Ghost["deadlock"] = VStr{"lock taken while already held"}
		}
		st.rawAccess(p, nil, VInt{K(1)}, true)
	case "Unlock", "RUnlock":
		if b, ok := st.known(EQ(cur, K(1))); !ok || !b {
			st.Ghost["deadlock"] = VStr{"unlock of a lock that is not held"}
		}
		st.rawAccess(p, nil, VInt{K(0)}, true)
	}
}

// ---- reflect, on statically known types ----

func rtype(t types.Type) Val { return VTerm{&Term{Op: "rtype:" + types.TypeString(t, nil), Typ: t}} }

// RV is a reflect.Value: rv(x) with the static type in Typ.
func rvTerm(v Val, t types.Type) Val { return VTerm{&Term{Op: "rv", A: []Val{v}, Typ: t}} }

// KindOf gives the reflect.Kind of a type (false: a type parameter).
func KindOf(t types.Type) (reflect.Kind, bool) {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return 0, false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64, types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr, types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String, types.UnsafePointer: reflect.UnsafePointer}
		return m[u.Kind()], true
	case *types.Pointer:
		return reflect.Pointer, true
	case *types.Slice:
		return reflect.Slice, true
	case *types.Array:
		return reflect.Array, true
	case *types.Map:
		return reflect.Map, true
	case *types.Struct:
		return reflect.Struct, true
	case *types.Interface:
		return reflect.Interface, true
	case *types.Signature:
		return reflect.Func, true
	case *types.Chan:
		return reflect.Chan, true
	}
	return 0, false
}

func (st *State) reflectCall(c *Call, recv, name string) (Val, bool) {
	a := c.Args
	term := func(i int) (*Term, bool) {
		v := a[i]
		if f, ok := v.(VIface); ok {
			v = f.V
		}
		t, ok := v.(VTerm)
		if !ok {
			return nil, false
		}
		return t.T, true
	}
	if recv == "" {
		switch name {
		case "TypeOf":
			if i, ok := a[0].(VIface); ok {
				return VIface{types.NewPointer(types.Typ[types.Int]), rtype(i.T)}, true
			}
		case "ValueOf":
			switch x := a[0].(type) {
			case VIface:
				return rvTerm(x.V, x.T), true
			default:
				return rvTerm(x, nil), true
			}
		case "Indirect":
			if t, ok := term(0); ok && t.Op == "rv" && t.Typ != nil {
				if p, isP := t.Typ.Underlying().(*types.Pointer); isP {
					return rvTerm(st.Load(t.A[0], p.Elem()), p.Elem()), true
				}
				return a[0], true
			}
		case "DeepEqual":
			x, ok1 := a[0].(VIface)
			y, ok2 := a[1].(VIface)
			if ok1 && ok2 {
				if Key(x) == Key(y) {
					return VBool{true}, true
				}
				return st.App("deepeq", types.Typ[types.Bool], x.V, y.V), true
			}
		}
		return nil, false
	}
	if len(a) == 0 {
		return nil, false
	}
	t, ok := term(0)
	if !ok {
		return nil, false
	}
	if strings.HasPrefix(t.Op, "rtype:") {
		switch name {
		case "Elem":
			switch u := t.Typ.Underlying().(type) {
			case *types.Slice:
				return VIface{types.NewPointer(types.Typ[types.Int]), rtype(u.Elem())}, true
			case *types.Pointer:
				return VIface{types.NewPointer(types.Typ[types.Int]), rtype(u.Elem())}, true
			}
			st.RuntimePanic("reflect: Elem of invalid type")
		case "Kind":
			if k, ok := KindOf(t.Typ); ok {
				return VInt{K(int64(k))}, true
			}
			return st.Opaque(VTerm{&Term{Op: "kindof:" + t.Op, Typ: types.Typ[types.Uint]}}, types.Typ[types.Uint]), true
		}
		return nil, false
	}
	if t.Op != "rv" {
		return nil, false
	}
	x, xt := t.A[0], t.Typ
	num := func(kinds string, res types.Type) (Val, bool) {
		if xt == nil {
			return nil, false
		}
		k, ok := KindOf(xt)
		if !ok {
			return st.Opaque(st.appTerm("rv."+kinds, res, x), res), true
		}
		good := false
		switch kinds {
		case "Int":
			good = k >= reflect.Int && k <= reflect.Int64
		case "Uint":
			good = k >= reflect.Uint && k <= reflect.Uintptr
		case "Float":
			good = k == reflect.Float32 || k == reflect.Float64
		case "Bool":
			good = k == reflect.Bool
		}
		if !good {
			st.RuntimePanic("reflect: call of Value." + kinds + " on " + k.String() + " Value")
		}
		return x, true
	}
	switch name {
	case "Equal":
		u, ok := term(1)
		if !ok || u.Op != "rv" {
			return nil, false
		}
		return st.cmpEq(x, u.A[0]), true
	case "Interface":
		if xt == nil {
			return x, true
		}
		return VIface{xt, x}, true
	case "Int":
		return num("Int", types.Typ[types.Int64])
	case "Uint":
		return num("Uint", types.Typ[types.Uint64])
	case "Float":
		return num("Float", types.Typ[types.Float64])
	case "Bool":
		return num("Bool", types.Typ[types.Bool])
	case "String":
		if xt != nil {
			if k, ok := KindOf(xt); ok && k == reflect.String {
				return x, true
			}
			// for other kinds String describes the type
			return st.App("rv.String:"+types.TypeString(xt, nil), types.Typ[types.String]), true
		}
	case "Kind":
		if xt != nil {
			if k, ok := KindOf(xt); ok {
				return VInt{K(int64(k))}, true
			}
		}
	case "IsNil":
		return st.isNil(x), true
	case "IsValid":
		return VBool{xt != nil}, true
	case "Elem":
		if xt != nil {
			if p, isP := xt.Underlying().(*types.Pointer); isP {
				if b, ok := st.known(st.isNil(x)); ok && b {
					return rvTerm(VNil{}, nil), true
				}
				return rvTerm(st.Load(x, p.Elem()), p.Elem()), true
			}
			if k, ok := KindOf(xt); ok && k != reflect.Interface {
				st.RuntimePanic("reflect: call of Value.Elem on " + k.String() + " Value")
			}
		}
	case "Type":
		if xt != nil {
			return VIface{types.NewPointer(types.Typ[types.Int]), rtype(xt)}, true
		}
	}
	return nil, false
}

// ---- slices package ----

func (st *State) sliceParts(v Val, t types.Type) (VSlice, bool) {
	if x, ok := v.(VTerm); ok {
		v = st.Opaque(x, t)
	}
	s, ok := v.(VSlice)
	return s, ok
}

func (st *State) slicesCall(c *Call, name, pkg string) (Val, bool) {
	a := c.Args
	var t types.Type
	if c.Fn.Signature.Params().Len() > 0 {
		t = st.E.Resolve(c.Fn.Signature.Params().At(0).Type(), c.FV.TA)
	}
	isNilV := func(v Val) bool { _, ok := v.(VNil); return ok }
	bounds := func(i, j, n Lin) {
		if !st.decide(GE(i, K(0))) || !st.decide(LE(i, j)) || !st.decide(LE(j, n)) {
			st.RuntimePanic("slice bounds out of range")
		}
	}
	// splice builds the slice with [i,j) replaced by ps.
	splice := func(s VSlice, i, j Lin, ps []Piece, m Lin) Val {
		n := s.Len
		tot := n.Sub(j.Sub(i)).Add(m)
		tail := st.pieces(s.O, s.Off.Add(j), s.Off.Add(n))
		if st.decide(LE(tot, s.Cap)) {
			np := append(append([]Piece(nil), ps...), tail...)
			st.arrReplaceN(s.O, s.Off.Add(i), s.Off.Add(tot), np)
			if st.decide(LTc(tot, n)) {
				st.arrReplace(s.O, s.Off.Add(tot), s.Off.Add(n), []Piece{{Len: n.Sub(tot), V: st.Zero(sliceElem(t))}})
			}
			return VSlice{s.O, s.Off, tot, s.Cap}
		}
		head := st.pieces(s.O, s.Off, s.Off.Add(i))
		all := append(append(append([]Piece(nil), head...), ps...), tail...)
		sp := st.E.FreshSym()
		st.addCon(Con{sp, false})
		return st.NewSlice(all, t, sp)
	}
	switch name {
	case "Grow":
		n := st.lin(a[1])
		if !st.decide(GE(n, K(0))) {
			st.RuntimePanic("cannot be negative")
		}
		s, ok := st.sliceParts(a[0], t)
		if !ok {
			if !isNilV(a[0]) {
				return nil, false
			}
			if st.decide(EQ(n, K(0))) {
				return VNil{}, true
			}
			sp := st.E.FreshSym()
			st.addCon(Con{sp.Sub(n), false})
			return st.NewSlice(nil, t, sp), true
		}
		if st.decide(LE(s.Len.Add(n), s.Cap)) {
			return s, true
		}
		ps := st.pieces(s.O, s.Off, s.Off.Add(s.Len))
		sp := st.E.FreshSym()
		st.addCon(Con{sp.Sub(n), false})
		return st.NewSlice(ps, t, sp), true
	case "Clip":
		s, ok := st.sliceParts(a[0], t)
		if !ok {
			return a[0], isNilV(a[0])
		}
		return VSlice{s.O, s.Off, s.Len, s.Len}, true
	case "Clone":
		s, ok := st.sliceParts(a[0], t)
		if !ok {
			return a[0], isNilV(a[0])
		}
		ps := st.pieces(s.O, s.Off, s.Off.Add(s.Len))
		sp := st.E.FreshSym()
		st.addCon(Con{sp, false})
		return st.NewSlice(ps, t, sp), true
	case "Reverse":
		s, ok := st.sliceParts(a[0], t)
		if !ok {
			return VTuple{}, isNilV(a[0])
		}
		ps := st.pieces(s.O, s.Off, s.Off.Add(s.Len))
		st.arrReplace(s.O, s.Off, s.Off.Add(s.Len), ReversePieces(ps))
		return VTuple{}, true
	case "Insert":
		ps, m := st.slicePieces(a[2], t)
		i := st.lin(a[1])
		s, ok := st.sliceParts(a[0], t)
		if !ok {
			if !isNilV(a[0]) {
				return nil, false
			}
			if strings.HasSuffix(pkg, "exp/slices") && st.decide(EQ(m, K(0))) {
				return VNil{}, true
			}
			bounds(i, i, K(0))
			return st.appendSlice(VNil{}, a[2], t), true
		}
		if st.decide(EQ(m, K(0))) {
			if !strings.HasSuffix(pkg, "exp/slices") {
				bounds(i, i, s.Len)
			}
			return s, true
		}
		bounds(i, i, s.Len)
		return splice(s, i, i, ps, m), true
	case "Delete":
		i, j := st.lin(a[1]), st.lin(a[2])
		s, ok := st.sliceParts(a[0], t)
		if !ok {
			if !isNilV(a[0]) {
				return nil, false
			}
			bounds(i, j, K(0))
			return VNil{}, true
		}
		bounds(i, j, s.Len)
		return splice(s, i, j, nil, K(0)), true
	case "Replace":
		i, j := st.lin(a[1]), st.lin(a[2])
		ps, m := st.slicePieces(a[3], t)
		s, ok := st.sliceParts(a[0], t)
		if !ok {
			if !isNilV(a[0]) {
				return nil, false
			}
			bounds(i, j, K(0))
			return st.appendSlice(VNil{}, a[3], t), true
		}
		bounds(i, j, s.Len)
		return splice(s, i, j, ps, m), true
	}
	return nil, false
}

// arrReplaceN replaces [lo,hi) by pieces of the same total length (not checked).
func (st *State) arrReplaceN(o ObjID, lo, hi Lin, ps []Piece) { st.arrReplace(o, lo, hi, ps) }

// ReversePieces reverses a sequence.
func ReversePieces(ps []Piece) []Piece {
	var r []Piece
	for i := len(ps) - 1; i >= 0; i-- {
		p := ps[i]
		if p.E != nil {
			d := p.E.Dir
			if d == 0 {
				d = 1
			}
			p.E = &Elem{p.E.Base, p.E.Off.Add(p.Len.AddC(-1).Mul(d)), -d}
		}
		r = append(r, p)
	}
	return r
}
