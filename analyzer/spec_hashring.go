package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	register("C15", "for an arbitrary node m: every method that changes a hash ring is interpreted on a ring of arbitrary members whose points are exactly (m,0)..(m,replicas-1) when m is a member and none otherwise, and must leave that relation with the prescribed membership; a lookup must answer with the node of one of the ring's points, or the zero value when there is none", runHashring)
	register("C16", "the points are sorted after every change by a comparison that orders any two points of different nodes exactly one way, by hash first; hashes are functions of node and replica number (key) alone; a lookup must answer with the node of the first point at or after the key's hash, or of the first point when there is none, wherever that point is", runHashring)
}

const hrPkg = "hashring"

type hrWorld struct {
	c     *Ctx
	t     types.Type // HashRing[N]
	node  types.Type // type of the nodes
	point types.Type // type of a point
	fv    int        // field: vector of points
	fs    int        // field: set of members
	vec   *vecT
	pn    int // point field: node
	ph    int // point field: hash
	dir   map[int]bool
}

func (w *hrWorld) types(st *ai.State, t types.Type) {
	t = st.E.Resolve(deref(t), nil)
	w.t = t
	isVec := func(x types.Type) bool {
		p, ok := x.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		n, ok := types.Unalias(p.Elem()).(*types.Named)
		return ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/vec")
	}
	w.fv = roleField(t, "nodes", isVec)
	w.fs = roleField(t, "rawNodes", isMapT)
	s := t.Underlying().(*types.Struct)
	if !isVec(s.Field(w.fv).Type()) || !isMapT(s.Field(w.fs).Type()) {
		ai.Undecided("the ring does not hold a vector of points and a set of members")
	}
	w.node = mapType(s.Field(w.fs).Type()).Key()
	w.vec = vecTypes(s.Field(w.fv).Type())
	w.point = w.vec.elem
	w.pn = roleField(w.point, "Node", func(x types.Type) bool { return types.Identical(x, w.node) })
	w.ph = roleField(w.point, "hash", func(x types.Type) bool { return isIntegerT(x) })
}

func isIntegerT(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (w *hrWorld) m() ai.Val { return ai.Named(gX, w.node) }

// hashArgs: what the bytes hashed depend on.
func hashArgs(v ai.Val) (nodes []ai.Val, idx []ai.Lin, other bool) {
	var walk func(v ai.Val)
	walk = func(v ai.Val) {
		switch x := v.(type) {
		case ai.VIface:
			walk(x.V)
		case ai.VStr:
		case ai.VInt:
			idx = append(idx, x.L)
		case ai.VTerm:
			switch {
			case strings.HasPrefix(x.T.Op, "lit:"):
			case strings.HasPrefix(x.T.Op, "fmt.") || strings.HasPrefix(x.T.Op, "conv:") || x.T.Op == "crc32" || strings.HasPrefix(x.T.Op, "strconv") || x.T.Op == "concat":
				for _, a := range x.T.A {
					walk(a)
				}
			case x.T.Op == "at" || len(x.T.A) == 0:
				nodes = append(nodes, x)
			default:
				other = true
			}
		default:
			other = true
		}
	}
	walk(v)
	return
}

func (w *hrWorld) hooks(e *ai.Engine, lookup bool) {
	e.TermBytes = true
	keysOf(e, gX)
	relHooks(e, "")
	pkgOf := func(f *ssa.Function) string {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Origin() != nil && f.Origin().Pkg != nil {
			return f.Origin().Pkg.Pkg.Path()
		}
		return ""
	}
	other := unknownOther(gX)
	e.UnknownElem = func(st *ai.State, o ai.ObjID, piece int, i ai.Lin, t types.Type) (ai.Val, bool) {
		if !types.Identical(st.E.Resolve(t, nil), w.point) {
			return other(st, o, piece, i, t)
		}
		switch st.Heap[o].Arr.P[piece].Tag {
		case "p":
			return w.pointAt(st, i), true
		case "S:m", "S:other", "S:any", "S:bad":
			ai.Undecided("the sorted points are read one by one")
		case "other":
			return memo(st, o, i, func() ai.Val {
				v := st.FreshVal(t)
				distinct(st, v.(ai.VStruct).F[w.pn], w.m())
				return v
			}), true
		}
		return memo(st, o, i, func() ai.Val { return st.FreshVal(t) }), true
	}
	e.LoopNorm = func(st *ai.State) {
		setTags(st)
		if !lookup {
			st.MapPieces(func(p ai.Piece) ai.Piece { return w.classify(st, p) })
			st.ForgetCap("spare", w.isPoints)
			st.ForgetMapLen()
		}
	}
	probe := func(c *ai.Call, drv string, ta types.Type, args []ai.Val, chk func(st *ai.State, r ai.Val) ai.Val) {
		fn := e.Fn(hrPkg, drv)
		fv := ai.VFunc{Fn: fn}
		if ta != nil {
			fv.TA = ai.TEnv{ai.TypeParamOf(fn, 0).(*types.TypeParam): ta}
		}
		c.CallValue(fv, args, chk)
	}
	e.Override = func(c *ai.Call) (ai.Val, bool) {
		st := c.St
		switch pkg, name := pkgOf(c.Fn), c.Fn.Name(); {
		case strings.HasSuffix(pkg, "/hashring") && name == "verifFill":
			w.fill(st, c.Args[0], lookup)
			return ai.VTuple{}, true
		case pkg == "hash/crc32" && name == "ChecksumIEEE":
			ns, idx, other := hashArgs(st.N(c.Args[0]))
			if other || len(ns) != 1 {
				flagBad(st, "C16", "a hash depends on something else than one node and its replica number")
				return st.FreshVal(types.Typ[types.Uint32]), true
			}
			if lookup {
				return ai.VInt{L: rs(st, "H")}, true
			}
			if len(idx) != 1 {
				flagBad(st, "C16", "a point's hash does not depend on node and replica number")
				return st.FreshVal(types.Typ[types.Uint32]), true
			}
			return ai.VTerm{T: &ai.Term{Op: "hash", A: []ai.Val{ns[0], ai.VInt{L: idx[0]}}, Typ: types.Typ[types.Uint32]}}, true
		case pkg == "golang.org/x/exp/slices" || pkg == "slices" || pkg == "sort":
			var s ai.Val
			switch name {
			case "SortFunc", "SortStableFunc":
				s = st.N(c.Args[0])
			default:
				return nil, false
			}
			x, ok := s.(ai.VSlice)
			if !ok {
				return ai.VTuple{}, true
			}
			if !types.Identical(st.E.Resolve(st.Heap[x.O].Typ.Underlying().(*types.Slice).Elem(), nil), w.point) {
				ai.Undecided("sort of something else than points")
			}
			w.sorted(st, x)
			a, b := w.probeEl(st, "a"), w.probeEl(st, "b")
			probe(c, "verifProbe", w.point, []ai.Val{c.Args[1], a, b}, func(st *ai.State, r ai.Val) ai.Val {
				w.checkOrder(st, r)
				return ai.VTuple{}
			})
			return nil, true
		}
		return nil, false
	}
}

func (w *hrWorld) probeEl(st *ai.State, n string) ai.Val {
	f := make([]ai.Val, 2)
	f[w.pn] = st.N(ai.Named("n"+n, w.node))
	f[w.ph] = ai.VInt{L: rs(st, "h"+n)}
	if w.point.Underlying().(*types.Struct).NumFields() != 2 {
		ai.Undecided("points with further fields")
	}
	return ai.VStruct{F: f}
}

// checkOrder: the comparison orders points by hash and, for equal hashes, by node.
func (w *hrWorld) checkOrder(st *ai.State, r ai.Val) {
	t := st.N(r).(ai.VTuple)
	x, y := st.Lin(t.F[0]), st.Lin(t.F[1])
	sign := func(l ai.Lin) int {
		switch {
		case st.Decide(ai.LE(l, ai.K(-1))):
			return -1
		case st.Decide(ai.GE(st.NL(l), ai.K(1))):
			return 1
		}
		return 0
	}
	sx, sy := sign(x), sign(st.NL(y))
	bad := func() {
		flagBad(st, "C16", "the points are sorted by a comparison that does not order points by hash and, for equal hashes, by node")
	}
	d := rs(st, "ha").Sub(rs(st, "hb"))
	na, nb := st.N(ai.Named("na", w.node)), st.N(ai.Named("nb", w.node))
	switch {
	case st.Decide(ai.LE(d, ai.K(-1))):
		if sx != -1 || sy != 1 {
			bad()
		}
	case st.Decide(ai.GE(st.NL(d), ai.K(1))):
		if sx != 1 || sy != -1 {
			bad()
		}
	case st.Decide(st.CmpEq(na, nb)):
	default:
		na, nb := st.N(ai.Named("na", w.node)), st.N(ai.Named("nb", w.node))
		ab := st.Decide(ai.Less("T", na, nb))
		if st.Decide(ai.Less("T", nb, na)) == ab {
			ai.Infeasible() // nodes are totally ordered
		}
		if sx == 0 || sy != -sx {
			bad()
			return
		}
		if !ab {
			sx = -sx
		}
		w.dir[sx] = true
		if len(w.dir) > 1 {
			bad()
		}
	}
}

func (w *hrWorld) field(st *ai.State, hr ai.Val, i int) ai.Val {
	ft := w.t.Underlying().(*types.Struct).Field(i).Type()
	return st.N(st.Load(st.FieldPtr(st.N(hr), i, ft), ft))
}
func (w *hrWorld) vecOf(st *ai.State, hr ai.Val) ai.Val { return w.field(st, hr, w.fv) }
func (w *hrWorld) setOf(st *ai.State, hr ai.Val) ai.Val { return w.field(st, hr, w.fs) }

// fill: arbitrary members and points
func (w *hrWorld) fill(st *ai.State, hr ai.Val, lookup bool) {
	ring := w.vecOf(st, hr)
	n, sp := st.E.NamedSym("others"), st.E.NamedSym("spare")
	st.Assume(ai.GE(n, ai.K(0)))
	st.Assume(ai.GE(sp, ai.K(0)))
	var ps []ai.Piece
	ln := n
	if lookup {
		ps = []ai.Piece{{Len: n, Tag: "p"}}
	} else {
		// the order of the sorted points is not known: the points of m ("S:m", complete) and of others in one bag
		if gb(st, "had") {
			r := rs(st, "points")
			ps = append(ps, ai.Piece{Len: r, Tag: "S:m"})
			ln = ln.Add(r)
		}
		ps = append(ps, ai.Piece{Len: n, Tag: "S:other"})
	}
	ps = append(ps, ai.Piece{Len: sp, Tag: "spare"})
	o := st.AllocObj(&ai.Obj{Typ: w.vec.slice, Name: "points", Arr: &ai.ArrObj{P: ps}})
	st.Store(st.FieldPtr(st.N(ring), w.vec.d, w.vec.slice), ai.VSlice{O: o, Off: ai.K(0), Len: st.NL(ln), Cap: st.NL(ln.Add(sp))}, w.vec.slice)
	kind := 0
	if gb(st, "had") {
		kind = 1
	}
	ft := w.t.Underlying().(*types.Struct).Field(w.fs).Type()
	st.Store(st.FieldPtr(st.N(hr), w.fs, ft), mkSet(st, ft, kind, "members"), ft)
}

// classify a piece of a point array: a point of m, a point of another node
func (w *hrWorld) classify(st *ai.State, p ai.Piece) ai.Piece {
	s, ok := p.V.(ai.VStruct)
	if !ok || len(s.F) != 2 {
		return p
	}
	h, ok := st.N(s.F[w.ph]).(ai.VTerm)
	if !ok || h.T.Op != "hash" {
		return p
	}
	n := st.N(s.F[w.pn])
	if !ai.Same(n, st.N(h.T.A[0])) {
		return ai.Piece{Len: p.Len, Tag: "bad"}
	}
	if b, known := st.Known(st.CmpEq(n, st.N(w.m()))); known && b {
		return ai.Piece{Len: p.Len, E: &ai.Elem{Base: "mpt", Off: st.Lin(h.T.A[1]), Dir: 1}}
	} else if known {
		return ai.Piece{Len: p.Len, Tag: "other"}
	}
	return ai.Piece{Len: p.Len, Tag: "any"}
}

func (w *hrWorld) isPoints(o *ai.Obj) bool {
	if o.Typ == nil {
		return false
	}
	sl, ok := o.Typ.Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem(), w.point)
}

// wholeRun: the points (m,0), (m,1) .. in some order of a loop over the replica numbers
func (w *hrWorld) wholeRun(st *ai.State, q ai.Piece) bool {
	if q.E == nil || q.E.Base != "mpt" {
		return false
	}
	first := ai.K(0)
	if q.E.Dir != 1 {
		first = q.Len.Sub(ai.K(1))
	}
	b, known := st.Known(ai.EQ(q.E.Off, first))
	return known && b
}

// sorted: the points in the slice are in order now
func (w *hrWorld) sorted(st *ai.State, x ai.VSlice) {
	ps, n := st.SlicePieces(x, w.vec.slice)
	var m, o ai.Piece
	ms := 0
	o = ai.Piece{Len: ai.K(0), Tag: "S:other"}
	for _, p := range ps {
		if b, known := st.Known(ai.EQ(p.Len, ai.K(0))); known && b {
			continue
		}
		p = w.classify(st, p)
		switch {
		case p.Tag == "S:m" || w.wholeRun(st, p):
			m = ai.Piece{Len: p.Len, Tag: "S:m"}
			ms++
		case p.Tag == "other" || p.Tag == "S:other":
			o.Len = o.Len.Add(p.Len)
		default:
			o.Tag = "S:bad"
			o.Len = o.Len.Add(p.Len)
		}
	}
	var np []ai.Piece
	if ms > 1 {
		np = []ai.Piece{{Len: n, Tag: "S:bad"}}
	} else {
		if ms == 1 {
			np = append(np, m)
		}
		np = append(np, o)
	}
	whole := st.Heap[x.O].Arr
	total := ai.K(0)
	for _, p := range whole.P {
		total = total.Add(p.Len)
	}
	if b, ok := st.Known(ai.EQ(x.Off, ai.K(0))); !ok || !b {
		ai.Undecided("sort of a part of an array")
	}
	np = append(np, ai.Piece{Len: st.NL(total.Sub(n)), Tag: "spare"})
	st.SetPieces(x.O, np)
}

// pointAt: point i of a sorted ring: hashes below H before K, H up to E, above H from there on
func (w *hrWorld) pointAt(st *ai.State, i ai.Lin) ai.Val {
	i = st.NL(i)
	h := rs(st, "H")
	f := make([]ai.Val, 2)
	if st.Decide(ai.LTc(i, rs(st, "K"))) {
		x := st.E.FreshSym()
		st.Assume(ai.LTc(x, h))
		st.Assume(ai.GE(x, ai.K(0)))
		f[w.ph] = ai.VInt{L: st.NL(x)}
	} else if st.Decide(ai.LTc(st.NL(i), rs(st, "E"))) {
		f[w.ph] = ai.VInt{L: h}
	} else {
		x := st.E.FreshSym()
		st.Assume(ai.LTc(h, x))
		f[w.ph] = ai.VInt{L: st.NL(x)}
	}
	f[w.pn] = st.N(ai.At("node", st.NL(i), w.node))
	return ai.VStruct{F: f}
}

func runHashring(c *Ctx) {
	w := &hrWorld{c: c}
	init := func(st *ai.State, f *ssa.Function, had bool) {
		w.dir = map[int]bool{}
		res := f.Signature.Results().At(0).Type()
		w.types(st, res)
		st.Ghost["had"] = ai.VBool{B: had}
		r, n := st.E.NamedSym("R"), st.E.NamedSym("points")
		// the number of points of a member
		nonneg := st.Decide(ai.GE(r, ai.K(0)))
		st.Ghost["nonneg"] = ai.VBool{B: nonneg}
		if nonneg {
			st.Assume(ai.EQ(n, r))
		} else {
			st.Assume(ai.EQ(n, ai.K(0)))
		}
	}
	// the invariant: m is a member exactly when the ring holds exactly its points
	inv := func(st *ai.State, p *Post, want bool, what string) {
		flagged(st, p, c.Prop)
		hr := st.N(rets(st)[0])
		set := st.N(w.setOf(st, hr))
		d := w.vec.data(st, w.vecOf(st, hr))
		ps, _ := st.SlicePieces(d, w.vec.slice)
		if c.Prop == "C16" {
			for _, q := range ps {
				if b, ok := st.Known(ai.EQ(q.Len, ai.K(0))); ok && b {
					continue
				}
				p.Ok(strings.HasPrefix(q.Tag, "S:"), "after %s the points are sorted", what)
			}
			return
		}
		in := false
		if _, isNil := set.(ai.VNil); !isNil {
			in = member(st, set, w.m())
		}
		p.Ok(in == want, "membership after %s", what)
		n := ai.K(0)
		ok, run := true, 0
		for _, q := range ps {
			if b, known := st.Known(ai.EQ(q.Len, ai.K(0))); known && b {
				continue
			}
			q = w.classify(st, q)
			switch {
			case q.Tag == "S:m" || w.wholeRun(st, q):
				run++
				n = n.Add(q.Len)
			case q.Tag == "other" || q.Tag == "S:other":
			default:
				ok = false
			}
		}
		p.Ok(ok && run <= 1, "after %s every point belongs to a node and replica number, each once", what)
		exp := ai.K(0)
		if want {
			exp = rs(st, "points")
		}
		p.True(ai.EQ(n, exp), "after %s a member has exactly its replica points, others none", what)
	}
	for _, fn := range []struct {
		name, what string
		want       func(had, in bool) bool
	}{
		{"verifAdd", "AddNodes", func(h, i bool) bool { return h || i }},
		{"verifRemove", "RemoveNodes", func(h, i bool) bool { return h && !i }},
		{"verifReset", "ResetNodes", func(h, i bool) bool { return i }},
	} {
		for _, had := range []bool{false, true} {
			for _, in := range []bool{false, true} {
				fn, had, in := fn, had, in
				c.Run(Scenario{Name: fn.what + ": node " + map[bool]string{true: "a member", false: "no member"}[had] + map[bool]string{true: ", named", false: ", not named"}[in], Pkg: hrPkg, Fn: fn.name,
					Hooks: func(e *ai.Engine) { w.hooks(e, false) },
					Init: func(st *ai.State, f *ssa.Function) []ai.Val {
						init(st, f, had)
						return []ai.Val{ai.VInt{L: rs(st, "R")}, distSlice(st, f.Params[1].Type(), in, w.m())}
					},
					Post: func(st *ai.State, p *Post) { inv(st, p, fn.want(had, in), fn.what) },
				})
			}
		}
	}
	c.Run(Scenario{Name: "New: a new ring", Pkg: hrPkg, Fn: "verifNew", Hooks: func(e *ai.Engine) { w.hooks(e, false) },
		Init: func(st *ai.State, f *ssa.Function) []ai.Val {
			init(st, f, false)
			return []ai.Val{ai.VInt{L: rs(st, "R")}}
		},
		Post: func(st *ai.State, p *Post) { inv(st, p, false, "New") },
	})
	c.Run(Scenario{Name: "GetNode: any ring, any key", Pkg: hrPkg, Fn: "verifGet", Hooks: func(e *ai.Engine) { w.hooks(e, true) },
		Init: func(st *ai.State, f *ssa.Function) []ai.Val {
			init(st, f, true)
			k, e, n, h := st.E.NamedSym("K"), st.E.NamedSym("E"), st.E.NamedSym("others"), st.E.NamedSym("H")
			st.Assume(ai.GE(k, ai.K(0)))
			st.Assume(ai.LE(k, e))
			st.Assume(ai.LE(e, n))
			st.Assume(ai.GE(h, ai.K(0)))
			return []ai.Val{ai.VInt{L: rs(st, "R")}, ai.Named("key", w.node)}
		},
		Post: func(st *ai.State, p *Post) {
			flagged(st, p, c.Prop)
			hr, r := st.N(rets(st)[0]), st.N(rets(st)[1])
			n, k := rs(st, "others"), rs(st, "K")
			d := w.vec.data(st, w.vecOf(st, hr))
			ps, ln := st.SlicePieces(d, w.vec.slice)
			ok := true
			for _, q := range ps {
				if b, known := st.Known(ai.EQ(q.Len, ai.K(0))); known && b {
					continue
				}
				ok = ok && q.Tag == "p"
			}
			p.Ok(ok, "a lookup leaves the points alone")
			p.True(ai.EQ(ln, n), "a lookup leaves the points alone")
			if st.Decide(ai.EQ(n, ai.K(0))) {
				p.Same(r, st.Zero(w.node), "a lookup in a ring without points returns the zero value")
				return
			}
			t, isT := r.(ai.VTerm)
			var e *ai.Elem
			if isT {
				e = ai.ElemOf(t)
			}
			if !p.Ok(e != nil && e.Base == "node", "a lookup returns the node of a point") {
				return
			}
			if c.Prop == "C15" {
				p.True(ai.GE(e.Off, ai.K(0)), "a lookup returns the node of a point")
				p.True(ai.LTc(e.Off, st.NL(n)), "a lookup returns the node of a point")
				return
			}
			if st.Decide(ai.LTc(st.NL(k), st.NL(n))) {
				p.True(ai.EQ(e.Off, st.NL(k)), "a lookup returns the node of the first point at or after the key's hash")
			} else {
				p.True(ai.EQ(e.Off, ai.K(0)), "a lookup wraps around to the first point")
			}
		},
	})
}
