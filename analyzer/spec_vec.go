package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	register("C17", "every positional vector method is interpreted on a vector of arbitrary length, capacity and content with arbitrary integer positions: outside the vector no path panics, changes the element sequence or reports success; inside it succeeds", runC17)
	register("C18", "every vector edit is interpreted on a vector of arbitrary length, spare capacity and content (array segmentation); for an arbitrary index of the resulting sequence the element must be the one the edit prescribes, and so must the returned elements", runC18)
	register("C19", "the objects and array windows reachable from a copy (content, comparison functions and what they capture) must be disjoint from those reachable from the vector it came from", runC19)
}

type vecT struct {
	t           types.Type // Vec[T]
	d, lt, eq   int
	elem        types.Type
	slice       types.Type
	nilCmp      bool // comparison functions may be unset
	noBadLength bool
}

func vecTypes(t types.Type) *vecT {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	v := &vecT{t: t}
	v.d = roleField(t, "d", isSliceT)
	v.lt = mustField(t, "cmpLess")
	v.eq = mustField(t, "cmpEqual")
	v.slice = t.Underlying().(*types.Struct).Field(v.d).Type()
	v.elem = v.slice.Underlying().(*types.Slice).Elem()
	return v
}

// mkSlice: an arbitrary slice (nil, or any length and capacity) with elements base[0..n).
func mkSlice(st *ai.State, name string, t types.Type, mayNil bool) ai.Val {
	n := st.E.NamedSym("len(" + name + ")")
	sp := st.E.NamedSym("spare(" + name + ")")
	st.Assume(ai.GE(n, ai.K(0)))
	st.Assume(ai.GE(sp, ai.K(0)))
	if mayNil && st.Choose(2) == 0 {
		st.Assume(ai.EQ(n, ai.K(0)))
		st.Assume(ai.EQ(sp, ai.K(0)))
		return ai.VNil{}
	}
	o := st.AllocObj(&ai.Obj{Typ: t, Name: name, Arr: &ai.ArrObj{P: []ai.Piece{
		{Len: n, E: &ai.Elem{Base: name, Off: ai.K(0), Dir: 1}},
		{Len: sp, E: &ai.Elem{Base: name + "'spare", Off: ai.K(0), Dir: 1}},
	}}})
	return ai.VSlice{O: o, Off: ai.K(0), Len: n, Cap: n.Add(sp)}
}

func seqLen(st *ai.State, name string) ai.Lin { return st.NL(st.E.NamedSym("len(" + name + ")")) }

// run of elements [lo,hi) of the named initial sequence
func sub(name string, lo, hi ai.Lin) ai.Piece {
	return ai.Piece{Len: hi.Sub(lo), E: &ai.Elem{Base: name, Off: lo, Dir: 1}}
}
func rev(name string, n ai.Lin) ai.Piece {
	return ai.Piece{Len: n, E: &ai.Elem{Base: name, Off: n.AddC(-1), Dir: -1}}
}
func one(v ai.Val) ai.Piece { return ai.Piece{Len: ai.K(1), V: v} }

// mk builds a vector; comparison functions are opaque (or unset when nilCmp).
func (v *vecT) mkVal(st *ai.State, name string) ai.VStruct {
	ft := v.t.Underlying().(*types.Struct)
	f := make([]ai.Val, ft.NumFields())
	for i := range f {
		f[i] = st.Zero(ft.Field(i).Type())
	}
	f[v.d] = mkSlice(st, name, v.slice, true)
	if !v.nilCmp || st.Choose(2) == 0 {
		f[v.lt] = ai.Named(name+".less", ft.Field(v.lt).Type())
		st.Assume(ai.Not(st.CmpEq(f[v.lt], ai.VNil{})))
	}
	if !v.nilCmp || st.Choose(2) == 0 {
		f[v.eq] = ai.Named(name+".equal", ft.Field(v.eq).Type())
		st.Assume(ai.Not(st.CmpEq(f[v.eq], ai.VNil{})))
	}
	return ai.VStruct{F: f}
}

func (v *vecT) mk(st *ai.State, name string) ai.Val {
	x := v.mkVal(st, name)
	o := st.AllocObj(&ai.Obj{Typ: v.t, V: x, Name: name})
	p := ai.VPtr{O: o}
	st.Ghost[name] = p
	return p
}

func (v *vecT) data(st *ai.State, p ai.Val) ai.Val {
	s, ok := st.Load(st.N(p), v.t).(ai.VStruct)
	if !ok {
		ai.Undecided("vector value not known")
	}
	return st.N(s.F[v.d])
}

// seqAt is the element at index k (0<=k<total length) of a piecewise sequence.
func seqAt(st *ai.State, ps []ai.Piece, k ai.Lin, t types.Type) (ai.Val, bool) {
	start := ai.K(0)
	for _, p := range ps {
		end := start.Add(p.Len)
		if st.Decide(ai.LTc(k, end)) {
			switch {
			case p.V != nil:
				return st.N(p.V), true
			case p.E != nil:
				d := p.E.Dir
				if d == 0 {
					d = 1
				}
				ix := st.NL(p.E.Off.Add(k.Sub(start).Mul(d)))
				if p.E.Base == "#int" {
					return ai.VInt{L: ix}, true
				}
				return st.N(ai.At(p.E.Base, ix, t)), true
			}
			return nil, false
		}
		start = end
	}
	return nil, false
}

// sameSeq requires a slice value to hold exactly the wanted sequence.
func sameSeq(st *ai.State, p *Post, got ai.Val, want []ai.Piece, t types.Type, id, what string, a ...interface{}) bool {
	what = fmt.Sprintf(what, a...)
	ps, n := st.SlicePieces(got, t)
	tot := ai.K(0)
	for _, w := range want {
		tot = tot.Add(w.Len)
	}
	if !p.True(ai.EQ(n, tot), "%s: wrong number of elements", what) {
		return false
	}
	if !st.Decide(ai.GE(n, ai.K(1))) {
		return true
	}
	k := st.E.NamedSym("k:" + id)
	st.Assume(ai.GE(k, ai.K(0)))
	st.Assume(ai.LTc(k, n))
	et := t.Underlying().(*types.Slice).Elem()
	ps, _ = st.SlicePieces(got, t)
	g, ok := seqAt(st, ps, st.NL(k), et)
	if !p.Ok(ok, "%s: element not determined", what) {
		return false
	}
	w, _ := seqAt(st, want, st.NL(k), et)
	if w == nil {
		ai.Undecided("expected sequence not determined")
	}
	return p.Same(g, w, "%s: wrong element at some index", what)
}

type vecWorld struct {
	c        *Ctx
	v        *vecT
	c17, c18 bool
}

const vecPkg = "vec"

// cmpCallback answers the opaque comparison functions: less is a strict weak order, equal its ties.
func cmpCallback(cb *ai.Callback) ai.Val {
	st := cb.St
	t, ok := cb.F.(ai.VTerm)
	if !ok || len(cb.Args) != 2 {
		ai.Undecided("call of an unknown function %s", ai.Key(cb.F))
	}
	if len(t.T.Op) > 6 && t.T.Op[len(t.T.Op)-6:] == ".equal" {
		return eqVal(st, cb.Args[0], cb.Args[1])
	}
	return ai.Less("cmp", cb.Args[0], cb.Args[1])
}

func eqVal(st *ai.State, a, b ai.Val) ai.Val {
	if st.Decide(ai.Less("cmp", a, b)) || st.Decide(ai.Less("cmp", b, a)) {
		return ai.VBool{B: false}
	}
	return ai.VBool{B: true}
}

func (w *vecWorld) hooks(e *ai.Engine) { e.OnCallback = cmpCallback }

// run a method of the vector "v"; args builds the other arguments.
func (w *vecWorld) run(fn, name string, args func(st *ai.State, f *ssa.Function) []ai.Val, mayPanic bool, post func(st *ai.State, p *Post, ret []ai.Val)) {
	w.c.Run(Scenario{Name: name, Pkg: vecPkg, Fn: "Vec." + fn, MayPanic: mayPanic, Hooks: w.hooks,
		Init: func(st *ai.State, f *ssa.Function) []ai.Val {
			w.v = vecTypes(typeOfParam(f, 0))
			r := []ai.Val{w.v.mk(st, "v")}
			if args != nil {
				r = append(r, args(st, f)...)
			}
			return r
		},
		Post: func(st *ai.State, p *Post) { post(st, p, rets(st)) },
	})
}

func rets(st *ai.State) []ai.Val {
	if st.Panic {
		return nil
	}
	var r []ai.Val
	for _, v := range st.Result {
		r = append(r, st.N(v))
	}
	return r
}

// where keeps positions before, in and behind the vector apart.
func (w *vecWorld) where(st *ai.State, name string) {
	before, behind := false, false
	if i := rs(st, name); !st.Decide(ai.GE(i, ai.K(0))) {
		before = true
	} else if !st.Decide(ai.LE(i, seqLen(st, "v"))) {
		behind = true
	}
	st.Ghost["before:"+name], st.Ghost["behind:"+name] = ai.VBool{B: before}, ai.VBool{B: behind}
}

func (w *vecWorld) sym(st *ai.State, name string) ai.Val { return ai.VInt{L: st.E.NamedSym(name)} }
func rs(st *ai.State, name string) ai.Lin                { return st.NL(st.E.NamedSym(name)) }

func (w *vecWorld) seq(st *ai.State, p *Post, want []ai.Piece, what string, a ...interface{}) {
	sameSeq(st, p, w.v.data(st, st.Ghost["v"]), want, w.v.slice, "v", "content of the vector after: "+what, a...)
}
func (w *vecWorld) unchanged(st *ai.State, p *Post, what string, a ...interface{}) {
	w.seq(st, p, []ai.Piece{sub("v", ai.K(0), seqLen(st, "v"))}, what, a...)
}

func isTrue(p *Post, st *ai.State, v ai.Val, want bool, what string, a ...interface{}) bool {
	if !want {
		v = ai.Not(v)
	}
	return p.True(v, what, a...)
}

// selfRet: methods returning the vector for chaining return the receiver.
func (w *vecWorld) selfRet(st *ai.State, p *Post, ret []ai.Val, what string) {
	if len(ret) == 1 {
		p.Same(ret[0], st.Ghost["v"], "%s returns its receiver", what)
	}
}

func runC17(c *Ctx) { (&vecWorld{c: c, c17: true}).edits() }
func runC18(c *Ctx) { (&vecWorld{c: c, c18: true}).edits() }

func (w *vecWorld) edits() {
	i1 := func(names ...string) func(st *ai.State, f *ssa.Function) []ai.Val {
		return func(st *ai.State, f *ssa.Function) []ai.Val {
			var r []ai.Val
			for _, n := range names {
				r = append(r, w.sym(st, n))
				w.where(st, n)
			}
			return r
		}
	}
	// inside: 0<=i<n
	inside := func(st *ai.State, i ai.Lin) bool {
		return st.Decide(ai.GE(i, ai.K(0))) && st.Decide(ai.LTc(i, seqLen(st, "v")))
	}
	rng := func(st *ai.State) bool {
		return st.Decide(ai.GE(rs(st, "i"), ai.K(0))) && st.Decide(ai.LE(rs(st, "i"), rs(st, "j"))) && st.Decide(ai.LE(rs(st, "j"), seqLen(st, "v")))
	}
	el := func(st *ai.State, i ai.Lin) ai.Val { return st.N(ai.At("v", i, w.v.elem)) }
	val := func(st *ai.State) ai.Val { return ai.Named("x", w.v.elem) }

	w.run("Get", "any position", i1("i"), false, func(st *ai.State, p *Post, r []ai.Val) {
		if inside(st, rs(st, "i")) {
			isTrue(p, st, r[1], true, "Get inside the vector reports success")
			p.Same(r[0], el(st, rs(st, "i")), "Get returns the addressed element")
		} else {
			isTrue(p, st, r[1], false, "Get outside the vector reports failure")
		}
		w.unchanged(st, p, "Get")
	})
	w.run("Set", "any position", func(st *ai.State, f *ssa.Function) []ai.Val { return []ai.Val{w.sym(st, "i"), val(st)} }, false, func(st *ai.State, p *Post, r []ai.Val) {
		n, i := seqLen(st, "v"), rs(st, "i")
		if inside(st, i) {
			isTrue(p, st, r[0], true, "Set inside the vector reports success")
			if w.c18 {
				w.seq(st, p, []ai.Piece{sub("v", ai.K(0), i), one(val(st)), sub("v", i.AddC(1), n)}, "Set")
			}
		} else {
			isTrue(p, st, r[0], false, "Set outside the vector reports failure")
			w.unchanged(st, p, "Set outside the vector")
		}
	})
	removed := func(st *ai.State, p *Post, r []ai.Val, i ai.Lin, what string) {
		n := seqLen(st, "v")
		isTrue(p, st, r[1], true, "%s inside the vector reports success", what)
		if w.c18 {
			p.Same(r[0], el(st, i), "%s returns the removed element", what)
			w.seq(st, p, []ai.Piece{sub("v", ai.K(0), i), sub("v", i.AddC(1), n)}, what)
		}
	}
	notRemoved := func(st *ai.State, p *Post, r []ai.Val, what string) {
		isTrue(p, st, r[1], false, "%s reports failure", what)
		w.unchanged(st, p, what)
	}
	w.run("Remove", "any position", i1("i"), false, func(st *ai.State, p *Post, r []ai.Val) {
		if inside(st, rs(st, "i")) {
			removed(st, p, r, rs(st, "i"), "Remove")
		} else {
			notRemoved(st, p, r, "Remove outside the vector")
		}
	})
	w.run("Pop", "any vector", nil, false, func(st *ai.State, p *Post, r []ai.Val) {
		if st.Decide(ai.GE(seqLen(st, "v"), ai.K(1))) {
			removed(st, p, r, seqLen(st, "v").AddC(-1), "Pop")
		} else {
			notRemoved(st, p, r, "Pop of the empty vector")
		}
	})
	for _, q := range []struct {
		fn   string
		last bool
	}{{"First", false}, {"Last", true}} {
		q := q
		w.run(q.fn, "any vector", nil, false, func(st *ai.State, p *Post, r []ai.Val) {
			if st.Decide(ai.GE(seqLen(st, "v"), ai.K(1))) {
				isTrue(p, st, r[1], true, "%s of a non-empty vector succeeds", q.fn)
				i := ai.K(0)
				if q.last {
					i = seqLen(st, "v").AddC(-1)
				}
				p.Same(r[0], el(st, i), "%s returns that element", q.fn)
			} else {
				isTrue(p, st, r[1], false, "%s of the empty vector reports failure", q.fn)
			}
			w.unchanged(st, p, q.fn)
		})
	}
	w.run("ConpareAndRemove", "any position", func(st *ai.State, f *ssa.Function) []ai.Val { return []ai.Val{w.sym(st, "i"), val(st)} }, false, func(st *ai.State, p *Post, r []ai.Val) {
		i := rs(st, "i")
		if !inside(st, i) {
			notRemoved(st, p, r, "compare-and-remove outside the vector")
			return
		}
		e := el(st, i)
		if st.Decide(ai.Less("cmp", e, val(st))) || st.Decide(ai.Less("cmp", val(st), e)) {
			notRemoved(st, p, r, "compare-and-remove of a different element")
		} else {
			removed(st, p, r, i, "compare-and-remove of an equal element")
		}
	})
	w.run("Swap", "any positions", i1("i", "j"), false, func(st *ai.State, p *Post, r []ai.Val) {
		i, j := rs(st, "i"), rs(st, "j")
		if !inside(st, i) || !inside(st, j) {
			w.unchanged(st, p, "Swap outside the vector")
			return
		}
		if !w.c18 {
			return
		}
		n := seqLen(st, "v")
		if st.Decide(ai.EQ(i, j)) {
			w.unchanged(st, p, "Swap of an element with itself")
			return
		}
		lo, hi := i, j
		if st.Decide(ai.LTc(j, i)) {
			lo, hi = j, i
		}
		w.seq(st, p, []ai.Piece{sub("v", ai.K(0), lo), one(el(st, hi)), sub("v", lo.AddC(1), hi), one(el(st, lo)), sub("v", hi.AddC(1), n)}, "Swap")
	})
	w.run("SliceCut", "any range", i1("i", "j"), false, func(st *ai.State, p *Post, r []ai.Val) {
		if rng(st) {
			sameSeq(st, p, r[0], []ai.Piece{sub("v", rs(st, "i"), rs(st, "j"))}, w.v.slice, "r", "elements returned by SliceCut")
		} else {
			sameSeq(st, p, r[0], nil, w.v.slice, "r", "SliceCut of a range outside the vector returns nothing")
		}
		w.unchanged(st, p, "SliceCut")
	})
	w.run("Cut", "any range", i1("i", "j"), false, func(st *ai.State, p *Post, r []ai.Val) {
		n, i, j := seqLen(st, "v"), rs(st, "i"), rs(st, "j")
		if rng(st) {
			if w.c18 {
				sameSeq(st, p, r[0], []ai.Piece{sub("v", i, j)}, w.v.slice, "r", "elements returned by Cut")
				w.seq(st, p, []ai.Piece{sub("v", ai.K(0), i), sub("v", j, n)}, "Cut")
			} else {
				_, l := st.SlicePieces(r[0], w.v.slice)
				p.True(ai.EQ(l, j.Sub(i)), "Cut inside the vector returns as many elements as the range has")
			}
		} else {
			sameSeq(st, p, r[0], nil, w.v.slice, "r", "Cut of a range outside the vector returns nothing")
			w.unchanged(st, p, "Cut outside the vector")
		}
	})
	if !w.c18 {
		return
	}
	w.run("SplitOff", "any position", i1("i"), false, func(st *ai.State, p *Post, r []ai.Val) {
		n, i := seqLen(st, "v"), rs(st, "i")
		if st.Decide(ai.GE(i, ai.K(0))) && st.Decide(ai.LE(i, n)) {
			sameSeq(st, p, w.v.data(st, r[0]), []ai.Piece{sub("v", i, n)}, w.v.slice, "r", "content of the split-off vector")
			w.seq(st, p, []ai.Piece{sub("v", ai.K(0), i)}, "SplitOff")
		} else {
			w.unchanged(st, p, "SplitOff outside the vector")
		}
	})
	// variadic edits
	va := func(lead ...string) func(st *ai.State, f *ssa.Function) []ai.Val {
		return func(st *ai.State, f *ssa.Function) []ai.Val {
			var r []ai.Val
			for _, n := range lead {
				r = append(r, w.sym(st, n))
			}
			return append(r, mkSlice(st, "a", w.v.slice, true))
		}
	}
	args := func(st *ai.State) ai.Piece { return sub("a", ai.K(0), seqLen(st, "a")) }
	w.run("Push", "any elements", va(), false, func(st *ai.State, p *Post, r []ai.Val) {
		w.seq(st, p, []ai.Piece{sub("v", ai.K(0), seqLen(st, "v")), args(st)}, "Push")
		w.selfRet(st, p, r, "Push")
	})
	w.run("Insert", "any position", va("i"), true, func(st *ai.State, p *Post, r []ai.Val) {
		n, i := seqLen(st, "v"), rs(st, "i")
		if !(st.Decide(ai.GE(i, ai.K(0))) && st.Decide(ai.LE(i, n))) {
			return
		}
		if !p.Ok(!st.Panic, "Insert at a valid position panics") {
			return
		}
		w.seq(st, p, []ai.Piece{sub("v", ai.K(0), i), args(st), sub("v", i, n)}, "Insert")
		w.selfRet(st, p, r, "Insert")
	})
	for _, fn := range []string{"Delete", "Replace"} {
		fn := fn
		mk := i1("i", "j")
		if fn == "Replace" {
			mk = va("i", "j")
		}
		w.run(fn, "any range", mk, true, func(st *ai.State, p *Post, r []ai.Val) {
			n, i, j := seqLen(st, "v"), rs(st, "i"), rs(st, "j")
			if !rng(st) {
				return
			}
			if !p.Ok(!st.Panic, "%s of a valid range panics", fn) {
				return
			}
			want := []ai.Piece{sub("v", ai.K(0), i), sub("v", j, n)}
			if fn == "Replace" {
				want = []ai.Piece{sub("v", ai.K(0), i), args(st), sub("v", j, n)}
			}
			w.seq(st, p, want, fn)
		})
	}
	w.run("Clear", "any vector", nil, false, func(st *ai.State, p *Post, r []ai.Val) {
		w.seq(st, p, nil, "Clear")
		w.selfRet(st, p, r, "Clear")
	})
	w.run("Grow", "any amount", i1("i"), true, func(st *ai.State, p *Post, r []ai.Val) {
		if !st.Decide(ai.GE(rs(st, "i"), ai.K(0))) {
			return
		}
		if !p.Ok(!st.Panic, "Grow by a non-negative amount panics") {
			return
		}
		w.unchanged(st, p, "Grow")
		w.selfRet(st, p, r, "Grow")
	})
	w.run("Clip", "any vector", nil, false, func(st *ai.State, p *Post, r []ai.Val) {
		w.unchanged(st, p, "Clip")
		w.selfRet(st, p, r, "Clip")
	})
	w.run("Reverse", "any vector", nil, false, func(st *ai.State, p *Post, r []ai.Val) {
		w.seq(st, p, []ai.Piece{rev("v", seqLen(st, "v"))}, "Reverse")
		w.selfRet(st, p, r, "Reverse")
	})
	w.run("Clone", "any vector", nil, false, func(st *ai.State, p *Post, r []ai.Val) {
		sameSeq(st, p, w.v.data(st, r[0]), []ai.Piece{sub("v", ai.K(0), seqLen(st, "v"))}, w.v.slice, "r", "content of the clone")
		w.unchanged(st, p, "Clone")
	})
	w.run("CloneToSlice", "any vector", nil, false, func(st *ai.State, p *Post, r []ai.Val) {
		sameSeq(st, p, r[0], []ai.Piece{sub("v", ai.K(0), seqLen(st, "v"))}, w.v.slice, "r", "content of the copy")
		w.unchanged(st, p, "CloneToSlice")
	})
	w.run("Slice", "any vector", nil, false, func(st *ai.State, p *Post, r []ai.Val) {
		sameSeq(st, p, r[0], []ai.Piece{sub("v", ai.K(0), seqLen(st, "v"))}, w.v.slice, "r", "elements returned by Slice")
	})
	w.run("Len", "any vector", nil, false, func(st *ai.State, p *Post, r []ai.Val) {
		p.True(ai.EQ(st.Lin(r[0]), seqLen(st, "v")), "Len counts the elements")
		w.unchanged(st, p, "Len")
	})
	w.run("IsEmpty", "any vector", nil, false, func(st *ai.State, p *Post, r []ai.Val) {
		isTrue(p, st, r[0], !st.Decide(ai.GE(seqLen(st, "v"), ai.K(1))), "IsEmpty is true exactly for the empty vector")
	})
	// iteration
	w.c.Run(Scenario{Name: "any vector, any callback", Pkg: vecPkg, Fn: "Vec.Range",
		Hooks: func(e *ai.Engine) {
			e.OnCallback = func(cb *ai.Callback) ai.Val {
				st := cb.St
				k := gl(st, "calls")
				if st.Ghost["stopped"] != nil || len(cb.Args) != 2 {
					flagBad(st, "C18", "Range calls back after it was told to stop")
				}
				if b, ok := st.Known(ai.EQ(st.Lin(cb.Args[0]), k)); !ok || !b {
					flagBad(st, "C18", "Range passes indexes out of sequence")
				}
				if b, ok := st.Known(st.CmpEq(cb.Args[1], ai.At("v", k, w.v.elem))); !ok || !b {
					flagBad(st, "C18", "Range passes an element that is not the one at the index")
				}
				st.Ghost["calls"] = ai.VInt{L: k.AddC(1)}
				if st.Choose(2) == 0 {
					st.Ghost["stopped"] = ai.VBool{B: true}
					return ai.VBool{B: false}
				}
				return ai.VBool{B: true}
			}
		},
		Init: func(st *ai.State, f *ssa.Function) []ai.Val {
			w.v = vecTypes(typeOfParam(f, 0))
			st.Ghost["calls"] = ai.VInt{L: ai.K(0)}
			return []ai.Val{w.v.mk(st, "v"), ai.Named("cbk", f.Params[1].Type())}
		},
		Post: func(st *ai.State, p *Post) {
			flagged(st, p, "C18")
			if st.Ghost["stopped"] == nil {
				p.True(ai.EQ(gl(st, "calls"), seqLen(st, "v")), "Range visits every element")
			} else {
				p.Ok(true, "stopped early")
			}
		},
	})
}

// ---- C19 ----

type window struct {
	o        ai.ObjID
	off, cap ai.Lin
}

type reachSet struct {
	objs map[ai.ObjID]bool
	win  []window
}

func reachOf(st *ai.State, roots ...ai.Val) *reachSet {
	r := &reachSet{objs: map[ai.ObjID]bool{}}
	var walk func(v ai.Val)
	obj := func(o ai.ObjID) {
		if r.objs[o] {
			return
		}
		r.objs[o] = true
		ob := st.Heap[o]
		if ob == nil {
			return
		}
		if ob.V != nil {
			walk(ob.V)
		}
		if ob.Seg != nil || ob.Iter != nil {
			ai.Undecided("copy reaches an object outside the domain")
		}
		if ob.Map != nil {
			for _, e := range ob.Map.Ents {
				walk(e.V)
			}
		}
	}
	walk = func(v ai.Val) {
		switch x := st.N(v).(type) {
		case ai.VPtr:
			obj(x.O)
		case ai.VIdx:
			r.win = append(r.win, window{x.O, x.I, ai.K(1)})
		case ai.VStruct:
			for _, f := range x.F {
				walk(f)
			}
		case ai.VTuple:
			for _, f := range x.F {
				walk(f)
			}
		case ai.VFunc:
			for _, f := range x.B {
				walk(f)
			}
		case ai.VIface:
			walk(x.V)
		case ai.VMap:
			obj(x.O)
		case ai.VSlice:
			r.win = append(r.win, window{x.O, x.Off, x.Cap})
			if ob := st.Heap[x.O]; ob != nil && ob.Arr != nil {
				for _, p := range ob.Arr.P {
					if p.V != nil {
						walk(p.V)
					}
				}
			}
		}
	}
	for _, v := range roots {
		walk(v)
	}
	return r
}

func disjointReach(st *ai.State, p *Post, a, b *reachSet, what string) {
	for o := range a.objs {
		if b.objs[o] {
			n := "an object"
			if ob := st.Heap[o]; ob != nil {
				n = fmt.Sprintf("%s %s", ob.Typ, ob.Name)
			}
			p.Ok(false, "%s: both sides reach %s", what, n)
			return
		}
	}
	for _, x := range a.win {
		for _, y := range b.win {
			if x.o != y.o {
				continue
			}
			if !st.Decide(ai.GE(x.cap, ai.K(1))) || !st.Decide(ai.GE(y.cap, ai.K(1))) {
				continue
			}
			if st.Decide(ai.LE(x.off.Add(x.cap), y.off)) {
				continue
			}
			p.True(ai.LE(y.off.Add(y.cap), x.off), "%s: both sides share element storage", what)
		}
	}
	p.Ok(true, "disjoint")
}

func runC19(c *Ctx) {
	w := &vecWorld{c: c}
	ind := func(what string) func(st *ai.State, p *Post, r []ai.Val) {
		return func(st *ai.State, p *Post, r []ai.Val) {
			// the content reachable now from either side
			disjointReach(st, p, reachOf(st, r[0]), reachOf(st, st.Ghost["v"]), what)
		}
	}
	run := func(fn string, names ...string) {
		for _, unset := range []bool{false, true} {
			unset := unset
			nm := "any vector"
			if unset {
				nm += ", comparison functions possibly unset"
			}
			w.c.Run(Scenario{Name: nm, Pkg: vecPkg, Fn: "Vec." + fn, Hooks: w.hooks,
				Init: func(st *ai.State, f *ssa.Function) []ai.Val {
					w.v = vecTypes(typeOfParam(f, 0))
					w.v.nilCmp = unset
					r := []ai.Val{w.v.mk(st, "v")}
					for _, n := range names {
						r = append(r, w.sym(st, n))
					}
					return r
				},
				Post: func(st *ai.State, p *Post) { ind("the result of "+fn)(st, p, rets(st)) },
			})
		}
	}
	run("Clone")
	run("CloneToSlice")
	run("SplitOff", "i")
	run("Cut", "i", "j")
}

func flagBad(st *ai.State, prop, msg string) {
	if st.Ghost["bad:"+prop] == nil {
		st.Ghost["bad:"+prop] = ai.VStr{S: msg + " at " + st.Pos()}
	}
}

func flagged(st *ai.State, p *Post, prop string) bool {
	if v, ok := st.Ghost["bad:"+prop].(ai.VStr); ok {
		p.fail("violated", v.S)
		return true
	}
	return false
}
