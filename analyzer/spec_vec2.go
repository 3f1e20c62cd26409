package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	register("C20", "searching, ordering and comparing methods are interpreted against an arbitrary fixed truth (which element matches, where the insertion point is, where two sequences first differ) answered through the configured less/equal functions only, and must return exactly what that truth prescribes; comparisons handed to library sorts must be three-way consistent with less; the automatic comparison of every supported kind must order two arbitrary values exactly one way", runC20)
}

// cmpWorld: a vector with a distinguished element x at an arbitrary position K.
type cmpWorld struct {
	c *Ctx
	v *vecT
}

func (w *cmpWorld) x() ai.Val { return ai.Named("x", w.v.elem) }
func (w *cmpWorld) y() ai.Val { return ai.Named("y", w.v.elem) }
func (w *cmpWorld) t() ai.Val { return ai.Named("t", w.v.elem) }

// distSlice: elements name[0..K), then the given distinguished ones, then name[K+len..n).
func (w *cmpWorld) distSlice(st *ai.State, name string, dist ...ai.Val) ai.Val {
	n := st.E.NamedSym("len(" + name + ")")
	sp := st.E.NamedSym("spare(" + name + ")")
	k := st.E.NamedSym("K")
	m := int64(len(dist))
	st.Assume(ai.GE(k, ai.K(0)))
	st.Assume(ai.GE(sp, ai.K(0)))
	st.Assume(ai.GE(n, k.AddC(m)))
	ps := []ai.Piece{{Len: k, E: &ai.Elem{Base: name, Off: ai.K(0), Dir: 1}}}
	for _, d := range dist {
		ps = append(ps, one(d))
	}
	ps = append(ps, ai.Piece{Len: n.Sub(k).AddC(-m), E: &ai.Elem{Base: name, Off: k.AddC(m), Dir: 1}},
		ai.Piece{Len: sp, E: &ai.Elem{Base: name + "'spare", Off: ai.K(0), Dir: 1}})
	o := st.AllocObj(&ai.Obj{Typ: w.v.slice, Name: name, Arr: &ai.ArrObj{P: ps}})
	return ai.VSlice{O: o, Off: ai.K(0), Len: n, Cap: n.Add(sp)}
}

// index of an element value in the named sequence
func (w *cmpWorld) idx(st *ai.State, v ai.Val, name string, dist ...string) (ai.Lin, bool) {
	t, ok := st.N(v).(ai.VTerm)
	if !ok {
		return ai.Lin{}, false
	}
	if e := ai.ElemOf(t); e != nil && e.Base == name {
		return st.NL(e.Off), true
	}
	for i, d := range dist {
		if t.T.Op == d {
			return rs(st, "K").AddC(int64(i)), true
		}
	}
	return ai.Lin{}, false
}

func (w *cmpWorld) vec(st *ai.State, f *ssa.Function, data ai.Val) ai.Val {
	x := w.v.mkVal(st, "v")
	x.F[w.v.d] = data
	o := st.AllocObj(&ai.Obj{Typ: w.v.t, V: x, Name: "v"})
	st.Ghost["v"] = ai.VPtr{O: o}
	return ai.VPtr{O: o}
}

// arbitrary vector without a distinguished element
func (w *cmpWorld) plain(st *ai.State, n0 bool) ai.Val {
	return mkSlice(st, "v", w.v.slice, true)
}

// extra arguments by parameter type: elements get t, two-argument predicates are less then equal, others opaque.
func (w *cmpWorld) args(st *ai.State, f *ssa.Function) []ai.Val {
	var r []ai.Val
	nf := 0
	for _, p := range f.Params[1:] {
		if s, ok := p.Type().Underlying().(*types.Signature); ok {
			name := "f"
			switch {
			case s.Params().Len() == 2 && isBoolT(s.Results().At(0).Type()):
				name = "arg.less"
				if nf == 1 || len(f.Params) == 2 || strings.HasPrefix(f.Name(), "Equal") {
					name = "arg.equal"
				}
				nf++
			case s.Params().Len() == 2:
				name = "arg.cmp3"
			}
			v := ai.Named(name, p.Type())
			st.Assume(ai.Not(st.CmpEq(v, ai.VNil{})))
			r = append(r, v)
			continue
		}
		r = append(r, w.t())
	}
	return r
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func cbName(cb *ai.Callback) string {
	if t, ok := cb.F.(ai.VTerm); ok {
		return t.T.Op
	}
	ai.Undecided("call of an unknown function %s", ai.Key(cb.F))
	return ""
}

func boolV(b bool) ai.Val { return ai.VBool{B: b} }

// fixedInt is some integer of the given sign.
func signed(st *ai.State, s int) ai.Val {
	l := st.E.FreshSym()
	switch {
	case s < 0:
		st.Assume(ai.LE(l, ai.K(-1)))
	case s > 0:
		st.Assume(ai.GE(l, ai.K(1)))
	default:
		return ai.VInt{L: ai.K(0)}
	}
	return ai.VInt{L: l}
}

// answer turns "sign of element against target" into the answer of the called function.
func answer(st *ai.State, fn string, sign int, swapped bool) ai.Val {
	if swapped {
		sign = -sign
	}
	switch {
	case strings.HasSuffix(fn, ".less"):
		return boolV(sign < 0)
	case strings.HasSuffix(fn, ".equal"):
		return boolV(sign == 0)
	case strings.HasSuffix(fn, ".cmp3"):
		return signed(st, sign)
	}
	return boolV(sign == 0)
}

func runC20(c *Ctx) {
	w := &cmpWorld{c: c}
	w.auto()
	w.searches()
	w.binary()
	w.sortedness()
	w.extremes()
	w.compares()
	w.sorts()
	w.direct()
}

// ---- linear search ----

func (w *cmpWorld) searches() {
	for _, fn := range []string{"Search", "SearchFunc", "Contains", "ContainsFunc", "SearchAll", "SearchAllFunc"} {
		for _, present := range []bool{true, false} {
			fn, present := fn, present
			all := strings.HasPrefix(fn, "SearchAll")
			name := "the first match is at an arbitrary position"
			if all {
				name = "an arbitrary element matches"
			}
			if !present {
				name = "no element matches"
				if all {
					name = "an arbitrary element does not match"
				}
			}
			w.c.Run(Scenario{Name: name, Pkg: vecPkg, Fn: "Vec." + fn,
				Hooks: func(e *ai.Engine) {
					e.OnCallback = func(cb *ai.Callback) ai.Val {
						st := cb.St
						name := cbName(cb)
						var el ai.Val
						swapped := false
						if len(cb.Args) == 1 {
							el = cb.Args[0]
						} else {
							a, b := st.N(cb.Args[0]), st.N(cb.Args[1])
							switch {
							case ai.Same(b, w.t()):
								el = a
							case ai.Same(a, w.t()):
								el, swapped = b, true
							}
						}
						if el == nil {
							flagBad(st, "C20", "compares something else than an element with the target")
							return answer(st, name, st.Choose(2), false)
						}
						i, ok := w.idx(st, el, "v", "x")
						if !ok {
							flagBad(st, "C20", "compares a value that is not an element of the vector")
							return answer(st, name, st.Choose(2), false)
						}
						sign := 1
						switch {
						case all:
							if b, ok := st.Known(ai.EQ(i, rs(st, "K"))); ok && b {
								if present {
									sign = 0
								}
							} else {
								sign = st.Choose(2)
							}
						case present:
							if b, ok := st.Known(ai.LTc(i, rs(st, "K"))); ok && b {
							} else if b, ok := st.Known(ai.EQ(i, rs(st, "K"))); ok && b {
								sign = 0
							} else {
								sign = st.Choose(2)
							}
						}
						if sign != 0 && st.Choose(2) == 0 {
							sign = -1
						}
						return answer(st, name, sign, swapped)
					}
					if all {
						e.LoopNorm = func(st *ai.State) {
							k := rs(st, "K")
							st.MapPieces(func(p ai.Piece) ai.Piece {
								l := ai.Lin{}
								switch {
								case p.V != nil:
									x, ok := p.V.(ai.VInt)
									if !ok {
										return p
									}
									l = x.L
								case p.E != nil && p.E.Base == "#int" && ai.EntailsEq(st.Cons, p.Len.AddC(-1)):
									l = p.E.Off
								default:
									return p
								}
								if b, ok := st.Known(ai.LTc(l, k)); ok && b {
									return ai.Piece{Len: p.Len, Tag: "before"}
								}
								if b, ok := st.Known(ai.LTc(k, l)); ok && b {
									return ai.Piece{Len: p.Len, Tag: "after"}
								}
								return p
							})
						}
					}
				},
				Init: func(st *ai.State, f *ssa.Function) []ai.Val {
					w.v = vecTypes(typeOfParam(f, 0))
					var d ai.Val
					if present || all {
						d = w.distSlice(st, "v", w.x())
					} else {
						d = mkSlice(st, "v", w.v.slice, true)
					}
					return append([]ai.Val{w.vec(st, f, d)}, w.args(st, f)...)
				},
				Post: func(st *ai.State, p *Post) {
					flagged(st, p, "C20")
					r := rets(st)
					switch {
					case all:
						w.postAll(st, p, r[0], present, fn)
					case strings.HasPrefix(fn, "Contains"):
						isTrue(p, st, r[0], present, "%s reports a match exactly when there is one", fn)
					case present:
						p.True(ai.EQ(st.Lin(r[0]), rs(st, "K")), "%s returns the position of the first match", fn)
					default:
						p.True(ai.EQ(st.Lin(r[0]), ai.K(-1)), "%s returns -1 when nothing matches", fn)
					}
				},
			})
		}
	}
}

func (w *cmpWorld) postAll(st *ai.State, p *Post, r ai.Val, present bool, fn string) {
	k := rs(st, "K")
	ps, _ := st.SlicePieces(r, types.NewSlice(types.Typ[types.Int]))
	phase, hits := 0, 0
	for _, q := range ps {
		if b, ok := st.Known(ai.EQ(q.Len, ai.K(0))); ok && b {
			continue
		}
		ph := -1
		var l *ai.Lin
		switch {
		case q.V != nil:
			if x, ok := q.V.(ai.VInt); ok {
				l = &x.L
			}
		case q.E != nil && q.E.Base == "#int":
			l = &q.E.Off
		case q.Tag == "before":
			ph = 0
		case q.Tag == "after":
			ph = 2
		}
		if l != nil {
			if b, ok := st.Known(ai.EQ(q.Len, ai.K(1))); ok && b {
				if b, ok := st.Known(ai.EQ(*l, k)); ok && b {
					ph = 1
					hits++
				} else if b, ok := st.Known(ai.LTc(*l, k)); ok && b {
					ph = 0
				} else if b, ok := st.Known(ai.LTc(k, *l)); ok && b {
					ph = 2
				}
			}
		}
		if !p.Ok(ph >= phase, "%s: the positions returned are not ascending or not determined", fn) {
			return
		}
		phase = ph
	}
	want := 0
	if present {
		want = 1
	}
	p.Ok(hits == want, "%s returns the position of an element exactly when (and as often as) it matches", fn)
}

// ---- binary search ----

func (w *cmpWorld) binary() {
	for _, fn := range []string{"BinarySearch", "BinarySearchFunc"} {
		for _, tc := range []string{"found", "absent", "absent, past the end"} {
			fn, tc := fn, tc
			w.c.Run(Scenario{Name: "sorted vector, target " + tc, Pkg: vecPkg, Fn: "Vec." + fn,
				Hooks: func(e *ai.Engine) {
					e.OnCallback = func(cb *ai.Callback) ai.Val {
						st := cb.St
						name := cbName(cb)
						if len(cb.Args) != 2 {
							ai.Undecided("call of %s", name)
						}
						a, b := st.N(cb.Args[0]), st.N(cb.Args[1])
						swapped := false
						el := a
						if ai.Same(a, w.t()) {
							el, swapped = b, true
							if strings.HasSuffix(name, ".cmp3") {
								flagBad(st, "C20", "passes element and target in the wrong order")
							}
						} else if !ai.Same(b, w.t()) {
							flagBad(st, "C20", "compares something else than an element with the target")
							return answer(st, name, st.Choose(3)-1, false)
						}
						i, ok := w.idx(st, el, "v", "x")
						if !ok {
							flagBad(st, "C20", "compares a value that is not an element of the vector")
							return answer(st, name, st.Choose(3)-1, false)
						}
						k := rs(st, "K")
						if st.Decide(ai.LTc(i, k)) {
							return answer(st, name, -1, swapped)
						}
						if tc != "found" {
							return answer(st, name, 1, swapped)
						}
						if st.Decide(ai.EQ(i, k)) {
							return answer(st, name, 0, swapped)
						}
						return answer(st, name, st.Choose(2), swapped)
					}
				},
				Init: func(st *ai.State, f *ssa.Function) []ai.Val {
					w.v = vecTypes(typeOfParam(f, 0))
					var d ai.Val
					if tc == "absent, past the end" {
						d = mkSlice(st, "v", w.v.slice, true)
						st.Assume(ai.EQ(st.E.NamedSym("K"), seqLen(st, "v")))
					} else {
						d = w.distSlice(st, "v", w.x())
					}
					return append([]ai.Val{w.vec(st, f, d)}, w.args(st, f)...)
				},
				Post: func(st *ai.State, p *Post) {
					flagged(st, p, "C20")
					r := rets(st)
					p.True(ai.EQ(st.Lin(r[0]), rs(st, "K")), "%s returns the insertion point", fn)
					isTrue(p, st, r[1], tc == "found", "%s reports the target found exactly when it is there", fn)
				},
			})
		}
	}
}

// orderCallback: less is the strict weak order "cmp", equal its ties; within a sequence declared
// sorted, an earlier element is never greater than a later one.
func (w *cmpWorld) orderCallback(sorted bool) func(cb *ai.Callback) ai.Val {
	return func(cb *ai.Callback) ai.Val {
		st := cb.St
		name := cbName(cb)
		if len(cb.Args) != 2 {
			ai.Undecided("call of %s", name)
		}
		a, b := st.N(cb.Args[0]), st.N(cb.Args[1])
		if sorted {
			i, ok1 := w.idx(st, a, "v", "x")
			j, ok2 := w.idx(st, b, "v", "x")
			if ok1 && ok2 {
				if st.Decide(ai.LE(i, j)) {
					st.Assume(ai.Not(ai.Less("cmp", b, a)))
				} else {
					st.Assume(ai.Not(ai.Less("cmp", a, b)))
				}
			}
		}
		if strings.HasSuffix(name, ".equal") {
			return eqVal(st, a, b)
		}
		return ai.Less("cmp", a, b)
	}
}

func (w *cmpWorld) sortedness() {
	for _, fn := range []string{"IsSorted", "IsSortedFunc"} {
		for _, sorted := range []bool{true, false} {
			fn, sorted := fn, sorted
			name := "ascending vector"
			if !sorted {
				name = "some element greater than its successor"
			}
			w.c.Run(Scenario{Name: name, Pkg: vecPkg, Fn: "Vec." + fn,
				Hooks: func(e *ai.Engine) { e.ProjectFacts = true; e.OnCallback = w.orderCallback(sorted) },
				Init: func(st *ai.State, f *ssa.Function) []ai.Val {
					w.v = vecTypes(typeOfParam(f, 0))
					var d ai.Val
					if sorted {
						d = mkSlice(st, "v", w.v.slice, true)
					} else {
						d = w.distSlice(st, "v", w.x(), w.y())
						st.Assume(ai.Less("cmp", w.y(), w.x()))
					}
					return append([]ai.Val{w.vec(st, f, d)}, w.args(st, f)...)
				},
				Post: func(st *ai.State, p *Post) {
					isTrue(p, st, rets(st)[0], sorted, "%s reports ascending order exactly when it holds", fn)
				},
			})
		}
	}
}

func (w *cmpWorld) extremes() {
	for _, fn := range []string{"Min", "Max", "MinFunc", "MaxFunc"} {
		fn := fn
		w.c.Run(Scenario{Name: "against an arbitrary element", Pkg: vecPkg, Fn: "Vec." + fn,
			Hooks: func(e *ai.Engine) { e.ProjectFacts = true; e.OnCallback = w.orderCallback(false) },
			Init: func(st *ai.State, f *ssa.Function) []ai.Val {
				w.v = vecTypes(typeOfParam(f, 0))
				return append([]ai.Val{w.vec(st, f, w.distSlice(st, "v", w.x()))}, w.args(st, f)...)
			},
			Post: func(st *ai.State, p *Post) {
				r := rets(st)[0]
				_, ok := w.idx(st, r, "v", "x")
				p.Ok(ok, "%s returns an element of the vector", fn)
				if strings.HasPrefix(fn, "Min") {
					p.True(ai.Not(ai.Less("cmp", w.x(), r)), "%s returns an element no other is less than", fn)
				} else {
					p.True(ai.Not(ai.Less("cmp", r, w.x())), "%s returns an element that is less than no other", fn)
				}
			},
		})
	}
}

// ---- sequence comparison ----

func (w *cmpWorld) compares() {
	for _, fn := range []string{"Compare", "CompareFunc", "EqualVec", "EqualSlice", "EqualVecFunc", "EqualSliceFunc"} {
		for _, tc := range []string{"equal", "proper prefix", "proper extension", "first difference less", "first difference greater"} {
			fn, tc := fn, tc
			diff := strings.HasPrefix(tc, "first")
			sign := map[string]int{"equal": 0, "proper prefix": -1, "proper extension": 1, "first difference less": -1, "first difference greater": 1}[tc]
			w.c.Run(Scenario{Name: tc, Pkg: vecPkg, Fn: "Vec." + fn,
				Hooks: func(e *ai.Engine) {
					e.OnCallback = func(cb *ai.Callback) ai.Val {
						st := cb.St
						name := cbName(cb)
						if len(cb.Args) != 2 {
							ai.Undecided("call of %s", name)
						}
						a, b := st.N(cb.Args[0]), st.N(cb.Args[1])
						i, ok1 := w.idx(st, a, "v", "x")
						j, ok2 := w.idx(st, b, "o", "y")
						swapped := false
						if !ok1 || !ok2 {
							i, ok1 = w.idx(st, b, "v", "x")
							j, ok2 = w.idx(st, a, "o", "y")
							swapped = true
						}
						if !ok1 || !ok2 {
							flagBad(st, "C20", "compares elements that are not one of each side")
							return answer(st, name, st.Choose(3)-1, false)
						}
						if b, ok := st.Known(ai.EQ(i, j)); !ok || !b {
							flagBad(st, "C20", "compares elements at different positions")
							return answer(st, name, st.Choose(3)-1, false)
						}
						if !diff || st.Decide(ai.LTc(i, rs(st, "K"))) {
							return answer(st, name, 0, swapped)
						}
						if st.Decide(ai.EQ(i, rs(st, "K"))) {
							return answer(st, name, sign, swapped)
						}
						return answer(st, name, st.Choose(3)-1, swapped)
					}
				},
				Init: func(st *ai.State, f *ssa.Function) []ai.Val {
					w.v = vecTypes(typeOfParam(f, 0))
					var d, o ai.Val
					if diff {
						d, o = w.distSlice(st, "v", w.x()), w.distSlice(st, "o", w.y())
					} else {
						d, o = mkSlice(st, "v", w.v.slice, true), mkSlice(st, "o", w.v.slice, true)
						n, m := seqLen(st, "v"), seqLen(st, "o")
						switch sign {
						case 0:
							st.Assume(ai.EQ(n, m))
						case -1:
							st.Assume(ai.LTc(n, m))
						case 1:
							st.Assume(ai.LTc(m, n))
						}
					}
					r := []ai.Val{w.vec(st, f, d)}
					ex := w.args(st, f)
					if _, ok := f.Params[1].Type().Underlying().(*types.Struct); ok {
						x := w.v.mkVal(st, "ov")
						x.F[w.v.d] = o
						ex[0] = x
					} else {
						ex[0] = o
					}
					return append(r, ex...)
				},
				Post: func(st *ai.State, p *Post) {
					flagged(st, p, "C20")
					r := rets(st)[0]
					if strings.HasPrefix(fn, "Equal") {
						isTrue(p, st, r, sign == 0, "%s is true exactly for equal sequences", fn)
						return
					}
					l := st.Lin(r)
					switch sign {
					case 0:
						p.True(ai.EQ(l, ai.K(0)), "%s of equal sequences is 0", fn)
					case -1:
						p.True(ai.LE(l, ai.K(-1)), "%s is negative when the vector comes first", fn)
					case 1:
						p.True(ai.GE(l, ai.K(1)), "%s is positive when the vector comes last", fn)
					}
				},
			})
		}
	}
}

// ---- library algorithms by contract ----

// libContract replaces sorting and compaction in the library by their contracts: the comparison passed
// is interpreted on two arbitrary elements and must be consistent with the order.
func (w *cmpWorld) libContract(e *ai.Engine) {
	e.OnCallback = w.orderCallback(false)
	probe := func(c *ai.Call, drv string, ta bool, f ai.Val, args []ai.Val, chk func(st *ai.State, r ai.Val) ai.Val) {
		fn := e.Fn(vecPkg, drv)
		fv := ai.VFunc{Fn: fn}
		if ta {
			fv.TA = ai.TEnv{ai.TypeParamOf(fn, 0).(*types.TypeParam): w.v.elem}
		}
		c.CallValue(fv, append([]ai.Val{f}, args...), chk)
	}
	whole := func(st *ai.State, s ai.Val, what string) {
		d := w.v.data(st, st.Ghost["v"])
		if !ai.Same(st.N(s), d) {
			flagBad(st, "C20", what+" is applied to something else than all elements")
		}
	}
	mark := func(st *ai.State, s ai.Val, base string) {
		if x, ok := st.N(s).(ai.VSlice); ok {
			st.Heap[x.O] = func() *ai.Obj {
				n := *st.Heap[x.O]
				n.Arr = &ai.ArrObj{P: []ai.Piece{{Len: x.Len, E: &ai.Elem{Base: base, Off: ai.K(0), Dir: 1}}, {Len: st.NL(x.Cap.Sub(x.Len))}}}
				return &n
			}()
		}
		st.Ghost["done"] = ai.VStr{S: base}
	}
	consistent := func(st *ai.State, sign ai.Lin, a, b ai.Val, what string) {
		ok := false
		switch {
		case st.Decide(ai.Less("cmp", a, b)):
			k, isk := st.Known(ai.LE(sign, ai.K(-1)))
			ok = isk && k
		case st.Decide(ai.Less("cmp", b, a)):
			k, isk := st.Known(ai.GE(sign, ai.K(1)))
			ok = isk && k
		default:
			k, isk := st.Known(ai.EQ(sign, ai.K(0)))
			ok = isk && k
		}
		if !ok {
			flagBad(st, "C20", what+" uses a comparison that is not the ascending three-way comparison of less and equal")
		}
	}
	e.Override = func(c *ai.Call) (ai.Val, bool) {
		pkg := ""
		if c.Fn.Pkg != nil {
			pkg = c.Fn.Pkg.Pkg.Path()
		} else if c.Fn.Origin() != nil && c.Fn.Origin().Pkg != nil {
			pkg = c.Fn.Origin().Pkg.Pkg.Path()
		}
		st := c.St
		a, b := ai.Named("pa", w.v.elem), ai.Named("pb", w.v.elem)
		switch pkg {
		case "golang.org/x/exp/slices", "slices":
			switch n := c.Fn.Name(); n {
			case "SortFunc", "SortStableFunc":
				base := "sorted"
				if n == "SortStableFunc" {
					base = "sorted:stable"
				}
				whole(st, c.Args[0], "sorting")
				s := c.Args[0]
				probe(c, "verifProbe", true, c.Args[1], []ai.Val{a, b}, func(st *ai.State, r ai.Val) ai.Val {
					consistent(st, st.Lin(st.N(r)), a, b, "sorting")
					mark(st, s, base)
					return ai.VTuple{}
				})
				return nil, true
			case "CompactFunc":
				whole(st, c.Args[0], "compaction")
				s := c.Args[0]
				probe(c, "verifProbeEq", true, c.Args[1], []ai.Val{a, b}, func(st *ai.State, r ai.Val) ai.Val {
					want := eqVal(st, a, b).(ai.VBool).B
					got := st.Decide(st.N(r))
					if want != got {
						flagBad(st, "C20", "compaction uses a comparison that is not equality")
					}
					mark(st, s, "compact")
					x, ok := st.N(s).(ai.VSlice)
					if !ok {
						return s
					}
					n := st.E.FreshSym()
					st.Assume(ai.GE(n, ai.K(0)))
					st.Assume(ai.LE(n, x.Len))
					return ai.VSlice{O: x.O, Off: x.Off, Len: n, Cap: x.Cap}
				})
				return nil, true
			}
		case "sort":
			switch n := c.Fn.Name(); n {
			case "Slice", "SliceStable":
				base := "sorted"
				if n == "SliceStable" {
					base = "sorted:stable"
				}
				s := c.Args[0]
				if i, ok := s.(ai.VIface); ok {
					s = i.V
				}
				whole(st, s, "sorting")
				if x, ok := st.N(s).(ai.VNil); ok {
					_ = x
					mark(st, s, base)
					return ai.VTuple{}, true
				}
				x := st.N(s).(ai.VSlice)
				i, j := st.E.NamedSym("pi"), st.E.NamedSym("pj")
				if !st.Decide(ai.GE(x.Len, ai.K(2))) {
					mark(st, s, base)
					return ai.VTuple{}, true
				}
				for _, l := range []ai.Lin{i, j} {
					st.Assume(ai.GE(l, ai.K(0)))
					st.Assume(ai.LTc(l, x.Len))
				}
				if st.Decide(ai.EQ(i, j)) {
					ai.Infeasible()
				}
				probe(c, "verifProbeLess", false, c.Args[1], []ai.Val{ai.VInt{L: st.NL(i)}, ai.VInt{L: st.NL(j)}}, func(st *ai.State, r ai.Val) ai.Val {
					ea, eb := ai.At("v", rs(st, "pi"), w.v.elem), ai.At("v", rs(st, "pj"), w.v.elem)
					want := st.Decide(ai.Less("cmp", st.N(ea), st.N(eb)))
					if st.Decide(st.N(r)) != want {
						flagBad(st, "C20", "sorting uses a comparison that is not the ascending order")
					}
					mark(st, s, base)
					return ai.VTuple{}
				})
				return nil, true
			}
		}
		return nil, false
	}
}

func (w *cmpWorld) sorts() {
	for _, fn := range []string{"Sort", "SortFunc", "SortStable", "SortStableFunc", "Compact", "CompactFunc"} {
		fn := fn
		want := "sorted"
		switch {
		case strings.HasPrefix(fn, "SortStable"):
			want = "sorted:stable"
		case strings.HasPrefix(fn, "Compact"):
			want = "compact"
		}
		w.c.Run(Scenario{Name: "any vector", Pkg: vecPkg, Fn: "Vec." + fn,
			Hooks: w.libContract,
			Init: func(st *ai.State, f *ssa.Function) []ai.Val {
				w.v = vecTypes(typeOfParam(f, 0))
				return append([]ai.Val{w.vec(st, f, mkSlice(st, "v", w.v.slice, true))}, w.args(st, f)...)
			},
			Post: func(st *ai.State, p *Post) {
				flagged(st, p, "C20")
				if b, ok := st.Known(ai.LE(seqLen(st, "v"), ai.K(1))); ok && b {
					return // nothing to order
				}
				got := ""
				if s, ok := st.Ghost["done"].(ai.VStr); ok {
					got = s.S
				}
				p.Ok(got == want || got == "sorted:stable" && want == "sorted", "%s processes all elements (%s)", fn, got)
				// the result is what the vector holds
				d := w.v.data(st, st.Ghost["v"])
				ps, n := st.SlicePieces(d, w.v.slice)
				if want != "compact" {
					p.True(ai.EQ(n, seqLen(st, "v")), "%s keeps the number of elements", fn)
				}
				for _, q := range ps {
					p.Ok(q.E != nil && q.E.Base == got, "%s leaves the vector holding the result", fn)
				}
				if r := rets(st); len(r) == 1 {
					p.Same(r[0], st.Ghost["v"], "%s returns its receiver", fn)
				}
			},
		})
	}
}

func (w *cmpWorld) direct() {
	for _, fn := range []string{"Less", "Equal", "CmpLess", "CmpEqual"} {
		fn := fn
		byIdx := !strings.HasPrefix(fn, "Cmp")
		w.c.Run(Scenario{Name: "two arbitrary elements", Pkg: vecPkg, Fn: "Vec." + fn,
			Hooks: func(e *ai.Engine) { e.ProjectFacts = true; e.OnCallback = w.orderCallback(false) },
			Init: func(st *ai.State, f *ssa.Function) []ai.Val {
				w.v = vecTypes(typeOfParam(f, 0))
				r := []ai.Val{w.vec(st, f, mkSlice(st, "v", w.v.slice, false))}
				for _, n := range []string{"i", "j"} {
					if byIdx {
						l := st.E.NamedSym(n)
						st.Assume(ai.GE(l, ai.K(0)))
						st.Assume(ai.LTc(l, seqLen(st, "v")))
						r = append(r, ai.VInt{L: st.NL(l)})
					} else {
						r = append(r, ai.Named(n, w.v.elem))
					}
				}
				return r
			},
			Post: func(st *ai.State, p *Post) {
				var a, b ai.Val = ai.Named("i", w.v.elem), ai.Named("j", w.v.elem)
				if byIdx {
					a, b = ai.At("v", rs(st, "i"), w.v.elem), ai.At("v", rs(st, "j"), w.v.elem)
				}
				var want bool
				if strings.HasSuffix(fn, "Less") {
					want = st.Decide(ai.Less("cmp", st.N(a), st.N(b)))
				} else {
					want = eqVal(st, st.N(a), st.N(b)).(ai.VBool).B
				}
				isTrue(p, st, rets(st)[0], want, "%s applies the configured function to the two elements in order", fn)
			},
		})
	}
}

// ---- automatic comparison ----

func (w *cmpWorld) auto() {
	type kind struct {
		name string
		t    types.Type
		cls  string
	}
	var kinds []kind
	for _, k := range []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64} {
		kinds = append(kinds, kind{types.Typ[k].Name(), types.Typ[k], "int"})
	}
	for _, k := range []types.BasicKind{types.Float32, types.Float64} {
		kinds = append(kinds, kind{types.Typ[k].Name(), types.Typ[k], "float"})
	}
	kinds = append(kinds, kind{"string", types.Typ[types.String], "string"})
	for _, k := range kinds {
		n := types.NewNamed(types.NewTypeName(0, nil, "named_"+k.name, nil), k.t, nil)
		kinds = append(kinds, kind{"a named " + k.name, n, k.cls})
		if k.name == "string" {
			break
		}
	}
	for _, k := range kinds {
		for _, ptr := range []bool{false, true} {
			k, ptr := k, ptr
			name := k.name
			et := k.t
			if ptr {
				name = "pointer to " + name
				et = types.NewPointer(k.t)
			}
			val := func(st *ai.State, n string) ai.Val { return st.Opaque(ai.Named(n, k.t), k.t) }
			mk := func(names ...string) func(st *ai.State, f *ssa.Function) []ai.Val {
				return func(st *ai.State, f *ssa.Function) []ai.Val {
					tp := ai.TypeParamOf(f, 0).(*types.TypeParam)
					vt := st.E.Resolve(deref(typeOfParam(f, 0)), ai.TEnv{tp: et})
					o := st.AllocObj(&ai.Obj{Typ: vt, V: st.Zero(vt), Name: "v"})
					r := []ai.Val{ai.VPtr{O: o}}
					for _, n := range names {
						v := val(st, n)
						if ptr {
							v = ai.VPtr{O: st.AllocObj(&ai.Obj{Typ: k.t, V: v, Name: n})}
						}
						r = append(r, v)
					}
					return r
				}
			}
			ta := func(f *ssa.Function) ai.TEnv {
				return ai.TEnv{ai.TypeParamOf(f, 0).(*types.TypeParam): et}
			}
			w.c.Run(Scenario{Name: "automatic comparison of " + name, Pkg: vecPkg, Fn: "verifTri", TA: ta, Hooks: func(e *ai.Engine) { e.Wrap = true }, Init: mk("a", "b"),
				Post: func(st *ai.State, p *Post) {
					r := rets(st)
					a, b := st.N(val(st, "a")), st.N(val(st, "b"))
					lt, eq, gt := st.Decide(r[0]), st.Decide(st.N(r[1])), st.Decide(st.N(r[2]))
					n := 0
					for _, x := range []bool{lt, eq, gt} {
						if x {
							n++
						}
					}
					if !p.Ok(n == 1, "two values are ordered exactly one way (less %v, equal %v, greater %v)", lt, eq, gt) {
						return
					}
					switch k.cls {
					case "int":
						d := st.Lin(a).Sub(st.Lin(b))
						p.Ok(lt == st.Decide(ai.LE(d, ai.K(-1))), "integers are ordered by value")
						p.Ok(eq == st.Decide(ai.EQ(d, ai.K(0))), "equal means the same integer")
					case "float":
						na, nb := st.Decide(st.App("nan", nil, a)), st.Decide(st.App("nan", nil, b))
						switch {
						case na || nb:
							p.Ok(eq == (na && nb), "NaN equals NaN only")
							p.Ok(lt == (na && !nb), "NaN comes first")
						default:
							p.Ok(lt == st.Decide(ai.Less("float", a, b)), "floats are ordered by value")
							p.Ok(gt == st.Decide(ai.Less("float", b, a)), "floats are ordered by value")
						}
					case "string":
						p.Ok(eq == st.Decide(st.CmpEq(a, b)), "equal means the same string")
						if st.Decide(ai.Less("natural", a, b)) {
							p.Ok(lt, "strings are ordered naturally")
						} else if st.Decide(ai.Less("natural", b, a)) {
							p.Ok(gt, "strings are ordered naturally")
						}
					}
				}})
			w.c.Run(Scenario{Name: "transitivity of the automatic comparison of " + name, Pkg: vecPkg, Fn: "verifTrans", TA: ta, Hooks: func(e *ai.Engine) { e.Wrap = true }, Init: mk("a", "b", "c"),
				Post: func(st *ai.State, p *Post) {
					r := rets(st)
					if st.Decide(r[0]) && st.Decide(st.N(r[1])) {
						p.Ok(st.Decide(st.N(r[2])), "less is transitive")
					} else {
						p.Ok(true, "not a chain")
					}
				}})
		}
	}
	_ = fmt.Sprint
}
