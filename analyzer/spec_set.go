package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	register("C11", "for an arbitrary element x: every set operation is interpreted on maps abstracted around x (x present or absent, anything else unknown) and must leave/return exactly the membership of x the mathematics prescribes; operands unchanged; results in fresh storage", runC11)
	register("C12", "for an arbitrary key x: every generic-map method is interpreted on maps abstracted around x and must return and leave exactly what is promised for x", runC12)
}

const (
	gX = "x" // the distinguished element
	gY = "y" // an element different from x
)

// mapWorld: hooks shared by the specifications about maps with a distinguished key.
type mapWorld struct {
	// rel constrains membership of k in map g given what is known in the other map.
	rel string // "", "sub" (s subset of t), "eq" (s equals t)
}

func setTags(st *ai.State) {
	// values stored by loops: anything that is not the distinguished element is "other"
	st.MapPieces(func(p ai.Piece) ai.Piece {
		if t, ok := p.V.(ai.VTerm); ok && t.T.Fresh > 0 {
			for _, k := range st.E.Keys[:1] {
				if b, known := st.Known(st.CmpEq(t, st.N(k))); !known || b {
					return ai.Piece{Len: p.Len, Tag: "any"}
				}
			}
			return ai.Piece{Len: p.Len, Tag: "other"}
		}
		return p
	})
	dropMemo(st)
}

// memo: reading the same unknown array cell twice between two loop heads gives the same value.
func memo(st *ai.State, o ai.ObjID, i ai.Lin, mk func() ai.Val) ai.Val {
	k := fmt.Sprintf("memo:%d:%s", o, ai.Key(ai.VInt{L: st.NL(i)}))
	if v, ok := st.Ghost[k]; ok {
		return v
	}
	v := mk()
	st.Ghost[k] = v
	return v
}

func dropMemo(st *ai.State) {
	for k := range st.Ghost {
		if strings.HasPrefix(k, "memo:") {
			delete(st.Ghost, k)
		}
	}
}

// unknownOther: unknown array content tagged "other" is never the distinguished element.
func unknownOther(keys ...string) func(st *ai.State, o ai.ObjID, piece int, i ai.Lin, t types.Type) (ai.Val, bool) {
	return func(st *ai.State, o ai.ObjID, piece int, i ai.Lin, t types.Type) (ai.Val, bool) {
		tag := st.Heap[o].Arr.P[piece].Tag
		return memo(st, o, i, func() ai.Val {
			v := st.FreshVal(t)
			if tag == "other" {
				for _, k := range keys {
					distinct(st, v, ai.Named(k, t))
				}
			}
			return v
		}), true
	}
}

func keysOf(e *ai.Engine, names ...string) {
	for _, n := range names {
		e.Keys = append(e.Keys, ai.Named(n, nil))
	}
}

// membership of k in the map value m (must be decided)
func member(st *ai.State, m ai.Val, k ai.Val) bool {
	_, ok := st.MapGet(st.N(m), st.N(k))
	return ok
}

func boolName(b bool) string {
	if b {
		return "in"
	}
	return "out"
}

// a set operand: kind 0 = x absent, 1 = x present, 2 = nil
func mkSet(st *ai.State, t types.Type, kind int, name string) ai.Val {
	mt := mapType(t)
	if kind == 2 {
		return ai.VNil{}
	}
	m := st.NewUnknownMap(mt, name)
	var v ai.Val
	if kind == 1 {
		v = st.Zero(mt.Elem())
	}
	st.AddEnt(m, ai.Named(gX, mt.Key()), kind == 1, v)
	return m
}

func kindName(k int) string { return []string{"x-absent", "x-present", "nil"}[k] }

// unchanged: the map still has the same membership of x and the same length
func setUnchanged(st *ai.State, p *Post, g string, had bool, what string) {
	m := st.N(st.Ghost[g])
	if _, isNil := m.(ai.VNil); isNil {
		return
	}
	p.Ok(member(st, m, ai.Named(gX, nil)) == had, "%s: membership of an element in %s changed", what, g)
	p.True(ai.EQ(st.MapObj(m).Len, st.Lin(st.Ghost["len:"+g])), "%s: size of %s changed", what, g)
}

func rememberLen(st *ai.State, g string, m ai.Val) {
	st.Ghost[g] = m
	if _, isNil := m.(ai.VNil); isNil {
		st.Ghost["len:"+g] = ai.VInt{L: ai.K(0)}
		return
	}
	st.Ghost["len:"+g] = ai.VInt{L: st.MapObj(m).Len}
}

// pigeonhole support: while iterating one map, keys found in the other are distinct.
func relHooks(e *ai.Engine, rel string) {
	other := func(st *ai.State, m ai.VMap) (ai.VMap, string, bool) {
		s, okS := st.N(st.Ghost["s"]).(ai.VMap)
		t, okT := st.N(st.Ghost["t"]).(ai.VMap)
		if okS && okT && s.O != t.O {
			if m.O == s.O {
				return t, "s", true
			}
			if m.O == t.O {
				return s, "t", true
			}
		}
		return ai.VMap{}, "", false
	}
	find := func(st *ai.State, m ai.VMap, k ai.Val) (present, known bool) {
		for _, en := range st.MapObj(m).Ents {
			if ai.Same(en.K, k) {
				return en.Present, true
			}
		}
		return false, false
	}
	val := func(st *ai.State, m ai.VMap) ai.Val { return st.FreshVal(st.MapObj(m).ValT) }
	count := func(st *ai.State, m ai.VMap, k ai.Val) {
		// k is present in m; if k was just visited by an iteration of the other map, count it
		o, _, ok := other(st, m)
		if !ok {
			return
		}
		it, found := st.IterVisiting(o, k)
		if !found {
			return
		}
		if st.Ghost["hitIter"] == nil || !ai.Same(st.Ghost["hitIter"], it) {
			st.Ghost["hitIter"] = it
			st.Ghost["hit"] = ai.VInt{L: ai.K(0)}
		}
		h := st.Lin(st.Ghost["hit"]).AddC(1)
		st.Ghost["hit"] = ai.VInt{L: h}
		free := int64(0)
		for _, en := range st.MapObj(m).Ents {
			if en.Present {
				if p, known := find(st, o, en.K); known && !p {
					free++
				}
			}
		}
		st.Assume(ai.GE(st.MapObj(m).Len.AddC(-free), h))
	}
	e.MapUnknown = func(st *ai.State, m ai.VMap, k ai.Val) (ai.MapEnt, bool) {
		o, side, ok := other(st, m)
		if !ok {
			return ai.MapEnt{}, false
		}
		op, oknown := find(st, o, k)
		var present bool
		forced := false
		if oknown && rel != "" {
			switch {
			case rel == "eq":
				present, forced = op, true
			case rel == "sub" && side == "t" && op: // k in s
				present, forced = true, true
			case rel == "sub" && side == "s" && !op: // k not in t
				present, forced = false, true
			}
		}
		if !forced {
			present = st.Choose(2) == 0
		}
		en := ai.MapEnt{K: k, Present: present}
		if present {
			en.V = val(st, m)
			if rel == "eq" {
				for _, e2 := range st.MapObj(o).Ents {
					if ai.Same(e2.K, k) {
						en.V = e2.V
					}
				}
			}
			count(st, m, k)
		}
		return en, true
	}
	e.MapOther = func(st *ai.State, m ai.VMap, k ai.Val) (ai.MapEnt, bool) {
		return ai.MapEnt{K: k, Present: true, V: val(st, m)}, true
	}
}

// logCalls: an opaque callback is asked per element; record calls for the distinguished one.
func rangeHook(e *ai.Engine, results func(cb *ai.Callback) ai.Val) {
	e.OnCallback = func(cb *ai.Callback) ai.Val {
		st := cb.St
		if b, ok := st.Ghost["stopped"].(ai.VBool); ok && b.B {
			st.Ghost["afterStop"] = ai.VBool{B: true}
		}
		k := cb.Args[0]
		if m, ok := st.N(st.Ghost["s"]).(ai.VMap); ok {
			v, in := st.MapGet(m, k)
			if !in {
				st.Ghost["foreign"] = ai.VBool{B: true}
			}
			if len(cb.Args) > 1 && in && !ai.Same(st.N(v), st.N(cb.Args[1])) {
				st.Ghost["wrongValue"] = ai.VBool{B: true}
			}
		} else {
			st.Ghost["foreign"] = ai.VBool{B: true}
		}
		if st.Decide(st.CmpEq(st.N(k), st.N(ai.Named(gX, nil)))) {
			st.Ghost["calls"] = ai.VInt{L: st.Lin(st.Ghost["calls"]).AddC(1)}
		}
		if results != nil {
			return results(cb)
		}
		if st.Choose(2) == 0 {
			return ai.VBool{B: true}
		}
		st.Ghost["stopped"] = ai.VBool{B: true}
		return ai.VBool{B: false}
	}
}

func rangeInit(st *ai.State) {
	st.Ghost["calls"] = ai.VInt{L: ai.K(0)}
	for _, g := range []string{"stopped", "afterStop", "foreign", "wrongValue"} {
		st.Ghost[g] = ai.VBool{}
	}
}

func rangePost(st *ai.State, p *Post, had bool) {
	f := func(g string) bool { b, _ := st.Ghost[g].(ai.VBool); return b.B }
	p.Ok(!f("afterStop"), "the callback is called again after it asked to stop")
	p.Ok(!f("foreign"), "the callback is called with an element that is not present")
	p.Ok(!f("wrongValue"), "the callback is called with a value the key does not hold")
	n := st.Lin(st.Ghost["calls"])
	p.True(ai.LE(n, ai.K(1)), "an element is visited more than once")
	if !had {
		p.True(ai.EQ(n, ai.K(0)), "an absent element is visited")
	} else if !f("stopped") {
		p.True(ai.EQ(n, ai.K(1)), "an element is not visited although the iteration was not stopped")
	}
}

// countIn counts occurrences of v among the elements of a slice.
func countIn(st *ai.State, s ai.Val, t types.Type, v ai.Val) (ai.Lin, ai.Lin, bool) {
	ps, n := st.SlicePieces(s, t)
	c := ai.K(0)
	ok := true
	for _, q := range ps {
		switch {
		case q.V != nil:
			if ai.Same(st.N(q.V), st.N(v)) {
				c = c.Add(q.Len)
			} else if b, known := st.Known(st.CmpEq(q.V, v)); !known || b {
				if t, isT := q.V.(ai.VTerm); !isT || t.T.Fresh == 0 {
					ok = false
				}
			}
		case q.Tag == "other":
		default:
			ok = false
		}
	}
	return c, n, ok
}

func runC11(c *Ctx) {
	pkg := "set"
	X := func(t types.Type) ai.Val { return ai.Named(gX, mapType(t).Key()) }
	base := func(e *ai.Engine) {
		keysOf(e, gX)
		e.LoopNorm = setTags
		e.UnknownElem = unknownOther(gX)
		relHooks(e, "")
	}
	// operations on one value
	for _, kind := range []int{0, 1} {
		for _, same := range []bool{true, false} {
			kind, same := kind, same
			had := kind == 1
			name := kindName(kind) + ",val=" + map[bool]string{true: "x", false: "other"}[same]
			init := func(st *ai.State, fn *ssa.Function) []ai.Val {
				s := mkSet(st, fn.Params[0].Type(), kind, "s")
				x := X(fn.Params[0].Type())
				v := x
				if !same {
					v = ai.Named(gY, mapType(fn.Params[0].Type()).Key())
					distinct(st, v, x)
				}
				rememberLen(st, "s", s)
				st.Ghost["v"] = v
				return []ai.Val{s, v}
			}
			// was the value itself present before the call?
			for _, m := range []struct {
				fn     string
				after  func(had bool) bool
				result func(had bool) bool
			}{
				{"Set.Insert", func(bool) bool { return true }, func(h bool) bool { return !h }},
				{"Set.Remove", func(bool) bool { return false }, func(h bool) bool { return h }},
				{"Set.ContainAndRemove", func(bool) bool { return false }, func(h bool) bool { return h }},
				{"Set.Contain", func(h bool) bool { return h }, func(h bool) bool { return h }},
			} {
				m := m
				c.Run(Scenario{Name: name, Pkg: pkg, Fn: m.fn, Hooks: func(e *ai.Engine) {
					base(e)
					if !same {
						keysOf(e, gY)
					}
				}, Init: init, Post: func(st *ai.State, p *Post) {
					s := st.Ghost["s"]
					if same {
						p.Ok(member(st, s, ai.Named(gX, nil)) == m.after(had), "membership of the value after the call")
						p.Same(st.Result[0], ai.VBool{B: m.result(had)}, "reported result")
						d := int64(0)
						if m.after(had) && !had {
							d = 1
						} else if !m.after(had) && had {
							d = -1
						}
						p.True(ai.EQ(st.MapObj(s).Len, st.Lin(st.Ghost["len:s"]).AddC(d)), "size after the call")
					} else {
						p.Ok(member(st, s, ai.Named(gX, nil)) == had, "membership of another element changed")
					}
				}})
			}
		}
	}
	one := func(fn string, kinds []int, hooks func(*ai.Engine), post func(st *ai.State, p *Post, had bool)) {
		for _, k := range kinds {
			k := k
			c.Run(Scenario{Name: kindName(k), Pkg: pkg, Fn: fn, Hooks: func(e *ai.Engine) {
				base(e)
				if hooks != nil {
					hooks(e)
				}
			}, Init: func(st *ai.State, f *ssa.Function) []ai.Val {
				s := mkSet(st, f.Params[0].Type(), k, "s")
				rememberLen(st, "s", s)
				rangeInit(st)
				a := []ai.Val{s}
				if len(f.Params) > 1 {
					a = append(a, ai.Named("callback", f.Params[1].Type()))
					st.Assume(ai.Not(st.CmpEq(a[1], ai.VNil{})))
				}
				return a
			}, Post: func(st *ai.State, p *Post) { post(st, p, k == 1) }})
		}
	}
	all := []int{0, 1, 2}
	one("Set.Len", all, nil, func(st *ai.State, p *Post, had bool) {
		p.True(ai.EQ(st.Lin(st.Result[0]), st.Lin(st.Ghost["len:s"])), "Len is not the number of elements")
		setUnchanged(st, p, "s", had, "Len")
	})
	one("Set.IsEmpty", all, nil, func(st *ai.State, p *Post, had bool) {
		e := st.Decide(st.Result[0])
		p.True(cond(e, ai.EQ(st.Lin(st.Ghost["len:s"]), ai.K(0))), "IsEmpty disagrees with the number of elements")
		setUnchanged(st, p, "s", had, "IsEmpty")
	})
	one("Set.Clear", all, nil, func(st *ai.State, p *Post, had bool) {
		p.Same(st.Result[0], st.Ghost["s"], "Clear does not return the set")
		p.Ok(!member(st, st.Ghost["s"], ai.Named(gX, nil)), "an element survives Clear")
	})
	one("Set.Clone", all, nil, func(st *ai.State, p *Post, had bool) {
		p.Ok(member(st, st.Result[0], ai.Named(gX, nil)) == had, "clone has different members")
		fresh(st, p, st.Result[0], "clone")
		setUnchanged(st, p, "s", had, "Clone")
	})
	one("Set.Slice", all, nil, func(st *ai.State, p *Post, had bool) {
		n, ln, ok := countIn(st, st.Result[0], types.NewSlice(ai.TypeParamOf(p.fn, 0)), ai.Named(gX, nil))
		p.Ok(ok, "the slice holds something that is not known to be an element")
		p.True(ai.EQ(n, ai.K(b2i(had))), "an element does not occur exactly once in the slice")
		p.True(ai.EQ(ln, st.Lin(st.Ghost["len:s"])), "the slice has the wrong length")
		setUnchanged(st, p, "s", had, "Slice")
	})
	one("Set.Range", all, func(e *ai.Engine) { rangeHook(e, nil) }, func(st *ai.State, p *Post, had bool) {
		rangePost(st, p, had)
		setUnchanged(st, p, "s", had, "Range")
	})
	c.Run(Scenario{Name: "any", Pkg: pkg, Fn: "New", Hooks: base, Init: func(st *ai.State, f *ssa.Function) []ai.Val { return nil }, Post: func(st *ai.State, p *Post) {
		p.True(ai.EQ(st.MapObj(st.Result[0]).Len, ai.K(0)), "a new set is not empty")
	}})
	// Push
	for _, k := range []int{0, 1} {
		for _, in := range []bool{false, true} {
			k, in := k, in
			c.Run(Scenario{Name: kindName(k) + ",x-pushed=" + boolName(in), Pkg: pkg, Fn: "Set.Push", Hooks: base, Init: func(st *ai.State, f *ssa.Function) []ai.Val {
				s := mkSet(st, f.Params[0].Type(), k, "s")
				rememberLen(st, "s", s)
				return []ai.Val{s, distSlice(st, f.Params[1].Type(), in, X(f.Params[0].Type()))}
			}, Post: func(st *ai.State, p *Post) {
				p.Same(st.Result[0], st.Ghost["s"], "Push does not return the set")
				p.Ok(member(st, st.Ghost["s"], ai.Named(gX, nil)) == (k == 1 || in), "membership after Push")
			}})
		}
	}
	// two sets
	two := func(fn string, rel string, ks, kt []int, alias bool, post func(st *ai.State, p *Post, hs, ht bool)) {
		run := func(k, l int, al bool) {
			n := kindName(k) + "/" + kindName(l)
			if al {
				n = kindName(k) + "/same set"
			}
			if rel != "" {
				n += "/" + rel
			}
			c.Run(Scenario{Name: n, Pkg: pkg, Fn: fn, Hooks: func(e *ai.Engine) { base(e); relHooks(e, rel) }, Init: func(st *ai.State, f *ssa.Function) []ai.Val {
				s := mkSet(st, f.Params[0].Type(), k, "s")
				t := s
				if !al {
					t = mkSet(st, f.Params[1].Type(), l, "t")
				}
				rememberLen(st, "s", s)
				rememberLen(st, "t", t)
				if rel == "sub" {
					st.Assume(ai.LE(st.Lin(st.Ghost["len:s"]), st.Lin(st.Ghost["len:t"])))
				}
				if rel == "eq" {
					st.Assume(ai.EQ(st.Lin(st.Ghost["len:s"]), st.Lin(st.Ghost["len:t"])))
				}
				return []ai.Val{st.N(s), st.N(t)}
			}, Post: func(st *ai.State, p *Post) { post(st, p, k == 1, l == 1) }})
		}
		for _, k := range ks {
			for _, l := range kt {
				run(k, l, false)
			}
			if alias && k != 2 {
				run(k, k, true)
			}
		}
	}
	build := func(fn string, f func(a, b bool) bool) {
		two(fn, "", all, all, true, func(st *ai.State, p *Post, hs, ht bool) {
			p.Ok(member(st, st.Result[0], ai.Named(gX, nil)) == f(hs, ht), "membership of an element in the result")
			fresh(st, p, st.Result[0], "result")
			setUnchanged(st, p, "s", hs, fn)
			setUnchanged(st, p, "t", ht, fn)
		})
	}
	build("Set.Difference", func(a, b bool) bool { return a && !b })
	build("Set.SymmetricDifference", func(a, b bool) bool { return a != b })
	build("Set.Intersection", func(a, b bool) bool { return a && b })
	two("Set.CopyFrom", "", []int{0, 1}, all, true, func(st *ai.State, p *Post, hs, ht bool) {
		p.Same(st.Result[0], st.Ghost["s"], "CopyFrom does not return the receiver")
		p.Ok(member(st, st.Ghost["s"], ai.Named(gX, nil)) == (hs || ht), "membership after CopyFrom")
		if !ai.Same(st.Ghost["s"], st.Ghost["t"]) {
			setUnchanged(st, p, "t", ht, "CopyFrom")
		}
	})
	pred := func(fn string, want ai.Val, why string) func(st *ai.State, p *Post, hs, ht bool) {
		return func(st *ai.State, p *Post, hs, ht bool) {
			p.Same(st.Result[0], want, "%s", why)
			setUnchanged(st, p, "s", hs, fn)
			setUnchanged(st, p, "t", ht, fn)
		}
	}
	T, F := ai.VBool{B: true}, ai.VBool{}
	// x in s only: s is not a subset of t
	two("Set.IsSubSet", "", []int{1}, []int{0, 2}, false, pred("IsSubSet", F, "reports a subset although an element of s is missing in the other set"))
	two("Set.IsSubSet", "sub", []int{1}, []int{1}, false, pred("IsSubSet", T, "denies a subset relation that holds"))
	two("Set.IsSubSet", "sub", []int{0}, []int{0, 1}, true, pred("IsSubSet", T, "denies a subset relation that holds"))
	two("Set.IsSubSet", "sub", []int{2}, []int{0, 1, 2}, true, pred("IsSubSet", T, "denies that the empty set is a subset"))
	two("Set.Equal", "eq", []int{0}, []int{0}, true, pred("Equal", T, "denies equality of equal sets"))
	two("Set.Equal", "eq", []int{1}, []int{1}, true, pred("Equal", T, "denies equality of equal sets"))
	two("Set.Equal", "eq", []int{2}, []int{0, 2}, false, pred("Equal", T, "denies equality of empty sets"))
	two("Set.Equal", "", []int{1}, []int{0, 2}, false, pred("Equal", F, "reports equality although an element is missing"))
	two("Set.Equal", "", []int{0, 2}, []int{1}, false, pred("Equal", F, "reports equality although the other set has an extra element"))
	// superset: swap roles: ghost s is the second operand
	sup := func(rel string, k, l int, want ai.Val, why string) {
		c.Run(Scenario{Name: "set " + kindName(k) + "/receiver " + kindName(l) + "/" + rel, Pkg: pkg, Fn: "Set.IsSupperSet", Hooks: func(e *ai.Engine) { base(e); relHooks(e, rel) }, Init: func(st *ai.State, f *ssa.Function) []ai.Val {
			s := mkSet(st, f.Params[0].Type(), k, "s")
			t := mkSet(st, f.Params[0].Type(), l, "t")
			rememberLen(st, "s", s)
			rememberLen(st, "t", t)
			if rel == "sub" {
				st.Assume(ai.LE(st.Lin(st.Ghost["len:s"]), st.Lin(st.Ghost["len:t"])))
			}
			return []ai.Val{st.N(t), st.N(s)}
		}, Post: func(st *ai.State, p *Post) {
			p.Same(st.Result[0], want, "%s", why)
			setUnchanged(st, p, "s", k == 1, "IsSupperSet")
			setUnchanged(st, p, "t", l == 1, "IsSupperSet")
		}})
	}
	for _, l := range []int{0, 2} {
		sup("", 1, l, F, "reports a superset although an element of the other set is missing")
	}
	sup("sub", 1, 1, T, "denies a superset relation that holds")
	sup("sub", 0, 0, T, "denies a superset relation that holds")
	sup("sub", 0, 1, T, "denies a superset relation that holds")
	for _, l := range all {
		sup("sub", 2, l, T, "denies that every set is a superset of the empty one")
	}
	// Union
	for _, k := range all {
		for _, m := range []int{0, 1, 2, 3} { // 3: the receiver itself
			for _, others := range []string{"noX", "anyX"} {
				k, m, others := k, m, others
				if others == "anyX" && m != 1 {
					continue
				}
				name := kindName(k) + "/one of the sets " + []string{"x-absent", "x-present", "nil", "receiver"}[m] + "/others " + others
				c.Run(Scenario{Name: name, Pkg: pkg, Fn: "Set.Union", Hooks: func(e *ai.Engine) {
					base(e)
					e.UnknownElem = func(st *ai.State, o ai.ObjID, piece int, i ai.Lin, t types.Type) (ai.Val, bool) {
						kind := 0
						if st.Heap[o].Arr.P[piece].Tag == "anyX" {
							kind = st.Choose(2)
						}
						return memo(st, o, i, func() ai.Val { return mkSet(st, t, kind, "other") }), true
					}
				}, Init: func(st *ai.State, f *ssa.Function) []ai.Val {
					s := mkSet(st, f.Params[0].Type(), k, "s")
					rememberLen(st, "s", s)
					var t ai.Val = s
					if m != 3 {
						t = mkSet(st, f.Params[0].Type(), m, "t")
					}
					rememberLen(st, "t", t)
					a, b := st.E.RigidSym("before"), st.E.RigidSym("after")
					st.Assume(ai.GE(a, ai.K(0)))
					st.Assume(ai.GE(b, ai.K(0)))
					v := st.NewSlice([]ai.Piece{{Len: a, Tag: others}, {Len: ai.K(1), V: t}, {Len: b, Tag: others}}, f.Params[1].Type(), ai.K(0))
					return []ai.Val{s, v}
				}, Post: func(st *ai.State, p *Post) {
					want := k == 1 || m == 1
					p.Ok(member(st, st.Result[0], ai.Named(gX, nil)) == want, "membership of an element in the union")
					fresh(st, p, st.Result[0], "union")
					setUnchanged(st, p, "s", k == 1, "Union")
					setUnchanged(st, p, "t", m == 1 || m == 3 && k == 1, "Union")
				}})
			}
		}
	}
	for _, k := range all {
		k := k
		c.Run(Scenario{Name: kindName(k) + "/no sets", Pkg: pkg, Fn: "Set.Union", Hooks: base, Init: func(st *ai.State, f *ssa.Function) []ai.Val {
			s := mkSet(st, f.Params[0].Type(), k, "s")
			rememberLen(st, "s", s)
			return []ai.Val{s, ai.VNil{}}
		}, Post: func(st *ai.State, p *Post) {
			p.Ok(member(st, st.Result[0], ai.Named(gX, nil)) == (k == 1), "membership of an element in the union")
			fresh(st, p, st.Result[0], "union")
		}})
	}
}

func cond(b bool, v ai.Val) ai.Val {
	if b {
		return v
	}
	return ai.Not(v)
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// fresh: the map was allocated by the call.
func fresh(st *ai.State, p *Post, m ai.Val, what string) {
	switch x := st.N(m).(type) {
	case ai.VNil:
	case ai.VMap:
		p.Ok(st.Heap[x.O] != nil && st.Heap[x.O].New, "the %s shares storage with an operand", what)
	default:
		p.Ok(false, "the %s is not a new map", what)
	}
}

// distSlice: a slice with x at an arbitrary position (or nowhere), everything else different from x.
func distSlice(st *ai.State, t types.Type, in bool, x ai.Val) ai.Val {
	a, b := st.E.RigidSym("before"), st.E.RigidSym("after")
	st.Assume(ai.GE(a, ai.K(0)))
	st.Assume(ai.GE(b, ai.K(0)))
	ps := []ai.Piece{{Len: a, Tag: "other"}}
	if in {
		ps = append(ps, ai.Piece{Len: ai.K(1), V: x}, ai.Piece{Len: b, Tag: "any"})
	}
	return st.NewSlice(ps, t, ai.K(0))
}
