package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// a map operand: kind 0 = x absent, 1 = x present with value vx, 2 = nil
func mkMap(st *ai.State, t types.Type, kind int, name string, vx ai.Val) ai.Val {
	mt := mapType(t)
	if kind == 2 {
		return ai.VNil{}
	}
	m := st.NewUnknownMap(mt, name)
	if kind == 1 {
		st.AddEnt(m, ai.Named(gX, mt.Key()), true, vx)
	} else {
		st.AddEnt(m, ai.Named(gX, mt.Key()), false, nil)
	}
	return m
}

// holds: map m has x exactly when want != nil, with that value
func holds(st *ai.State, p *Post, m ai.Val, want ai.Val, what string) {
	m = st.N(m)
	v, ok := st.MapGet(m, ai.Named(gX, nil))
	if want == nil {
		p.Ok(!ok, "%s: the key is present although it should not be", what)
		return
	}
	if p.Ok(ok, "%s: the key is missing", what) {
		p.Same(v, want, "%s: wrong value", what)
	}
}

func runC12(c *Ctx) {
	pkg := "genmap"
	base := func(e *ai.Engine) {
		keysOf(e, gX)
		e.LoopNorm = setTags
		e.UnknownElem = unknownOther(gX)
		relHooks(e, "")
	}
	vt := func(f *ssa.Function) types.Type { return mapType(f.Params[0].Type()).Elem() }
	kt := func(f *ssa.Function) types.Type { return mapType(f.Params[0].Type()).Key() }
	val := func(n string) ai.Val { return ai.Named(n, nil) }
	old := func(k int) ai.Val {
		if k == 1 {
			return val("vx")
		}
		return nil
	}
	// keyed operations
	type keyed struct {
		fn   string
		post func(st *ai.State, p *Post, k int) // key == x
		same bool                               // returns the receiver
	}
	unch := func(st *ai.State, p *Post, d int64) {
		p.True(ai.EQ(st.MapObj(st.Ghost["s"]).Len, st.Lin(st.Ghost["len:s"]).AddC(d)), "number of entries after the call")
	}
	res := func(st *ai.State, p *Post, want ai.Val, ok bool) {
		p.Same(st.Result[1], ai.VBool{B: ok}, "reported presence")
		if want == nil {
			want = st.Zero(ai.TypeParamOf(p.fn, 1))
		}
		p.Same(st.Result[0], want, "returned value")
	}
	for _, m := range []keyed{
		{"GenMap.Load", func(st *ai.State, p *Post, k int) {
			res(st, p, old(k), k == 1)
			if k != 2 {
				holds(st, p, st.Ghost["s"], old(k), "after Load")
				unch(st, p, 0)
			}
		}, false},
		{"GenMap.Store", func(st *ai.State, p *Post, k int) {
			holds(st, p, st.Ghost["s"], val("nv"), "after Store")
			unch(st, p, 1-b2i(k == 1))
		}, true},
		{"GenMap.Delete", func(st *ai.State, p *Post, k int) {
			if k != 2 {
				holds(st, p, st.Ghost["s"], nil, "after Delete")
				unch(st, p, -b2i(k == 1))
			}
		}, true},
		{"GenMap.LoadOrStore", func(st *ai.State, p *Post, k int) {
			w := val("nv")
			if k == 1 {
				w = val("vx")
			}
			res(st, p, w, k == 1)
			holds(st, p, st.Ghost["s"], w, "after LoadOrStore")
			unch(st, p, 1-b2i(k == 1))
		}, false},
		{"GenMap.LoadOrStoreFunc", func(st *ai.State, p *Post, k int) {
			n := st.Lin(st.Ghost["calls"])
			p.True(ai.EQ(n, ai.K(1-b2i(k == 1))), "the constructor is called exactly when the key is absent, once")
			w := val("vx")
			if k == 0 {
				w = val("made")
			}
			res(st, p, w, k == 1)
			holds(st, p, st.Ghost["s"], w, "after LoadOrStoreFunc")
			unch(st, p, 1-b2i(k == 1))
		}, false},
		{"GenMap.LoadAndDelete", func(st *ai.State, p *Post, k int) {
			res(st, p, old(k), k == 1)
			if k != 2 {
				holds(st, p, st.Ghost["s"], nil, "after LoadAndDelete")
				unch(st, p, -b2i(k == 1))
			}
		}, false},
		{"GenMap.LoadAndStore", func(st *ai.State, p *Post, k int) {
			res(st, p, old(k), k == 1)
			holds(st, p, st.Ghost["s"], val("nv"), "after LoadAndStore")
			unch(st, p, 1-b2i(k == 1))
		}, false},
	} {
		m := m
		nilOK := m.fn == "GenMap.Load" || m.fn == "GenMap.Delete" || m.fn == "GenMap.LoadAndDelete"
		for _, k := range []int{0, 1, 2} {
			if k == 2 && !nilOK {
				continue
			}
			for _, isX := range []bool{true, false} {
				k, isX := k, isX
				if k == 2 && !isX {
					continue
				}
				name := kindName(k) + ",key=" + map[bool]string{true: "x", false: "other"}[isX]
				c.Run(Scenario{Name: name, Pkg: pkg, Fn: m.fn, Hooks: func(e *ai.Engine) {
					base(e)
					if !isX {
						keysOf(e, gY)
					}
					e.OnCallback = func(cb *ai.Callback) ai.Val {
						cb.St.Ghost["calls"] = ai.VInt{L: cb.St.Lin(cb.St.Ghost["calls"]).AddC(1)}
						return val("made")
					}
				}, Init: func(st *ai.State, f *ssa.Function) []ai.Val {
					s := mkMap(st, f.Params[0].Type(), k, "s", ai.Named("vx", vt(f)))
					rememberLen(st, "s", s)
					st.Ghost["calls"] = ai.VInt{L: ai.K(0)}
					key := ai.Val(ai.Named(gX, kt(f)))
					if !isX {
						y := ai.Named(gY, kt(f))
						distinct(st, y, key)
						key = y
					}
					a := []ai.Val{s, key}
					if len(f.Params) > 2 {
						a = append(a, ai.Named("nv", f.Params[2].Type()))
					}
					return a
				}, Post: func(st *ai.State, p *Post) {
					if m.same {
						p.Same(st.Result[0], st.Ghost["s"], "the receiver is not returned")
					}
					if isX {
						m.post(st, p, k)
					} else {
						holds(st, p, st.Ghost["s"], old(k), "an operation on another key")
					}
				}})
			}
		}
	}
	// whole-map operations
	all := []int{0, 1, 2}
	one := func(fn string, kinds []int, hooks func(*ai.Engine), post func(st *ai.State, p *Post, k int)) {
		for _, k := range kinds {
			k := k
			c.Run(Scenario{Name: kindName(k), Pkg: pkg, Fn: fn, Hooks: func(e *ai.Engine) {
				base(e)
				if hooks != nil {
					hooks(e)
				}
			}, Init: func(st *ai.State, f *ssa.Function) []ai.Val {
				mt := f.Params[0].Type()
				s := mkMap(st, mt, k, "s", ai.Named("vx", mapType(mt).Elem()))
				rememberLen(st, "s", s)
				rangeInit(st)
				a := []ai.Val{s}
				if len(f.Params) > 1 {
					cb := ai.Named("callback", f.Params[1].Type())
					st.Assume(ai.Not(st.CmpEq(cb, ai.VNil{})))
					a = append(a, cb)
				}
				return a
			}, Post: func(st *ai.State, p *Post) { post(st, p, k) }})
		}
	}
	keep := func(st *ai.State, p *Post, k int, what string) {
		if k != 2 {
			holds(st, p, st.Ghost["s"], old(k), what)
			unch(st, p, 0)
		}
	}
	one("GenMap.Len", all, nil, func(st *ai.State, p *Post, k int) {
		p.True(ai.EQ(st.Lin(st.Result[0]), st.Lin(st.Ghost["len:s"])), "Len is not the number of entries")
		keep(st, p, k, "Len")
	})
	for _, fn := range []string{"GenMap.Map", "From"} {
		one(fn, all, nil, func(st *ai.State, p *Post, k int) {
			p.Same(st.Result[0], st.Ghost["s"], "does not return the map itself")
			keep(st, p, k, fn)
		})
	}
	one("GenMap.Clone", all, nil, func(st *ai.State, p *Post, k int) {
		holds(st, p, st.Result[0], old(k), "clone")
		fresh(st, p, st.Result[0], "clone")
		keep(st, p, k, "Clone")
	})
	one("GenMap.Clear", all, nil, func(st *ai.State, p *Post, k int) {
		p.Same(st.Result[0], st.Ghost["s"], "Clear does not return the map")
		if k != 2 {
			holds(st, p, st.Ghost["s"], nil, "after Clear")
		}
	})
	one("GenMap.Keys", all, nil, func(st *ai.State, p *Post, k int) {
		n, ln, ok := countIn(st, st.Result[0], types.NewSlice(ai.TypeParamOf(p.fn, 0)), val(gX))
		p.Ok(ok, "Keys holds something that is not known to be a key")
		p.True(ai.EQ(n, ai.K(b2i(k == 1))), "a key does not occur exactly once in Keys")
		p.True(ai.EQ(ln, st.Lin(st.Ghost["len:s"])), "Keys has the wrong length")
		keep(st, p, k, "Keys")
	})
	one("GenMap.Values", all, func(e *ai.Engine) {
		e.LoopNorm = func(st *ai.State) {
			st.MapPieces(func(q ai.Piece) ai.Piece {
				if t, ok := q.V.(ai.VTerm); ok && t.T.Fresh > 0 {
					return ai.Piece{Len: q.Len, Tag: "other"}
				}
				return q
			})
		}
	}, func(st *ai.State, p *Post, k int) {
		n, ln, ok := countIn(st, st.Result[0], types.NewSlice(ai.TypeParamOf(p.fn, 1)), val("vx"))
		p.Ok(ok, "Values holds something that is not a value of the map")
		p.True(ai.EQ(n, ai.K(b2i(k == 1))), "a value is not returned exactly once per key")
		p.True(ai.EQ(ln, st.Lin(st.Ghost["len:s"])), "Values has the wrong length")
		keep(st, p, k, "Values")
	})
	one("GenMap.Range", all, func(e *ai.Engine) { rangeHook(e, nil) }, func(st *ai.State, p *Post, k int) {
		rangePost(st, p, k == 1)
		b, _ := st.Ghost["stopped"].(ai.VBool)
		p.Same(st.Result[0], ai.VBool{B: !b.B}, "Range must report whether it ran to the end")
		keep(st, p, k, "Range")
	})
	one("GenMap.DeleteFunc", all, func(e *ai.Engine) {
		rangeHook(e, func(cb *ai.Callback) ai.Val {
			st := cb.St
			del := st.Choose(2) == 0
			if ai.Same(st.N(cb.Args[0]), st.N(val(gX))) {
				st.Ghost["asked"] = ai.VBool{B: del}
			}
			return ai.VBool{B: del}
		})
	}, func(st *ai.State, p *Post, k int) {
		rangePost(st, p, k == 1)
		if k == 1 {
			b, _ := st.Ghost["asked"].(ai.VBool)
			w := val("vx")
			if b.B {
				w = nil
			}
			holds(st, p, st.Ghost["s"], w, "after DeleteFunc")
		} else if k == 0 {
			holds(st, p, st.Ghost["s"], nil, "after DeleteFunc")
		}
	})
	c.Run(Scenario{Name: "any", Pkg: pkg, Fn: "New", Hooks: base, Init: func(st *ai.State, f *ssa.Function) []ai.Val { return nil }, Post: func(st *ai.State, p *Post) {
		p.True(ai.EQ(st.MapObj(st.Result[0]).Len, ai.K(0)), "a new map is not empty")
	}})
	// two maps
	for _, m := range []struct {
		fn    string
		toArg bool
	}{{"GenMap.CopyTo", true}, {"GenMap.CopyToRaw", true}, {"GenMap.CopyFrom", false}, {"GenMap.CopyFromRaw", false}} {
		m := m
		for _, src := range all {
			for _, dst := range []int{0, 1, 3} {
				src, dst := src, dst
				if dst == 3 && src == 2 {
					continue
				}
				name := "source " + kindName(src) + "/target " + []string{"x-absent", "x-present", "", "same map"}[dst]
				c.Run(Scenario{Name: name, Pkg: pkg, Fn: m.fn, Hooks: base, Init: func(st *ai.State, f *ssa.Function) []ai.Val {
					s := mkMap(st, f.Params[0].Type(), src, "s", ai.Named("vx", vt(f)))
					t := s
					if dst != 3 {
						t = mkMap(st, f.Params[0].Type(), dst, "t", ai.Named("wx", vt(f)))
					}
					rememberLen(st, "s", s)
					rememberLen(st, "t", t)
					if m.toArg {
						return []ai.Val{s, t}
					}
					return []ai.Val{t, s}
				}, Post: func(st *ai.State, p *Post) {
					recv := "t"
					if m.toArg {
						recv = "s"
					}
					p.Same(st.Result[0], st.Ghost[recv], "the receiver is not returned")
					w := old(src)
					if w == nil && dst == 1 {
						w = val("wx")
					}
					holds(st, p, st.Ghost["t"], w, "target of the copy")
					if src != 2 {
						holds(st, p, st.Ghost["s"], old(src), "source of the copy")
					}
				}})
			}
		}
	}
	// EqualFunc
	eq := func(rel string, k, l int, eqv bool, want bool, why string) {
		c.Run(Scenario{Name: kindName(k) + "/" + kindName(l) + "/" + rel + map[bool]string{true: "/values equal", false: "/values differ"}[eqv], Pkg: pkg, Fn: "GenMap.EqualFunc", Hooks: func(e *ai.Engine) {
			base(e)
			relHooks(e, rel)
			e.OnCallback = func(cb *ai.Callback) ai.Val {
				st := cb.St
				// the comparison is asked about the two values of one key
				isX := ai.Same(st.N(cb.Args[0]), st.N(val("vx"))) && ai.Same(st.N(cb.Args[1]), st.N(val("wx")))
				if isX {
					return ai.VBool{B: eqv}
				}
				if ai.Same(st.N(cb.Args[0]), st.N(val("wx"))) || ai.Same(st.N(cb.Args[1]), st.N(val("vx"))) {
					st.Ghost["bad"] = ai.VBool{B: true}
				}
				if rel == "eq" {
					return ai.VBool{B: true}
				}
				return ai.VBool{B: st.Choose(2) == 0}
			}
		}, Init: func(st *ai.State, f *ssa.Function) []ai.Val {
			s := mkMap(st, f.Params[0].Type(), k, "s", ai.Named("vx", vt(f)))
			t := mkMap(st, f.Params[0].Type(), l, "t", ai.Named("wx", vt(f)))
			rememberLen(st, "s", s)
			rememberLen(st, "t", t)
			st.Ghost["bad"] = ai.VBool{}
			if rel == "eq" {
				st.Assume(ai.EQ(st.Lin(st.Ghost["len:s"]), st.Lin(st.Ghost["len:t"])))
			}
			cb := ai.Named("callback", f.Params[2].Type())
			st.Assume(ai.Not(st.CmpEq(cb, ai.VNil{})))
			return []ai.Val{st.N(s), st.N(t), cb}
		}, Post: func(st *ai.State, p *Post) {
			p.Same(st.Result[0], ai.VBool{B: want}, "%s", why)
			b, _ := st.Ghost["bad"].(ai.VBool)
			p.Ok(!b.B, "the comparison is called with values in the wrong places")
			if k != 2 {
				holds(st, p, st.Ghost["s"], old(k), "EqualFunc")
			}
		}})
	}
	eq("eq", 1, 1, true, true, "denies equality of equal maps")
	eq("eq", 0, 0, true, true, "denies equality of equal maps")
	eq("eq", 2, 2, true, true, "denies equality of nil maps")
	eq("eq", 2, 0, true, true, "denies equality of empty maps")
	eq("", 1, 1, false, false, "reports equality although values differ")
	eq("", 1, 0, true, false, "reports equality although a key is missing")
	eq("", 1, 2, true, false, "reports equality although a key is missing")
	eq("", 0, 1, true, false, "reports equality although the other map has an extra key")
	eq("", 2, 1, true, false, "reports equality although the other map has an extra key")
}
