package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// visit: the callback of a traversal must see the elements of l in order, starting at Ghost["seen"].
func visitHooks(e *ai.Engine) {
	e.OnCallback = func(cb *ai.Callback) ai.Val {
		st := cb.St
		bad := func(s string) { st.Ghost["bad"] = ai.VStr{S: s} }
		if f, ok := cb.F.(ai.VTerm); !ok || f.T.Op != "visit" || len(cb.Args) != 1 {
			ai.Undecided("call of %s", ai.Key(cb.F))
		}
		if !ai.Same(st.Ghost["stop"], ai.VBool{B: false}) {
			bad("the callback is called again after it asked to stop")
		}
		id, ok := identOf(st, cb.Args[0])
		seen := st.Lin(st.N(st.Ghost["seen"]))
		switch {
		case !ok || id.Base != "I:l":
			bad("the callback is given something that is not an element of the list")
		case !holds_(st, ai.EQ(id.Off, seen)):
			bad("the callback does not get the elements in order, each once")
		}
		st.Ghost["seen"] = ai.VInt{L: seen.AddC(1)}
		if st.Choose(2) == 0 {
			return ai.VBool{B: true}
		}
		st.Ghost["stop"] = ai.VBool{B: true}
		return ai.VBool{B: false}
	}
}

func visitInit(st *ai.State, from ai.Lin) {
	st.Ghost["seen"] = ai.VInt{L: from}
	st.Ghost["stop"] = ai.VBool{B: false}
	st.Ghost["bad"] = ai.VStr{S: ""}
}

func dllistWhole(c *Ctx, prop int) {
	pkg := "dllist"
	exact := prop == 4
	lt := func(name string) (dlT, bool) {
		fn := c.fnOf(&Scenario{Pkg: pkg, Fn: name})
		if fn == nil {
			return dlT{}, false
		}
		return dlTypes(fn.Params[0].Type()), true
	}
	// traversals
	if d, ok := lt("Dllist.Range"); ok {
		for _, shape := range []string{"A", "zero"} {
			shape := shape
			c.Run(Scenario{Name: "list <" + shape + ">", Pkg: pkg, Fn: "Dllist.Range", Hooks: func(e *ai.Engine) { d.hooks(e); visitHooks(e) }, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
				l := d.mk(st, "l", shape)
				visitInit(st, ai.K(0))
				return []ai.Val{l, ai.Named("visit", fn.Params[1].Type())}
			}, Post: func(st *ai.State, p *Post) {
				d.unchanged(st, p, shape, "Range", exact)
				if !exact {
					return
				}
				p.Same(st.Ghost["bad"], ai.VStr{}, "Range")
				stopped := ai.Same(st.Ghost["stop"], ai.VBool{B: true})
				p.Same(st.Result[0], ai.VBool{B: !stopped}, "Range reports wrongly whether it went through")
				if !stopped {
					p.True(ai.EQ(st.Lin(st.N(st.Ghost["seen"])), st.Lin(st.N(st.Ghost["len:l"]))), "Range does not visit every element")
				}
			}})
		}
	}
	if fn := c.fnOf(&Scenario{Pkg: pkg, Fn: "Element.Range"}); fn != nil {
		d := dlTypesOfElem(fn.Params[0].Type())
		c.Run(Scenario{Name: "member", Pkg: pkg, Fn: "Element.Range", Hooks: func(e *ai.Engine) { d.hooks(e); visitHooks(e) }, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
			d.mk(st, "l", "A e B")
			visitInit(st, tok(st, "l.e").ident.Off)
			return []ai.Val{st.Ghost["l.e"], ai.Named("visit", fn.Params[1].Type())}
		}, Post: func(st *ai.State, p *Post) {
			d.unchanged(st, p, "A e B", "Element.Range", exact)
			if !exact {
				return
			}
			p.Same(st.Ghost["bad"], ai.VStr{}, "Element.Range")
			if !ai.Same(st.Ghost["stop"], ai.VBool{B: true}) {
				p.True(ai.EQ(st.Lin(st.N(st.Ghost["seen"])), st.Lin(st.N(st.Ghost["len:l"]))), "Element.Range does not visit every following element")
			}
		}})
	}
	if d, ok := lt("Dllist.Slice"); ok {
		for _, shape := range []string{"A", "zero"} {
			shape := shape
			c.Run(Scenario{Name: "list <" + shape + ">", Pkg: pkg, Fn: "Dllist.Slice", Hooks: d.hooks, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
				return []ai.Val{d.mk(st, "l", shape)}
			}, Post: func(st *ai.State, p *Post) {
				d.unchanged(st, p, shape, "Slice", exact)
				if exact {
					sliceIs(st, p, st.Result[0], []ai.Piece{{Len: st.Lin(st.N(st.Ghost["len:l"])), E: &ai.Elem{Base: "V:l", Off: ai.K(0), Dir: 1}}}, "Slice does not list the values in order")
				}
			}})
		}
	}
	// New, Clear
	if fn := c.fnOf(&Scenario{Pkg: pkg, Fn: "New"}); fn != nil {
		c.Run(Scenario{Name: "any", Pkg: pkg, Fn: "New", Init: func(st *ai.State, fn *ssa.Function) []ai.Val { return nil }, Post: func(st *ai.State, p *Post) {
			d := dlTypes(p.fn.Signature.Results().At(0).Type())
			got, ok := d.read(st, p, st.Result[0], "New")
			p.Ok(!ok || len(got) == 0, "New returns a list with elements")
		}})
	}
	if d, ok := lt("Dllist.Clear"); ok {
		for _, shape := range []string{"A e B", "", "zero"} {
			shape := shape
			c.Run(Scenario{Name: "list <" + shape + ">", Pkg: pkg, Fn: "Dllist.Clear", Hooks: d.hooks, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
				return []ai.Val{d.mk(st, "l", shape)}
			}, Post: func(st *ai.State, p *Post) {
				got, ok := d.read(st, p, st.Ghost["l"], "Clear")
				p.Ok(!ok || len(normRuns(st, got)) == 0, "Clear leaves elements")
				p.Same(st.Result[0], st.Ghost["l"], "Clear does not return the list")
				if e, ok := st.Ghost["l.e"]; ok && prop == 1 {
					d.detached(st, p, e, "Clear")
				}
			}})
		}
	}
	// appending lists
	for _, m := range []struct {
		fn, want string
		mark     bool
	}{
		{"PushBackList", "A *src", false}, {"PushFrontList", "*src A", false},
		{"PushBackListTo", "A e *src B", true}, {"PushFrontListTo", "A e *src B", true},
	} {
		m := m
		d, ok := lt("Dllist." + m.fn)
		if !ok {
			continue
		}
		shapes := []string{"A", "zero"}
		if m.mark {
			shapes = []string{"A e B"}
		}
		for _, shape := range shapes {
			for _, src := range []string{"other list", "zero list", "itself"} {
				shape, src := shape, src
				c.Run(Scenario{Name: "list <" + shape + "> source " + src, Pkg: pkg, Fn: "Dllist." + m.fn, Hooks: d.hooks, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
					l := d.mk(st, "l", shape)
					o := l
					switch src {
					case "other list":
						o = d.mk(st, "o", "P")
					case "zero list":
						o = d.mk(st, "o", "zero")
					}
					a := []ai.Val{l, o}
					if m.mark {
						a = append(a, st.Ghost["l.e"])
					}
					return a
				}, Post: func(st *ai.State, p *Post) {
					got, ok := d.read(st, p, st.Ghost["l"], m.fn)
					if src != "itself" {
						sh := "P"
						if src == "zero list" {
							sh = "zero"
						}
						d.unchangedL(st, p, "o", sh, m.fn+": source list", exact)
					}
					if !ok || !exact {
						return
					}
					want := m.want
					if shape == "zero" {
						want = "*src"
					}
					s := "l"
					if src != "itself" {
						s = "o"
					}
					sameRuns(st, p, got, toks(st, "l", replaceAll(want, "*src", "*"+s), d.valT), "%s: the values are not those of the source in order at the place asked for", m.fn)
				}})
			}
		}
		if m.mark {
			for _, k := range []string{"detached", "foreign"} {
				k := k
				c.Run(Scenario{Name: "mark " + k, Pkg: pkg, Fn: "Dllist." + m.fn, Hooks: d.hooks, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
					l := d.mk(st, "l", "A e B")
					o := d.mk(st, "o", "P g Q")
					if k == "foreign" {
						return []ai.Val{l, o, st.Ghost["o.g"]}
					}
					return []ai.Val{l, o, d.mkElem(st, "x1", ai.VNil{}, ai.VNil{})}
				}, Post: func(st *ai.State, p *Post) {
					d.unchanged(st, p, "A e B", m.fn, true)
					d.unchangedL(st, p, "o", "P g Q", m.fn, true)
				}})
			}
		}
	}
	// Sort
	if d, ok := lt("Dllist.Sort"); ok {
		d.tagged, d.anon = true, true
		// the length and one value are followed exactly; the pair scenario only follows the order
		shapes := []string{"A", "A x B", "zero"}
		if exact {
			shapes = append(shapes, "A x B y C")
		}
		for _, shape := range shapes {
			shape := shape
			pair := shape == "A x B y C"
			sc := func(loose bool) {
				c.Run(Scenario{Name: "list <" + shape + ">", Pkg: pkg, Fn: "Dllist.Sort", Hooks: func(e *ai.Engine) {
					d.hooks(e)
					sortHooks(e, d, loose)
				}, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
					l := d.mk(st, "l", shape)
					return []ai.Val{l, ai.Named("less", fn.Params[1].Type())}
				}, Post: func(st *ai.State, p *Post) {
					got, ok := d.read(st, p, st.Ghost["l"], "Sort")
					if !ok || !exact {
						return
					}
					total := ai.K(0)
					pos := map[string][]int{}
					for i, g := range got {
						total = total.Add(g.n)
						if g.v != nil {
							pos[ai.Key(g.v)] = append(pos[ai.Key(g.v)], i)
						}
					}
					if shape == "A" || shape == "zero" {
						p.True(ai.EQ(total, st.Lin(st.N(st.Ghost["len:l"]))), "Sort changes the number of elements")
						return
					}
					px, py := pos["val:x"], pos["val:y"]
					if !p.Ok(len(px) == 1 && (!pair || len(py) == 1), "Sort loses or duplicates a value") || !pair {
						return
					}
					x, y := ai.Named("val:x", d.valT), ai.Named("val:y", d.valT)
					if px[0] < py[0] {
						p.True(ai.Not(ai.Less("less", y, x)), "Sort leaves a greater value before a smaller one")
					} else {
						p.True(ai.Less("less", y, x), "Sort moves a value before an equal or smaller one that preceded it")
					}
				}})
			}
			if shape == "A" || shape == "zero" {
				sc(false)
			} else {
				c.Either(func() { sc(true) }, func() { sc(false) })
			}
		}
	}
}

func replaceAll(s, a, b string) string {
	out := ""
	for {
		i := indexOf(s, a)
		if i < 0 {
			return out + s
		}
		out += s[:i] + b
		s = s[i+len(a):]
	}
}

func indexOf(s, a string) int {
	for i := 0; i+len(a) <= len(s); i++ {
		if s[i:i+len(a)] == a {
			return i
		}
	}
	return -1
}

func (d dlT) unchanged(st *ai.State, p *Post, shape, fn string, exact bool) bool {
	return d.unchangedL(st, p, "l", shape, fn, exact)
}

func (d dlT) unchangedL(st *ai.State, p *Post, name, shape, fn string, exact bool) bool {
	got, ok := d.read(st, p, st.Ghost[name], fn)
	if !ok || !exact {
		return ok
	}
	if shape == "zero" {
		return p.Ok(len(normRuns(st, got)) == 0, "%s changes the list", fn)
	}
	return sameRuns(st, p, got, toks(st, name, shape, d.valT), "%s changes the list", fn)
}

// sliceIs requires a slice value to hold exactly the pieces.
func sliceIs(st *ai.State, p *Post, v ai.Val, want []ai.Piece, what string) bool {
	p.c.Obligations++
	v = st.N(v)
	var got []ai.Piece
	switch s := v.(type) {
	case ai.VNil:
	case ai.VSlice:
		got = st.Pieces(s.O, s.Off, s.Off.Add(s.Len))
	default:
		p.fail("violated", what+": not a slice: "+ai.Key(v))
		return false
	}
	w := st.NormPieces(want)
	ok := len(got) == len(w)
	for i := 0; ok && i < len(w); i++ {
		if !holds_(st, ai.EQ(got[i].Len, w[i].Len)) {
			ok = false
			break
		}
		switch {
		case w[i].E != nil:
			ok = sameElem(st, got[i].E, w[i].E, w[i].Len)
		case w[i].V != nil:
			ok = got[i].V != nil && ai.Same(st.N(got[i].V), st.N(w[i].V))
		default:
			ok = got[i].E == nil && got[i].V == nil && got[i].Tag == w[i].Tag
		}
	}
	if !ok {
		for _, ps := range [][]ai.Piece{got, w} {
			for _, q := range ps {
				c := ai.EQ(q.Len, ai.K(0))
				if _, known := st.Known(c); !known {
					st.Decide(c)
				}
			}
		}
		p.fail("violated", what+": "+ai.PiecesKey(got)+" instead of "+ai.PiecesKey(w))
	}
	return ok
}

// sortHooks: comparisons form a strict weak order; recursive calls are replaced by what sorting
// guarantees (induction on the length, which must decrease).
func sortHooks(e *ai.Engine, d dlT, loose bool) {
	e.LoopNorm = func(st *ai.State) {
		// state what is known about the pair before the values it was derived from are forgotten
		x, y := ai.Named("val:x", d.valT), ai.Named("val:y", d.valT)
		for _, c := range []ai.Val{ai.Less("less", x, y), ai.Less("less", y, x)} {
			if b, ok := st.Known(c); ok {
				st.Facts[ai.Key(c)] = ai.Fact{T: c, B: b}
			}
		}
		d.padTagged(st)
		if loose {
			d.forgetLens(st)
		}
	}
	e.KeepNode = func(st *ai.State, o *ai.Obj) bool {
		if s, ok := o.V.(ai.VStruct); ok && types.Identical(o.Typ, d.elem) {
			t, ok := s.F[d.val].(ai.VTerm)
			return ok && t.T.Fresh == 0
		}
		return false
	}
	e.SegTag = func(st *ai.State, o *ai.Obj, f int, v ai.Val) string {
		if f == d.val {
			if t, ok := v.(ai.VTerm); ok && t.T.Fresh > 0 {
				return "other"
			}
		}
		return ""
	}
	e.OnCallback = func(cb *ai.Callback) ai.Val {
		if f, ok := cb.F.(ai.VTerm); !ok || f.T.Op != "less" || len(cb.Args) != 2 {
			ai.Undecided("call of %s", ai.Key(cb.F))
		}
		return ai.Less("less", cb.Args[0], cb.Args[1])
	}
	e.Override = func(cl *ai.Call) (ai.Val, bool) {
		if cl.Fn.Name() != "Sort" || cl.Fn.Signature.Recv() == nil || len(cl.Args) != 2 {
			return nil, false
		}
		if n, ok := types.Unalias(deref(cl.Fn.Signature.Recv().Type())).(*types.Named); !ok || n.Obj().Name() != "Dllist" {
			return nil, false
		}
		st := cl.St
		if !ai.Same(st.N(cl.Args[1]), ai.Named("less", nil)) {
			ai.Undecided("recursive sort with another comparison")
		}
		rs, bad := d.walk(st, cl.Args[0])
		if bad != "" {
			ai.Undecided("recursive sort of a malformed list: %s", bad)
		}
		lp := st.N(cl.Args[0]).(ai.VPtr)
		total := ai.K(0)
		var named []run
		for _, r := range rs {
			total = total.Add(r.n)
			if r.val != nil {
				ai.Undecided("recursive sort of values the abstraction does not track")
			}
			if r.v != nil {
				if t, ok := r.v.(ai.VTerm); !ok || t.T.Fresh > 0 {
					continue
				}
				named = append(named, r)
			}
		}
		if len(named) > 2 {
			ai.Undecided("recursive sort of a list with a duplicated value")
		}
		if !loose && !holds_(st, ai.LTc(total, st.Lin(st.N(st.Ghost["len:l"])))) {
			ai.Undecided("recursive sort of a list that is not shorter: termination not shown")
		}
		if len(named) == 2 && st.Decide(ai.Less("less", named[1].v, named[0].v)) {
			named[0], named[1] = named[1], named[0]
		}
		d.rebuild(st, lp.O, named, total)
		return ai.VTuple{}, true
	}
}

// rebuild gives the list new elements: the named values in order, anything else around them.
func (d dlT) rebuild(st *ai.State, l ai.ObjID, named []run, total ai.Lin) {
	type piece struct {
		id  ai.ObjID
		seg bool
	}
	var ps []piece
	seg := func() {
		ps = append(ps, piece{st.AllocObj(&ai.Obj{Typ: d.elem, New: true}), true})
	}
	seg()
	for range named {
		ps = append(ps, piece{st.AllocObj(&ai.Obj{Typ: d.elem, New: true}), false})
		seg()
	}
	end := func(i int, w uint8) ai.Val {
		if i < 0 || i >= len(ps) {
			return d.rootPtr(l)
		}
		if ps[i].seg {
			return ai.VPtr{O: ps[i].id, End: w}
		}
		return ai.VPtr{O: ps[i].id}
	}
	sum := ai.K(int64(len(named)))
	k := 0
	for i, q := range ps {
		o := st.Heap[q.id]
		zero := st.Zero(d.elem).(ai.VStruct).F
		if q.seg {
			var n ai.Lin
			if i == len(ps)-1 {
				n = total.Sub(sum)
			} else {
				n = st.E.FreshSym()
				sum = sum.Add(n)
			}
			g := &ai.SegObj{Len: n, NextF: d.next, PrevF: d.prev, Before: end(i-1, 2), After: end(i+1, 1)}
			for j := range zero {
				f := ai.SegField{V: zero[j]}
				switch j {
				case d.next, d.prev:
					f = ai.SegField{}
				case d.owner:
					f = ai.SegField{V: ai.VPtr{O: l}}
				case d.val:
					f = ai.SegField{Tag: "other"}
				}
				g.F = append(g.F, f)
			}
			o.Seg = g
		} else {
			f := append([]ai.Val(nil), zero...)
			f[d.next], f[d.prev], f[d.owner], f[d.val] = end(i+1, 1), end(i-1, 2), ai.VPtr{O: l}, named[k].v
			k++
			o.V = ai.VStruct{F: f}
		}
	}
	lo := *st.Heap[l]
	lf := append([]ai.Val(nil), lo.V.(ai.VStruct).F...)
	rf := append([]ai.Val(nil), lf[d.root].(ai.VStruct).F...)
	rf[d.next], rf[d.prev] = end(0, 1), end(len(ps)-1, 2)
	lf[d.root] = ai.VStruct{F: rf}
	lf[d.len] = ai.VInt{L: total}
	if d.inited >= 0 {
		lf[d.inited] = ai.VBool{B: true}
	}
	lo.V = ai.VStruct{F: lf}
	st.Heap[l] = &lo
	for _, q := range ps {
		if g := st.Heap[q.id].Seg; g != nil {
			st.Assume(ai.GE(g.Len, ai.K(0)))
		}
	}
}
