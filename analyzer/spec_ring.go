package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	register("C05", "shape analysis of circular lists: every ring method is interpreted on rings of every length (segments of symbolic length), zero-value rings, rings shared by both operands and different ones; results are compared with the prescribed rings element by element, positions modulo the ring length by an inductively checked congruence", runC05)
}

type ringT struct {
	t               types.Type
	next, prev, val int
	valT            types.Type
}

func ringTypes(t types.Type) ringT {
	r := ringT{t: deref(t)}
	r.next, r.prev, r.val = mustField(r.t, "next"), mustField(r.t, "prev"), mustField(r.t, "Value")
	r.valT = r.t.Underlying().(*types.Struct).Field(r.val).Type()
	return r
}

func (r ringT) hooks(e *ai.Engine) {
	n := types.Unalias(r.t).(*types.Named)
	e.ListTypes[n.Origin().Obj()] = ai.ListType{Next: r.next, Prev: r.prev}
}

// mk builds a ring; tokens as for lists, the first must be a single element. "zero" is a zero value.
func (r ringT) mk(st *ai.State, name, shape string) ai.Val {
	ib, vb := "I:"+name, "V:"+name
	zero := st.Zero(r.t).(ai.VStruct).F
	if shape == "zero" {
		f := append([]ai.Val(nil), zero...)
		f[r.val] = st.Opaque(ai.At(vb, ai.K(0), r.valT), r.valT)
		p := ai.VPtr{O: st.AllocObj(&ai.Obj{Typ: r.t, V: ai.VStruct{F: f}, Ident: &ai.Elem{Base: ib, Off: ai.K(0)}})}
		st.Ghost[name] = p
		st.Ghost["len:"+name] = ai.VInt{L: ai.K(1)}
		return p
	}
	toks := strings.Fields(shape)
	ids := make([]ai.ObjID, len(toks))
	for i := range toks {
		ids[i] = st.AllocObj(&ai.Obj{Typ: r.t})
	}
	end := func(i int, w uint8) ai.Val {
		i = (i + len(toks)) % len(toks)
		if isSegTok(toks[i]) {
			return ai.VPtr{O: ids[i], End: w}
		}
		return ai.VPtr{O: ids[i]}
	}
	off := ai.K(0)
	for i, t := range toks {
		n := ai.K(1)
		o := st.Heap[ids[i]]
		if isSegTok(t) {
			n = st.E.RigidSym(name + "." + t)
			st.Assume(ai.GE(n, ai.K(0)))
			g := &ai.SegObj{Len: n, NextF: r.next, PrevF: r.prev, Before: end(i-1, 2), After: end(i+1, 1), Ident: &ai.Elem{Base: ib, Off: off, Dir: 1}}
			for j := range zero {
				f := ai.SegField{V: zero[j]}
				switch j {
				case r.next, r.prev:
					f = ai.SegField{}
				case r.val:
					f = ai.SegField{E: &ai.Elem{Base: vb, Off: off, Dir: 1}}
				}
				g.F = append(g.F, f)
			}
			o.Seg = g
		} else {
			f := append([]ai.Val(nil), zero...)
			f[r.next], f[r.prev] = end(i+1, 1), end(i-1, 2)
			f[r.val] = st.Opaque(ai.At(vb, off, r.valT), r.valT)
			o.V = ai.VStruct{F: f}
			o.Ident = &ai.Elem{Base: ib, Off: off}
			st.Ghost[name+"."+t] = ai.VPtr{O: ids[i]}
		}
		st.Ghost["at:"+name+"."+t] = ai.VTuple{F: []ai.Val{ai.VInt{L: off}, ai.VInt{L: n}}}
		off = off.Add(n)
	}
	st.Ghost["len:"+name] = ai.VInt{L: off}
	st.Ghost[name] = ai.VPtr{O: ids[0]}
	return ai.VPtr{O: ids[0]}
}

// walk reads the ring starting at a pointer.
func (r ringT) walk(st *ai.State, v ai.Val) ([]run, string) {
	start, ok := st.Resolve(st.N(v)).(ai.VPtr)
	if !ok || start.P != "" || st.Heap[start.O] == nil {
		return nil, "no ring at " + ai.Key(v)
	}
	if start.End == 2 {
		// the last element of a run: rotate later by starting at the run; only its position matters
		return nil, "ring read from the middle of a run"
	}
	var out []run
	cur := start
	var from ai.Val
	var firstPrev ai.Val
	for steps := 0; ; steps++ {
		if steps > 64 {
			return nil, "the walk does not come back"
		}
		o := st.Heap[cur.O]
		if o == nil || cur.P != "" {
			return nil, "the walk leaves the ring"
		}
		var prev, next, self ai.Val
		var rn run
		switch {
		case cur.End == 1 && o.Seg != nil:
			g := o.Seg
			prev, next, self = g.Before, g.After, ai.VPtr{O: cur.O, End: 2}
			rn = run{n: g.Len, ident: g.Ident, val: g.F[r.val].E, v: g.F[r.val].V}
		case cur.End == 0 && o.V != nil && types.Identical(o.Typ, r.t):
			s := o.V.(ai.VStruct)
			prev, next, self = s.F[r.prev], s.F[r.next], cur
			rn = run{n: ai.K(1), ident: o.Ident, v: s.F[r.val], o: cur.O}
			if e := ai.ElemOf(s.F[r.val]); e != nil {
				rn.val, rn.v = e, nil
			}
			_, n1 := next.(ai.VNil)
			_, n2 := prev.(ai.VNil)
			if n1 && n2 && steps == 0 {
				return []run{rn}, "" // a zero-value ring
			}
		default:
			return nil, "the walk meets " + ai.Key(cur)
		}
		if from == nil {
			firstPrev = prev
		} else if !ai.Same(prev, from) {
			return nil, fmt.Sprintf("next and previous disagree (%s has previous %s, reached from %s)", ai.Key(cur), ai.Key(prev), ai.Key(from))
		}
		out = append(out, rn)
		from = self
		np, ok := next.(ai.VPtr)
		if !ok {
			return nil, "the ring is broken at " + ai.Key(next)
		}
		if np == start {
			if !ai.Same(firstPrev, from) {
				return nil, fmt.Sprintf("next and previous disagree at the start (%s, reached from %s)", ai.Key(firstPrev), ai.Key(from))
			}
			return out, ""
		}
		cur = np
	}
}

func (r ringT) is(st *ai.State, p *Post, v ai.Val, want []run, what string, a ...interface{}) bool {
	msg := fmt.Sprintf(what, a...)
	p.c.Obligations++
	got, bad := r.walk(st, v)
	if bad != "" {
		p.fail("violated", msg+": "+bad)
		return false
	}
	return sameRuns(st, p, got, want, "%s", msg)
}

// ringCongruence: at loop heads, for each integer and each ring pointer of the looping function, the
// combination s*int-offset may change only by multiples of the ring length; what it was at first is kept.
func ringCongruence(e *ai.Engine) {
	e.LoopNorm = func(st *ai.State) {
		L := st.Lin(st.N(st.Ghost["len:r"]))
		f := st.Top()
		for a, av := range f.Regs {
			iv, ok := st.N(av).(ai.VInt)
			if !ok {
				continue
			}
			for b, bv := range f.Regs {
				pv, ok := st.N(bv).(ai.VPtr)
				if !ok || pv.P != "" || st.Heap[pv.O] == nil {
					continue
				}
				id, ok := quietIdent(st, pv)
				if !ok || id.Base != "I:r" {
					continue
				}
				for _, s := range []int64{1, -1} {
					key := fmt.Sprintf("%s/%d/%s/%s/%d", f.Fn.Name(), len(st.Frames), a.Name(), b.Name(), s)
					cur := iv.L.Mul(s).Sub(id.Off)
					i0, ok := st.Ghost["mi:"+key]
					if !ok {
						if _, dead := st.Ghost["md:"+key]; dead {
							continue
						}
						st.Ghost["mi:"+key] = ai.VInt{L: cur}
						st.Ghost["m:"+key] = ai.VInt{L: ai.K(0)}
						continue
					}
					d := cur.Sub(st.Lin(st.N(i0)))
					old := st.Lin(st.N(st.Ghost["m:"+key]))
					good := false
					for j := int64(-1); j <= 1; j++ {
						if holds_(st, ai.EQ(d.Sub(old), L.Mul(j))) {
							good = true
						}
					}
					if good {
						st.Ghost["m:"+key] = ai.VInt{L: d}
					} else {
						delete(st.Ghost, "m:"+key)
						delete(st.Ghost, "mi:"+key)
						st.Ghost["md:"+key] = ai.VBool{B: true}
					}
				}
			}
		}
	}
	e.OnBinOp = func(st *ai.State, op token.Token, a, b ai.Val, t types.Type) (ai.Val, bool) {
		if op != token.REM {
			return nil, false
		}
		x, ok1 := st.N(a).(ai.VInt)
		y, ok2 := st.N(b).(ai.VInt)
		L := st.Lin(st.N(st.Ghost["len:r"]))
		if !ok1 || !ok2 || !holds_(st, ai.EQ(y.L, L)) {
			return nil, false
		}
		q := st.E.FreshSym()
		st.Assume(ai.LTc(q, L))
		st.Assume(ai.LTc(L.Mul(-1), q))
		if st.Decide(ai.GE(x.L, ai.K(0))) {
			st.Assume(ai.GE(q, ai.K(0)))
		} else {
			st.Assume(ai.LE(q, ai.K(0)))
		}
		st.Ghost["m:rem"] = ai.VInt{L: x.L.Sub(q)}
		return ai.VInt{L: q}, true
	}
}

// quietIdent: the element a pointer denotes, without splitting the state.
func quietIdent(st *ai.State, p ai.VPtr) (*ai.Elem, bool) {
	o := st.Heap[p.O]
	if p.End == 0 {
		return o.Ident, o.Ident != nil
	}
	if o.Seg == nil || o.Seg.Ident == nil || !holds_(st, ai.GE(o.Seg.Len, ai.K(1))) {
		return nil, false
	}
	e := *o.Seg.Ident
	if p.End == 2 {
		d := e.Dir
		if d == 0 {
			d = 1
		}
		e.Off = e.Off.Add(o.Seg.Len.AddC(-1).Mul(d))
	}
	return &e, true
}

// multiple: x is a multiple of the ring length.
func multiple(st *ai.State, x ai.Lin) bool {
	L := st.Lin(st.N(st.Ghost["len:r"]))
	is := func(l ai.Lin) bool {
		for j := int64(-2); j <= 2; j++ {
			if holds_(st, ai.EQ(l, L.Mul(j))) {
				return true
			}
		}
		return false
	}
	if is(x) {
		return true
	}
	ms := []ai.Lin{ai.K(0)}
	for _, k := range sortedKeys(st.Ghost) {
		if strings.HasPrefix(k, "m:") {
			ms = append(ms, st.Lin(st.N(st.Ghost[k])))
		}
	}
	for _, a := range ms {
		for _, b := range ms {
			if is(x.Sub(a).Sub(b)) || is(x.Sub(a).Add(b)) || is(x.Add(a).Add(b)) {
				return true
			}
		}
	}
	return false
}

func runC05(c *Ctx) {
	pkg := "ring"
	typ := func(fn string) (ringT, bool) {
		f := c.fnOf(&Scenario{Pkg: pkg, Fn: fn})
		if f == nil {
			return ringT{}, false
		}
		return ringTypes(f.Params[0].Type()), true
	}
	all := func(st *ai.State, name string) []run {
		n := st.Lin(st.N(st.Ghost["len:"+name]))
		return []run{{n: n, ident: &ai.Elem{Base: "I:" + name, Dir: 1}, val: &ai.Elem{Base: "V:" + name, Dir: 1}}}
	}
	// part of ring name: [lo,hi)
	part := func(name string, lo, hi ai.Lin) run {
		return run{n: hi.Sub(lo), ident: &ai.Elem{Base: "I:" + name, Off: lo, Dir: 1}, val: &ai.Elem{Base: "V:" + name, Off: lo, Dir: 1}}
	}
	Ln := func(st *ai.State, name string) ai.Lin { return st.Lin(st.N(st.Ghost["len:"+name])) }
	shapes := []string{"r A", "zero"}

	for _, m := range []string{"Next", "Prev", "Move", "Len", "Do"} {
		r, ok := typ("Ring." + m)
		if !ok {
			continue
		}
		for _, shape := range append(shapes, "r A,n<0", "r A,n>0") {
			m, shape := m, shape
			shape, sign, _ := strings.Cut(shape, ",")
			if sign != "" && m != "Move" || m == "Move" && shape == "r A" && sign == "" {
				continue
			}
			c.Run(Scenario{Name: "ring <" + shape + ">" + sign, Pkg: pkg, Fn: "Ring." + m, Hooks: func(e *ai.Engine) {
				r.hooks(e)
				if m == "Move" {
					ringCongruence(e)
				}
				e.OnCallback = func(cb *ai.Callback) ai.Val {
					st := cb.St
					if len(cb.Args) != 1 {
						ai.Undecided("call of %s", ai.Key(cb.F))
					}
					seen := st.Lin(st.N(st.Ghost["seen"]))
					e := ai.ElemOf(st.N(cb.Args[0]))
					if e == nil || e.Base != "V:r" || !holds_(st, ai.EQ(e.Off, seen)) {
						st.Ghost["bad"] = ai.VStr{S: "the callback does not get the values in order, each once"}
					}
					st.Ghost["seen"] = ai.VInt{L: seen.AddC(1)}
					return ai.VTuple{}
				}
			}, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
				a := []ai.Val{r.mk(st, "r", shape)}
				visitInit(st, ai.K(0))
				switch m {
				case "Move":
					n := st.E.RigidSym("n")
					if sign == "n<0" {
						st.Assume(ai.LTc(n, ai.K(0)))
					} else if sign == "n>0" {
						st.Assume(ai.GE(n, ai.K(0)))
					}
					st.Ghost["n"] = ai.VInt{L: n}
					a = append(a, ai.VInt{L: n})
				case "Do":
					a = append(a, ai.Named("visit", fn.Params[1].Type()))
				}
				return a
			}, Post: func(st *ai.State, p *Post) {
				L := Ln(st, "r")
				r.is(st, p, st.Ghost["r"], all(st, "r"), "%s changes the ring", m)
				at := func() (ai.Lin, bool) {
					id, ok := identOf(st, st.Result[0])
					if !p.Ok(ok && id.Base == "I:r", "%s does not return an element of the ring", m) {
						return ai.Lin{}, false
					}
					return id.Off, true
				}
				switch m {
				case "Next", "Prev":
					if o, ok := at(); ok {
						want := ai.K(1)
						if m == "Prev" {
							want = L.AddC(-1)
						}
						if st.Decide(ai.EQ(L, ai.K(1))) {
							want = ai.K(0)
						}
						p.True(ai.EQ(o, want), "%s returns another element", m)
					}
				case "Move":
					if o, ok := at(); ok {
						n := st.Lin(st.N(st.Ghost["n"]))
						if shape == "zero" {
							p.True(ai.EQ(o, ai.K(0)), "Move on a ring of one leaves it")
						} else {
							p.Ok(multiple(st, n.Sub(o)), "Move does not step the requested number of elements")
						}
					}
				case "Len":
					p.True(ai.EQ(st.Lin(st.N(st.Result[0])), L), "Len is not the number of elements")
				case "Do":
					p.Same(st.Ghost["bad"], ai.VStr{}, "Do")
					p.True(ai.EQ(st.Lin(st.N(st.Ghost["seen"])), L), "Do does not visit every element exactly once")
				}
			}})
		}
	}
	for _, m := range []string{"Len", "Do"} {
		m := m
		c.Run(Scenario{Name: "nil ring", Pkg: pkg, Fn: "Ring." + m, Hooks: func(e *ai.Engine) {
			e.OnCallback = func(cb *ai.Callback) ai.Val {
				cb.St.Ghost["bad"] = ai.VStr{S: "called"}
				return ai.VTuple{}
			}
		}, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
			visitInit(st, ai.K(0))
			a := []ai.Val{ai.VNil{}}
			if m == "Do" {
				a = append(a, ai.Named("visit", fn.Params[1].Type()))
			}
			return a
		}, Post: func(st *ai.State, p *Post) {
			p.Same(st.Ghost["bad"], ai.VStr{}, "%s", m)
			if m == "Len" {
				p.Same(st.Result[0], ai.VInt{L: ai.K(0)}, "Len of an empty ring")
			}
		}})
	}
	// New
	if fn := c.fnOf(&Scenario{Pkg: pkg, Fn: "New"}); fn != nil {
		r := ringTypes(fn.Signature.Results().At(0).Type())
		c.Run(Scenario{Name: "any n", Pkg: pkg, Fn: "New", Hooks: r.hooks, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
			n := st.E.RigidSym("n")
			st.Ghost["n"] = ai.VInt{L: n}
			return []ai.Val{ai.VInt{L: n}}
		}, Post: func(st *ai.State, p *Post) {
			n := st.Lin(st.N(st.Ghost["n"]))
			if st.Decide(ai.LE(n, ai.K(0))) {
				p.Same(st.Result[0], ai.VNil{}, "New of no elements is not nil")
				return
			}
			got, bad := r.walk(st, st.Result[0])
			if !p.Ok(bad == "", "New: %s", bad) {
				return
			}
			total := ai.K(0)
			for _, g := range got {
				total = total.Add(g.n)
			}
			p.True(ai.EQ(total, n), "New makes a ring of another length")
		}})
	}
	// Link
	if r, ok := typ("Ring.Link"); ok {
		for _, k := range []struct{ rs, ss string }{
			{"r A", "nil"}, {"zero", "nil"}, {"r A", "s B"}, {"r A", "zero"}, {"zero", "s B"}, {"zero", "zero"}, {"r A s B", "in"}, {"r A", "self"}, {"zero", "self"},
		} {
			k := k
			c.Run(Scenario{Name: "receiver <" + k.rs + ">, argument " + k.ss, Pkg: pkg, Fn: "Ring.Link", Hooks: r.hooks, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
				rv := r.mk(st, "r", k.rs)
				switch k.ss {
				case "nil":
					return []ai.Val{rv, ai.VNil{}}
				case "self":
					return []ai.Val{rv, rv}
				case "in":
					return []ai.Val{rv, st.Ghost["r.s"]}
				}
				return []ai.Val{rv, r.mk(st, "s", k.ss)}
			}, Post: func(st *ai.State, p *Post) {
				L := Ln(st, "r")
				zero, one := ai.K(0), ai.K(1)
				wantRes := ai.K(1)
				if st.Decide(ai.EQ(L, one)) {
					wantRes = zero
				}
				id, ok := identOf(st, st.Result[0])
				if p.Ok(ok && id.Base == "I:r", "Link does not return the former next element") {
					p.True(ai.EQ(id.Off, wantRes), "Link does not return the former next element")
				}
				switch k.ss {
				case "nil":
					r.is(st, p, st.Ghost["r"], all(st, "r"), "Link with nothing changes the ring")
				case "in", "self":
					at := L // position of the argument, L meaning r itself
					if k.ss == "in" {
						at = tok(st, "r.s").ident.Off
					}
					r.is(st, p, st.Ghost["r"], []run{part("r", zero, one), part("r", at, L)}, "Link within a ring: the remaining ring is wrong")
					if !st.Decide(ai.EQ(at, one)) {
						r.is(st, p, st.Result[0], []run{part("r", one, at)}, "Link within a ring: the removed ring is wrong")
					}
				default:
					S := Ln(st, "s")
					r.is(st, p, st.Ghost["r"], []run{part("r", zero, one), part("s", zero, S), part("r", one, L)}, "Link does not join the rings")
				}
			}})
		}
	}
	// Unlink
	if r, ok := typ("Ring.Unlink"); ok {
		for _, shape := range shapes {
			shape := shape
			c.Run(Scenario{Name: "ring <" + shape + ">", Pkg: pkg, Fn: "Ring.Unlink", Hooks: func(e *ai.Engine) { r.hooks(e); ringCongruence(e) }, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
				rv := r.mk(st, "r", shape)
				n := st.E.RigidSym("n")
				st.Ghost["n"] = ai.VInt{L: n}
				return []ai.Val{rv, ai.VInt{L: n}}
			}, Post: func(st *ai.State, p *Post) {
				L, n := Ln(st, "r"), st.Lin(st.N(st.Ghost["n"]))
				zero, one := ai.K(0), ai.K(1)
				if st.Decide(ai.LE(n, zero)) {
					p.Same(st.Result[0], ai.VNil{}, "Unlink of nothing returns a ring")
					r.is(st, p, st.Ghost["r"], all(st, "r"), "Unlink of nothing changes the ring")
					return
				}
				id, ok := identOf(st, st.Result[0])
				if !p.Ok(ok && id.Base == "I:r", "Unlink does not return an element of the ring") {
					return
				}
				// number of elements that left the ring
				got, bad := r.walk(st, st.Ghost["r"])
				if !p.Ok(bad == "", "Unlink: %s", bad) {
					return
				}
				left := zero
				for _, g := range got {
					left = left.Add(g.n)
				}
				k := L.Sub(left)
				if st.Decide(ai.EQ(k, zero)) {
					r.is(st, p, st.Ghost["r"], all(st, "r"), "Unlink of full turns changes the ring")
				} else {
					r.is(st, p, st.Ghost["r"], []run{part("r", zero, one), part("r", k.AddC(1), L)}, "Unlink leaves other elements than those after the removed ones")
					r.is(st, p, st.Result[0], []run{part("r", one, k.AddC(1))}, "Unlink does not return the removed elements as a ring")
				}
				if st.Decide(ai.EQ(L, one)) {
					return
				}
				p.Ok(multiple(st, n.Sub(k)), "Unlink does not remove the requested number of elements")
			}})
		}
	}
}
