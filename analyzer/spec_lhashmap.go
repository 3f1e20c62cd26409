package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	register("C13", "for an arbitrary key x and an operation on x or on another key: the linked hash map's methods are interpreted on (index map abstracted around the keys, order list as symbolic segments) and must keep index and list in one-to-one agreement, return and store exactly the promised values", func(c *Ctx) { runLhm(c, false) })
	register("C14", "the order list after each linked-hash-map method is compared, as a symbolic sequence, with the one most-recent-first order prescribes", func(c *Ctx) { runLhm(c, true) })
}

type lhmT struct {
	t          types.Type
	m, l       int
	mt         *types.Map
	d          dlT
	entry      types.Type
	ek, ev     int
	keyT, valT types.Type
}

func lhmTypes(t types.Type) lhmT {
	h := lhmT{t: deref(t)}
	h.m, h.l = roleField(h.t, "m", isMapT), roleField(h.t, "l", namedT("Dllist"))
	us := h.t.Underlying().(*types.Struct)
	h.mt = mapType(us.Field(h.m).Type())
	h.d = dlTypes(us.Field(h.l).Type())
	h.entry = deref(h.d.valT)
	h.ek, h.ev = roleField(h.entry, "k", isTypeParam(0, h.entry)), roleField(h.entry, "v", isTypeParam(1, h.entry))
	es := h.entry.Underlying().(*types.Struct)
	h.keyT, h.valT = es.Field(h.ek).Type(), es.Field(h.ev).Type()
	return h
}

// mk builds the map: the order list has the given shape; single elements are the entries of the keys
// of that name, all other listed keys are absent.
func (h lhmT) mk(st *ai.State, shape string, keys ...string) ai.Val {
	l := h.d.mk(st, "l", shape)
	m := st.NewUnknownMap(h.mt, "m")
	st.Ghost["m"] = m
	for _, k := range keys {
		kt := ai.Named(k, h.keyT)
		np, ok := st.Ghost["l."+k]
		if !ok {
			st.AddEnt(m, kt, false, nil)
			continue
		}
		f := append([]ai.Val(nil), st.Zero(h.entry).(ai.VStruct).F...)
		f[h.ek], f[h.ev] = kt, st.Opaque(ai.Named("v"+k, h.valT), h.valT)
		ep := ai.VPtr{O: st.AllocObj(&ai.Obj{Typ: h.entry, V: ai.VStruct{F: f}, Name: "entry:" + k})}
		st.SetField(np.(ai.VPtr), h.d.val, ep)
		st.AddEnt(m, kt, true, np)
	}
	for i, a := range keys {
		for _, b := range keys[i+1:] {
			distinct(st, ai.Named(a, h.keyT), ai.Named(b, h.keyT))
		}
	}
	st.Assume(ai.EQ(st.MapObj(m).Len, st.Lin(st.N(st.Ghost["len:l"]))))
	zf := append([]ai.Val(nil), st.Zero(h.t).(ai.VStruct).F...)
	zf[h.m], zf[h.l] = m, l
	hp := ai.VPtr{O: st.AllocObj(&ai.Obj{Typ: h.t, V: ai.VStruct{F: zf}, Name: "h"})}
	st.Ghost["h"] = hp
	return hp
}

// check: the map is consistent, holds the given keys with the given values (absent: nil), and its list is
// the sequence of tokens want (a key not in the initial list denotes its new element). ordered=false
// only requires the same elements.
func (h lhmT) check(st *ai.State, p *Post, hv ai.Val, name string, want []string, vals map[string]ai.Val, ordered bool) {
	hp, ok := st.N(hv).(ai.VPtr)
	if !p.Ok(ok && st.Heap[hp.O] != nil && hp.P == "" && types.Identical(st.Heap[hp.O].Typ, h.t), "%s: no map", name) {
		return
	}
	f := st.Heap[hp.O].V.(ai.VStruct).F
	got, ok := h.d.read(st, p, f[h.l], name)
	if !ok {
		return
	}
	m, ok := st.N(f[h.m]).(ai.VMap)
	if !p.Ok(ok, "%s: the index is nil", name) {
		return
	}
	total := ai.K(0)
	// what each key's node is
	node := map[ai.ObjID]string{}
	for k, v := range vals {
		e, in := st.MapGet(m, st.N(ai.Named(k, h.keyT)))
		if v == nil {
			p.Ok(!in, "%s: a key that should be absent is in the index", name)
			continue
		}
		if !p.Ok(in, "%s: a key that should be present is not in the index", name) {
			return
		}
		np, ok := st.N(e).(ai.VPtr)
		if !p.Ok(ok && np.End == 0 && np.P == "" && st.Heap[np.O] != nil, "%s: the index does not point to an element", name) {
			return
		}
		node[np.O] = k
	}
	var g []run
	for _, r := range got {
		total = total.Add(r.n)
		if r.o != 0 && node[r.o] != "" {
			k := node[r.o]
			delete(node, r.o)
			ep, ok := st.N(r.v).(ai.VPtr)
			if !p.Ok(ok && ep.P == "" && st.Heap[ep.O] != nil && types.Identical(st.Heap[ep.O].Typ, h.entry), "%s: an element without an entry", name) {
				return
			}
			ef := st.Heap[ep.O].V.(ai.VStruct).F
			p.Same(ef[h.ek], ai.Named(k, h.keyT), "%s: the entry of a key carries another key", name)
			p.Same(ef[h.ev], vals[k], "%s: wrong value stored", name)
			g = append(g, run{n: ai.K(1), v: ai.VStr{S: k}})
			continue
		}
		if r.ident == nil || r.val == nil {
			p.fail("violated", name+": an element of the list belongs to no key: "+r.str())
			return
		}
		if !p.Ok(r.val.Base == "V:l" && r.val.Dir == 1 && holds_(st, ai.EQ(r.val.Off, r.ident.Off)), "%s: an element carries another entry", name) {
			return
		}
		g = append(g, run{n: r.n, ident: r.ident, val: r.ident})
	}
	p.Ok(len(node) == 0, "%s: the index points to an element that is not in the list", name)
	p.True(ai.EQ(total, st.MapObj(m).Len), "%s: index and list have different sizes", name)
	var w []run
	for _, t := range want {
		if isSegTok(t) {
			r := tok(st, "l."+t)
			w = append(w, run{n: r.n, ident: r.ident, val: r.ident})
		} else {
			w = append(w, run{n: ai.K(1), v: ai.VStr{S: t}})
		}
	}
	if ordered {
		sameRuns(st, p, g, w, "%s: the order is not most recently used first", name)
		return
	}
	// same elements in any order: every wanted run is covered by runs found, which are then used up
	for i := range w {
		off, left := ai.Lin{}, w[i].n
		if w[i].ident != nil {
			off = w[i].ident.Off
		}
		for !holds_(st, ai.EQ(left, ai.K(0))) {
			hit := -1
			for j := range g {
				if g[j].ident != nil && w[i].ident != nil && holds_(st, ai.EQ(g[j].ident.Off, off)) && holds_(st, ai.LE(g[j].n, left)) && !holds_(st, ai.EQ(g[j].n, ai.K(0))) || g[j].v != nil && w[i].v != nil && ai.Same(g[j].v, w[i].v) {
					hit = j
				}
			}
			if hit < 0 {
				if _, known := st.Known(ai.EQ(left, ai.K(0))); !known {
					st.Decide(ai.EQ(left, ai.K(0)))
					continue
				}
				p.fail("violated", name+": elements are lost")
				return
			}
			off, left = off.Add(g[hit].n), left.Sub(g[hit].n)
			g = append(g[:hit], g[hit+1:]...)
		}
	}
	p.c.Obligations++
	for _, r := range g {
		if !holds_(st, ai.EQ(r.n, ai.K(0))) {
			p.fail("violated", name+": elements appear from nowhere: "+r.str())
		}
	}
}

func runLhm(c *Ctx, order bool) {
	pkg := "lhashmap"
	fields := func(s ...string) []string { return s }
	hooks := func(h lhmT) func(e *ai.Engine) {
		return func(e *ai.Engine) {
			h.d.hooks(e)
			keysOf(e, gX, gY)
			e.TermTheory = func(st *ai.State, t ai.VTerm) (bool, bool) {
				// every element carries an entry
				if t.T.Op == "isnil" {
					if el := ai.ElemOf(t.T.A[0]); el != nil && el.Base == "V:l" {
						return false, true
					}
				}
				return false, false
			}
		}
	}
	type kase struct {
		fn, shape string
		want      []string
	}
	// operations on key x; y is another key (present or absent)
	for _, k := range []kase{
		{"Load", "A x B", fields("x", "A", "B")},
		{"Load", "A x B y C", fields("x", "A", "B", "y", "C")},
		{"Load", "A y B x C", fields("x", "A", "y", "B", "C")},
		{"Load", "A", fields("A")},
		{"Load", "A y B", fields("A", "y", "B")},
		{"Store", "A x B", fields("x", "A", "B")},
		{"Store", "A x B y C", fields("x", "A", "B", "y", "C")},
		{"Store", "A y B x C", fields("x", "A", "y", "B", "C")},
		{"Store", "A", fields("x", "A")},
		{"Store", "A y B", fields("x", "A", "y", "B")},
		{"Remove", "A x B", fields("A", "B")},
		{"Remove", "A x B y C", fields("A", "B", "y", "C")},
		{"Remove", "A y B x C", fields("A", "y", "B", "C")},
		{"Remove", "A", fields("A")},
		{"Remove", "A y B", fields("A", "y", "B")},
		{"Clear", "A y B x C", nil},
		{"Clear", "A", nil},
		{"Len", "A y B", fields("A", "y", "B")},
		{"Range", "A x B", fields("A", "x", "B")},
	} {
		k := k
		fn := c.fnOf(&Scenario{Pkg: pkg, Fn: "Lhashmap." + k.fn})
		if fn == nil {
			continue
		}
		h := lhmTypes(fn.Params[0].Type())
		had := map[string]bool{}
		for _, t := range splitFields(k.shape) {
			had[t] = true
		}
		{
			scen := func(reverse bool) {
				c.Run(Scenario{Name: "map <" + k.shape + ">", Pkg: pkg, Fn: "Lhashmap." + k.fn, Hooks: func(e *ai.Engine) {
					hooks(h)(e)
					if k.fn == "Range" {
						lhmVisit(e, h, reverse)
					}
				}, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
					a := []ai.Val{h.mk(st, k.shape, "x", "y")}
					from := ai.K(0)
					if reverse {
						from = st.Lin(st.N(st.Ghost["len:l"])).AddC(-1)
					}
					visitInit(st, from)
					switch k.fn {
					case "Load", "Remove":
						a = append(a, ai.Named("x", h.keyT))
					case "Store":
						a = append(a, ai.Named("x", h.keyT), st.Opaque(ai.Named("nv", h.valT), h.valT))
					case "Range":
						a = append(a, ai.Named("visit", fn.Params[1].Type()))
					}
					return a
				}, Post: func(st *ai.State, p *Post) {
					vals := map[string]ai.Val{"x": nil, "y": nil}
					for _, x := range []string{"x", "y"} {
						if had[x] && k.fn != "Clear" {
							vals[x] = st.Opaque(ai.Named("v"+x, h.valT), h.valT)
						}
					}
					switch k.fn {
					case "Store":
						vals["x"] = st.Opaque(ai.Named("nv", h.valT), h.valT)
					case "Remove":
						vals["x"] = nil
					}
					h.check(st, p, st.Ghost["h"], k.fn, k.want, vals, order)
					if order && k.fn != "Range" {
						return
					}
					switch k.fn {
					case "Load":
						p.Same(st.Result[1], ai.VBool{B: had["x"]}, "Load reports presence wrongly")
						w := vals["x"]
						if w == nil {
							w = st.Zero(h.valT)
						}
						p.Same(st.Result[0], w, "Load returns another value")
					case "Len":
						p.True(ai.EQ(st.Lin(st.N(st.Result[0])), st.Lin(st.N(st.Ghost["len:l"]))), "Len is not the number of keys")
					case "Range":
						p.Same(st.Ghost["bad"], ai.VStr{}, "Range")
						if !ai.Same(st.Ghost["stop"], ai.VBool{B: true}) {
							end := st.Lin(st.N(st.Ghost["len:l"]))
							if reverse {
								end = ai.K(-1)
							}
							p.True(ai.EQ(st.Lin(st.N(st.Ghost["seen"])), end), "Range does not visit every key")
						}
					}
				}})
			}
			if k.fn == "Range" && !order {
				c.Either(func() { scen(false) }, func() { scen(true) })
			} else {
				scen(false)
			}
		}
	}
	// construction
	for _, drv := range []string{"verifNew", "verifNewCap", "verifNewCapTwice"} {
		c.Run(Scenario{Name: "construction", Pkg: pkg, Fn: drv, Hooks: func(e *ai.Engine) { keysOf(e, gX) }, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
			var a []ai.Val
			for i := range fn.Params {
				_ = i
				n := st.E.RigidSym("cap")
				a = append(a, ai.VInt{L: n})
			}
			return a
		}, Post: func(st *ai.State, p *Post) {
			h := lhmTypes(p.fn.Signature.Results().At(0).Type())
			h.check(st, p, st.Result[0], "New", nil, map[string]ai.Val{"x": nil}, true)
		}})
	}
}

func splitFields(s string) []string {
	var out []string
	cur := ""
	for _, r := range s + " " {
		if r == ' ' {
			if cur != "" {
				out = append(out, cur)
			}
			cur = ""
		} else {
			cur += string(r)
		}
	}
	return out
}

// lhmVisit: the callback must get each entry in list order (or in reverse), with its current value.
func lhmVisit(e *ai.Engine, h lhmT, reverse bool) {
	e.OnCallback = func(cb *ai.Callback) ai.Val {
		st := cb.St
		bad := func(s string) { st.Ghost["bad"] = ai.VStr{S: s} }
		if f, ok := cb.F.(ai.VTerm); !ok || f.T.Op != "visit" || len(cb.Args) != 2 {
			ai.Undecided("call of %s", ai.Key(cb.F))
		}
		if !ai.Same(st.Ghost["stop"], ai.VBool{B: false}) {
			bad("the callback is called again after it asked to stop")
		}
		seen := st.Lin(st.N(st.Ghost["seen"]))
		// position of an argument in the list
		pos := func(v ai.Val, field int, named string) (ai.Lin, bool) {
			v = st.N(v)
			t, ok := v.(ai.VTerm)
			if !ok {
				return ai.Lin{}, false
			}
			if t.T.Op == named {
				return tok(st, "l.x").ident.Off, true
			}
			if t.T.Op == "fld" && ai.Same(t.T.A[1], ai.VInt{L: ai.K(int64(field))}) {
				if e := ai.ElemOf(t.T.A[0]); e != nil && e.Base == "V:l" {
					return e.Off, true
				}
			}
			return ai.Lin{}, false
		}
		kp, ok1 := pos(cb.Args[0], h.ek, "x")
		vp, ok2 := pos(cb.Args[1], h.ev, "vx")
		switch {
		case !ok1 || !ok2 || !holds_(st, ai.EQ(kp, vp)):
			bad("the callback is not given a key of the map with its value")
		case !holds_(st, ai.EQ(kp, seen)):
			bad("the callback does not get the keys each once in order")
		}
		step := int64(1)
		if reverse {
			step = -1
		}
		st.Ghost["seen"] = ai.VInt{L: seen.AddC(step)}
		if st.Choose(2) == 0 {
			return ai.VBool{B: true}
		}
		st.Ghost["stop"] = ai.VBool{B: true}
		return ai.VBool{B: false}
	}
}
