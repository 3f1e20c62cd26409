package main

import (
	"fmt"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	register("C06", "child assignment is interpreted on a lazily materialised link graph: every link is unknown until it is used, then every consistent target (none, each node known so far, a new one) is tried; afterwards every link of every node must be the prescribed one", runC06)
	register("C07", "every relation query is interpreted on a lazily materialised tree of consistent links (with depth, height and ancestor-of facts per node); the answer must be the one the links define; recursive calls use the induction hypothesis on a smaller measure", runC07)
}

const treePkg = "tree"

// treeW: nodes are objects whose links start unknown ("lazy"). Behind the declared fields each node
// object carries hidden ones: the links it had initially and its attributes.
type treeW struct {
	fV, fP, fL, fR, nf int
	node, ptr          types.Type
	acyclic            bool // trees only: depth and ancestor facts hold
	down               bool // heights and positions relate a node to its children
	readonly           bool
	down2              func(st *ai.State, o ai.ObjID) // relates the attributes of a node to its children's
	fresh              func(st *ai.State, o ai.ObjID) // constrains the attributes of a new node
	kids               func(st *ai.State, o ai.ObjID) // decides both children
	up                 func(st *ai.State, o ai.ObjID) // decides the parent
	extra              int
	dynRoles           bool // tell work lists from results by what they first hold
}

const (
	hP = iota // initial links
	hL
	hR
	hDepth
	hAncN // n is the node or above it
	hAncM // m is the node or above it
	hHeight
	hN
)

var lazy = ai.Named("lazy", nil)

func isLazy(v ai.Val) bool { t, ok := v.(ai.VTerm); return ok && t.T.Op == "lazy" }

func (w *treeW) setup(fn *ssa.Function) {
	var t types.Type
	sig := fn.Signature
	if sig.Recv() != nil {
		t = sig.Recv().Type()
	} else {
		t = sig.Results().At(0).Type()
	}
	w.ptr, w.node = t, deref(t)
	w.fV = mustField(w.node, "Val")
	w.fP, w.fL, w.fR = mustField(w.node, "Parent"), mustField(w.node, "Left"), mustField(w.node, "Right")
	w.nf = w.node.Underlying().(*types.Struct).NumFields()
}

func (w *treeW) hid(f int) int {
	switch f {
	case w.fP:
		return w.nf + hP
	case w.fL:
		return w.nf + hL
	case w.fR:
		return w.nf + hR
	}
	return f
}

func (w *treeW) isNode(st *ai.State, o ai.ObjID) bool {
	b := st.Heap[o]
	if b == nil {
		return false
	}
	s, ok := b.V.(ai.VStruct)
	return ok && len(s.F) > w.nf+hN-1 && w.nf > 0 && b.Tag == "node"
}

func (w *treeW) get(st *ai.State, o ai.ObjID, f int) ai.Val {
	return st.N(st.Heap[o].V.(ai.VStruct).F[f])
}

func (w *treeW) set(st *ai.State, o ai.ObjID, f int, v ai.Val) {
	b := *st.Heap[o]
	s := append([]ai.Val(nil), b.V.(ai.VStruct).F...)
	s[f] = v
	b.V = ai.VStruct{F: s}
	st.Heap[o] = &b
}

func (w *treeW) num(st *ai.State, o ai.ObjID, h int) ai.Lin {
	return st.NL(w.get(st, o, w.nf+h).(ai.VInt).L)
}
func (w *treeW) flag(st *ai.State, o ai.ObjID, h int) bool {
	return w.get(st, o, w.nf+h).(ai.VBool).B
}

// alloc makes a node about which nothing but consistency is known.
func (w *treeW) alloc(st *ai.State) ai.ObjID {
	f := make([]ai.Val, w.nf+hN+w.extra)
	su := w.node.Underlying().(*types.Struct)
	for i := 0; i < w.nf; i++ {
		switch i {
		case w.fP, w.fL, w.fR:
			f[i] = lazy
		default:
			f[i] = st.FreshVal(su.Field(i).Type())
		}
	}
	f[w.nf+hP], f[w.nf+hL], f[w.nf+hR] = lazy, lazy, lazy
	d := ai.K(0)
	if w.acyclic {
		d = st.E.FreshSym()
		st.Assume(ai.GE(d, ai.K(0)))
	}
	f[w.nf+hDepth] = ai.VInt{L: d}
	f[w.nf+hAncN], f[w.nf+hAncM] = ai.VBool{}, ai.VBool{}
	h := ai.K(0)
	if w.down {
		h = st.E.FreshSym()
		st.Assume(ai.GE(h, ai.K(0)))
	}
	f[w.nf+hHeight] = ai.VInt{L: h}
	for i := 0; i < w.extra; i++ {
		x := ai.K(0)
		if w.down {
			x = st.E.FreshSym()
		}
		f[w.nf+hN+i] = ai.VInt{L: x}
	}
	o := st.AllocObj(&ai.Obj{Typ: w.node, V: ai.VStruct{F: f}, Tag: "node"})
	if w.fresh != nil {
		w.fresh(st, o)
	}
	return o
}

func (w *treeW) nodes(st *ai.State) []ai.ObjID {
	var r []ai.ObjID
	for _, o := range st.HeapIDs() {
		if w.isNode(st, o) {
			r = append(r, o)
		}
	}
	return r
}

func (w *treeW) gobj(st *ai.State, k string) (ai.ObjID, bool) {
	if g, ok := st.Ghost[k]; ok {
		if p, ok := st.N(g).(ai.VPtr); ok {
			return p.O, true
		}
	}
	return 0, false
}

func (w *treeW) keep(st *ai.State, o ai.ObjID) {
	if _, ok := st.Ghost["keep"]; !ok {
		return
	}
	st.Ghost["keep"] = ai.VTuple{F: append(append([]ai.Val(nil), st.Ghost["keep"].(ai.VTuple).F...), ai.VPtr{O: o})}
}

// put sets an initial link, and the current one, which cannot have been written yet.
func (w *treeW) put(st *ai.State, o ai.ObjID, f int, v ai.Val) {
	w.set(st, o, w.hid(f), v)
	if isLazy(w.get(st, o, f)) {
		w.set(st, o, f, v)
	}
}

func (w *treeW) target(st *ai.State, o ai.ObjID, k string) bool {
	x, ok := w.gobj(st, k)
	return ok && x == o
}

var ancs = []struct {
	k string
	h int
}{{"n", hAncN}, {"m", hAncM}}

// above: q is the parent of c. Only consistent facts survive.
func (w *treeW) above(st *ai.State, q, c ai.ObjID, freshQ, freshC bool) {
	if !w.acyclic {
		return
	}
	st.Assume(ai.EQ(w.num(st, q, hDepth), w.num(st, c, hDepth).AddC(-1)))
	for _, a := range ancs {
		if _, ok := w.gobj(st, a.k); !ok {
			continue
		}
		switch {
		case freshQ:
			w.set(st, q, w.nf+a.h, ai.VBool{B: w.flag(st, c, a.h) && !w.target(st, c, a.k)})
		case freshC:
			w.set(st, c, w.nf+a.h, ai.VBool{B: w.flag(st, q, a.h)})
		default:
			if w.flag(st, c, a.h) != (w.flag(st, q, a.h) || w.target(st, c, a.k)) {
				ai.Infeasible()
			}
			if w.target(st, c, a.k) && w.flag(st, q, a.h) {
				ai.Infeasible()
			}
		}
	}
}

// force decides an unknown link: every consistent target is a case.
func (w *treeW) force(st *ai.State, o ai.ObjID, f int) {
	if !isLazy(w.get(st, o, w.hid(f))) {
		return
	}
	if f == w.fP {
		if w.up != nil {
			w.up(st, o)
			return
		}
		w.forceParent(st, o)
		return
	}
	if w.kids != nil {
		w.kids(st, o)
		return
	}
	w.forceKid(st, o, f)
	if w.down {
		for _, g := range []int{w.fL, w.fR} {
			if isLazy(w.get(st, o, w.hid(g))) {
				w.forceKid(st, o, g)
			}
		}
		w.down2(st, o)
	}
}

func (w *treeW) forceParent(st *ai.State, o ai.ObjID) {
	type opt struct {
		q    ai.ObjID
		slot int
	}
	var opts []opt
	for _, q := range w.nodes(st) {
		if w.acyclic && q == o {
			continue
		}
		for _, s := range []int{w.fL, w.fR} {
			if isLazy(w.get(st, q, w.hid(s))) {
				opts = append(opts, opt{q, s})
			}
		}
	}
	i := st.Choose(len(opts) + 3)
	switch {
	case i == 0:
		if w.acyclic {
			st.Assume(ai.EQ(w.num(st, o, hDepth), ai.K(0)))
			for _, a := range ancs {
				if _, ok := w.gobj(st, a.k); ok && w.flag(st, o, a.h) != w.target(st, o, a.k) {
					ai.Infeasible()
				}
			}
		}
		w.put(st, o, w.fP, ai.VNil{})
	case i <= 2:
		q := w.alloc(st)
		w.keep(st, q)
		w.above(st, q, o, true, false)
		w.put(st, o, w.fP, ai.VPtr{O: q})
		w.put(st, q, []int{w.fL, w.fR}[i-1], ai.VPtr{O: o})
	default:
		x := opts[i-3]
		w.above(st, x.q, o, false, false)
		w.put(st, o, w.fP, ai.VPtr{O: x.q})
		w.put(st, x.q, x.slot, ai.VPtr{O: o})
	}
}

func (w *treeW) forceKid(st *ai.State, o ai.ObjID, f int) {
	var opts []ai.ObjID
	for _, c := range w.nodes(st) {
		if w.acyclic && c == o {
			continue
		}
		if isLazy(w.get(st, c, w.hid(w.fP))) {
			opts = append(opts, c)
		}
	}
	i := st.Choose(len(opts) + 2)
	switch i {
	case 0:
		w.put(st, o, f, ai.VNil{})
	case 1:
		c := w.alloc(st)
		w.keep(st, c)
		w.above(st, o, c, false, true)
		w.put(st, c, w.fP, ai.VPtr{O: o})
		w.put(st, o, f, ai.VPtr{O: c})
	default:
		c := opts[i-2]
		w.above(st, o, c, false, false)
		w.put(st, c, w.fP, ai.VPtr{O: o})
		w.put(st, o, f, ai.VPtr{O: c})
	}
}

// initial link of a node; nil pointer for none.
func (w *treeW) at(st *ai.State, v ai.Val, f int) ai.Val {
	p, ok := st.N(v).(ai.VPtr)
	if !ok {
		return ai.VNil{}
	}
	w.force(st, p.O, f)
	return w.get(st, p.O, w.hid(f))
}

func (w *treeW) hooks(e *ai.Engine) {
	e.OnAccess = func(st *ai.State, p ai.Val, t types.Type, k ai.AccessKind) {
		x, ok := st.N(p).(ai.VPtr)
		if !ok || !w.isNode(st, x.O) {
			return
		}
		if k == ai.AccWrite && w.readonly {
			flagBad(st, "tree", "the call changes a node")
		}
		if x.P == "" {
			for _, f := range []int{w.fP, w.fL, w.fR} {
				w.force(st, x.O, f)
			}
			return
		}
		if f, err := strconv.Atoi(x.P); err == nil && (f == w.fP || f == w.fL || f == w.fR) {
			w.force(st, x.O, f)
		}
	}
	e.LoopNorm = w.norm
}

// norm forgets links of and to nodes other than n and m; their attributes stay.
func (w *treeW) norm(st *ai.State) {
	if _, ok := st.Ghost["keep"]; ok {
		ai.Undecided("a loop in child assignment")
	}
	if w.down {
		return
	}
	pinned := func(o ai.ObjID) bool { return w.target(st, o, "n") || w.target(st, o, "m") }
	for _, o := range w.nodes(st) {
		for _, f := range []int{w.fP, w.fL, w.fR} {
			v := w.get(st, o, w.hid(f))
			p, isP := v.(ai.VPtr)
			if isP && pinned(o) && pinned(p.O) || !isP && pinned(o) {
				continue
			}
			w.set(st, o, f, lazy)
			w.set(st, o, w.hid(f), lazy)
		}
	}
}

func same(st *ai.State, a, b ai.Val) bool { return ai.Same(st.N(a), st.N(b)) }

// ---- C06 ----

func runC06(c *Ctx) {
	for _, side := range []string{"Left", "Right"} {
		side := side
		w := &treeW{}
		c.Run(Scenario{Name: "any links", Pkg: treePkg, Fn: "Node.Set" + side, Hooks: w.hooks,
			Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
				w.setup(fn)
				st.Ghost["keep"] = ai.VTuple{}
				n := w.alloc(st)
				w.keep(st, n)
				st.Ghost["n"] = ai.VPtr{O: n}
				switch st.Choose(3) {
				case 0:
					st.Ghost["m"] = ai.VNil{}
				case 1:
					st.Ghost["m"] = ai.VPtr{O: n}
				default:
					m := w.alloc(st)
					w.keep(st, m)
					st.Ghost["m"] = ai.VPtr{O: m}
				}
				return []ai.Val{st.Ghost["n"], st.Ghost["m"]}
			},
			Post: func(st *ai.State, p *Post) {
				slot := w.fL
				if side == "Right" {
					slot = w.fR
				}
				n, m := st.N(st.Ghost["n"]), st.N(st.Ghost["m"])
				old := w.at(st, n, slot)
				type key struct {
					o ai.ObjID
					f int
				}
				want := map[key]ai.Val{}
				if !same(st, old, m) {
					if x, ok := old.(ai.VPtr); ok {
						want[key{x.O, w.fP}] = ai.VNil{}
					}
					if x, ok := m.(ai.VPtr); ok {
						if q, ok := w.at(st, m, w.fP).(ai.VPtr); ok {
							for _, f := range []int{w.fL, w.fR} {
								if same(st, w.at(st, q, f), m) {
									want[key{q.O, f}] = ai.VNil{}
								}
							}
						}
						want[key{x.O, w.fP}] = n
					}
					want[key{n.(ai.VPtr).O, slot}] = m
				}
				p.Same(rets(st)[0], old, "Set%s does not return the previous child", side)
				names := map[int]string{w.fP: "Parent", w.fL: "Left", w.fR: "Right"}
				for _, o := range w.nodes(st) {
					for _, f := range []int{w.fP, w.fL, w.fR} {
						exp, ok := want[key{o, f}]
						what := "is not the one prescribed"
						if !ok {
							exp = w.get(st, o, w.hid(f))
							what = "changes"
						}
						role := "another node"
						switch {
						case w.target(st, o, "n"):
							role = "the node"
						case w.target(st, o, "m"):
							role = "the new child"
						case same(st, old, ai.VPtr{O: o}):
							role = "the previous child"
						case same(st, w.at(st, m, w.fP), ai.VPtr{O: o}):
							role = "the previous parent of the new child"
						}
						p.Ok(same(st, w.get(st, o, f), exp), "Set%s: %s of %s %s", side, names[f], role, what)
					}
				}
			}})
	}
	w := &treeW{}
	c.Run(Scenario{Name: "new node", Pkg: treePkg, Fn: "NewNode",
		Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
			w.setup(fn)
			st.Ghost["v"] = ai.Named("v", ai.TypeParamOf(fn, 0))
			return []ai.Val{st.Ghost["v"]}
		},
		Post: func(st *ai.State, p *Post) {
			r, ok := rets(st)[0].(ai.VPtr)
			if !p.Ok(ok && st.Heap[r.O].New, "NewNode does not return a new node") {
				return
			}
			p.Same(w.get(st, r.O, w.fV), st.Ghost["v"], "NewNode: another value")
			for _, f := range []int{w.fP, w.fL, w.fR} {
				p.Ok(same(st, w.get(st, r.O, f), ai.VNil{}), "NewNode: the node is linked")
			}
		}})
}

// ---- C07 ----

func (w *treeW) sibling(st *ai.State, x ai.Val) ai.Val {
	q := w.at(st, x, w.fP)
	if _, ok := q.(ai.VPtr); !ok {
		return ai.VNil{}
	}
	if same(st, w.at(st, q, w.fL), x) {
		return w.at(st, q, w.fR)
	}
	return w.at(st, q, w.fL)
}

func isP(v ai.Val) bool { _, ok := v.(ai.VPtr); return ok }

// heights relates the height of a node to those of its children.
func (w *treeW) heights(st *ai.State, o ai.ObjID) {
	h := w.num(st, o, hHeight)
	var ks []ai.ObjID
	for _, f := range []int{w.fL, w.fR} {
		if p, ok := w.get(st, o, w.hid(f)).(ai.VPtr); ok {
			ks = append(ks, p.O)
		}
	}
	if len(ks) == 0 {
		st.Assume(ai.EQ(h, ai.K(0)))
		return
	}
	for _, k := range ks {
		st.Assume(ai.GE(w.num(st, o, hHeight), w.num(st, k, hHeight).AddC(1)))
	}
	k := ks[st.Choose(len(ks))]
	st.Assume(ai.EQ(w.num(st, o, hHeight), w.num(st, k, hHeight).AddC(1)))
}

func runC07(c *Ctx) {
	type q struct {
		fn     string
		binary bool
		want   func(w *treeW, st *ai.State, n, m ai.Val) ai.Val
	}
	B := func(b bool) ai.Val { return ai.VBool{B: b} }
	par := func(w *treeW, st *ai.State, n ai.Val) ai.Val { return w.at(st, n, w.fP) }
	lft := func(w *treeW, st *ai.State, n ai.Val) ai.Val { return w.at(st, n, w.fL) }
	rgt := func(w *treeW, st *ai.State, n ai.Val) ai.Val { return w.at(st, n, w.fR) }
	gp := func(w *treeW, st *ai.State, n ai.Val) ai.Val { return par(w, st, par(w, st, n)) }
	unc := func(w *treeW, st *ai.State, n ai.Val) ai.Val { return w.sibling(st, par(w, st, n)) }
	qs := []q{
		{"IsLeaf", false, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val {
			return B(!isP(lft(w, st, n)) && !isP(rgt(w, st, n)))
		}},
		{"HasChild", false, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val {
			return B(isP(lft(w, st, n)) || isP(rgt(w, st, n)))
		}},
		{"HasBothChild", false, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val {
			return B(isP(lft(w, st, n)) && isP(rgt(w, st, n)))
		}},
		{"HasLeft", false, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val { return B(isP(lft(w, st, n))) }},
		{"HasRight", false, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val { return B(isP(rgt(w, st, n))) }},
		{"IsRoot", false, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val { return B(!isP(par(w, st, n))) }},
		{"HasParent", false, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val { return B(isP(par(w, st, n))) }},
		{"IsLeft", false, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val {
			return B(isP(par(w, st, n)) && same(st, lft(w, st, par(w, st, n)), n))
		}},
		{"IsRight", false, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val {
			return B(isP(par(w, st, n)) && same(st, rgt(w, st, par(w, st, n)), n))
		}},
		{"Sibling", false, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val { return w.sibling(st, n) }},
		{"HasSibling", false, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val { return B(isP(w.sibling(st, n))) }},
		{"Uncle", false, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val { return unc(w, st, n) }},
		{"HasUncle", false, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val { return B(isP(unc(w, st, n))) }},
		{"Grandparent", false, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val { return gp(w, st, n) }},
		{"HasGrandparent", false, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val { return B(isP(gp(w, st, n))) }},
		{"IsLeftRelation", true, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val {
			return B(isP(m) && same(st, lft(w, st, n), m))
		}},
		{"IsRightRelation", true, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val {
			return B(isP(m) && same(st, rgt(w, st, n), m))
		}},
		{"IsChildRelation", true, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val {
			return B(isP(m) && same(st, par(w, st, m), n))
		}},
		{"IsSiblingRelation", true, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val {
			return B(isP(m) && same(st, w.sibling(st, n), m))
		}},
		{"IsUncleRelation", true, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val {
			return B(isP(m) && same(st, unc(w, st, n), m))
		}},
		{"IsGrandparentRelation", true, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val {
			return B(isP(m) && same(st, gp(w, st, n), m))
		}},
		{"IsAncestorRelation", true, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val {
			x, ok := m.(ai.VPtr)
			return B(ok && w.flag(st, x.O, hAncN))
		}},
		{"IsDescendantRelation", true, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val {
			x, ok := m.(ai.VPtr)
			return B(ok && !same(st, n, m) && w.flag(st, x.O, hAncN))
		}},
		{"Layer", false, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val {
			if x, ok := n.(ai.VPtr); ok {
				return ai.VInt{L: w.num(st, x.O, hDepth)}
			}
			return ai.VInt{L: ai.K(-1)}
		}},
		{"MaxDepth", false, func(w *treeW, st *ai.State, n, m ai.Val) ai.Val {
			if x, ok := n.(ai.VPtr); ok {
				return ai.VInt{L: w.num(st, x.O, hHeight)}
			}
			return ai.VInt{L: ai.K(0)}
		}},
	}
	for _, x := range qs {
		x := x
		w := &treeW{acyclic: true, readonly: true}
		if x.fn == "MaxDepth" {
			w.down = true
			w.down2 = w.heights
		}
		measure := hDepth
		if w.down {
			measure = hHeight
		}
		c.Run(Scenario{Name: "any tree", Pkg: treePkg, Fn: "Node." + x.fn,
			Hooks: func(e *ai.Engine) {
				w.hooks(e)
				e.Override = func(cl *ai.Call) (ai.Val, bool) {
					// a recursive call: the induction hypothesis, if its argument is smaller
					onStack := false
					for _, f := range cl.St.Frames {
						if f.Fn == cl.Fn || f.Fn.Origin() == cl.Fn {
							onStack = true
						}
					}
					var x q
					for _, y := range qs {
						if c.E.Fn(treePkg, "Node."+y.fn) == cl.Fn {
							x = y
						}
					}
					if x.fn == "" {
						return nil, false
					}
					st := cl.St
					if !onStack {
						return nil, false
					}
					on := len(cl.Args) - 1
					a, ok := st.N(cl.Args[on]).(ai.VPtr)
					if !ok {
						return nil, false // an absent node: interpreted
					}
					top := "n"
					if x.binary {
						top = "m"
						if !same(st, cl.Args[0], st.Ghost["n"]) {
							ai.Undecided("recursive call of %s for another pair of nodes", x.fn)
						}
					}
					t, _ := w.gobj(st, top)
					if b, ok := st.Known(ai.LTc(w.num(st, a.O, measure), w.num(st, t, measure))); !ok || !b {
						ai.Undecided("recursive call of %s on a node that is not nearer to the end", x.fn)
					}
					if x.binary {
						return x.want(w, st, cl.Args[0], a), true
					}
					return x.want(w, st, a, ai.VNil{}), true
				}
			},
			Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
				w.setup(fn)
				st.Ghost["m"] = ai.VNil{}
				if !x.binary && (x.fn == "Layer" || x.fn == "MaxDepth") && st.Choose(2) == 0 {
					st.Ghost["n"] = ai.VNil{}
					return []ai.Val{st.Ghost["n"]}
				}
				n := w.alloc(st)
				w.set(st, n, w.nf+hAncN, ai.VBool{B: true})
				st.Ghost["n"] = ai.VPtr{O: n}
				if !x.binary {
					return []ai.Val{st.Ghost["n"]}
				}
				k := st.Choose(5)
				st.Ghost["case"] = ai.VStr{S: fmt.Sprint(k)}
				switch k {
				case 0:
				case 1:
					st.Ghost["m"] = ai.VPtr{O: n}
					w.set(st, n, w.nf+hAncM, ai.VBool{B: true})
				default:
					m := w.alloc(st)
					st.Ghost["m"] = ai.VPtr{O: m}
					w.set(st, m, w.nf+hAncM, ai.VBool{B: true})
					w.set(st, m, w.nf+hAncN, ai.VBool{B: k == 3})
					w.set(st, n, w.nf+hAncM, ai.VBool{B: k == 4})
					if k == 3 {
						st.Assume(ai.LTc(w.num(st, n, hDepth), w.num(st, m, hDepth)))
					}
					if k == 4 {
						st.Assume(ai.LTc(w.num(st, m, hDepth), w.num(st, n, hDepth)))
					}
				}
				return []ai.Val{st.Ghost["n"], st.Ghost["m"]}
			},
			Post: func(st *ai.State, p *Post) {
				flagged(st, p, "tree")
				n, m := st.N(st.Ghost["n"]), st.N(st.Ghost["m"])
				want := x.want(w, st, n, m)
				r := rets(st)[0]
				if b, ok := want.(ai.VBool); ok {
					if b.B {
						p.True(r, "%s is false although the links define the relation", x.fn)
					} else {
						p.True(ai.Not(r), "%s is true although the links do not define the relation", x.fn)
					}
					return
				}
				p.Same(r, want, "%s: not what the links define", x.fn)
			}})
	}
}
