package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	register("C34", "construction is interpreted with the nodes made so far abstracted, at every loop head, to a count of nodes made and a count of nodes linked level by level (node k has the nodes 2k+1 and 2k+2 below it, in that order, and value k of the slice); nodes touched since are compared with that pattern before they are folded into it; at the end every value must be linked exactly once", runC34)
}

// buildW: nodes are numbered by the value they hold. Nodes 0..made-1 exist, 0..linked-1 hang in the tree in
// level order, the others have no links.
type buildW struct {
	treeW
}

func (w *buildW) numLink(st *ai.State, o ai.ObjID, k ai.Lin, f int) {
	w.put(st, o, f, ai.VPtr{O: w.find(st, k)})
}

// find gives the node with a number; it may be one at hand under another name.
func (w *buildW) find(st *ai.State, k ai.Lin) ai.ObjID {
	for _, o := range w.nodes(st) {
		if st.Decide(ai.EQ(w.num(st, o, xPos), k)) {
			return o
		}
	}
	x := w.alloc(st)
	st.Assume(ai.EQ(w.num(st, x, xPos), k))
	w.set(st, x, w.fV, ai.At("val", k, w.node.Underlying().(*types.Struct).Field(w.fV).Type()))
	w.keep(st, x)
	return x
}

func (w *buildW) bkids(st *ai.State, o ai.ObjID) {
	k := w.num(st, o, xPos)
	for i, f := range []int{w.fL, w.fR} {
		if !isLazy(w.get(st, o, w.hid(f))) {
			continue
		}
		c := k.Add(k).AddC(int64(i) + 1)
		if st.Decide(ai.LTc(c, gi(st, "linked"))) {
			w.numLink(st, o, c, f)
		} else {
			w.put(st, o, f, ai.VNil{})
		}
	}
}

func (w *buildW) bup(st *ai.State, o ai.ObjID) {
	k := w.num(st, o, xPos)
	if st.Decide(ai.EQ(k, ai.K(0))) || !st.Decide(ai.LTc(k, gi(st, "linked"))) {
		w.put(st, o, w.fP, ai.VNil{})
		return
	}
	p := st.E.FreshSym()
	st.Assume(ai.GE(p, ai.K(0)))
	st.Assume(ai.EQ(k, p.Add(p).AddC(int64(st.Choose(2))+1)))
	w.numLink(st, o, p, w.fP)
}

func atIndex(st *ai.State, v ai.VTerm, base string) (ai.Lin, bool) {
	if v.T.Op != "at" || len(v.T.A) != 2 {
		return ai.Lin{}, false
	}
	b, ok := v.T.A[0].(ai.VStr)
	i, ok2 := v.T.A[1].(ai.VInt)
	if !ok || !ok2 || b.S != base {
		return ai.Lin{}, false
	}
	return st.NL(i.L), true
}

// isNew: a node made since the last fold.
func (w *buildW) isNew(st *ai.State, o ai.ObjID) bool {
	b := st.Heap[o]
	if b == nil || b.Tag == "node" {
		return false
	}
	s, ok := b.V.(ai.VStruct)
	if !ok || len(s.F) != w.nf {
		return false
	}
	return w.isNodePtr(types.NewPointer(b.Typ))
}

func (w *buildW) number(st *ai.State, o ai.ObjID) (ai.Lin, bool) {
	if w.isNode(st, o) {
		return w.num(st, o, xPos), true
	}
	if !w.isNew(st, o) {
		return ai.Lin{}, false
	}
	t, ok := w.get(st, o, w.fV).(ai.VTerm)
	if !ok {
		return ai.Lin{}, false
	}
	return atIndex(st, t, "val")
}

// fold checks every node touched against the pattern and advances the counts.
func (w *buildW) fold(st *ai.State) {
	bad := func(msg string) { ai.Undecided("%s", msg) }
	var objs, fresh []ai.ObjID
	num := map[ai.ObjID]ai.Lin{}
	for _, o := range st.HeapIDs() {
		if !w.isNode(st, o) && !w.isNew(st, o) {
			continue
		}
		k, ok := w.number(st, o)
		if !ok {
			bad("a node holds a value that is not in the slice")
			return
		}
		num[o] = k
		objs = append(objs, o)
		if w.isNew(st, o) {
			fresh = append(fresh, o)
		}
	}
	made, linked := gi(st, "made"), gi(st, "linked")
	for range fresh {
		hit := false
		for _, o := range fresh {
			if w.eq(st, num[o], made) {
				hit = true
			}
		}
		if !hit {
			bad("the values are not placed one after the other, each once")
			return
		}
		made = st.NL(made.AddC(1))
	}
	if w.eq(st, linked, ai.K(0)) && len(fresh) > 0 {
		linked = ai.K(1) // the root
	}
	half := st.Ghost["half"].(ai.VBool).B
	for again := true; again; {
		again = false
		for _, o := range objs {
			if _, ok := w.get(st, o, w.fP).(ai.VPtr); ok && w.eq(st, num[o], linked) {
				linked = st.NL(linked.AddC(1))
				again = true
				n, ok := num[w.get(st, o, w.fP).(ai.VPtr).O]
				half = ok && w.eq(st, num[o], n.Add(n).AddC(1)) // keep the two cases apart at loop heads
			}
		}
	}
	for _, o := range objs {
		k := num[o]
		if v, ok := w.get(st, o, w.fV).(ai.VTerm); !ok {
			bad("a node holds a value that is not in the slice")
		} else if i, ok := atIndex(st, v, "val"); !ok || !w.eq(st, i, k) {
			bad("a node does not keep its value")
		}
		link := func(f int, what string, ok func(n ai.Lin) bool, none ai.Val) {
			v := w.get(st, o, f)
			if isLazy(v) {
				return
			}
			switch x := v.(type) {
			case ai.VPtr:
				if n, known := num[x.O]; !known || !ok(n) {
					bad("the " + what + " of a node is not the one its place in level order calls for")
				}
			case ai.VNil:
				if b, ok := st.Known(none); !ok || !b {
					bad("a node lacks the " + what + " its place in level order calls for")
				}
			default:
				bad("the " + what + " of a node is unknown")
			}
		}
		two := k.Add(k)
		link(w.fL, "left child", func(n ai.Lin) bool { return w.eq(st, n, two.AddC(1)) }, ai.GE(two.AddC(1), linked))
		link(w.fR, "right child", func(n ai.Lin) bool { return w.eq(st, n, two.AddC(2)) }, ai.GE(two.AddC(2), linked))
		none := ai.Val(ai.GE(k, linked))
		if w.eq(st, k, ai.K(0)) {
			none = ai.VBool{B: true}
		}
		link(w.fP, "parent", func(n ai.Lin) bool {
			return w.eq(st, k, n.Add(n).AddC(1)) || w.eq(st, k, n.Add(n).AddC(2))
		}, none)
		// a node that hangs in the tree now must be the child of its parent
		if x, ok := w.get(st, o, w.fP).(ai.VPtr); ok {
			if b, ok := st.Known(ai.LTc(k, gi(st, "linked"))); !ok || !b {
				l, r := w.get(st, x.O, w.fL), w.get(st, x.O, w.fR)
				me := ai.VPtr{O: o}
				if !ai.Same(l, me) && !ai.Same(r, me) {
					bad("a node is not a child of its parent")
				}
			}
		}
	}
	gset(st, "made", made)
	gset(st, "linked", linked)
	all, _ := st.Known(ai.GE(linked, rs(st, "N")))
	st.Ghost["all"] = ai.VBool{B: all}
	st.Ghost["half"] = ai.VBool{B: half}
	for _, o := range objs {
		if w.isNew(st, o) {
			f := append([]ai.Val(nil), st.Heap[o].V.(ai.VStruct).F...)
			for i := w.nf; i < w.nf+hN+w.extra; i++ {
				f = append(f, ai.VInt{L: ai.K(0)})
			}
			f[w.nf+hAncN], f[w.nf+hAncM] = ai.VBool{}, ai.VBool{}
			f[w.nf+xPos] = ai.VInt{L: num[o]}
			b := *st.Heap[o]
			b.V, b.Tag = ai.VStruct{F: f}, "node"
			st.Heap[o] = &b
		}
	}
	w.cutLinks(st)
	st.Ghost["keep"] = ai.VTuple{}
}

func runC34(c *Ctx) {
	w := &buildW{treeW{down: true, extra: xCnt + 1 - hN}}
	w.kids, w.up = w.bkids, w.bup
	w.fresh = func(st *ai.State, o ai.ObjID) {
		k := w.num(st, o, xPos)
		st.Assume(ai.GE(k, ai.K(0)))
		st.Assume(ai.LTc(k, gi(st, "made")))
	}
	c.Run(Scenario{Name: "any slice", Pkg: treePkg, Fn: "BuildTree",
		Hooks: func(e *ai.Engine) {
			w.hooks(e)
			e.LoopNorm = func(st *ai.State) {
				w.fold(st)
				w.lists(st, func(role string, v ai.VSlice) ai.VSlice {
					t := st.Heap[v.O].Typ
					return w.newSlice(st, t, w.asPlaces(st, "new", st.Pieces(v.O, v.Off, v.Off.Add(v.Len))))
				})
			}
			e.ElemRead = func(st *ai.State, base string, i ai.Lin, t types.Type) (ai.Val, bool) {
				if base != "new" {
					return nil, false
				}
				return ai.VPtr{O: w.find(st, i)}, true
			}
			e.Override = func(cl *ai.Call) (ai.Val, bool) {
				if inTree(cl.St, cl.Fn) && onStack(cl.St, cl.Fn) {
					ai.Undecided("recursion")
				}
				return nil, false
			}
		},
		Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
			w.setup(fn)
			v := mkSlice(st, "val", fn.Params[0].Type(), true)
			st.Assume(ai.EQ(st.E.NamedSym("N"), st.E.NamedSym("len(val)")))
			gset(st, "made", ai.K(0))
			gset(st, "linked", ai.K(0))
			st.Ghost["all"], st.Ghost["half"] = ai.VBool{}, ai.VBool{}
			st.Ghost["keep"] = ai.VTuple{}
			return []ai.Val{v}
		},
		Post: func(st *ai.State, p *Post) {
			r := rets(st)[0]
			if st.Decide(ai.EQ(rs(st, "N"), ai.K(0))) {
				p.Same(r, ai.VNil{}, "no values: the tree is not empty")
				return
			}
			w.fold(st)
			if flagged(st, p, "tree") {
				return
			}
			p.True(ai.EQ(gi(st, "linked"), rs(st, "N")), "not every value has its place in the tree")
			x, ok := r.(ai.VPtr)
			if !p.Ok(ok && w.isNode(st, x.O), "no root is returned") {
				return
			}
			p.True(ai.EQ(w.num(st, x.O, xPos), ai.K(0)), "the node returned is not the root")
		}})
}
