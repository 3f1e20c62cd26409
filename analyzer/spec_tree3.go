package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// ---- breadth first, by a queue ----
//
// The nodes of the tree are numbered level by level from the left: 0 to N-1. The children of node i are
// numbered from cs(i), where cs(0) = 1 and cs(i+1) = cs(i) + (children of i); cs(i) > i for i < N, cs(N) = N.
// Nodes must be expanded in the order of their numbers: F is the first node not yet expanded, C = cs(F), and
// the last one expanded has bl left and br right children. Lists of nodes are stretches of this numbering.

func (w *treeW) bfsAxiom(st *ai.State) {
	F, C := gi(st, "F"), gi(st, "C")
	st.Assume(ai.GE(C, F))
	st.Assume(ai.LE(C, rs(st, "N")))
	if st.Decide(ai.EQ(C, F)) {
		st.Assume(ai.EQ(F, rs(st, "N")))
	} else {
		st.Assume(ai.GE(C, F.AddC(1)))
	}
}

func (w *treeW) place(st *ai.State, k ai.Lin) ai.ObjID {
	for _, o := range w.nodes(st) {
		if w.eq(st, w.num(st, o, xPos), k) {
			return o
		}
	}
	x := w.alloc(st)
	st.Assume(ai.EQ(w.num(st, x, xPos), k))
	return x
}

func (w *treeW) bfsKids(st *ai.State, o ai.ObjID) {
	k := w.num(st, o, xPos)
	bit := func() int64 { return int64(st.Choose(2)) }
	if w.eq(st, k, gi(st, "F")) {
		if !st.Decide(ai.LTc(k, rs(st, "N"))) {
			ai.Infeasible()
		}
		l, r := bit(), bit()
		gset(st, "bl", ai.K(l))
		gset(st, "br", ai.K(r))
		gset(st, "F", k.AddC(1))
		gset(st, "C", gi(st, "C").AddC(l+r))
		w.bfsAxiom(st)
	} else if !w.eq(st, k, gi(st, "F").AddC(-1)) {
		ai.Undecided("nodes are expanded in another order than level by level")
	}
	at := st.NL(gi(st, "C").Sub(gi(st, "bl")).Sub(gi(st, "br")))
	for _, x := range []struct {
		f int
		g string
	}{{w.fL, "bl"}, {w.fR, "br"}} {
		if st.Decide(ai.EQ(gi(st, x.g), ai.K(0))) {
			w.put(st, o, x.f, ai.VNil{})
			continue
		}
		c := w.place(st, at)
		w.put(st, c, w.fP, ai.VPtr{O: o})
		w.put(st, o, x.f, ai.VPtr{O: c})
		at = at.AddC(1)
	}
}

func (w *treeW) asPlaces(st *ai.State, base string, ps []ai.Piece) []ai.Piece {
	var out []ai.Piece
	for _, p := range ps {
		if x, ok := p.V.(ai.VPtr); ok && w.isNode(st, x.O) && w.eq(st, p.Len, ai.K(1)) {
			p = ai.Piece{Len: p.Len, E: &ai.Elem{Base: base, Off: w.num(st, x.O, xPos), Dir: 1}}
		}
		out = append(out, p)
	}
	out = st.NormPieces(out)
	if len(out) > 2 {
		ai.Undecided("a list of nodes is not made of a few stretches of the level order")
	}
	return out
}

func (c *Ctx) bfsQueue() {
	w := &treeW{acyclic: true, readonly: true, down: true, extra: xCnt + 1 - hN}
	w.kids = w.bfsKids
	w.fresh = func(st *ai.State, o ai.ObjID) {
		k := w.num(st, o, xPos)
		st.Assume(ai.GE(k, ai.K(0)))
		st.Assume(ai.LTc(k, st.E.NamedSym("N")))
	}
	c.Run(Scenario{Name: "any tree, by a queue", Pkg: treePkg, Fn: "Node.TraversalBFS",
		Hooks: func(e *ai.Engine) {
			w.hooks(e)
			e.LoopNorm = func(st *ai.State) {
				w.lists(st, func(role string, v ai.VSlice) ai.VSlice {
					t := st.Heap[v.O].Typ
					return w.newSlice(st, t, w.asPlaces(st, "bfs", st.Pieces(v.O, v.Off, v.Off.Add(v.Len))))
				})
				w.cutLinks(st)
			}
			e.ElemRead = func(st *ai.State, base string, i ai.Lin, t types.Type) (ai.Val, bool) {
				if base != "bfs" {
					return nil, false
				}
				return ai.VPtr{O: w.place(st, i)}, true
			}
			e.Override = func(cl *ai.Call) (ai.Val, bool) {
				if inTree(cl.St, cl.Fn) && onStack(cl.St, cl.Fn) {
					ai.Undecided("recursion")
				}
				return nil, false
			}
		},
		Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
			w.setup(fn)
			st.Assume(ai.GE(st.E.NamedSym("N"), ai.K(1)))
			n := w.alloc(st)
			st.Ghost["n"] = ai.VPtr{O: n}
			st.Assume(ai.EQ(w.num(st, n, xPos), ai.K(0)))
			gset(st, "F", ai.K(0))
			gset(st, "C", ai.K(1))
			gset(st, "bl", ai.K(0))
			gset(st, "br", ai.K(0))
			return []ai.Val{st.Ghost["n"]}
		},
		Post: func(st *ai.State, p *Post) {
			if flagged(st, p, "tree") {
				return
			}
			w.bfsAxiom(st)
			ps, m := st.SlicePieces(rets(st)[0], p.fn.Signature.Results().At(0).Type())
			ps = w.asPlaces(st, "bfs", ps)
			if !p.True(ai.EQ(m, rs(st, "N")), "breadth-first traversal: not every node is listed exactly once") {
				return
			}
			p.Ok(len(ps) == 1 && ps[0].E != nil && ps[0].E.Base == "bfs" && (ps[0].E.Dir == 1 || w.eq(st, m, ai.K(1))) && w.eq(st, ps[0].E.Off, ai.K(0)),
				"breadth-first traversal: the nodes are not listed level by level from the left (%s)", ai.PiecesKey(ps))
		}})
}
