package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	register("C08", "both traversals are interpreted on a lazily materialised tree whose nodes carry their place in the prescribed order (pre-order position and subtree size; place of the subtree in an arbitrary tracked level); the work list is abstracted to a contiguous run of places at every loop head, recursive calls use an induction hypothesis that is itself checked; the result must be the prescribed sequence", runC08)
}

// attributes used by the traversals
const (
	xPos  = hN + iota // place in pre-order
	xSize             // nodes in the subtree
	xDep              // level, counted from the start node
	xLo               // place, in the tracked level, of the first node below
	xCnt              // nodes below (or the node itself) in the tracked level
)

func (w *treeW) isNodeSlice(st *ai.State, t types.Type) bool {
	s, ok := st.E.Resolve(t, st.Top().TA).Underlying().(*types.Slice)
	if !ok {
		return false
	}
	p, ok := s.Elem().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	m, _ := types.Unalias(w.node).(*types.Named)
	return ok && m != nil && n.Obj() == m.Obj()
}

func (w *treeW) eq(st *ai.State, a, b ai.Lin) bool {
	x, ok := st.Known(ai.EQ(st.NL(a), st.NL(b)))
	return ok && x
}

func gi(st *ai.State, k string) ai.Lin      { return st.NL(st.Ghost[k].(ai.VInt).L) }
func gset(st *ai.State, k string, l ai.Lin) { st.Ghost[k] = ai.VInt{L: st.NL(l)} }

// asPre turns nodes in a sequence into their places in pre-order.
func (w *treeW) asPre(st *ai.State, ps []ai.Piece) []ai.Piece {
	var out []ai.Piece
	for _, p := range ps {
		if x, ok := p.V.(ai.VPtr); ok && w.isNode(st, x.O) && w.eq(st, p.Len, ai.K(1)) {
			p = ai.Piece{Len: p.Len, E: &ai.Elem{Base: "pre", Off: w.num(st, x.O, xPos), Dir: 1}}
		}
		out = append(out, p)
	}
	return st.NormPieces(out)
}

// cutLinks forgets every link; attributes stay.
func (w *treeW) cutLinks(st *ai.State) {
	for _, o := range w.nodes(st) {
		for _, f := range []int{w.fP, w.fL, w.fR} {
			w.set(st, o, f, lazy)
			w.set(st, o, w.hid(f), lazy)
		}
	}
}

// lists visits the node slices held by the current function.
func (w *treeW) lists(st *ai.State, f func(key string, v ai.VSlice) ai.VSlice) {
	fr := st.Top()
	var rs []ssa.Value
	for r := range fr.Regs {
		if w.isNodeSlice(st, r.Type()) {
			rs = append(rs, r)
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].Name() < rs[j].Name() })
	done := map[ai.ObjID]ai.VSlice{}
	was := map[ai.ObjID]ai.VSlice{}
	for _, r := range rs {
		v, ok := st.N(fr.Regs[r]).(ai.VSlice)
		key := "role:" + fr.Fn.Name() + ":" + r.Name()
		if !ok {
			if _, seen := st.Ghost[key]; !seen {
				st.Ghost[key] = ai.VStr{S: w.role(r, "R")}
			}
			continue
		}
		if d, seen := done[v.O]; seen {
			if ai.Key(was[v.O]) != ai.Key(v) {
				ai.Undecided("two lists share one array")
			}
			fr.Regs[r] = d
			continue
		}
		if _, seen := st.Ghost[key]; !seen {
			role := "W"
			if w.eq(st, v.Len, ai.K(0)) {
				role = "R"
			}
			st.Ghost[key] = ai.VStr{S: w.role(r, role)}
		}
		n := f(st.Ghost[key].(ai.VStr).S, v)
		done[v.O], was[v.O] = n, v
		fr.Regs[r] = n
	}
}

// role: a list whose elements are read is a work list; one that only grows is the result.
func (w *treeW) role(r ssa.Value, dflt string) string {
	if w.dynRoles {
		return dflt
	}
	seen := map[ssa.Value]bool{}
	q := []ssa.Value{r}
	for len(q) > 0 {
		v := q[0]
		q = q[1:]
		if seen[v] || v.Referrers() == nil {
			continue
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Phi:
				q = append(q, x)
			case *ssa.Slice:
				q = append(q, x)
			case *ssa.IndexAddr:
				if x.X == v {
					return "W"
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "append" && x.Call.Args[0] == v {
						q = append(q, x)
					}
				} else {
					return "W"
				}
			}
		}
	}
	return "R"
}

// newSlice is a slice with the given content and an unknown amount of spare capacity.
func (w *treeW) newSlice(st *ai.State, t types.Type, ps []ai.Piece) ai.VSlice {
	n := ai.K(0)
	for _, p := range ps {
		n = n.Add(p.Len)
	}
	sp := st.E.FreshSym()
	st.Assume(ai.GE(sp, ai.K(0)))
	o := st.AllocObj(&ai.Obj{Typ: t, New: true, Arr: &ai.ArrObj{P: append(append([]ai.Piece(nil), ps...), ai.Piece{Len: sp, Tag: "spare"})}})
	return ai.VSlice{O: o, Off: ai.K(0), Len: n, Cap: n.Add(sp)}
}

func sliceTotal(ps []ai.Piece) ai.Lin {
	n := ai.K(0)
	for _, p := range ps {
		n = n.Add(p.Len)
	}
	return n
}

// dfsNorm: the work list is a run of disjoint subtrees that covers the places run.A to run.B, top first;
// the result is a stretch of the pre-order.
func (w *treeW) dfsNorm(st *ai.State) {
	w.lists(st, func(role string, v ai.VSlice) ai.VSlice {
		t := st.Heap[v.O].Typ
		ps := st.Pieces(v.O, v.Off, v.Off.Add(v.Len))
		if role == "R" {
			ps = w.asPre(st, ps)
			if len(ps) > 1 {
				flagBad(st, "tree", "the nodes are not listed in pre-order")
				ps = []ai.Piece{{Len: sliceTotal(ps), Tag: "junk"}}
			}
			return w.newSlice(st, t, ps)
		}
		bad := func(msg string) { flagBad(st, "tree", msg) }
		_, started := st.Ghost["run.B"]
		var cur ai.Lin
		have := started
		if started {
			if w.eq(st, gi(st, "run.n"), ai.K(0)) { // an empty run covers nothing
				st.Assume(ai.EQ(gi(st, "run.A"), gi(st, "run.B")))
			}
			cur = gi(st, "run.B")
		}
		for i, p := range ps {
			x, isNode := p.V.(ai.VPtr)
			switch {
			case p.Tag == "run" && i == 0:
				cur = gi(st, "run.A") // also if it is empty
			case isNode && w.isNode(st, x.O) && w.eq(st, p.Len, ai.K(1)):
				end := w.num(st, x.O, xPos).Add(w.num(st, x.O, xSize))
				if !have {
					gset(st, "run.B", end)
					have = true
				} else if !w.eq(st, end, cur) {
					bad("the work list does not hold the remaining subtrees in order")
				}
				cur = w.num(st, x.O, xPos)
			default:
				bad("the work list holds something else than nodes still to be visited")
			}
		}
		if !have { // nothing yet
			return w.newSlice(st, t, nil)
		}
		n := sliceTotal(ps)
		gset(st, "run.A", cur)
		gset(st, "run.n", n)
		if !w.eq(st, cur, gi(st, "run.B")) {
			if b, ok := st.Known(ai.EQ(n, ai.K(0))); ok && b {
				bad("the work list is empty before every node was visited")
			}
		}
		return w.newSlice(st, t, []ai.Piece{{Len: n, Tag: "run"}})
	})
	w.cutLinks(st)
}

func (w *treeW) dfsPop(st *ai.State, o ai.ObjID, piece int, i ai.Lin, t types.Type) (ai.Val, bool) {
	ps := st.Heap[o].Arr.P
	if ps[piece].Tag != "run" {
		return nil, false
	}
	runs := 0
	for _, id := range st.HeapIDs() {
		if a := st.Heap[id].Arr; a != nil {
			for _, p := range a.P {
				if p.Tag == "run" {
					runs++
				}
			}
		}
	}
	if runs != 1 {
		ai.Undecided("several work lists")
	}
	end := sliceTotal(ps[:piece+1])
	if !w.eq(st, i, end.AddC(-1)) {
		ai.Undecided("a node is taken from the middle of the work list")
	}
	n := ps[piece].Len
	x := w.alloc(st)
	st.Assume(ai.EQ(w.num(st, x, xPos), gi(st, "run.A")))
	next := w.num(st, x, xPos).Add(w.num(st, x, xSize))
	if st.Decide(ai.EQ(n, ai.K(1))) {
		st.Assume(ai.EQ(next, gi(st, "run.B")))
	} else {
		st.Assume(ai.LTc(next, gi(st, "run.B")))
	}
	gset(st, "run.A", w.num(st, x, xPos).Add(w.num(st, x, xSize)))
	gset(st, "run.n", n.AddC(-1))
	st.ArrSet(o, i, ai.VPtr{O: x})
	return ai.VPtr{O: x}, true
}

// preorder relates a node's place and size to its children's.
func (w *treeW) preorder(st *ai.State, o ai.ObjID) {
	pos := w.num(st, o, xPos).AddC(1)
	size := ai.K(1)
	for _, f := range []int{w.fL, w.fR} {
		if p, ok := w.get(st, o, w.hid(f)).(ai.VPtr); ok {
			st.Assume(ai.EQ(w.num(st, p.O, xPos), st.NL(pos)))
			pos = pos.Add(w.num(st, p.O, xSize))
			size = size.Add(w.num(st, p.O, xSize))
		}
	}
	st.Assume(ai.EQ(w.num(st, o, xSize), st.NL(size)))
}

func onStack(st *ai.State, fn *ssa.Function) bool {
	for _, f := range st.Frames {
		if f.Fn == fn || f.Fn.Origin() == fn {
			return true
		}
	}
	return false
}

func inTree(st *ai.State, fn *ssa.Function) bool {
	return fn.Pkg != nil && fn.Pkg.Pkg.Path() == st.E.Module+"/"+treePkg
}

func runC08(c *Ctx) {
	done := map[*ssa.Function]bool{}
	todo := []*ssa.Function{c.E.Fn(treePkg, "Node.TraversalDFS")}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if done[f] {
			continue
		}
		done[f] = true
		todo = append(todo, c.dfs(f)...)
	}
	c.Either(c.bfsQueue, c.bfsRows)
}

// fnName gives the name a scenario uses for a function.
func fnName(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		if n, ok := types.Unalias(deref(r.Type())).(*types.Named); ok {
			return n.Obj().Name() + "." + fn.Name()
		}
	}
	return fn.Name()
}

// nodeArgs sorts the parameters of a helper: the node, the list it extends (or -1), and whether there is anything else.
func (w *treeW) nodeArgs(st *ai.State, fn *ssa.Function) (node, list int, ok bool) {
	node, list, ok = -1, -1, true
	for i, p := range fn.Params {
		t := p.Type()
		switch {
		case w.isNodePtr(t) && node < 0:
			node = i
		case isSliceT(t) && w.isNodePtr(t.Underlying().(*types.Slice).Elem()) && list < 0:
			list = i
		default:
			ok = false
		}
	}
	res := fn.Signature.Results()
	ok = ok && node >= 0 && res.Len() == 1 && isSliceT(res.At(0).Type())
	return
}

func (w *treeW) isNodePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	m, _ := types.Unalias(w.node).(*types.Named)
	return ok && m != nil && n.Obj() == m.Obj()
}

// dfs checks that fn lists a subtree in pre-order (after the list it is given, if any). Functions that call
// themselves are assumed to do so for smaller subtrees; those met are returned, to be checked in turn.
func (c *Ctx) dfs(fn *ssa.Function) (more []*ssa.Function) {
	w := &treeW{acyclic: true, readonly: true, down: true, extra: xCnt + 1 - hN}
	w.down2 = w.preorder
	w.fresh = func(st *ai.State, o ai.ObjID) {
		st.Assume(ai.GE(w.num(st, o, xSize), ai.K(1)))
		st.Assume(ai.GE(w.num(st, o, xPos), ai.K(0)))
	}
	name := "Node.TraversalDFS"
	if fn != nil {
		name = fnName(fn)
	}
	list := -1
	c.Run(Scenario{Name: "any tree", Pkg: treePkg, Fn: name,
		Hooks: func(e *ai.Engine) {
			w.hooks(e)
			e.LoopNorm = w.dfsNorm
			e.UnknownElem = w.dfsPop
			e.Override = func(cl *ai.Call) (ai.Val, bool) {
				st := cl.St
				if !inTree(st, cl.Fn) || !onStack(st, cl.Fn) {
					return nil, false
				}
				ni, li, ok := w.nodeArgs(st, cl.Fn)
				if !ok {
					return nil, false
				}
				x, ok := st.N(cl.Args[ni]).(ai.VPtr)
				if !ok || !w.isNode(st, x.O) {
					return nil, false
				}
				more = append(more, cl.Fn)
				if b, ok := st.Known(ai.LTc(w.num(st, x.O, xSize), rs(st, "N"))); !ok || !b {
					ai.Undecided("recursive call on a subtree that is not smaller")
				}
				t := st.E.Resolve(cl.Fn.Signature.Results().At(0).Type(), st.Top().TA)
				var ps []ai.Piece
				if li >= 0 {
					ps, _ = st.SlicePieces(cl.Args[li], t)
				}
				ps = append(append([]ai.Piece(nil), ps...), ai.Piece{Len: w.num(st, x.O, xSize), E: &ai.Elem{Base: "pre", Off: w.num(st, x.O, xPos), Dir: 1}})
				return w.newSlice(st, t, w.asPre(st, ps)), true
			}
		},
		Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
			w.setup(c.E.Fn(treePkg, "Node.TraversalDFS"))
			n := w.alloc(st)
			st.Ghost["n"] = ai.VPtr{O: n}
			st.Assume(ai.EQ(w.num(st, n, xPos), ai.K(0)))
			N := st.E.NamedSym("N")
			st.Assume(ai.EQ(w.num(st, n, xSize), N))
			ni, li, ok := w.nodeArgs(st, fn)
			if !ok {
				ai.Undecided("%s calls itself with arguments the rule does not know", fn.Name())
			}
			args := make([]ai.Val, len(fn.Params))
			args[ni] = st.Ghost["n"]
			if list = li; li >= 0 {
				args[li] = mkSlice(st, "given", fn.Params[li].Type(), true)
			}
			return args
		},
		Post: func(st *ai.State, p *Post) {
			if flagged(st, p, "tree") {
				return
			}
			if g, ok := st.Ghost["run.n"]; ok && w.eq(st, g.(ai.VInt).L, ai.K(0)) {
				st.Assume(ai.EQ(gi(st, "run.A"), gi(st, "run.B")))
			}
			t := p.fn.Signature.Results().At(0).Type()
			ps, _ := st.SlicePieces(rets(st)[0], t)
			got := w.newSlice(st, t, w.asPre(st, ps))
			var want []ai.Piece
			if list >= 0 {
				want = append(want, sub("given", ai.K(0), seqLen(st, "given")))
			}
			want = append(want, ai.Piece{Len: rs(st, "N"), E: &ai.Elem{Base: "pre", Off: ai.K(0), Dir: 1}})
			sameSeq(st, p, got, want, t, "dfs", "depth-first traversal")
		}})
	return more
}

// ---- breadth first, by rows ----

// level relates a node to the tracked level.
func (w *treeW) level(st *ai.State, o ai.ObjID) {
	D := rs(st, "D")
	dep := w.num(st, o, xDep)
	cnt := func(c ai.Val) { st.Assume(c) }
	switch {
	case st.Decide(ai.LTc(D, dep)):
		cnt(ai.EQ(w.num(st, o, xCnt), ai.K(0)))
	case st.Decide(ai.LTc(dep, D)):
		if st.Decide(ai.LTc(dep.Add(w.num(st, o, hHeight)), D)) {
			cnt(ai.EQ(w.num(st, o, xCnt), ai.K(0)))
		} else {
			cnt(ai.GE(w.num(st, o, xCnt), ai.K(1)))
		}
	default:
		st.Assume(ai.EQ(dep, D))
		cnt(ai.EQ(w.num(st, o, xCnt), ai.K(1)))
	}
}

func (w *treeW) rows(st *ai.State, o ai.ObjID) {
	w.heights(st, o)
	lo := w.num(st, o, xLo)
	sum := ai.K(0)
	if st.Decide(ai.EQ(w.num(st, o, xDep), rs(st, "D"))) {
		lo = lo.AddC(1)
	}
	for _, f := range []int{w.fL, w.fR} {
		if p, ok := w.get(st, o, w.hid(f)).(ai.VPtr); ok {
			st.Assume(ai.EQ(w.num(st, p.O, xDep), w.num(st, o, xDep).AddC(1)))
			st.Assume(ai.EQ(w.num(st, p.O, xLo), st.NL(lo)))
			w.level(st, p.O)
			lo = lo.Add(w.num(st, p.O, xCnt))
			sum = sum.Add(w.num(st, p.O, xCnt))
		}
	}
	if st.Decide(ai.LTc(w.num(st, o, xDep), rs(st, "D"))) {
		st.Assume(ai.EQ(w.num(st, o, xCnt), st.NL(sum)))
	}
}

// asRow turns nodes of the tracked level into their places in it.
func (w *treeW) asRow(st *ai.State, ps []ai.Piece) []ai.Piece {
	var out []ai.Piece
	for _, p := range ps {
		if x, ok := p.V.(ai.VPtr); ok && w.isNode(st, x.O) && w.eq(st, p.Len, ai.K(1)) {
			if w.eq(st, w.num(st, x.O, xDep), rs(st, "D")) {
				p = ai.Piece{Len: p.Len, E: &ai.Elem{Base: "row", Off: w.num(st, x.O, xLo), Dir: 1}}
			} else if b, ok := st.Known(ai.LTc(w.num(st, x.O, xDep), rs(st, "D"))); ok && b {
				p = ai.Piece{Len: p.Len, Tag: "lt"}
			} else if b, ok := st.Known(ai.LTc(rs(st, "D"), w.num(st, x.O, xDep))); ok && b {
				p = ai.Piece{Len: p.Len, Tag: "gt"}
			}
		}
		out = append(out, p)
	}
	return st.NormPieces(out)
}

func rowPiece(n ai.Lin) ai.Piece {
	return ai.Piece{Len: n, E: &ai.Elem{Base: "row", Off: ai.K(0), Dir: 1}}
}

// isRow: the slice holds exactly the first n nodes of the tracked level.
func (w *treeW) isRow(st *ai.State, v ai.Val, t types.Type, n ai.Lin) bool {
	ps, m := st.SlicePieces(v, t)
	ps = w.asRow(st, ps)
	if !w.eq(st, m, n) {
		return false
	}
	if len(ps) == 0 {
		return true
	}
	if len(ps) != 1 || ps[0].E == nil || ps[0].E.Base != "row" || !w.eq(st, ps[0].E.Off, ai.K(0)) {
		return false
	}
	one, _ := st.Known(ai.LE(m, ai.K(1)))
	return ps[0].E.Dir == 1 || one
}

// levels builds the list of rows: those below the tracked one, the tracked one with its first n nodes, those above.
func (w *treeW) levels(st *ai.State, t types.Type, total, n ai.Lin) ai.Val {
	D := rs(st, "D")
	if !st.Decide(ai.LTc(D, total)) {
		return w.newSlice(st, t, []ai.Piece{{Len: st.NL(total), Tag: "lt"}})
	}
	rt := t.Underlying().(*types.Slice).Elem()
	row := w.newSlice(st, rt, []ai.Piece{rowPiece(n)})
	return w.newSlice(st, t, st.NormPieces([]ai.Piece{{Len: D, Tag: "lt"}, {Len: ai.K(1), V: row}, {Len: st.NL(total.Sub(D).AddC(-1)), Tag: "gt"}}))
}

// checkRow: the tracked row of a list of rows holds its first n nodes (none, if the list is too short).
func (w *treeW) checkRow(st *ai.State, v ai.Val, t types.Type, n ai.Lin) bool {
	D := rs(st, "D")
	ps, m := st.SlicePieces(v, t)
	if !st.Decide(ai.LTc(D, m)) {
		return w.eq(st, n, ai.K(0))
	}
	rt := t.Underlying().(*types.Slice).Elem()
	ps, _ = st.SlicePieces(v, t)
	row, ok := seqAt(st, ps, D, rt)
	if !ok {
		return false
	}
	row = st.N(row)
	if x, isS := row.(ai.VSlice); isS {
		for _, p := range ps {
			if y, ok := p.V.(ai.VSlice); ok && y.O == x.O && ai.Key(y) != ai.Key(x) {
				return false
			}
		}
	}
	return w.isRow(st, row, rt, n)
}

func (w *treeW) rowHelper(fn *ssa.Function) (node, rows, level int, ok bool) {
	node, rows, level, ok = -1, -1, -1, true
	for i, p := range fn.Params {
		t := p.Type()
		switch {
		case w.isNodePtr(t) && node < 0:
			node = i
		case w.isRows(t) && rows < 0:
			rows = i
		case isBasicT(types.Int)(t) && level < 0:
			level = i
		default:
			ok = false
		}
	}
	res := fn.Signature.Results()
	ok = ok && node >= 0 && rows >= 0 && level >= 0 && res.Len() == 1 && w.isRows(res.At(0).Type())
	return
}

func (w *treeW) isRows(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	s, ok = s.Elem().Underlying().(*types.Slice)
	return ok && w.isNodePtr(s.Elem())
}

func maxL(st *ai.State, a, b ai.Lin) ai.Lin {
	if st.Decide(ai.GE(a, b)) {
		return st.NL(a)
	}
	return st.NL(b)
}

func (w *treeW) bfsHooks(e *ai.Engine, met func(*ssa.Function)) {
	w.hooks(e)
	e.LoopNorm = func(st *ai.State) {
		w.lists(st, func(role string, v ai.VSlice) ai.VSlice {
			t := st.Heap[v.O].Typ
			return w.newSlice(st, t, w.asRow(st, st.Pieces(v.O, v.Off, v.Off.Add(v.Len))))
		})
		w.cutLinks(st)
	}
	e.UnknownElem = func(st *ai.State, o ai.ObjID, piece int, i ai.Lin, t types.Type) (ai.Val, bool) {
		p := st.Heap[o].Arr.P[piece]
		if p.Tag != "lt" && p.Tag != "gt" {
			if p.Tag == "stale" {
				ai.Undecided("rows are read that a call may have changed")
			}
			return nil, false
		}
		if !isSliceT(t) {
			x := w.alloc(st)
			if p.Tag == "lt" {
				st.Assume(ai.LTc(w.num(st, x, xDep), rs(st, "D")))
			} else {
				st.Assume(ai.LTc(rs(st, "D"), w.num(st, x, xDep)))
			}
			return ai.VPtr{O: x}, true
		}
		n := st.E.FreshSym()
		st.Assume(ai.GE(n, ai.K(0)))
		return w.newSlice(st, t, []ai.Piece{{Len: n, Tag: p.Tag}}), true
	}
	e.Override = func(cl *ai.Call) (ai.Val, bool) {
		st := cl.St
		if !inTree(st, cl.Fn) || !onStack(st, cl.Fn) {
			return nil, false
		}
		ni, ri, li, ok := w.rowHelper(cl.Fn)
		if !ok {
			return nil, false
		}
		x, ok := st.N(cl.Args[ni]).(ai.VPtr)
		if !ok || !w.isNode(st, x.O) {
			return nil, false
		}
		met(cl.Fn)
		if b, ok := st.Known(ai.LTc(w.num(st, x.O, hHeight), gi(st, "height"))); !ok || !b {
			ai.Undecided("recursive call on a subtree that is not smaller")
		}
		t := st.E.Resolve(cl.Fn.Signature.Results().At(0).Type(), st.Top().TA)
		level := st.NL(cl.Args[li].(ai.VInt).L)
		_, m := st.SlicePieces(cl.Args[ri], t)
		if !w.eq(st, level, w.num(st, x.O, xDep)) {
			flagBad(st, "tree", "a subtree is visited at another level than its own")
		}
		if b, ok := st.Known(ai.GE(m, level)); !ok || !b {
			flagBad(st, "tree", "a level may be skipped")
		}
		if !w.checkRow(st, cl.Args[ri], t, w.num(st, x.O, xLo)) {
			flagBad(st, "tree", "the nodes of a level that come before a subtree are not those listed before it")
		}
		_, m = st.SlicePieces(cl.Args[ri], t)
		if s, ok := st.N(cl.Args[ri]).(ai.VSlice); ok {
			var ps []ai.Piece
			for _, p := range st.Heap[s.O].Arr.P {
				ps = append(ps, ai.Piece{Len: p.Len, Tag: "stale"})
			}
			st.SetPieces(s.O, ps)
		}
		total := maxL(st, m, w.num(st, x.O, xDep).Add(w.num(st, x.O, hHeight)).AddC(1))
		return w.levels(st, t, total, w.num(st, x.O, xLo).Add(w.num(st, x.O, xCnt))), true
	}
}

func (c *Ctx) newRows() *treeW {
	w := &treeW{acyclic: true, readonly: true, down: true, extra: xCnt + 1 - hN}
	w.down2 = w.rows
	w.fresh = func(st *ai.State, o ai.ObjID) {
		for _, k := range []int{xDep, xLo, xCnt} {
			st.Assume(ai.GE(w.num(st, o, k), ai.K(0)))
		}
	}
	return w
}

func (w *treeW) bfsStart(st *ai.State) ai.ObjID {
	st.Assume(ai.GE(st.E.NamedSym("D"), ai.K(0)))
	n := w.alloc(st)
	st.Ghost["n"] = ai.VPtr{O: n}
	w.level(st, n)
	gset(st, "height", w.num(st, n, hHeight))
	return n
}

func (c *Ctx) bfsRows() {
	var todo []*ssa.Function
	met := func(f *ssa.Function) { todo = append(todo, f) }
	{
		w := c.newRows()
		c.Run(Scenario{Name: "any tree, any level", Pkg: treePkg, Fn: "Node.TraversalBFS",
			Hooks: func(e *ai.Engine) { w.bfsHooks(e, met) },
			Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
				w.setup(fn)
				n := w.bfsStart(st)
				st.Assume(ai.EQ(w.num(st, n, xDep), ai.K(0)))
				st.Assume(ai.EQ(w.num(st, n, xLo), ai.K(0)))
				gset(st, "nodes", w.num(st, n, xCnt))
				return []ai.Val{st.Ghost["n"]}
			},
			Post: func(st *ai.State, p *Post) {
				if flagged(st, p, "tree") {
					return
				}
				t := p.fn.Signature.Results().At(0).Type()
				n, _ := w.gobj(st, "n")
				w.level(st, n)
				ps, _ := st.SlicePieces(rets(st)[0], t)
				for _, q := range ps {
					if x, ok := q.V.(ai.VPtr); ok && w.isNode(st, x.O) {
						w.level(st, x.O)
					}
				}
				ps = w.asRow(st, ps)
				stage := 0
				got := ai.K(0)
				for _, q := range ps {
					k := 9
					switch {
					case q.Tag == "lt":
						k = 0
					case q.Tag == "gt":
						k = 2
					case q.E != nil && q.E.Base == "row" && w.eq(st, q.E.Off, ai.K(0)) && (q.E.Dir == 1 || w.eq(st, q.Len, ai.K(1))):
						k = 1
						got = got.Add(q.Len)
					}
					if !p.Ok(k != 9, "breadth-first traversal: nodes are listed that belong to no level (%s)", ai.PiecesKey([]ai.Piece{q})) {
						return
					}
					if !p.Ok(k >= stage && (k != 1 || stage < 1), "breadth-first traversal: the levels are not listed one after the other") {
						return
					}
					stage = k
				}
				p.True(ai.EQ(got, gi(st, "nodes")), "breadth-first traversal: not every node of a level is listed")
			}})
	}
	done := map[*ssa.Function]bool{}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if done[f] {
			continue
		}
		done[f] = true
		w := c.newRows()
		c.Run(Scenario{Name: "any subtree, any rows so far, any level", Pkg: treePkg, Fn: fnName(f),
			Hooks: func(e *ai.Engine) { w.bfsHooks(e, met) },
			Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
				w.setup(c.E.Fn(treePkg, "Node.TraversalBFS"))
				n := w.bfsStart(st)
				ni, ri, li, ok := w.rowHelper(fn)
				if !ok {
					ai.Undecided("%s calls itself with arguments the rule does not know", fn.Name())
				}
				args := make([]ai.Val, len(fn.Params))
				args[ni] = st.Ghost["n"]
				level := w.num(st, n, xDep)
				args[li] = ai.VInt{L: level}
				m := st.E.NamedSym("rows")
				st.Assume(ai.GE(m, level))
				if st.Choose(2) == 0 {
					st.Assume(ai.EQ(m, ai.K(0)))
					st.Assume(ai.EQ(w.num(st, n, xLo), ai.K(0)))
					args[ri] = ai.VNil{}
				} else {
					args[ri] = w.levels(st, fn.Params[ri].Type(), m, w.num(st, n, xLo))
					if !st.Decide(ai.LTc(rs(st, "D"), st.NL(m))) {
						st.Assume(ai.EQ(w.num(st, n, xLo), ai.K(0)))
					}
				}
				gset(st, "rows", m)
				return args
			},
			Post: func(st *ai.State, p *Post) {
				if flagged(st, p, "tree") {
					return
				}
				n, _ := w.gobj(st, "n")
				t := p.fn.Signature.Results().At(0).Type()
				r := rets(st)[0]
				want := maxL(st, gi(st, "rows"), w.num(st, n, xDep).Add(w.num(st, n, hHeight)).AddC(1))
				_, m := st.SlicePieces(r, t)
				if p.True(ai.EQ(m, want), "%s: wrong number of levels", p.fn.Name()) {
					p.Ok(w.checkRow(st, r, t, w.num(st, n, xLo).Add(w.num(st, n, xCnt))), "%s: the nodes of a level are not listed from left to right", p.fn.Name())
				}
			}})
	}
}
