package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	register("C09", "every heap operation is interpreted against an abstract container of arbitrary size and order; the abstract state is the heap-order relation with at most one exceptional position (which edges around it hold), joined at loop heads; the order must hold everywhere on return, the element tracked from its position must be the one returned, and the concrete min and max heaps must implement the container's contract", runC09)
	register("C10", "the priority-queue operations are interpreted through the heap code with the same abstraction, and the containers the constructors install must order by priority, exchange, append and drop items exactly", runC10)
}

// heapAbs: the abstract container. Positions are linear expressions held in ghost variables.
//
//	len   number of elements
//	n     prefix about which the order is known (n<=len)
//	l     edges whose parent is >= l are known
//	p     the exceptional position (when hasP): its edges are known only as flagged
//	t     position of the tracked element (when hasT)
//	u     the edge parent(p)-p holds (or does not exist, or its parent is < l)
//	d1,d2 the edges p-2p+1, p-2p+2 hold (or do not exist)
//	s     p was compared with its parent and found less
//	g     parent(p) is not greater than the children of p (or there is no such pair)
type heapAbs struct {
	st *ai.State
}

func (h heapAbs) i(k string) ai.Lin { return h.st.NL(h.st.Ghost["h."+k].(ai.VInt).L) }
func (h heapAbs) si(k string, v ai.Lin) {
	h.st.Ghost["h."+k] = ai.VInt{L: h.st.NL(v)}
}
func (h heapAbs) b(k string) bool     { return h.st.Ghost["h."+k].(ai.VBool).B }
func (h heapAbs) sb(k string, v bool) { h.st.Ghost["h."+k] = ai.VBool{B: v} }

type lessFact struct {
	x, y ai.Lin
	b    bool
}

func (h heapAbs) facts() []lessFact {
	var out []lessFact
	for _, f := range h.st.Ghost["h.facts"].(ai.VTuple).F {
		t := f.(ai.VTuple).F
		out = append(out, lessFact{h.st.NL(t[0].(ai.VInt).L), h.st.NL(t[1].(ai.VInt).L), t[2].(ai.VBool).B})
	}
	return out
}

func (h heapAbs) setFacts(fs []lessFact) {
	var vs []ai.Val
	for _, f := range fs {
		vs = append(vs, ai.VTuple{F: []ai.Val{ai.VInt{L: f.x}, ai.VInt{L: f.y}, ai.VBool{B: f.b}}})
	}
	h.st.Ghost["h.facts"] = ai.VTuple{F: vs}
}

func (h heapAbs) is(c ai.Val) bool { b, ok := h.st.Known(c); return ok && b }
func (h heapAbs) eq(a, b ai.Lin) bool {
	return h.is(ai.EQ(h.st.NL(a), h.st.NL(b)))
}
func (h heapAbs) ne(a, b ai.Lin) bool {
	x, ok := h.st.Known(ai.EQ(h.st.NL(a), h.st.NL(b)))
	return ok && !x
}

func (h heapAbs) setup(n ai.Lin) {
	h.si("len", n)
	h.si("n", n)
	h.si("l", ai.K(0))
	h.si("p", ai.K(0))
	h.si("t", ai.K(0))
	for _, k := range []string{"hasP", "hasT", "l0", "s", "u", "d1", "d2", "g", "broken"} {
		h.sb(k, false)
	}
	h.si("pushes", ai.K(0))
	h.si("pops", ai.K(0))
	h.setFacts(nil)
}

func (h heapAbs) bad(f string, a ...interface{}) {
	flagBad(h.st, "heap", fmt.Sprintf(f, a...))
}

// isChild: y is the k-th child (1 or 2) of x.
func (h heapAbs) isChild(x, y ai.Lin, k int64) bool { return h.eq(y, x.Mul(2).AddC(k)) }

// isParent: x is the parent of y.
func (h heapAbs) isParent(x, y ai.Lin) bool {
	return h.is(ai.GE(h.st.NL(y), h.st.NL(x.Mul(2).AddC(1)))) && h.is(ai.LE(h.st.NL(y), h.st.NL(x.Mul(2).AddC(2))))
}

// leq proves A[x] <= A[y] from the edges, the flags and the comparisons, over the given positions.
func (h heapAbs) leq(x, y ai.Lin, pos []ai.Lin) bool {
	pos = append(append([]ai.Lin(nil), pos...), x, y)
	fs := h.facts()
	for _, f := range fs {
		pos = append(pos, f.x, f.y)
	}
	hasP := h.b("hasP")
	var P ai.Lin
	if hasP {
		P = h.i("p")
		pos = append(pos, P)
	}
	var s []ai.Lin
next:
	for _, a := range pos {
		for _, b := range s {
			if h.eq(a, b) {
				continue next
			}
		}
		s = append(s, a)
	}
	N, L := h.i("n"), h.i("l")
	base := func(a, b ai.Lin) bool {
		for _, f := range fs {
			if f.b && h.eq(f.x, a) && h.eq(f.y, b) || !f.b && h.eq(f.y, a) && h.eq(f.x, b) {
				return true
			}
		}
		if !h.is(ai.LTc(b, N)) || !h.is(ai.GE(a, L)) {
			return false
		}
		if h.isParent(a, b) {
			if !hasP || h.ne(a, P) && h.ne(b, P) || h.eq(b, P) && h.b("u") {
				return true
			}
			if h.eq(a, P) && (h.b("d1") && h.b("d2") || h.b("d1") && h.isChild(a, b, 1) || h.b("d2") && h.isChild(a, b, 2)) {
				return true
			}
		}
		if hasP && h.b("g") && h.isParent(P, b) && h.isParent(a, P) {
			return true
		}
		return false
	}
	base = func(base func(a, b ai.Lin) bool) func(a, b ai.Lin) bool {
		return func(a, b ai.Lin) bool {
			return hasP && h.b("s") && h.eq(a, P) && h.isParent(b, a) || base(a, b)
		}
	}(base)
	seen := make([]bool, len(s))
	var todo []int
	for i := range s {
		if h.eq(s[i], x) {
			seen[i] = true
			todo = append(todo, i)
		}
	}
	for len(todo) > 0 {
		i := todo[0]
		todo = todo[1:]
		if h.eq(s[i], y) {
			return true
		}
		for j := range s {
			if !seen[j] && base(s[i], s[j]) {
				seen[j] = true
				todo = append(todo, j)
			}
		}
	}
	return false
}

// parent gives parent(x) if the edge above x is one the relation is about.
func (h heapAbs) parent(x ai.Lin, known []ai.Lin) (ai.Lin, bool) {
	st := h.st
	if !st.Decide(ai.GE(x, h.i("l").Mul(2).AddC(1))) {
		return ai.Lin{}, false
	}
	x = st.NL(x)
	for _, k := range known {
		if h.isParent(k, x) {
			return st.NL(k), true
		}
	}
	q := st.E.FreshSym()
	if st.Choose(2) == 0 {
		st.Assume(ai.EQ(x, q.Mul(2).AddC(1)))
	} else {
		st.Assume(ai.EQ(x, q.Mul(2).AddC(2)))
	}
	return st.NL(q), true
}

// around lists x with its neighbours; which of them exist is decided.
func (h heapAbs) around(x ai.Lin, known []ai.Lin) (up []ai.Lin, d [2][]ai.Lin) {
	st := h.st
	for k := int64(1); k <= 2; k++ {
		c := st.NL(x.Mul(2).AddC(k))
		if st.Decide(ai.LTc(c, h.i("n"))) {
			d[k-1] = []ai.Lin{c}
		}
	}
	if st.Decide(ai.LTc(x, h.i("n"))) {
		if q, ok := h.parent(x, known); ok {
			up = []ai.Lin{q}
		}
	}
	return
}

// fold re-derives the flags of the exceptional position from the comparisons made; no exception if all edges hold.
func (h heapAbs) fold(split bool) {
	st := h.st
	if !h.b("hasP") {
		return
	}
	P := h.i("p")
	N, L := h.i("n"), h.i("l")
	known := []ai.Lin{}
	for _, f := range h.facts() {
		known = append(known, f.x, f.y)
	}
	var pos []ai.Lin
	u := h.b("u") || h.is(ai.LTc(P, L.Mul(2).AddC(1))) || h.is(ai.GE(P, N))
	if !u {
		for _, k := range known {
			if h.isParent(k, P) && h.leq(k, P, pos) {
				u = true
			}
		}
	}
	var d [2]bool
	for k := int64(1); k <= 2; k++ {
		c := st.NL(P.Mul(2).AddC(k))
		d[k-1] = h.b(fmt.Sprintf("d%d", k)) || h.is(ai.GE(c, N)) || h.leq(P, c, []ai.Lin{P.Mul(2).AddC(1), P.Mul(2).AddC(2)})
	}
	g := h.b("g") || h.is(ai.LTc(P, L.Mul(2).AddC(1))) || h.is(ai.GE(P.Mul(2).AddC(1), N))
	for _, f := range h.facts() {
		if f.b && h.eq(f.x, P) && h.isParent(f.y, P) {
			h.sb("s", true)
		}
	}
	h.sb("u", u)
	h.sb("d1", d[0])
	h.sb("d2", d[1])
	h.sb("g", g || u && d[0] && d[1])
	if u && d[0] && d[1] {
		h.drop()
	}
}

// drop: no exceptional position any more.
func (h heapAbs) drop() {
	h.sb("hasP", false)
	h.si("p", ai.K(0))
	for _, k := range []string{"s", "u", "d1", "d2", "g"} {
		h.sb(k, false)
	}
}

func (h heapAbs) inRange(x ai.Lin) {
	if !h.is(ai.GE(x, ai.K(0))) || !h.is(ai.LTc(x, h.i("len"))) {
		h.bad("the container is accessed at a position not known to be in range")
	}
}

// touch: an element just above the ordered part becomes the exceptional position (heap construction).
func (h heapAbs) touch(x ai.Lin) {
	if h.b("hasP") || !h.is(ai.LTc(x, h.i("l"))) || !h.is(ai.LTc(x.Mul(2).AddC(1), h.i("n"))) {
		return
	}
	if !h.eq(x, h.i("l").AddC(-1)) && !h.is(ai.GE(x.Mul(2).AddC(3), h.i("n"))) {
		return
	}
	h.sb("l0", false)
	h.si("l", x)
	h.sb("hasP", true)
	h.si("p", x)
	h.sb("s", false)
	h.sb("u", true)
	h.sb("g", true)
	h.sb("d1", false)
	h.sb("d2", false)
}

func (h heapAbs) less(x, y ai.Lin) ai.Val {
	h.inRange(x)
	h.inRange(y)
	h.touch(x)
	h.touch(y)
	if h.eq(x, y) || h.leq(y, x, nil) {
		return ai.VBool{B: false}
	}
	if h.b("hasP") && h.b("s") && h.eq(x, h.i("p")) && h.isParent(y, x) {
		return ai.VBool{B: true}
	}
	b := h.st.Choose(2) == 0
	h.setFacts(append(h.facts(), lessFact{x, y, b}))
	if h.leq(x, y, nil) && h.leq(y, x, nil) && b {
		ai.Infeasible()
	}
	return ai.VBool{B: b}
}

func (h heapAbs) swap(p, q ai.Lin) {
	st := h.st
	h.inRange(p)
	h.inRange(q)
	if st.Decide(ai.EQ(p, q)) {
		return
	}
	p, q = st.NL(p), st.NL(q)
	if h.b("hasT") {
		if st.Decide(ai.EQ(h.i("t"), p)) {
			h.si("t", q)
		} else if st.Decide(ai.EQ(h.i("t"), q)) {
			h.si("t", p)
		}
	}
	if h.b("broken") {
		return
	}
	h.touch(p)
	h.touch(q)
	last := h.i("n").AddC(-1)
	if !h.b("hasP") && (h.eq(p, last) || h.eq(q, last)) {
		h.si("n", last)
	}
	if h.b("hasP") {
		if !st.Decide(ai.EQ(h.i("p"), p)) {
			st.Decide(ai.EQ(h.i("p"), q))
		}
	}
	for _, pq := range [][2]ai.Lin{{p, q}, {q, p}} {
		if st.Decide(ai.EQ(pq[1], pq[0].Mul(2).AddC(1))) || st.Decide(ai.EQ(pq[1], pq[0].Mul(2).AddC(2))) {
			break
		}
	}
	p, q = st.NL(p), st.NL(q)
	var known []ai.Lin
	known = append(known, p, q)
	if h.b("hasP") {
		known = append(known, h.i("p"))
	}
	for _, f := range h.facts() {
		known = append(known, f.x, f.y)
	}
	upP, dP := h.around(p, known)
	known = append(known, upP...)
	upQ, dQ := h.around(q, known)
	known = append(known, upQ...)
	p, q = st.NL(p), st.NL(q)
	// neighbours of the two positions and of the exceptional one
	pos := []ai.Lin{p, q}
	for _, s := range [][]ai.Lin{upP, dP[0], dP[1], upQ, dQ[0], dQ[1]} {
		pos = append(pos, s...)
	}
	for i := range pos {
		pos[i] = st.NL(pos[i])
	}
	sigma := func(x ai.Lin) (ai.Lin, bool) {
		switch {
		case h.eq(x, p):
			return q, true
		case h.eq(x, q):
			return p, true
		case h.ne(x, p) && h.ne(x, q):
			return x, true
		}
		return x, false
	}
	holds := func(a, b ai.Lin) bool { // A'[a] <= A'[b] after the exchange
		x, ok1 := sigma(a)
		y, ok2 := sigma(b)
		return ok1 && ok2 && h.leq(x, y, pos)
	}
	L := h.i("l")
	type edge struct {
		a, b ai.Lin
		ok   bool
	}
	var es []edge
	addE := func(a, b ai.Lin) {
		if !st.Decide(ai.GE(a, L)) {
			return
		}
		es = append(es, edge{a, b, holds(a, b)})
	}
	for _, s := range []struct {
		x  ai.Lin
		up []ai.Lin
		d  [2][]ai.Lin
	}{{p, upP, dP}, {q, upQ, dQ}} {
		for _, a := range s.up {
			addE(st.NL(a), s.x)
		}
		for _, ds := range s.d {
			for _, b := range ds {
				addE(s.x, st.NL(b))
			}
		}
	}
	var cands []ai.Lin
	oldOutside := h.b("hasP") && h.ne(h.i("p"), p) && h.ne(h.i("p"), q)
	var open []edge
	for _, e := range es {
		if !e.ok {
			open = append(open, e)
		}
	}
	switch {
	case oldOutside:
		cands = []ai.Lin{h.i("p")}
	case len(open) == 0:
		h.drop()
		h.setFacts(nil)
		return
	default:
		cands = []ai.Lin{p, q}
	}
	for _, X := range cands {
		ok := true
		for _, e := range open {
			if !h.eq(e.a, X) && !h.eq(e.b, X) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		up, d := h.around(X, append(append([]ai.Lin(nil), known...), pos...))
		X = st.NL(X)
		u, g := true, true
		var ds [2]bool
		ds[0], ds[1] = true, true
		for _, a := range up {
			a = st.NL(a)
			if st.Decide(ai.GE(a, L)) {
				u = holds(a, X)
				for k := range d {
					for _, b := range d[k] {
						g = g && holds(a, st.NL(b))
					}
				}
			}
		}
		for k := range d {
			for _, b := range d[k] {
				if st.Decide(ai.GE(X, L)) {
					ds[k] = holds(X, st.NL(b))
				}
			}
		}
		h.sb("hasP", true)
		h.si("p", X)
		h.sb("s", false)
		h.sb("u", u)
		h.sb("g", g)
		h.sb("d1", ds[0])
		h.sb("d2", ds[1])
		if u && ds[0] && ds[1] {
			h.drop()
		}
		h.setFacts(nil)
		return
	}
	h.drop()
	h.setFacts(nil)
	h.sb("broken", true)
	st.Tracef("the order is broken at more than one position by the exchange at %s", st.Pos())
}

func (h heapAbs) push() {
	h.fold(true)
	n := h.i("len")
	h.si("pushes", h.i("pushes").AddC(1))
	h.si("len", n.AddC(1))
	h.setFacts(nil)
	if h.b("broken") {
		return
	}
	if h.b("hasP") || !h.eq(h.i("n"), n) {
		h.sb("broken", true)
		return
	}
	h.si("n", n.AddC(1))
	h.sb("hasP", true)
	h.si("p", n)
	h.sb("s", false)
	h.sb("u", false)
	h.sb("d1", true)
	h.sb("d2", true)
	h.sb("g", true)
	if !h.st.Decide(ai.GE(n, ai.K(1))) {
		h.drop()
	}
}

// pop reports whether the removed element is the tracked one.
func (h heapAbs) pop() bool {
	st := h.st
	n := h.i("len")
	if !h.is(ai.GE(n, ai.K(1))) {
		h.bad("an element is taken from a container not known to be non-empty")
	}
	h.si("pops", h.i("pops").AddC(1))
	h.setFactsAfterPop()
	h.si("len", n.AddC(-1))
	if st.Decide(ai.GE(h.i("n"), n)) {
		h.si("n", n.AddC(-1))
	}
	if h.b("hasP") && st.Decide(ai.GE(h.i("p"), h.i("n"))) {
		h.drop()
	}
	hit := h.b("hasT") && h.eq(h.i("t"), n.AddC(-1))
	return hit
}

func (h heapAbs) setFactsAfterPop() {
	h.fold(true)
	h.setFacts(nil)
}

func heapIface(st *ai.State, cb *ai.Callback, onPush func(ai.Val), onPop func(hit bool) ai.Val) ai.Val {
	m, ok := cb.F.(ai.VMethod)
	if !ok {
		ai.Undecided("call of an unknown function %s", ai.Key(cb.F))
	}
	if t, ok := m.Recv.(ai.VTerm); !ok || t.T.Op != "h" {
		ai.Undecided("method of an unknown container %s", ai.Key(m.Recv))
	}
	h := heapAbs{st}
	arg := func(k int) ai.Lin { return st.NL(cb.Args[k].(ai.VInt).L) }
	switch m.M.Name() {
	case "Len":
		return ai.VInt{L: h.i("len")}
	case "Less":
		return h.less(arg(1), arg(2))
	case "Swap":
		h.swap(arg(1), arg(2))
		return ai.VTuple{}
	case "Push":
		onPush(cb.Args[1])
		h.push()
		return ai.VTuple{}
	case "Pop":
		return onPop(h.pop())
	}
	ai.Undecided("method %s of the container", m.M.Name())
	return nil
}

// ordered: the order holds at every position.
func (h heapAbs) ordered(p *Post, what string) {
	h.fold(true)
	flagged(h.st, p, "heap")
	ok := !h.b("broken") && !h.b("hasP")
	p.Ok(ok, "%s: some element may be less than its parent on return", what)
	if ok {
		if h.st.Decide(ai.GE(h.i("n"), ai.K(2))) { // otherwise there is no edge
			p.True(ai.EQ(h.i("l"), ai.K(0)), "%s: the order is not established up to the root", what)
		}
		p.True(ai.GE(h.i("n"), h.i("len")), "%s: the order is not established up to the last element", what)
	}
}

func (h heapAbs) counts(p *Post, pushes, pops int64) {
	p.True(ai.EQ(h.i("pushes"), ai.K(pushes)), "the container's Push is called %d times", pushes)
	p.True(ai.EQ(h.i("pops"), ai.K(pops)), "the container's Pop is called %d times", pops)
}

func heapHooks(c *Ctx, elemT func(*ssa.Function) types.Type) func(e *ai.Engine) {
	return func(e *ai.Engine) {
		e.EntryHeads = true
		e.OnCallback = func(cb *ai.Callback) ai.Val {
			st := cb.St
			return heapIface(st, cb, func(x ai.Val) {
				if !ai.Same(st.N(x), st.N(st.Ghost["x"])) {
					flagBad(st, "heap", "a value other than the one given is added to the container")
				}
			}, func(hit bool) ai.Val {
				if hit {
					return st.Ghost["x"]
				}
				return st.E.FreshTerm(st.Ghost["x"].(ai.VTerm).T.Typ)
			})
		}
		e.LoopNorm = heapNorm
	}
}

func heapNorm(st *ai.State) {
	if _, ok := st.Ghost["h.len"]; !ok {
		return
	}
	h := heapAbs{st}
	h.fold(false)
	h.setFacts(nil)
	// states entering a loop and states coming round are kept apart
	here := fmt.Sprintf("%d.%d", len(st.Frames), st.Top().Block.Index)
	if v, ok := st.Ghost["h.cur"]; ok {
		st.Ghost["h.prev"] = v
	}
	st.Ghost["h.cur"] = ai.VStr{S: here}
}

const heapPkg = "heap"

func runC09(c *Ctx) {
	type op struct {
		fn           string
		pushes, pops int64
		init         func(st *ai.State, h heapAbs, n ai.Lin) []ai.Val
	}
	idx := func(st *ai.State, n ai.Lin) ai.Lin {
		i := st.E.NamedSym("i")
		st.Assume(ai.GE(i, ai.K(0)))
		st.Assume(ai.LTc(i, n))
		return i
	}
	ops := []op{
		{"Init", 0, 0, func(st *ai.State, h heapAbs, n ai.Lin) []ai.Val {
			h.si("l", n)
			h.sb("l0", true)
			return nil
		}},
		{"Push", 1, 0, func(st *ai.State, h heapAbs, n ai.Lin) []ai.Val { return []ai.Val{st.Ghost["x"]} }},
		{"Pop", 0, 1, func(st *ai.State, h heapAbs, n ai.Lin) []ai.Val {
			st.Assume(ai.GE(n, ai.K(1)))
			h.sb("hasT", true)
			return nil
		}},
		{"Remove", 0, 1, func(st *ai.State, h heapAbs, n ai.Lin) []ai.Val {
			i := idx(st, n)
			h.sb("hasT", true)
			h.si("t", i)
			return []ai.Val{ai.VInt{L: i}}
		}},
		{"Fix", 0, 0, func(st *ai.State, h heapAbs, n ai.Lin) []ai.Val {
			i := idx(st, n)
			h.sb("hasP", true)
			h.si("p", i)
			h.sb("g", true)
			return []ai.Val{ai.VInt{L: i}}
		}},
	}
	for _, o := range ops {
		o := o
		c.Run(Scenario{Name: "heap", Pkg: heapPkg, Fn: o.fn, Hooks: heapHooks(c, nil),
			Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
				h := heapAbs{st}
				n := st.E.NamedSym("size")
				st.Assume(ai.GE(n, ai.K(0)))
				h.setup(n)
				hv := ai.Named("h", fn.Params[0].Type())
				st.Assume(ai.Not(st.CmpEq(hv, ai.VNil{})))
				st.Ghost["x"] = ai.Named("x", ai.TypeParamOf(fn, 0))
				args := o.init(st, h, n)
				return append([]ai.Val{hv}, args...)
			},
			Post: func(st *ai.State, p *Post) {
				h := heapAbs{st}
				h.ordered(p, o.fn)
				h.counts(p, o.pushes, o.pops)
				if o.pops > 0 {
					what := "the element that was at the index"
					if o.fn == "Pop" {
						what = "the root"
					}
					p.Same(rets(st)[0], st.Ghost["x"], "%s returns another element than %s", o.fn, what)
				}
			}})
	}
	for _, d := range []string{"Min", "Max"} {
		min := d == "Min"
		containerContract(c, heapPkg, d, func(st *ai.State, a, b ai.Val) ai.Val {
			if min {
				return ai.Less("T", a, b)
			}
			return ai.Less("T", b, a)
		})
	}
}

// sliceSlot finds the one slice held by a container object.
func sliceSlot(st *ai.State, p ai.Val, t types.Type) (ai.Val, types.Type) {
	t = st.E.Resolve(t, st.Top().TA)
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return p, t
	case *types.Pointer:
		return sliceSlot(st, st.N(st.Load(p, t)), u.Elem())
	case *types.Struct:
		var rp ai.Val
		var rt types.Type
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			switch x := ft.Underlying().(type) {
			case *types.Slice, *types.Struct:
			case *types.Pointer:
				if _, ok := x.Elem().Underlying().(*types.Slice); !ok {
					if _, ok := x.Elem().Underlying().(*types.Struct); !ok {
						continue
					}
				}
			default:
				continue
			}
			q, qt := sliceSlot(st, st.FieldPtr(p, i, ft), ft)
			if q != nil {
				if rp != nil {
					ai.Undecided("several slices in container %s", t)
				}
				rp, rt = q, qt
			}
		}
		return rp, rt
	}
	return nil, nil
}

// containerContract: the container behind d orders by the given relation, and Swap, Push, Pop, Len act on the sequence as they must.
func containerContract(c *Ctx, pkg, d string, less func(st *ai.State, a, b ai.Val) ai.Val) {
	hooks := func(e *ai.Engine) {
		e.EntryHeads = true
		e.Override = func(cl *ai.Call) (ai.Val, bool) {
			if cl.Fn.Name() != "verifFill" {
				return nil, false
			}
			st := cl.St
			v := st.N(cl.Args[0])
			if p, ok := v.(ai.VPtr); ok { // a queue: its container
				t := deref(st.E.Resolve(cl.Fn.Params[0].Type(), st.Top().TA))
				f := roleField(t, "heap", func(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok })
				ft := t.Underlying().(*types.Struct).Field(f).Type()
				v = st.N(st.Load(st.FieldPtr(p, f, ft), ft))
			}
			x, ok := v.(ai.VIface)
			if !ok {
				ai.Undecided("the container is not known (%s)", ai.Key(v))
			}
			pt, ok := x.T.Underlying().(*types.Pointer)
			if !ok {
				ai.Undecided("the container is not a pointer")
			}
			slot, t := sliceSlot(st, st.N(x.V), pt.Elem())
			if slot == nil {
				ai.Undecided("no slice in container %s", x.T)
			}
			st.Store(slot, mkSlice(st, "a", t, true), t)
			st.Ghost["slot"] = slot
			st.Ghost["slot:"+t.String()] = ai.VBool{B: true}
			slotT = t
			st.Assume(ai.GE(seqLen(st, "a"), st.Ghost["min"].(ai.VInt).L))
			if et := t.Underlying().(*types.Slice).Elem(); isPtrT(et) { // items in the container exist
				for _, k := range []string{"i", "j"} {
					st.Assume(ai.Not(st.CmpEq(st.N(ai.At("a", rs(st, k), et)), ai.VNil{})))
				}
			}
			return v, true
		}
	}
	elem := func() types.Type { return slotT.Underlying().(*types.Slice).Elem() }
	pos := func(st *ai.State, k string) ai.Lin {
		x := st.E.NamedSym(k)
		st.Assume(ai.GE(x, ai.K(0)))
		st.Assume(ai.LTc(x, st.E.NamedSym("len(a)")))
		return x
	}
	now := func(st *ai.State) ai.Val { return st.N(st.Load(st.N(st.Ghost["slot"]), slotT)) }
	n := func(st *ai.State) ai.Lin { return seqLen(st, "a") }
	run := func(m, what string, min int64, init func(st *ai.State, fn *ssa.Function) []ai.Val, post func(st *ai.State, p *Post)) {
		c.Run(Scenario{Name: what, Pkg: pkg, Fn: "verif" + d + m,
			Hooks: func(e *ai.Engine) {
				hooks(e)
				e.Wrap = m == "Less" // differences of priorities may overflow
			},
			Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
				st.Ghost["min"] = ai.VInt{L: ai.K(min)}
				return init(st, fn)
			}, Post: post})
	}
	none := func(st *ai.State, fn *ssa.Function) []ai.Val { return nil }
	two := func(st *ai.State, fn *ssa.Function) []ai.Val {
		return []ai.Val{ai.VInt{L: pos(st, "i")}, ai.VInt{L: pos(st, "j")}}
	}
	all := func(st *ai.State, p *Post, what string) {
		sameSeq(st, p, now(st), []ai.Piece{sub("a", ai.K(0), n(st))}, slotT, "same", "%s changes the container", what)
	}
	run("Len", "number of elements", 0, none, func(st *ai.State, p *Post) {
		p.Same(rets(st)[0], ai.VInt{L: n(st)}, "Len is not the number of elements")
		all(st, p, "Len")
	})
	run("Less", "order", 1, two, func(st *ai.State, p *Post) {
		i, j := rs(st, "i"), rs(st, "j")
		a, b := st.N(ai.At("a", i, elem())), st.N(ai.At("a", j, elem()))
		r := rets(st)[0]
		if st.Decide(less(st, a, b)) {
			p.True(r, "%s container: Less is false for an element that comes first", d)
		} else if st.Decide(less(st, b, a)) {
			p.True(ai.Not(st.N(r)), "%s container: Less is true for an element that comes later", d)
		}
		all(st, p, "Less")
	})
	run("Swap", "exchange", 1, two, func(st *ai.State, p *Post) {
		i, j := rs(st, "i"), rs(st, "j")
		var want []ai.Piece
		switch {
		case st.Decide(ai.EQ(i, j)):
			want = []ai.Piece{sub("a", ai.K(0), n(st))}
		default:
			lo, hi := i, j
			if !st.Decide(ai.LTc(i, j)) {
				lo, hi = j, i
			}
			want = []ai.Piece{sub("a", ai.K(0), lo), one(ai.At("a", hi, elem())), sub("a", lo.AddC(1), hi), one(ai.At("a", lo, elem())), sub("a", hi.AddC(1), n(st))}
		}
		sameSeq(st, p, now(st), want, slotT, "swap", "Swap")
	})
	run("Push", "append", 0, func(st *ai.State, fn *ssa.Function) []ai.Val {
		x := ai.Named("x", fn.Params[0].Type())
		st.Ghost["x"] = x
		return []ai.Val{x}
	}, func(st *ai.State, p *Post) {
		sameSeq(st, p, now(st), []ai.Piece{sub("a", ai.K(0), n(st)), one(st.N(st.Ghost["x"]))}, slotT, "push", "Push")
	})
	run("Pop", "drop last", 1, none, func(st *ai.State, p *Post) {
		last := n(st).AddC(-1)
		p.Same(rets(st)[0], st.N(ai.At("a", last, elem())), "Pop does not return the last element")
		sameSeq(st, p, now(st), []ai.Piece{sub("a", ai.K(0), last)}, slotT, "pop", "Pop")
	})
}

func isPtrT(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

var slotT types.Type // type of the slice in the container analysed

const pqPkg = "pqueue"

func runC10(c *Ctx) {
	prioOf := func(st *ai.State, x ai.Val, it types.Type) ai.Val {
		f := roleField(it, "priority", isBasicT(types.Int))
		ft := it.Underlying().(*types.Struct).Field(f).Type()
		return st.N(st.Load(st.FieldPtr(x, f, ft), ft))
	}
	valOf := func(st *ai.State, x ai.Val, it types.Type) ai.Val {
		f := roleField(it, "value", func(t types.Type) bool { _, ok := types.Unalias(t).(*types.TypeParam); return ok })
		ft := it.Underlying().(*types.Struct).Field(f).Type()
		return st.N(st.Load(st.FieldPtr(x, f, ft), ft))
	}
	for _, d := range []string{"Min", "Max"} {
		min := d == "Min"
		containerContract(c, pqPkg, d, func(st *ai.State, a, b ai.Val) ai.Val {
			it := deref(slotT.Underlying().(*types.Slice).Elem())
			x, y := prioOf(st, a, it).(ai.VInt).L, prioOf(st, b, it).(ai.VInt).L
			if min {
				return ai.LTc(x, y)
			}
			return ai.LTc(y, x)
		})
		c.Run(Scenario{Name: "new queue is empty", Pkg: pqPkg, Fn: "verifNew" + d,
			Init: func(st *ai.State, fn *ssa.Function) []ai.Val { return nil },
			Post: func(st *ai.State, p *Post) {
				p.Same(rets(st)[0], ai.VInt{L: ai.K(0)}, "a new queue is not empty")
			}})
	}
	mk := func(st *ai.State, fn *ssa.Function) ai.Val {
		t := deref(fn.Params[0].Type())
		s := t.Underlying().(*types.Struct)
		f := roleField(t, "heap", func(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok })
		fs := make([]ai.Val, s.NumFields())
		for i := range fs {
			fs[i] = st.Opaque(ai.Named("q."+s.Field(i).Name(), s.Field(i).Type()), s.Field(i).Type())
		}
		hv := ai.Named("h", s.Field(f).Type())
		st.Assume(ai.Not(st.CmpEq(hv, ai.VNil{})))
		fs[f] = hv
		m, _ := types.NewMethodSet(s.Field(f).Type()).Lookup(nil, "Pop").Obj().(*types.Func)
		if m == nil {
			ai.Undecided("the container has no Pop")
		}
		item := m.Type().(*types.Signature).Results().At(0).Type()
		pqItem = item
		x := ai.Named("x", item)
		st.Assume(ai.Not(st.CmpEq(x, ai.VNil{})))
		st.Ghost["x"] = x
		h := heapAbs{st}
		n := st.E.NamedSym("size")
		st.Assume(ai.GE(n, ai.K(0)))
		h.setup(n)
		return ai.VPtr{O: st.AllocObj(&ai.Obj{Typ: t, V: ai.VStruct{F: fs}, Name: "q"})}
	}
	hooks := func(e *ai.Engine) {
		e.EntryHeads = true
		e.OnCallback = func(cb *ai.Callback) ai.Val {
			st := cb.St
			return heapIface(st, cb, func(x ai.Val) {
				it := deref(pqItem)
				if p, ok := st.N(x).(ai.VPtr); !ok || st.Heap[p.O] == nil || !st.Heap[p.O].New {
					flagBad(st, "heap", "the item added may be in the queue already (it is not newly made)")
				}
				if !ai.Same(prioOf(st, st.N(x), it), st.N(st.Ghost["prio"])) {
					flagBad(st, "heap", "the item added does not carry the given priority")
				}
				if !ai.Same(valOf(st, st.N(x), it), st.N(st.Ghost["val"])) {
					flagBad(st, "heap", "the item added does not carry the given value")
				}
			}, func(hit bool) ai.Val {
				if hit {
					return st.Ghost["x"]
				}
				y := st.E.FreshTerm(pqItem)
				st.Assume(ai.Not(st.CmpEq(y, ai.VNil{})))
				return y
			})
		}
		e.LoopNorm = heapNorm
	}
	c.Run(Scenario{Name: "queue", Pkg: pqPkg, Fn: "PQueue.Len", Hooks: hooks,
		Init: func(st *ai.State, fn *ssa.Function) []ai.Val { return []ai.Val{mk(st, fn)} },
		Post: func(st *ai.State, p *Post) {
			h := heapAbs{st}
			h.ordered(p, "Len")
			h.counts(p, 0, 0)
			p.Same(rets(st)[0], ai.VInt{L: rs(st, "size")}, "Len is not the number of items")
		}})
	c.Run(Scenario{Name: "queue", Pkg: pqPkg, Fn: "PQueue.Push", Hooks: hooks,
		Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
			q := mk(st, fn)
			st.Ghost["prio"] = ai.VInt{L: st.E.NamedSym("prio")}
			st.Ghost["val"] = ai.Named("val", fn.Params[2].Type())
			return []ai.Val{q, st.Ghost["prio"], st.Ghost["val"]}
		},
		Post: func(st *ai.State, p *Post) {
			h := heapAbs{st}
			h.ordered(p, "Push")
			h.counts(p, 1, 0)
		}})
	c.Run(Scenario{Name: "queue", Pkg: pqPkg, Fn: "PQueue.Pop", Hooks: hooks,
		Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
			q := mk(st, fn)
			h := heapAbs{st}
			st.Assume(ai.GE(h.i("len"), ai.K(1)))
			h.sb("hasT", true)
			it := deref(pqItem)
			st.Ghost["prio"] = prioOf(st, st.N(st.Ghost["x"]), it)
			st.Ghost["val"] = valOf(st, st.N(st.Ghost["x"]), it)
			return []ai.Val{q}
		},
		Post: func(st *ai.State, p *Post) {
			h := heapAbs{st}
			h.ordered(p, "Pop")
			h.counts(p, 0, 1)
			r := rets(st)
			p.Same(r[0], st.N(st.Ghost["prio"]), "Pop does not return the priority of the first item")
			p.Same(r[1], st.N(st.Ghost["val"]), "Pop does not return the value pushed with that priority")
		}})
}

var pqItem types.Type // type of the items in the queue's container
