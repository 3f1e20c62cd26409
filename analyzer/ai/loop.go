package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- liveness ----

type fnInfo struct {
	liveIn map[*ssa.BasicBlock]map[ssa.Value]bool // after phis
	heads  map[*ssa.BasicBlock]bool
	order  map[ssa.Value]int
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	fi := &fnInfo{liveIn: map[*ssa.BasicBlock]map[ssa.Value]bool{}, heads: map[*ssa.BasicBlock]bool{}, order: map[ssa.Value]int{}}
	n := 0
	reg := func(v ssa.Value) {
		if _, ok := fi.order[v]; !ok {
			fi.order[v] = n
			n++
		}
	}
	for _, p := range fn.Params {
		reg(p)
	}
	for _, p := range fn.FreeVars {
		reg(p)
	}
	for _, b := range fn.Blocks {
		fi.liveIn[b] = map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg(v)
			}
			if isTailCall(in) {
				fi.heads[fn.Blocks[0]] = true
			}
		}
		for _, s := range b.Succs {
			if s.Dominates(b) && !shortLoop(s) {
				fi.heads[s] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := fi.liveAt(b, 0)
			if len(live) != len(fi.liveIn[b]) {
				fi.liveIn[b] = live
				changed = true
			}
		}
	}
	e.infos[fn] = fi
	return fi
}

// shortLoop: a loop over an array literal of a few elements is unrolled.
func shortLoop(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := i.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS {
		return false
	}
	inc, ok := c.X.(*ssa.BinOp)
	if !ok || inc.Op != token.ADD || inc.Block() != b {
		return false
	}
	phi, ok := inc.X.(*ssa.Phi)
	if !ok || phi.Block() != b {
		return false
	}
	for _, e := range phi.Edges {
		if _, k := e.(*ssa.Const); !k && e != ssa.Value(inc) {
			return false
		}
	}
	n := int64(-1)
	switch y := c.Y.(type) {
	case *ssa.Const:
		n = y.Int64()
	case *ssa.Call:
		if f, ok := y.Call.Value.(*ssa.Builtin); ok && f.Name() == "len" {
			if sl, ok := y.Call.Args[0].(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
				if a, ok := sl.X.(*ssa.Alloc); ok {
					if at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
						n = at.Len()
					}
				}
			}
		}
	}
	return n >= 0 && n <= 4
}

// liveAt: values live before instruction pc of b (phi results of b are live if used later).
func (fi *fnInfo) liveAt(b *ssa.BasicBlock, pc int) map[ssa.Value]bool {
	live := map[ssa.Value]bool{}
	add := func(v ssa.Value) {
		if _, ok := fi.order[v]; ok {
			live[v] = true
		}
	}
	for _, s := range b.Succs {
		for v := range fi.liveIn[s] {
			live[v] = true
		}
		pi := -1
		for i, p := range s.Preds {
			if p == b {
				pi = i
			}
		}
		for _, in := range s.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				if _, dbg := in.(*ssa.DebugRef); dbg {
					continue
				}
				break
			}
			delete(live, p)
		}
		for _, in := range s.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				if _, dbg := in.(*ssa.DebugRef); dbg {
					continue
				}
				break
			}
			add(p.Edges[pi])
		}
	}
	if b.Parent().Recover != nil {
		// the recover block may run from anywhere
		for v := range fi.liveIn[b.Parent().Recover] {
			live[v] = true
		}
	}
	for i := len(b.Instrs) - 1; i >= pc; i-- {
		in := b.Instrs[i]
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if _, ok := in.(*ssa.DebugRef); ok {
			continue
		}
		if v, ok := in.(ssa.Value); ok {
			delete(live, v)
		}
		var ops [12]*ssa.Value
		for _, o := range in.Operands(ops[:0]) {
			if *o != nil {
				add(*o)
			}
		}
	}
	return live
}

func (st *State) pruneRegs() {
	for i, f := range st.Frames {
		fi := st.E.info(f.Fn)
		pc := f.PC
		live := fi.liveAt(f.Block, pc)
		if i < len(st.Frames)-1 {
			// suspended at a call: the result is not yet there; operands of the call are dead unless used later
			above := st.Frames[i+1]
			if !above.Deferred {
				live = fi.liveAt(f.Block, pc+1)
				if above.Call != nil {
					delete(live, above.Call)
				}
			}
		}
		for r := range f.Regs {
			if !live[r] {
				delete(f.Regs, r)
			}
		}
	}
}

// ---- reachability ----

func (st *State) rootVals(visit func(Val)) {
	for _, f := range st.Frames {
		fi := st.E.info(f.Fn)
		rs := make([]ssa.Value, 0, len(f.Regs))
		for r := range f.Regs {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return fi.order[rs[i]] < fi.order[rs[j]] })
		for _, r := range rs {
			visit(f.Regs[r])
		}
		for _, d := range f.Defers {
			visit(d.Callee)
			for _, a := range d.Args {
				visit(a)
			}
		}
		if f.PanicVal != nil {
			visit(f.PanicVal)
		}
	}
	for _, k := range sortedKeys(st.Ghost) {
		visit(st.Ghost[k])
	}
	for _, r := range st.Result {
		visit(r)
	}
}

func objIDs(v Val, f func(ObjID)) {
	m := &mapper{oid: func(id ObjID) ObjID { f(id); return id }}
	m.val(v)
}

func (st *State) objRefs(o *Obj, f func(ObjID)) {
	m := &mapper{oid: func(id ObjID) ObjID { f(id); return id }}
	m.obj(o)
}

// GC drops unreachable objects, and facts about fresh terms that are gone.
func (st *State) GC() {
	seen := map[ObjID]bool{}
	terms := map[int]bool{}
	var q []ObjID
	m := &mapper{}
	m.oid = func(id ObjID) ObjID {
		if !seen[id] {
			seen[id] = true
			q = append(q, id)
		}
		return id
	}
	m.term = func(t VTerm) (Val, bool) {
		if t.T.Fresh > 0 {
			terms[t.T.Fresh] = true
		}
		return nil, false
	}
	st.rootVals(func(v Val) { m.val(v) })
	for len(q) > 0 {
		id := q[0]
		q = q[1:]
		o := st.Heap[id]
		if o == nil {
			continue
		}
		if o.Map != nil {
			// keys alone do not keep fresh terms alive: handled below
			mm := *o.Map
			mm.Ents = nil
			oo := *o
			oo.Map = &mm
			m.obj(&oo)
			continue
		}
		if o.Iter != nil {
			m.val(o.Iter.M)
			continue
		}
		m.obj(o)
	}
	// map entries: values of entries with live or rigid keys are reachable
	for changed := true; changed; {
		changed = false
		for _, id := range sortedIDs(st.Heap) {
			o := st.Heap[id]
			if !seen[id] || o.Map == nil {
				continue
			}
			for _, e := range o.Map.Ents {
				if deadKey(e.K, terms) || e.V == nil {
					continue
				}
				before := len(seen) + len(terms)
				m.val(e.V)
				for len(q) > 0 {
					x := q[0]
					q = q[1:]
					if ob := st.Heap[x]; ob != nil && ob.Map == nil && ob.Iter == nil {
						m.obj(ob)
					} else if ob != nil && ob.Iter != nil {
						m.val(ob.Iter.M)
					}
				}
				if len(seen)+len(terms) != before {
					changed = true
				}
			}
		}
	}
	for id, o := range st.Heap {
		if !seen[id] {
			delete(st.Heap, id)
			continue
		}
		if o.Map != nil {
			mm := *o.Map
			mm.Ents = nil
			drop := false
			for _, e := range o.Map.Ents {
				if deadKey(e.K, terms) {
					drop = true
					continue
				}
				mm.Ents = append(mm.Ents, e)
			}
			if drop {
				if !mm.Unknown {
					mm.Unknown = true
					// keys named by the specification stay known to be absent
					for _, k := range st.E.Keys {
						k = st.N(k)
						found := false
						for _, e := range mm.Ents {
							if Key(e.K) == Key(k) {
								found = true
							}
						}
						if !found && st.E.keyOfType(k, mm.KeyT) {
							mm.Ents = append(mm.Ents, MapEnt{K: k})
						}
					}
				}
				oo := *o
				oo.Map = &mm
				st.Heap[id] = &oo
			}
		}
	}
	for id, o := range st.Heap {
		if o.Iter != nil {
			it := *o.Iter
			it.Visited = nil
			for _, k := range o.Iter.Visited {
				if !deadKey(k, terms) {
					it.Visited = append(it.Visited, k)
				}
			}
			sort.Slice(it.Visited, func(i, j int) bool { return Key(it.Visited[i]) < Key(it.Visited[j]) })
			oo := *o
			oo.Iter = &it
			st.Heap[id] = &oo
		}
	}
	live := func(v Val) bool {
		ok := true
		mm := &mapper{}
		mm.term = func(t VTerm) (Val, bool) {
			if t.T.Fresh > 0 && !terms[t.T.Fresh] {
				ok = false
			}
			return nil, false
		}
		mm.oid = func(id ObjID) ObjID {
			if !seen[id] {
				ok = false
			}
			return id
		}
		mm.val(v)
		return ok
	}
	for k, f := range st.Facts {
		if !live(f.T) {
			delete(st.Facts, k)
		}
	}
	var rf []RangeFact
	for _, r := range st.RFacts {
		if live(r.T) {
			rf = append(rf, r)
		}
	}
	st.RFacts = rf
	for k, a := range st.Alias {
		if a.From.T.Fresh > 0 || !live(a.From) || !live(a.T) {
			delete(st.Alias, k)
		}
	}
	st.normMut()
}

func deadKey(k Val, terms map[int]bool) bool {
	dead := false
	m := &mapper{}
	m.term = func(t VTerm) (Val, bool) {
		if t.T.Fresh > 0 && !terms[t.T.Fresh] {
			dead = true
		}
		return nil, false
	}
	m.val(k)
	if v, ok := k.(VInt); ok && !v.L.IsConst() {
		_ = v
	}
	return dead
}

// normMut renumbers mutation counters.
func (st *State) normMut() {
	its := map[ObjID][]ObjID{}
	for id, o := range st.Heap {
		if o.Iter != nil {
			if m, ok := o.Iter.M.(VMap); ok {
				its[m.O] = append(its[m.O], id)
			}
		}
	}
	for id, o := range st.Heap {
		if o.Map == nil {
			continue
		}
		ii := its[id]
		mm := *o.Map
		mm.Ents = append([]MapEnt(nil), mm.Ents...)
		if len(ii) == 0 {
			mm.Mut = 0
			for i := range mm.Ents {
				mm.Ents[i].Ins = 0
			}
		} else if len(ii) == 1 {
			it := *st.Heap[ii[0]].Iter
			for i := range mm.Ents {
				if mm.Ents[i].Ins > it.Mut {
					mm.Ents[i].Ins = 1
				} else {
					mm.Ents[i].Ins = 0
				}
			}
			if mm.Mut != it.Mut {
				mm.Mut = 1
			} else {
				mm.Mut = 0
			}
			it.Mut = 0
			io := *st.Heap[ii[0]]
			io.Iter = &it
			st.Heap[ii[0]] = &io
		}
		oo := *o
		oo.Map = &mm
		st.Heap[id] = &oo
	}
}

// ---- folding of list nodes ----

// ListType describes a doubly linked node type.
type ListType struct{ Next, Prev int }

func (e *Engine) listType(t types.Type) (ListType, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return ListType{}, false
	}
	lt, ok := e.ListTypes[n.Origin().Obj()]
	return lt, ok
}

// Fold turns unreferenced list nodes into segments and merges them.
func (st *State) Fold() {
	if len(st.E.ListTypes) == 0 {
		return
	}
	// count references other than neighbour links
	refs := map[ObjID]int{}
	count := func(v Val) { objIDs(v, func(id ObjID) { refs[id]++ }) }
	st.rootVals(count)
	for _, f := range st.Facts {
		count(f.T)
	}
	for _, a := range st.Alias {
		count(a.From)
		count(a.T)
	}
	neighbour := map[ObjID]int{}
	for _, o := range st.Heap {
		st.objRefs(o, func(id ObjID) { refs[id]++ })
	}
	isNode := func(id ObjID) (*Obj, ListType, bool) {
		o := st.Heap[id]
		if o == nil {
			return nil, ListType{}, false
		}
		lt, ok := st.E.listType(o.Typ)
		if !ok || o.Seg == nil && o.V == nil {
			return nil, lt, false
		}
		if o.V != nil {
			if _, ok := o.V.(VStruct); !ok || st.E.KeepNode != nil && st.E.KeepNode(st, o) {
				return nil, lt, false
			}
		}
		return o, lt, true
	}
	next := func(id ObjID) Val {
		o := st.Heap[id]
		if o.Seg != nil {
			return o.Seg.After
		}
		lt, _ := st.E.listType(o.Typ)
		return o.V.(VStruct).F[lt.Next]
	}
	prev := func(id ObjID) Val {
		o := st.Heap[id]
		if o.Seg != nil {
			return o.Seg.Before
		}
		lt, _ := st.E.listType(o.Typ)
		return o.V.(VStruct).F[lt.Prev]
	}
	// references by consistent neighbour links
	consistent := func(id ObjID, o *Obj, lt ListType) bool {
		p, okp := prev(id).(VPtr)
		n, okn := next(id).(VPtr)
		if !okp || !okn {
			return false
		}
		want := func(from VPtr, field bool, end uint8) bool {
			// the neighbour's link must come back to id
			fo := st.Heap[from.O]
			if fo == nil {
				return false
			}
			var back Val
			if fo.Seg != nil {
				if field {
					back = fo.Seg.After
				} else {
					back = fo.Seg.Before
				}
			} else {
				if fo.V == nil {
					return false
				}
				defer func() { recover() }()
				node := st.getPath(fo.V, parsePath(from.P))
				s, ok := node.(VStruct)
				if !ok || len(s.F) <= lt.Next || len(s.F) <= lt.Prev {
					return false
				}
				if field {
					back = s.F[lt.Next]
				} else {
					back = s.F[lt.Prev]
				}
			}
			b, ok := back.(VPtr)
			if !ok || b.O != id || b.P != "" {
				return false
			}
			if o.Seg != nil {
				return b.End == end
			}
			return b.End == 0
		}
		return want(p, true, 1) && want(n, false, 2)
	}
	_ = neighbour
	foldable := map[ObjID]bool{}
	for _, id := range sortedIDs(st.Heap) {
		o, lt, ok := isNode(id)
		if !ok {
			continue
		}
		if o.V != nil && o.New && false {
			continue
		}
		c := consistent(id, o, lt)
		if !c {
			continue
		}
		// exactly the two neighbour links point here
		if refs[id] == 2 {
			foldable[id] = true
		}
	}
	ids := sortedIDs(st.Heap)
	for _, id := range ids {
		if !foldable[id] {
			continue
		}
		if st.Heap[id].Seg == nil {
			st.toSeg(id)
		}
	}
	// merge neighbours
	for {
		merged := false
		for _, id := range sortedIDs(st.Heap) {
			o := st.Heap[id]
			if o == nil || o.Seg == nil || !foldable[id] {
				continue
			}
			n, ok := o.Seg.After.(VPtr)
			if !ok || n.O == id || n.End != 1 || !foldable[n.O] {
				continue
			}
			if st.mergeSegs(id, n.O) {
				merged = true
				break
			}
		}
		if !merged {
			break
		}
	}
	for _, id := range sortedIDs(st.Heap) {
		o := st.Heap[id]
		if o != nil && o.Seg != nil && EntailsEq(st.Cons, o.Seg.Len) {
			st.collapse(id, 1)
		}
	}
}

func (st *State) toSeg(id ObjID) {
	o := st.Heap[id]
	lt, _ := st.E.listType(o.Typ)
	s := o.V.(VStruct)
	g := &SegObj{Len: K(1), NextF: lt.Next, PrevF: lt.Prev, Before: s.F[lt.Prev], After: s.F[lt.Next]}
	for i, v := range s.F {
		f := SegField{}
		if i != lt.Next && i != lt.Prev {
			tag := ""
			if st.E.SegTag != nil {
				tag = st.E.SegTag(st, o, i, v)
			}
			if tag != "" {
				f.Tag = tag
			} else if e := elemOf(v); e != nil {
				f.E = e
			} else {
				f.V = v
			}
		}
		g.F = append(g.F, f)
	}
	if o.Ident != nil {
		c := *o.Ident
		c.Dir = 1
		g.Ident = &c
	}
	n := &Obj{Typ: o.Typ, Seg: g, New: o.New, Shared: o.Shared}
	st.Heap[id] = n
	m := &mapper{ptr: func(q VPtr) Val { return q }}
	// links of the neighbours now point to the ends
	fix := func(nb Val, field int, end uint8) {
		p, ok := nb.(VPtr)
		if !ok {
			return
		}
		fo := st.Heap[p.O]
		if fo == nil {
			return
		}
		oo := *fo
		if fo.Seg != nil {
			gg := *fo.Seg
			if p.O == id {
				// ring of one segment: links to itself
			}
			if field == lt.Next {
				gg.After = VPtr{O: id, End: end}
			} else {
				gg.Before = VPtr{O: id, End: end}
			}
			oo.Seg = &gg
		} else {
			oo.V = st.setPath(fo.V, append(parsePath(p.P), field), VPtr{O: id, End: end})
		}
		st.Heap[p.O] = &oo
	}
	_ = m
	fix(g.Before, lt.Next, 1)
	fix(st.Heap[id].Seg.After, lt.Prev, 2)
}

func (st *State) mergeSegs(a, b ObjID) bool {
	oa, ob := st.Heap[a], st.Heap[b]
	ga, gb := oa.Seg, ob.Seg
	if !types.Identical(oa.Typ, ob.Typ) || oa.New != ob.New || oa.Shared != ob.Shared {
		return false
	}
	g := *ga
	g.F = nil
	for i := range ga.F {
		if i == ga.NextF || i == ga.PrevF {
			g.F = append(g.F, SegField{})
			continue
		}
		fa, fb := ga.F[i], gb.F[i]
		if fa.Tag != fb.Tag {
			return false
		}
		if fa.Tag != "" {
			g.F = append(g.F, SegField{Tag: fa.Tag})
			continue
		}
		if fa.E != nil || fb.E != nil {
			e, ok := st.mergeElem(fa.E, ga.Len, fb.E, gb.Len)
			if !ok {
				return false
			}
			g.F = append(g.F, SegField{E: e})
			continue
		}
		if Key(fa.V) != Key(fb.V) {
			return false
		}
		g.F = append(g.F, SegField{V: fa.V})
	}
	if ga.Ident != nil || gb.Ident != nil {
		e, ok := st.mergeElem(ga.Ident, ga.Len, gb.Ident, gb.Len)
		if !ok {
			return false
		}
		g.Ident = e
	}
	g.Len = ga.Len.Add(gb.Len)
	g.After = gb.After
	n := *oa
	n.Seg = &g
	st.Heap[a] = &n
	delete(st.Heap, b)
	m := &mapper{ptr: func(q VPtr) Val {
		if q.O == b {
			return VPtr{O: a, End: q.End}
		}
		return q
	}}
	if !st.rewrite(m) {
		infeasible()
	}
	return true
}

// foldFacts turns facts about single indices into range facts.
func (st *State) foldFacts() {
	for _, k := range sortedKeys(st.Facts) {
		f := st.Facts[k]
		if t, ok := f.T.(VTerm); ok && t.T.Op == "zero?" {
			delete(st.Facts, k)
			continue
		}
		tm, ix, ok := indexTemplate(f.T)
		if !ok {
			continue
		}
		delete(st.Facts, k)
		st.AddRange(tm, ix, ix.AddC(1), f.B)
	}
	for changed := true; changed; {
		changed = false
	outer:
		for i := range st.RFacts {
			a := st.RFacts[i]
			if EntailsGE(st.Cons, a.Lo.Sub(a.Hi)) {
				st.RFacts = append(st.RFacts[:i], st.RFacts[i+1:]...)
				changed = true
				break
			}
			for j := range st.RFacts {
				b := st.RFacts[j]
				if i == j || a.Key != b.Key || a.B != b.B {
					continue
				}
				if EntailsEq(st.Cons, a.Hi.Sub(b.Lo)) {
					st.RFacts[i].Hi = b.Hi
				} else if EntailsGE(st.Cons, b.Lo.Sub(a.Lo)) && EntailsGE(st.Cons, a.Hi.Sub(b.Hi)) {
					// contained
				} else {
					continue
				}
				st.RFacts = append(st.RFacts[:j], st.RFacts[j+1:]...)
				changed = true
				break outer
			}
		}
	}
	for k, a := range st.Alias {
		if _, _, ok := indexTemplate(a.From); ok {
			delete(st.Alias, k)
		}
	}
}

// ---- canonical form ----

type headEntry struct {
	key    string
	cons   []Con
	visits int
	nholes int
	node   int // of its current version
}

func holeSym(i int) Sym { return Sym(-(i + 1)) }

// canonicalise renames objects and fresh terms, and replaces every linear form by a hole.
// It returns the shape key, the holes' values, and rewrites the state so that hole i is holeSym(i).
func (st *State) canonicalise() (string, []Lin) {
	var holes []Lin
	oids := map[ObjID]ObjID{}
	var q []ObjID
	terms := map[int]int{}
	m := &mapper{}
	m.lin = func(l Lin) Lin {
		holes = append(holes, l)
		return SymLin(holeSym(len(holes) - 1))
	}
	m.oid = func(id ObjID) ObjID {
		if n, ok := oids[id]; ok {
			return n
		}
		n := ObjID(len(oids) + 1)
		oids[id] = n
		q = append(q, id)
		return n
	}
	m.term = func(t VTerm) (Val, bool) {
		if t.T.Fresh > 0 {
			n, ok := terms[t.T.Fresh]
			if !ok {
				n = len(terms) + 1
				terms[t.T.Fresh] = n
			}
			return VTerm{&Term{Op: "#", Fresh: n, Typ: t.T.Typ}}, true
		}
		return nil, false
	}
	var sb strings.Builder
	for _, f := range st.Frames {
		fi := st.E.info(f.Fn)
		fmt.Fprintf(&sb, "F %s b%d.%d p%v r%v d%v\n", f.Fn.String(), f.Block.Index, f.PC, f.Panicking, f.Recovered, f.Deferred)
		rs := make([]ssa.Value, 0, len(f.Regs))
		for r := range f.Regs {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return fi.order[rs[i]] < fi.order[rs[j]] })
		for _, r := range rs {
			f.Regs[r] = m.val(f.Regs[r])
			fmt.Fprintf(&sb, " %s=%s\n", r.Name(), Key(f.Regs[r]))
		}
		for i := range f.Defers {
			d := &f.Defers[i]
			d.Callee = m.val(d.Callee)
			d.Args = m.vals(d.Args)
			fmt.Fprintf(&sb, " defer %s %s\n", Key(d.Callee), keys(d.Args))
		}
		if f.PanicVal != nil {
			f.PanicVal = m.val(f.PanicVal)
			fmt.Fprintf(&sb, " panic %s\n", Key(f.PanicVal))
		}
	}
	for _, k := range sortedKeys(st.Ghost) {
		st.Ghost[k] = m.val(st.Ghost[k])
		fmt.Fprintf(&sb, "G %s=%s\n", k, Key(st.Ghost[k]))
	}
	nh := map[ObjID]*Obj{}
	for len(q) > 0 {
		id := q[0]
		q = q[1:]
		o := st.Heap[id]
		if o == nil {
			fmt.Fprintf(&sb, "O %d missing\n", oids[id])
			continue
		}
		// canonical order of map entries and visited keys
		if o.Map != nil {
			mm := *o.Map
			mm.Ents = append([]MapEnt(nil), mm.Ents...)
			sort.SliceStable(mm.Ents, func(i, j int) bool { return entKey(mm.Ents[i]) < entKey(mm.Ents[j]) })
			oo := *o
			oo.Map = &mm
			o = &oo
		}
		n := m.obj(o)
		nh[oids[id]] = n
		fmt.Fprintf(&sb, "O %d %s\n", oids[id], objKey(n))
	}
	st.Heap = nh
	// facts: order by key with holes blanked
	type fk struct {
		k string
		f Fact
	}
	blank := &mapper{lin: func(Lin) Lin { return K(0) }, oid: m.oid, term: m.term}
	var fs []fk
	for _, k := range sortedKeys(st.Facts) {
		f := st.Facts[k]
		fs = append(fs, fk{Key(blank.val(f.T)), f})
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].k < fs[j].k })
	st.Facts = map[string]Fact{}
	for _, x := range fs {
		t := m.val(x.f.T)
		st.Facts[Key(t)] = Fact{t, x.f.B}
		fmt.Fprintf(&sb, "T %s=%v\n", Key(t), x.f.B)
	}
	type rk struct {
		k string
		r RangeFact
	}
	var rs []rk
	for _, r := range st.RFacts {
		rs = append(rs, rk{fmt.Sprint(Key(blank.val(r.T)), r.B), r})
	}
	sort.SliceStable(rs, func(i, j int) bool { return rs[i].k < rs[j].k })
	st.RFacts = nil
	hm := &mapper{oid: m.oid, term: m.term} // templates: keep the bound index
	for _, x := range rs {
		r := x.r
		n := RangeFact{T: hm.val(r.T), Lo: m.l(r.Lo), Hi: m.l(r.Hi), B: r.B}
		n.Key = Key(n.T)
		st.RFacts = append(st.RFacts, n)
		fmt.Fprintf(&sb, "R %s %s %s %v\n", n.Key, n.Lo.Str(rawSym), n.Hi.Str(rawSym), n.B)
	}
	type ak struct {
		k string
		a AliasEnt
	}
	var as []ak
	for _, k := range sortedKeys(st.Alias) {
		a := st.Alias[k]
		as = append(as, ak{Key(blank.val(a.From)), a})
	}
	sort.SliceStable(as, func(i, j int) bool { return as[i].k < as[j].k })
	st.Alias = map[string]AliasEnt{}
	for _, x := range as {
		from := m.val(x.a.From)
		to := m.val(x.a.T)
		st.Alias[Key(from)] = AliasEnt{from.(VTerm), to}
		fmt.Fprintf(&sb, "A %s=%s\n", Key(from), Key(to))
	}
	return sb.String(), holes
}

func entKey(e MapEnt) string {
	k := Key(e.K)
	if t, ok := e.K.(VTerm); ok && t.T.Fresh > 0 {
		k = "~"
	}
	return fmt.Sprintf("%s %v %d", k, e.Present, e.Ins)
}

func elemKey(e *Elem) string {
	if e == nil {
		return "-"
	}
	return fmt.Sprintf("%s[%s]%d", e.Base, e.Off.Str(rawSym), e.Dir)
}

func piecesKey(ps []Piece) string {
	var sb strings.Builder
	for _, p := range ps {
		switch {
		case p.E != nil:
			fmt.Fprintf(&sb, "<%s:%s>", p.Len.Str(rawSym), elemKey(p.E))
		case p.V != nil:
			fmt.Fprintf(&sb, "<%s=%s>", p.Len.Str(rawSym), Key(p.V))
		default:
			fmt.Fprintf(&sb, "<%s?%s>", p.Len.Str(rawSym), p.Tag)
		}
	}
	return sb.String()
}

func objKey(o *Obj) string {
	var sb strings.Builder
	if o.Typ != nil {
		sb.WriteString(types.TypeString(o.Typ, nil))
	}
	fmt.Fprintf(&sb, " new=%v/%v id=%s %s ", o.New, o.Shared, elemKey(o.Ident), o.Tag)
	switch {
	case o.V != nil:
		sb.WriteString(Key(o.V))
	case o.Arr != nil:
		sb.WriteString(piecesKey(o.Arr.P))
	case o.Map != nil:
		fmt.Fprintf(&sb, "map len=%s unk=%v mut=%d", o.Map.Len.Str(rawSym), o.Map.Unknown, o.Map.Mut)
		for _, e := range o.Map.Ents {
			fmt.Fprintf(&sb, " [%s %v %d ", Key(e.K), e.Present, e.Ins)
			if e.V != nil {
				sb.WriteString(Key(e.V))
			}
			sb.WriteString("]")
		}
	case o.Seg != nil:
		fmt.Fprintf(&sb, "seg len=%s b=%s a=%s id=%s", o.Seg.Len.Str(rawSym), Key(o.Seg.Before), Key(o.Seg.After), elemKey(o.Seg.Ident))
		for _, f := range o.Seg.F {
			fmt.Fprintf(&sb, " {%s%s", f.Tag, elemKey(f.E))
			if f.V != nil {
				sb.WriteString(Key(f.V))
			}
			sb.WriteString("}")
		}
	case o.Iter != nil:
		fmt.Fprintf(&sb, "iter %s n=%s mut=%d visited=%s", Key(o.Iter.M), o.Iter.N.Str(rawSym), o.Iter.Mut, keys(o.Iter.Visited))
	}
	return sb.String()
}

// Dump renders a state for reports.
func (st *State) Dump() string {
	var sb strings.Builder
	for _, f := range st.Frames {
		fmt.Fprintf(&sb, "frame %s b%d.%d\n", f.Fn, f.Block.Index, f.PC)
		for r, v := range f.Regs {
			fmt.Fprintf(&sb, "   %s = %s\n", r.Name(), Key(v))
		}
	}
	for _, k := range sortedKeys(st.Ghost) {
		fmt.Fprintf(&sb, "ghost %s = %s\n", k, Key(st.Ghost[k]))
	}
	for _, id := range sortedIDs(st.Heap) {
		fmt.Fprintf(&sb, "obj %d %s: %s\n", id, st.Heap[id].Name, objKey(st.Heap[id]))
	}
	for _, k := range sortedKeys(st.Facts) {
		fmt.Fprintf(&sb, "fact %s = %v\n", k, st.Facts[k].B)
	}
	for _, r := range st.RFacts {
		fmt.Fprintf(&sb, "forall [%s,%s) %s = %v\n", r.Lo.Str(rawSym), r.Hi.Str(rawSym), r.Key, r.B)
	}
	for _, k := range sortedKeys(st.Alias) {
		fmt.Fprintf(&sb, "alias %s = %s\n", k, Key(st.Alias[k].T))
	}
	for s, l := range st.SymAlias {
		if st.E.Rigid[s] {
			fmt.Fprintf(&sb, "sym n%d(%s) = %s\n", s, st.E.SymName[s], l.Str(rawSym))
		}
	}
	for _, c := range st.Cons {
		fmt.Fprintf(&sb, "con %s\n", c.Str(rawSym))
	}
	for i, r := range st.Result {
		fmt.Fprintf(&sb, "result %d = %s\n", i, Key(r))
	}
	return sb.String()
}

func (st *State) normAll() {
	st.pruneRegs()
	st.GC()
	st.Fold()
	for id, o := range st.Heap {
		if o.Arr != nil {
			st.normArr(id)
		}
	}
	if st.E.LoopNorm != nil {
		st.E.LoopNorm(st)
	}
	for k, a := range st.Alias {
		if a.From.T.Op == "floordiv" { // the bounds stay, the quotient's name is no longer needed
			delete(st.Alias, k)
		}
	}
	if st.E.ProjectFacts {
		st.projectFacts()
	}
	st.foldFacts()
	st.GC()
}

// projectFacts closes the order facts and then forgets what is known about elements no value refers to.
func (st *State) projectFacts() {
	live := map[string]bool{}
	mark := &mapper{}
	mark.term = func(t VTerm) (Val, bool) {
		if t.T.Op == "at" {
			live[t.T.key()] = true
		}
		return nil, false
	}
	st.rootVals(func(v Val) { mark.val(v) })
	for _, o := range st.Heap {
		mark.obj(o)
	}
	keep := func(v Val) bool {
		ok := true
		m := &mapper{}
		m.term = func(t VTerm) (Val, bool) {
			if t.T.Op == "at" && !live[t.T.key()] {
				ok = false
			}
			return nil, false
		}
		m.val(v)
		return ok
	}
	ords := map[string]bool{}
	vals := map[string]Val{}
	for _, f := range st.Facts {
		if t, ok := f.T.(VTerm); ok && t.T.Op == "less" {
			ords[t.T.A[0].(VStr).S] = true
			vals[Key(t.T.A[1])], vals[Key(t.T.A[2])] = t.T.A[1], t.T.A[2]
		}
	}
	var add []Fact
	for _, o := range sortedKeys(ords) {
		nodes, le, lt := st.orderGraph(Key(VStr{o}))
		for _, a := range nodes {
			for _, b := range nodes {
				if a == b || !keep(vals[a]) || !keep(vals[b]) {
					continue
				}
				if lt[a][b] {
					add = append(add, Fact{Less(o, vals[a], vals[b]), true})
				} else if le[a][b] {
					add = append(add, Fact{Less(o, vals[b], vals[a]), false})
				}
			}
		}
	}
	for k, f := range st.Facts {
		if t, ok := f.T.(VTerm); ok && t.T.Op == "less" || !keep(f.T) {
			_ = t
			delete(st.Facts, k)
		}
	}
	for _, f := range add {
		st.Facts[f.T.(VTerm).T.key()] = f
	}
}

// loopHead handles arrival at a loop head; false: covered by what was seen before.
func (r *runner) loopHead(st *State) bool {
	st.normAll()
	work := st.Clone()
	key, holes := work.canonicalise()
	ents := r.heads[key]
	subst := func(c Con) Con {
		l := Lin{C: c.L.C}
		for _, t := range c.L.T {
			if t.S < 0 {
				l = l.Add(holes[int(-t.S)-1].Mul(t.K))
			} else {
				l = l.Add(st.NL(SymLin(t.S)).Mul(t.K))
			}
		}
		return Con{l, c.Eq}
	}
	if st.E.Unroll > 0 {
		// peel the first iterations: these arrivals are analysed separately
		h := fmt.Sprintf("%d/%p", len(st.Frames), st.Top().Block)
		if st.peeled[h] < st.E.Unroll {
			p := map[string]int{}
			for k, v := range st.peeled {
				p[k] = v
			}
			p[h]++
			st.peeled = p
			return true
		}
	}
	var e *headEntry
	if len(ents) > 0 {
		e = ents[0]
		all := true
		for _, c := range e.cons {
			s := subst(c)
			if s.Eq && !EntailsEq(st.Cons, s.L) || !s.Eq && !EntailsGE(st.Cons, s.L) {
				all = false
				break
			}
		}
		if all {
			r.edge(st.origin, e.node)
			return false
		}
	}
	// projection of the new state onto holes and rigid symbols
	keep := map[Sym]bool{}
	var vars []Sym
	cs := append([]Con(nil), st.Cons...)
	for i, h := range holes {
		keep[holeSym(i)] = true
		vars = append(vars, holeSym(i))
		cs = append(cs, Con{SymLin(holeSym(i)).Sub(h), true})
	}
	rig := map[Sym]bool{}
	for s := range st.E.Rigid {
		if l, ok := st.SymAlias[s]; ok {
			cs = append(cs, Con{SymLin(s).Sub(l), true})
			rig[s] = true
		}
	}
	for _, c := range cs {
		for _, t := range c.L.T {
			if st.E.Rigid[t.S] {
				rig[t.S] = true
			}
		}
	}
	for s := range rig {
		keep[s] = true
		vars = append(vars, s)
	}
	if e != nil {
		for _, c := range e.cons {
			for _, t := range c.L.T {
				if t.S > 0 && !keep[t.S] {
					keep[t.S] = true
					vars = append(vars, t.S)
				}
			}
		}
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i] < vars[j] })
	hints := hintsOver(st, cs, keep)
	proj := Project(cs, keep)
	_, peq, pin := reduce(proj)
	proj = append(peq, Minimise(pin)...)
	if e == nil {
		n := r.node(st)
		r.edge(st.origin, n)
		st.origin = n
		r.heads[key] = []*headEntry{{key: key, cons: proj, visits: 1, nholes: len(holes), node: n}}
		r.nheads++
		if debugJoin {
			fmt.Printf("HEAD %s KEY %s\n", st.Pos(), key)
		}
		if r.nheads > r.maxHeads {
			Undecided("too many loop states")
		}
		if st.E.ProjectFacts {
			st.pointFacts()
		}
		return true
	}
	e.visits++
	{
		n := r.node(st)
		r.edge(st.origin, n)
		r.edge(e.node, n) // the joined state includes the earlier one
		e.node = n
		work.origin = n
	}
	if debugJoin {
		fmt.Printf("JOIN visit %d at %s\n old:", e.visits, st.Pos())
		for _, c := range e.cons {
			fmt.Printf(" %s;", c.Str(rawSym))
		}
		fmt.Printf("\n new:")
		for _, c := range proj {
			fmt.Printf(" %s;", c.Str(rawSym))
		}
		fmt.Println()
	}
	e.cons = JoinPoly(e.cons, proj, vars, e.visits <= 3, e.visits <= 20, hints, st.E.rigidHints)
	if debugJoin {
		fmt.Printf(" res:")
		for _, c := range e.cons {
			fmt.Printf(" %s;", c.Str(rawSym))
		}
		fmt.Println()
	}
	if e.visits > 60 {
		Undecided("loop does not stabilise")
	}
	// continue with the joined state
	nst := work
	ren := map[Sym]Lin{}
	for i := range holes {
		ren[holeSym(i)] = st.E.FreshSym()
	}
	f := func(l Lin) Lin {
		o := Lin{C: l.C}
		for _, t := range l.T {
			if n, ok := ren[t.S]; ok {
				o = o.Add(n.Mul(t.K))
			} else {
				o = o.Add(SymLin(t.S).Mul(t.K))
			}
		}
		return o
	}
	nst.SymAlias = map[Sym]Lin{}
	nst.Cons = nil
	nst.hints = nil
	if !nst.rewrite(&mapper{lin: f}) {
		infeasible()
	}
	for _, c := range e.cons {
		if !nst.addCon(Con{f(c.L), c.Eq}) {
			infeasible()
		}
	}
	nst.repInvariant()
	if nst.E.ProjectFacts {
		nst.pointFacts()
	}
	*st = *nst
	return true
}

// pointFacts turns facts about a range of exactly one index into plain facts.
func (st *State) pointFacts() {
	var rf []RangeFact
	for _, r := range st.RFacts {
		if !EntailsEq(st.Cons, r.Hi.Sub(r.Lo).AddC(-1)) {
			rf = append(rf, r)
			continue
		}
		m := &mapper{}
		m.lin = func(l Lin) Lin {
			o := Lin{C: l.C}
			for _, t := range l.T {
				if t.S == HoleSym {
					o = o.Add(r.Lo.Mul(t.K))
				} else {
					o = o.Add(SymLin(t.S).Mul(t.K))
				}
			}
			return st.NL(o)
		}
		t := m.val(r.T)
		st.Facts[Key(t)] = Fact{t, r.B}
	}
	st.RFacts = rf
	if !st.orderConsistent() {
		infeasible()
	}
}

// repInvariant re-states what holds of every abstract object: lengths are not negative.
func (st *State) repInvariant() {
	pos := func(l Lin) {
		if !st.addCon(Con{l, false}) {
			infeasible()
		}
	}
	for _, id := range sortedIDs(st.Heap) {
		o := st.Heap[id]
		switch {
		case o.Arr != nil:
			for i := range o.Arr.P {
				if a := st.Heap[id].Arr; a != nil && i < len(a.P) {
					pos(a.P[i].Len)
				}
			}
		case o.Seg != nil:
			pos(o.Seg.Len)
		case o.Map != nil:
			st.mapLenBound(VMap{id})
		case o.Iter != nil:
			pos(o.Iter.N)
		}
	}
}

var debugJoin = os.Getenv("AN_JOIN") != ""

// hintsOver expresses the branch conditions since the last loop head over the kept symbols.
func hintsOver(st *State, cs []Con, keep map[Sym]bool) []Lin {
	var out []Lin
	var eqs []Con
	for _, c := range cs {
		if c.Eq {
			eqs = append(eqs, c)
		}
	}
	const t = Sym(-1000000)
	k2 := map[Sym]bool{t: true}
	for s := range keep {
		k2[s] = true
	}
	for _, h := range st.hints {
		all := append(append([]Con(nil), eqs...), Con{SymLin(t).Sub(st.NL(h)), true})
		for _, c := range Project(all, k2) {
			k := c.L.Coef(t)
			if !c.Eq || k != 1 && k != -1 {
				continue
			}
			l := c.L.Sub(SymLin(t).Mul(k)).Mul(-k)
			out = append(out, l)
			break
		}
	}
	return out
}
