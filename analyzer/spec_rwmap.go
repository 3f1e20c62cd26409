package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	rule := "every exported method of the concurrent map is interpreted for an arbitrary key (and an arbitrary other one) on every internal state, with arbitrary interference by other calls before every shared access; the interference is exactly what the invariant allows, and every own step must keep the invariant: "
	register("C21", rule+"each call makes at most one change to its key, the one it reports; a call that reports no change reports what the key held at an instant of the call; reorganisation under the lock never changes what a key holds", func(c *Ctx) { runRWMap(c) })
	register("C22", rule+"on every path the length counter is adjusted by exactly the number of entries the call made present minus those it made absent, and no live entry is dropped without being counted", func(c *Ctx) { runRWMap(c) })
	register("C23", "every access to memory that other calls can reach, made by any method of the concurrent map, the expiring cache or the refresh caches on any path, is recorded with its kind (plain or atomic, read or write) and whether the lock is held; no two accesses to the same kind of cell may conflict: one a write, not both atomic, not both under the lock; maps handed to lock-free readers are never written", func(c *Ctx) {
		runRWMap(c)
		runSyncCache(c)
		runRefresh(c)
	})
	register("C24", "on every path of every method, including panics raised by callbacks and by comparing uncomparable values, every lock taken is released when the call ends, no lock is taken twice, and the concurrent map and the expiring cache hold no lock when a callback runs", func(c *Ctx) {
		runRWMap(c)
		runSyncCache(c)
		runRefresh(c)
	})
	register("C25", rule+"ranging calls back at most once per key, with a value observed in that entry, and exactly once for a key that stays present; clearing leaves no entry behind", func(c *Ctx) { runRWMap(c) })
}

type rwT struct {
	c     *Ctx
	fn    string // method under analysis
	races *raceLog

	m, ro, ent, valT            types.Type
	mapT                        *types.Map
	read, dirty, ln, misses, mu int
	rm, amended                 int
	p                           int
	exp                         *ssa.Global
}

func (r *rwT) resolve(e *ai.Engine) {
	p := e.Pkgs[e.Module+"/rwmap"]
	if p == nil {
		ai.Undecided("package rwmap not found")
	}
	o := p.Pkg.Scope().Lookup("RWMap")
	if o == nil {
		ai.Undecided("rwmap.RWMap not found")
	}
	r.m = o.Type()
	r.valT = typeArg(r.m, 1)
	isRO := func(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }
	r.read = roleField(r.m, "read", isAtomicPtrTo(isRO))
	r.dirty = roleField(r.m, "dirty", isMapT)
	r.ln = roleField(r.m, "len", isBasicT(types.Int64))
	r.misses = roleField(r.m, "misses", isBasicT(types.Int))
	r.mu = roleField(r.m, "mu", isMutexT)
	st := r.m.Underlying().(*types.Struct)
	r.ro = types.Unalias(st.Field(r.read).Type()).(*types.Named).TypeArgs().At(0)
	r.rm = roleField(r.ro, "m", isMapT)
	r.amended = roleField(r.ro, "amended", isBasicT(types.Bool))
	r.mapT = st.Field(r.dirty).Type().Underlying().(*types.Map)
	r.ent = deref(r.mapT.Elem())
	r.p = roleField(r.ent, "p", isAtomicPtrTo(func(types.Type) bool { return true }))
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if b, ok := deref(g.Type()).Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
				if r.exp != nil {
					ai.Undecided("several candidates for the expunged marker")
				}
				r.exp = g
			}
		}
	}
	if r.exp == nil {
		ai.Undecided("the expunged marker was not found")
	}
}

// ---- access to the abstract state ----

func (r *rwT) M(st *ai.State) ai.VPtr { return st.N(st.Ghost["M"]).(ai.VPtr) }

func (r *rwT) cell(st *ai.State, f int) ai.Val {
	return st.N(st.Heap[r.M(st).O].V.(ai.VStruct).F[f])
}

func (r *rwT) held(st *ai.State) bool { return known(st, ai.EQ(st.Lin(r.cell(st, r.mu)), ai.K(1))) }

func (r *rwT) EXP(st *ai.State) ai.Val { return st.N(st.Ghost["EXP"]) }

func (r *rwT) isExp(st *ai.State, p ai.Val) bool { return ai.Same(st.N(p), r.EXP(st)) }

func (r *rwT) live(st *ai.State, p ai.Val) bool {
	p = st.N(p)
	if _, ok := p.(ai.VPtr); !ok {
		return false
	}
	return !r.isExp(st, p)
}

func (r *rwT) content(st *ai.State, p ai.Val) ai.Val {
	if !r.live(st, p) {
		return ai.VNil{}
	}
	return st.N(st.Heap[p.(ai.VPtr).O].V)
}

// pOf is the p cell of an entry.
func (r *rwT) pOf(st *ai.State, e ai.Val) ai.Val {
	x := st.N(e).(ai.VPtr)
	return st.N(st.Heap[x.O].V.(ai.VStruct).F[r.p])
}

func (r *rwT) setP(st *ai.State, e ai.Val, v ai.Val) { st.SetField(st.N(e).(ai.VPtr), r.p, v) }

func (r *rwT) freshBox(st *ai.State) ai.Val {
	return ai.VPtr{O: st.AllocObj(&ai.Obj{Typ: r.valT, V: ai.At("val", st.E.FreshSym(), r.valT)})}
}

func (r *rwT) newEnt(st *ai.State, tag string) ai.Val {
	z := st.Zero(r.ent).(ai.VStruct)
	f := append([]ai.Val(nil), z.F...)
	o := st.AllocObj(&ai.Obj{Typ: r.ent, V: ai.VStruct{F: f}, Tag: tag})
	e := ai.VPtr{O: o}
	r.setP(st, e, r.freshBox(st))
	return e
}

func (r *rwT) keys(st *ai.State) []string {
	if _, ok := st.Ghost["key:1"]; ok {
		return []string{"0", "1"}
	}
	return []string{"0"}
}

// lookup: the entry a map holds for a tracked key (VNil: none).
func (r *rwT) lookup(st *ai.State, m ai.Val, j string) ai.Val {
	mv, ok := st.N(m).(ai.VMap)
	if !ok {
		return ai.VNil{}
	}
	k := ai.Key(st.N(st.Ghost["key:"+j]))
	mo := st.MapObj(mv)
	for _, e := range mo.Ents {
		if ai.Key(st.N(e.K)) == k {
			if e.Present {
				return st.N(e.V)
			}
			return ai.VNil{}
		}
	}
	if mo.Unknown {
		return nil
	}
	return ai.VNil{}
}

func isNilV(v ai.Val) bool { _, ok := v.(ai.VNil); return ok }

// view: what read and dirty hold for a tracked key.
func (r *rwT) view(st *ai.State, j string) (R, D ai.Val, amended bool, dirtyNil bool) {
	var rm ai.Val = ai.VNil{}
	if p, ok := r.cell(st, r.read).(ai.VPtr); ok {
		f := st.Heap[p.O].V.(ai.VStruct).F
		rm = st.N(f[r.rm])
		amended = known(st, f[r.amended])
	}
	R = r.lookup(st, rm, j)
	d := r.cell(st, r.dirty)
	dirtyNil = isNilV(d)
	D = r.lookup(st, d, j)
	if R == nil || D == nil {
		ai.Undecided("what the map holds for the key is unknown")
	}
	return
}

// truth: the entry that decides what the key holds.
func (r *rwT) truth(st *ai.State, j string) ai.Val {
	R, D, am, _ := r.view(st, j)
	if !isNilV(R) {
		return R
	}
	if am {
		return D
	}
	return ai.VNil{}
}

func (r *rwT) flag(st *ai.State, prop, f string, a ...interface{}) {
	for _, p := range strings.Fields(prop) {
		k := "bad:" + p
		if _, ok := st.Ghost[k]; !ok {
			st.Ghost[k] = ai.VStr{S: fmt.Sprintf(f, a...) + " at " + strings.SplitN(st.Pos(), " <- ", 2)[0]}
		}
	}
}

func gb(st *ai.State, k string) bool {
	b, _ := st.Ghost[k].(ai.VBool)
	return b.B
}

func (r *rwT) env(st *ai.State) string {
	s, _ := st.Ghost["env"].(ai.VStr)
	return s.S
}

// ---- interference ----

// role of a tracked key in a new state of the map
const (
	absent = iota
	inRead
	inDirty
	inBoth
	expungedRole
)

func (r *rwT) setMapT(st *ai.State, m ai.VMap, tag string) {
	o := *st.Heap[m.O]
	o.New = false
	o.Tag = tag
	st.Heap[m.O] = &o
}

// regen replaces the structure by an arbitrary one that other calls may have produced. Without the lock only the
// lock-free part is chosen.
func (r *rwT) regen(st *ai.State, light bool) {
	env := r.env(st)
	shape := st.Choose(4) // 0 never stored, 1 clean, 2 cleared with an empty dirty map, 3 amended
	var rents, dents [2]ai.Val
	tracked := func(i int) bool { return !light || i == len(r.keys(st))-1 }
	for i, j := range r.keys(st) {
		if !tracked(i) {
			continue // its part of the snapshot is not looked at
		}
		E := st.N(st.Ghost["E:"+j])
		has := !isNilV(E)
		from := gb(st, "from:"+j)
		var roles []int
		switch shape {
		case 0, 2:
			roles = []int{absent}
		case 1:
			roles = []int{absent, inRead}
		case 3:
			roles = []int{absent, inDirty, inBoth, expungedRole}
			if light {
				roles = []int{absent, inBoth, expungedRole} // absent: not in read
			}
		}
		role := roles[st.Choose(len(roles))]
		obs := i == 0
		if obs && env == "keep" && (role == absent && !(light && shape == 3) || role == expungedRole) {
			ai.Infeasible()
		}
		same := false
		if has && role != absent {
			same = st.Choose(2) == 0
		}
		if same && from && role == inDirty {
			ai.Infeasible()
		}
		if obs && gb(st, "det") && role != absent && !same && env != "" {
			ai.Infeasible()
		}
		if obs && env == "keep" && has && role == absent && from {
			ai.Infeasible() // it stays in read
		}
		hidden := light && shape == 3 && role == absent
		if obs && !hidden {
			st.Ghost["det"] = ai.VBool{B: true}
		}
		if has && !same && (!hidden || from) {
			// the entry has left the map
			if from {
				r.setP(st, E, r.EXP(st))
			}
			st.Ghost["E:"+j] = ai.VNil{}
			st.Ghost["from:"+j] = ai.VBool{}
			E = ai.VNil{}
		}
		if role == absent {
			rents[i], dents[i] = ai.VNil{}, ai.VNil{}
			if !hidden {
				st.Ghost["obsA:"+j] = ai.VBool{B: true}
			}
			continue
		}
		if !same {
			E = r.newEnt(st, "key")
			st.Ghost["E:"+j] = E
			st.Ghost["from:"+j] = ai.VBool{}
		}
		if role == expungedRole {
			r.setP(st, E, r.EXP(st))
			st.Ghost["obsA:"+j] = ai.VBool{B: true}
		} else if r.isExp(st, r.pOf(st, E)) {
			if obs && env == "nostore" {
				r.setP(st, E, ai.VNil{})
			} else {
				r.setP(st, E, r.freshBox(st))
			}
		}
		rents[i], dents[i] = ai.VNil{}, ai.VNil{}
		switch role {
		case inRead:
			rents[i] = E
		case inDirty:
			dents[i] = E
		case inBoth:
			rents[i], dents[i] = E, E
		case expungedRole:
			rents[i] = E
		}
		if role != inDirty {
			st.Ghost["from:"+j] = ai.VBool{B: true}
		}
	}
	mk := func(ents [2]ai.Val, tag string) ai.Val {
		m := st.NewUnknownMap(r.mapT, tag)
		r.setMapT(st, m, tag)
		for i, j := range r.keys(st) {
			if !tracked(i) {
				continue
			}
			if isNilV(ents[i]) {
				st.AddEnt(m, st.N(st.Ghost["key:"+j]), false, nil)
			} else {
				st.AddEnt(m, st.N(st.Ghost["key:"+j]), true, ents[i])
			}
		}
		return m
	}
	var rp, d ai.Val = ai.VNil{}, ai.VNil{}
	if shape != 0 {
		var rm ai.Val = ai.VNil{}
		if shape != 2 {
			rm = mk(rents, "pub")
		}
		f := append([]ai.Val(nil), st.Zero(r.ro).(ai.VStruct).F...)
		f[r.rm], f[r.amended] = rm, ai.VBool{B: shape == 3}
		rp = ai.VPtr{O: st.AllocObj(&ai.Obj{Typ: r.ro, V: ai.VStruct{F: f}})}
	}
	switch shape {
	case 2:
		m := st.NewMap(r.mapT)
		r.setMapT(st, m, "dirty")
		d = m
	case 3:
		d = mk(dents, "dirty")
	}
	st.SetField(r.M(st), r.read, rp)
	st.SetField(r.M(st), r.dirty, d)
	n := st.E.FreshSym()
	st.Assume(ai.GE(n, ai.K(0)))
	st.SetField(r.M(st), r.misses, ai.VInt{L: n})
}

// entKey: the tracked key whose current entry this is.
func (r *rwT) entKey(st *ai.State, e ai.Val) string {
	for _, j := range r.keys(st) {
		if ai.Same(st.N(st.Ghost["E:"+j]), e) {
			return j
		}
	}
	return ""
}

// entryOf: the entry whose p cell the pointer names.
func (r *rwT) entryOf(st *ai.State, p ai.Val) (ai.VPtr, bool) {
	x, ok := p.(ai.VPtr)
	if !ok || st.Heap[x.O] == nil || st.Heap[x.O].Typ == nil {
		return x, false
	}
	n, ok := types.Unalias(st.Heap[x.O].Typ).(*types.Named)
	if !ok || n.Obj() != types.Unalias(r.ent).(*types.Named).Obj() {
		return x, false
	}
	return ai.VPtr{O: x.O}, true
}

func (r *rwT) private(st *ai.State, o ai.ObjID) bool { return !st.IsShared(o) }

// disturb: what others may do to an entry before this call touches it.
func (r *rwT) disturb(st *ai.State, e ai.VPtr) {
	if r.private(st, e.O) {
		return
	}
	cur := r.pOf(st, e)
	j := r.entKey(st, e)
	env := ""
	if j == "0" {
		env = r.env(st)
	}
	opts := []ai.Val{cur}
	addNil := func() {
		if env != "keep" && !isNilV(cur) {
			opts = append(opts, ai.VNil{})
		}
	}
	addVal := func() {
		if env != "nostore" {
			opts = append(opts, nil)
		}
	}
	held := r.held(st)
	switch {
	case j != "" && held:
		if r.isExp(st, cur) {
			return
		}
		R, _, _, _ := r.view(st, j)
		if ai.Same(R, e) {
			addNil()
			addVal()
		} else {
			addNil()
		}
	case j != "":
		addNil()
		addVal()
		if env != "keep" && !r.isExp(st, cur) {
			opts = append(opts, r.EXP(st))
		}
	case st.Heap[e.O].Tag == "other":
		if held && r.isExp(st, cur) {
			return
		}
		addNil()
		addVal()
		if !held && !r.isExp(st, cur) {
			opts = append(opts, r.EXP(st))
		}
	default: // it has left the map: only its value may still be taken out
		if r.live(st, cur) {
			addNil()
		}
	}
	c := 0
	if len(opts) > 1 {
		c = st.Choose(len(opts))
	}
	v := opts[c]
	if v == nil {
		v = r.freshBox(st)
	}
	r.setP(st, e, v)
}

// ---- own steps ----

func (r *rwT) addG(st *ai.State, k string, n int64) {
	st.Ghost[k] = ai.VInt{L: gl(st, k).AddC(n)}
}

func (r *rwT) transition(st *ai.State, j string, pre, post ai.Val) {
	// pre, post: contents (VNil: absent)
	if j != gs(st, "param") {
		r.flag(st, "C21", "the entry of another key is changed")
		return
	}
	r.addG(st, "trN", 1)
	st.Ghost["trOld"], st.Ghost["trNew"] = pre, post
}

func gs(st *ai.State, k string) string {
	s, _ := st.Ghost[k].(ai.VStr)
	return s.S
}

// changed: this call changed p of a shared entry.
func (r *rwT) changed(st *ai.State, e ai.VPtr, pre, post ai.Val) {
	pre, post = st.N(pre), st.N(post)
	if r.private(st, e.O) || ai.Same(pre, post) {
		return
	}
	held := r.held(st)
	j := r.entKey(st, e)
	other := st.Heap[e.O].Tag == "other"
	clear := r.fn == "Clear"
	if r.isExp(st, pre) && !held {
		r.flag(st, "C21", "an expunged entry is changed without the lock")
	}
	if r.isExp(st, post) && !held {
		r.flag(st, "C21", "an entry is expunged without the lock")
	}
	if r.live(st, post) && !other {
		ok := j != ""
		if ok && held {
			ok = ai.Same(r.truth(st, j), e)
		} else if ok {
			ok = gb(st, "from:"+j) && !r.isExp(st, pre)
		}
		if !ok {
			r.flag(st, "C21", "a value is stored into an entry that may have left the map")
		}
	}
	a, b := r.live(st, pre), r.live(st, post)
	if a != b {
		d := int64(1)
		if a {
			d = -1
		}
		r.addG(st, "dl", d)
	}
	if !a && !b {
		return
	}
	switch {
	case clear && !b:
	case other:
		r.flag(st, "C21", "the entry of another key is changed")
	case j == "":
		r.transition(st, gs(st, "param"), r.content(st, pre), r.content(st, post))
	default:
		r.transition(st, j, r.content(st, pre), r.content(st, post))
	}
}

// observed: this call read p of a shared entry.
func (r *rwT) observed(st *ai.State, e ai.VPtr, v ai.Val) {
	if r.private(st, e.O) {
		return
	}
	if r.live(st, v) {
		r.addG(st, "nlive", 1)
	}
	if st.Heap[e.O].Tag == "other" {
		return
	}
	j := r.entKey(st, e)
	if j == "" {
		if len(r.keys(st)) > 1 {
			return
		}
		j = "0"
	}
	if r.live(st, v) {
		st.Ghost["obsV:"+j] = r.content(st, v)
	} else {
		st.Ghost["obsA:"+j] = ai.VBool{B: true}
	}
}

// locked: the lock was just taken.
func (r *rwT) locked(st *ai.State) {
	r.regen(st, false)
	for _, j := range r.keys(st) {
		st.Ghost["L:"+j] = r.truth(st, j)
	}
}

// dead: an entry that leaves the map has no value any more, and nobody can give it one.
func (r *rwT) dead(st *ai.State, j string, e ai.Val) bool {
	p := r.pOf(st, e)
	if r.isExp(st, p) {
		return true
	}
	return isNilV(p) && !gb(st, "from:"+j)
}

// publish: the read pointer was stored.
func (r *rwT) publish(st *ai.State) {
	if !r.held(st) {
		r.flag(st, "C21 C23", "the read snapshot is replaced without the lock")
		return
	}
	p, ok := r.cell(st, r.read).(ai.VPtr)
	if ok {
		if m, ok := st.N(st.Heap[p.O].V.(ai.VStruct).F[r.rm]).(ai.VMap); ok {
			o := *st.Heap[m.O]
			o.Tag = "pub"
			st.Heap[m.O] = &o
		}
	}
	for _, j := range r.keys(st) {
		R, _, am, _ := r.view(st, j)
		L := st.N(st.Ghost["L:"+j])
		if !isNilV(R) {
			if !ai.Same(R, L) && !ai.Same(R, r.truth(st, j)) {
				r.flag(st, "C21", "the new read snapshot holds a different entry for a key")
			}
			st.Ghost["from:"+j] = ai.VBool{B: true}
			continue
		}
		if !am && !isNilV(L) && !r.dead(st, j, L) && (gb(st, "from:"+j) || j != gs(st, "param") || r.fn == "Clear") {
			r.flag(st, r.drop(), "the new read snapshot loses a key that is present")
		}
	}
}

func (r *rwT) drop() string {
	if r.fn == "Clear" {
		return "C22"
	}
	return "C21 C22"
}

// released: the lock is about to be released; everything others rely on must hold.
func (r *rwT) released(st *ai.State) {
	if !r.held(st) {
		return
	}
	for _, j := range r.keys(st) {
		R, D, am, dn := r.view(st, j)
		bad := func(f string) { r.flag(st, "C21 C22 C25", "when the lock is released %s", f) }
		rexp := !isNilV(R) && r.isExp(st, r.pOf(st, R))
		switch {
		case am && dn:
			bad("the read snapshot is marked incomplete but there is no dirty map")
		case !am && !dn && (!isNilV(D) || !isNilV(R)):
			bad("the dirty map is in use but the read snapshot is not marked incomplete")
		case rexp && (dn || !isNilV(D)):
			bad("an expunged entry is in the dirty map, or there is no dirty map")
		case !isNilV(R) && !rexp && !dn && !ai.Same(R, D):
			bad("an entry of the read snapshot is missing from the dirty map")
		case isNilV(R) && !isNilV(D) && r.isExp(st, r.pOf(st, D)):
			bad("an expunged entry is in the dirty map")
		}
		if p, ok := r.cell(st, r.read).(ai.VPtr); ok && !dn {
			if ai.Same(st.N(st.Heap[p.O].V.(ai.VStruct).F[r.rm]), r.cell(st, r.dirty)) {
				bad("the dirty map is also the read snapshot")
			}
		}
		t0, t1 := st.N(st.Ghost["L:"+j]), r.truth(st, j)
		if ai.Same(t0, t1) {
			continue
		}
		if !isNilV(t0) && !r.dead(st, j, t0) {
			switch {
			case gb(st, "from:"+j):
				r.flag(st, r.drop(), "an entry that callers can still reach is dropped from the map")
			case j != gs(st, "param") && r.fn != "Clear":
				r.flag(st, "C21", "another key is removed")
			case !isNilV(t1):
				r.flag(st, "C21 C22", "a present entry is replaced by another one")
			default:
				st.Ghost["U:"+j] = t0 // it must lose its value before the call ends
			}
		}
		st.Ghost["E:"+j], st.Ghost["from:"+j] = t1, ai.VBool{B: !isNilV(R)}
		if isNilV(t1) {
			st.Ghost["obsA:"+j] = ai.VBool{B: true}
			continue
		}
		if b := st.Heap[t1.(ai.VPtr).O]; b.Tag == "other" || !b.New {
			bad("a key holds the entry of another one")
			continue
		}
		if p := r.pOf(st, t1); r.live(st, p) {
			r.addG(st, "dl", 1)
			r.transition(st, j, ai.VNil{}, r.content(st, p))
		}
	}
}

func (r *rwT) mfield(st *ai.State, p ai.Val) int {
	x, ok := p.(ai.VPtr)
	if !ok || x.O != r.M(st).O {
		return -1
	}
	for f := 0; f < r.m.Underlying().(*types.Struct).NumFields(); f++ {
		if x.P == fmt.Sprint(f) || x.P == fmt.Sprintf(".%d", f) {
			return f
		}
	}
	return -1
}

func (r *rwT) hooks(e *ai.Engine) {
	e.TrackShared = true
	e.MaxSteps = 3000000
	if r.c.Prop == "C24" {
		e.Override = func(c *ai.Call) (ai.Val, bool) {
			if p := c.Fn.Pkg; p != nil && p.Pkg.Path() == "reflect" && (c.Fn.Name() == "Equal" || c.Fn.Name() == "DeepEqual") && c.St.Choose(2) == 1 {
				// values of a type that cannot be compared
				c.St.Ghost["cmpPanic"] = ai.VBool{B: true}
				c.St.RuntimePanic("comparing uncomparable values")
			}
			return nil, false
		}
	}
	e.Atomic = func(a *ai.AtomicOp) bool {
		st := a.St
		f := r.mfield(st, a.Ptr)
		ent, isE := r.entryOf(st, a.Ptr)
		if !a.After {
			switch {
			case f == r.read && a.Op == "Load":
				if !r.held(st) {
					r.regen(st, true)
				}
			case isE:
				r.disturb(st, ent)
			case f == r.ln:
				n := st.E.FreshSym()
				st.SetField(r.M(st), r.ln, ai.VInt{L: n})
			}
			return true
		}
		switch {
		case isE:
			if a.Op != "Store" {
				r.observed(st, ent, a.Pre)
			}
			if a.Op != "Load" && a.OK {
				r.changed(st, ent, a.Pre, a.Post)
			}
		case f == r.ln:
			switch {
			case a.Op == "Add" || a.Op == "CAS" && a.OK:
				st.Ghost["ln"] = ai.VInt{L: gl(st, "ln").Add(st.Lin(a.Post).Sub(st.Lin(a.Pre)))}
			case a.Op == "Store" || a.Op == "Swap":
				r.flag(st, "C22", "the length is overwritten although other calls may be adjusting it")
			case a.Op == "Load":
				st.Ghost["lenObs"] = a.Pre
			}
		case f == r.read && a.Op != "Load" && a.OK:
			r.publish(st)
		}
		return false
	}
	e.OnAccess = func(st *ai.State, p ai.Val, t types.Type, k ai.AccessKind) {
		if r.races != nil {
			r.races.access(st, p, k, r.held(st))
		}
		f := r.mfield(st, p)
		if f < 0 || k == ai.AccAtomicRead || k == ai.AccAtomicWrite {
			return
		}
		if (f == r.dirty || f == r.misses) && !r.held(st) {
			if r.races != nil {
				return
			}
			ai.Undecided("the dirty map is used without the lock")
		}
		if f == r.ln && k == ai.AccWrite {
			r.flag(st, "C22", "the length is written although other calls may be adjusting it")
		}
	}
	e.OnMap = func(st *ai.State, m ai.VMap, k ai.Val, write bool) {
		o := st.Heap[m.O]
		if r.private(st, m.O) {
			return
		}
		if write && o.Tag == "pub" {
			r.flag(st, "C21 C23", "a map that lock-free readers use is written")
		}
		if o.Tag != "pub" && !r.held(st) {
			r.flag(st, "C21 C23", "a map that other calls write is used without the lock")
		}
	}
	other := func(st *ai.State, m ai.VMap, k ai.Val, present bool) (ai.MapEnt, bool) {
		if !types.Identical(st.MapObj(m).ValT.Underlying(), r.mapT.Elem().Underlying()) && !isEntPtr(st.MapObj(m).ValT, r.ent) {
			return ai.MapEnt{}, false
		}
		en := ai.MapEnt{K: k, Present: present}
		if present {
			en.V = r.newEnt(st, "other")
			if st.Heap[m.O].Tag == "pub" && r.held(st) && !isNilV(r.cell(st, r.dirty)) && st.Choose(2) == 0 {
				r.setP(st, en.V, r.EXP(st))
			}
		}
		return en, true
	}
	e.MapUnknown = func(st *ai.State, m ai.VMap, k ai.Val) (ai.MapEnt, bool) {
		return other(st, m, k, st.Choose(2) == 0)
	}
	e.MapOther = func(st *ai.State, m ai.VMap, k ai.Val) (ai.MapEnt, bool) { return other(st, m, k, true) }
	e.Lock = func(st *ai.State, p ai.Val, op string) {
		if r.mfield(st, p) != r.mu {
			return
		}
		switch op {
		case "Lock":
			if !r.held(st) {
				r.locked(st)
			}
		case "Unlock":
			r.released(st)
		default:
			ai.Undecided("lock operation %s", op)
		}
	}
	e.OnCallback = func(cb *ai.Callback) ai.Val {
		st := cb.St
		if r.held(st) {
			r.flag(st, "C24", "a callback runs while the lock is held")
		}
		if r.c.Prop == "C24" && st.Choose(2) == 1 {
			st.Ghost["cmpPanic"], cb.Panics = ai.VBool{B: true}, true
			return ai.VTuple{}
		}
		if t, ok := cb.F.(ai.VTerm); ok && t.T.Op == "f" {
			if gb(st, "stopped") {
				r.flag(st, "C25", "the callback is called again after it stopped the iteration")
			}
			if ai.Same(st.N(cb.Args[0]), st.N(st.Ghost["key:0"])) {
				r.addG(st, "cbK", 1)
				ov, ok := st.Ghost["obsV:0"]
				if !ok || !ai.Same(st.N(ov), st.N(cb.Args[1])) {
					r.flag(st, "C25", "the callback gets a value the key did not hold")
				}
			}
			if st.Choose(2) == 0 {
				return ai.VBool{B: true}
			}
			st.Ghost["stopped"] = ai.VBool{B: true}
			return ai.VBool{B: false}
		}
		ai.Undecided("call of an unknown function")
		return nil
	}
}

func isEntPtr(t, ent types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	a, ok1 := types.Unalias(p.Elem()).(*types.Named)
	b, ok2 := types.Unalias(ent).(*types.Named)
	return ok1 && ok2 && a.Obj() == b.Obj()
}

// mk builds the map; the structure is chosen at the first access.
func (r *rwT) mk(st *ai.State, env string, two bool) ai.Val {
	g := ai.VPtr{}
	if gv, ok := st.Ghost["global:"+r.exp.String()]; ok {
		g = gv.(ai.VPtr)
	} else {
		ai.Undecided("the expunged marker is not initialised")
	}
	st.Ghost["EXP"] = st.N(st.Heap[g.O].V)
	if _, ok := st.Ghost["EXP"].(ai.VPtr); !ok {
		ai.Undecided("the expunged marker is not a pointer")
	}
	k := ai.Named("k", r.mapT.Key())
	st.Ghost["key:0"], st.Ghost["param"] = k, ai.VStr{S: "0"}
	st.E.Keys = []ai.Val{k}
	st.Ghost["E:0"] = ai.VNil{}
	if two {
		k2 := ai.Named("k2", r.mapT.Key())
		distinct(st, k, k2)
		st.Ghost["key:1"], st.Ghost["param"] = k2, ai.VStr{S: "1"}
		st.E.Keys = append(st.E.Keys, k2)
		st.Ghost["E:1"] = ai.VNil{}
	}
	for _, x := range []string{"trN", "dl", "ln", "cbK", "nlive"} {
		st.Ghost[x] = ai.VInt{L: ai.K(0)}
	}
	if env != "" {
		st.Ghost["env"] = ai.VStr{S: env}
	}
	f := append([]ai.Val(nil), st.Zero(r.m).(ai.VStruct).F...)
	f[r.ln] = ai.VInt{L: st.E.FreshSym()}
	M := ai.VPtr{O: st.AllocObj(&ai.Obj{Typ: r.m, V: ai.VStruct{F: f}, Name: "rwmap"})}
	st.Ghost["M"] = M
	return M
}

// common checks of every final state
func (r *rwT) flags(st *ai.State, p *Post) {
	prop := r.c.Prop
	if v, ok := st.Ghost["bad:"+prop].(ai.VStr); ok {
		p.Ok(false, "%s", v.S)
	} else {
		r.c.Obligations++
	}
	if prop == "C24" {
		if v, ok := st.Ghost["deadlock"].(ai.VStr); ok {
			p.Ok(false, "%s", v.S)
		}
		p.Ok(!r.held(st), "the lock is still held when the call ends")
	}
	if prop == "C22" && !st.Panic {
		p.True(ai.EQ(gl(st, "dl"), gl(st, "ln")), "the length is not adjusted by the change in the number of keys")
	}
	if prop == "C21" && r.fn != "Clear" || prop == "C22" {
		for _, j := range r.keys(st) {
			if u, ok := st.Ghost["U:"+j]; ok && !st.Panic {
				p.Ok(!r.live(st, r.pOf(st, u)), "a removed entry keeps its value: the removal is not reported or not counted")
			}
		}
	}
	if prop == "C21" && len(r.keys(st)) > 1 {
		if p.Ok(!r.held(st), "the lock is still held") {
			// the last release checked what the other key holds
			r.c.Obligations++
		}
	}
}

func runRWMap(c *Ctx) {
	r := &rwT{c: c}
	r.resolve(c.E)
	prop := c.Prop
	if prop == "C23" {
		r.races = newRaceLog()
	}
	named := func(st *ai.State, f *ssa.Function, i int, n string) ai.Val {
		v := ai.Named(n, r.valT)
		st.Ghost["arg:"+n] = v
		return v
	}
	run := func(fn, name, env string, two bool, args func(st *ai.State, f *ssa.Function, M, k ai.Val) []ai.Val, post func(st *ai.State, p *Post)) {
		c.Run(Scenario{Name: name, Pkg: "rwmap", Fn: "RWMap." + fn, Inits: []string{"rwmap"}, MayPanic: true,
			Hooks: func(e *ai.Engine) { r.fn = fn; r.hooks(e) },
			Init: func(st *ai.State, f *ssa.Function) []ai.Val {
				M := r.mk(st, env, two)
				return args(st, f, M, st.N(st.Ghost["key:"+gs(st, "param")]))
			},
			Post: func(st *ai.State, p *Post) {
				if st.Panic && !gb(st, "cmpPanic") {
					p.fail("violated", "panics: "+ai.Key(st.PanicVal))
					return
				}
				r.flags(st, p)
				if post != nil && !st.Panic && prop != "C23" && prop != "C24" {
					post(st, p)
				}
			}})
	}
	// what the call reports
	isTrue := func(st *ai.State, v ai.Val) (bool, bool) { return st.Known(st.N(v)) }
	none := func(st *ai.State, p *Post) bool {
		return p.True(ai.EQ(gl(st, "trN"), ai.K(0)), "the key is changed although the call does not report it")
	}
	one := func(st *ai.State, p *Post) bool {
		return p.True(ai.EQ(gl(st, "trN"), ai.K(1)), "the key is not changed exactly once")
	}
	sawAbsent := func(st *ai.State, p *Post) bool {
		return p.Ok(gb(st, "obsA:0"), "the key is reported absent although it was never seen absent")
	}
	zero := func(st *ai.State, p *Post, v ai.Val) {
		p.Same(v, st.Zero(r.valT), "a value is returned although the key is absent")
	}
	sawVal := func(st *ai.State, p *Post, v ai.Val) {
		o, ok := st.Ghost["obsV:0"]
		if p.Ok(ok, "a value is returned that was never seen in the map") {
			p.Same(v, o, "the value returned is not the one seen in the map")
		}
	}
	sawNot := func(st *ai.State, p *Post) { // absent, or a value different from old
		if gb(st, "obsA:0") {
			r.c.Obligations++
			return
		}
		o, ok := st.Ghost["obsV:0"]
		p.Ok(ok && known(st, ai.Not(st.CmpEq(st.N(o), st.N(st.Ghost["arg:old"])))), "failure is reported although the key was never seen absent or different")
	}
	two := func(st *ai.State, p *Post, i int, yes, no func()) {
		b, ok := isTrue(st, st.Result[i])
		if !p.Ok(ok, "the result is not decided") {
			return
		}
		if b {
			yes()
		} else {
			no()
		}
	}
	type op struct {
		fn   string
		args func(st *ai.State, f *ssa.Function, M, k ai.Val) []ai.Val
		post func(st *ai.State, p *Post)
	}
	kv := func(st *ai.State, f *ssa.Function, M, k ai.Val) []ai.Val {
		return []ai.Val{M, k, named(st, f, 2, "new")}
	}
	ko := func(st *ai.State, f *ssa.Function, M, k ai.Val) []ai.Val { return []ai.Val{M, k} }
	ops := []op{
		{"Load", ko, func(st *ai.State, p *Post) {
			none(st, p)
			two(st, p, 1, func() { sawVal(st, p, st.Result[0]) }, func() { sawAbsent(st, p); zero(st, p, st.Result[0]) })
		}},
		{"Store", kv, func(st *ai.State, p *Post) {
			if one(st, p) {
				p.Same(st.Ghost["trNew"], st.Ghost["arg:new"], "the value stored is not the given one")
			}
		}},
		{"Swap", kv, func(st *ai.State, p *Post) {
			if !one(st, p) {
				return
			}
			p.Same(st.Ghost["trNew"], st.Ghost["arg:new"], "the value stored is not the given one")
			two(st, p, 1, func() { p.Same(st.Result[0], st.Ghost["trOld"], "the value returned is not the one replaced") },
				func() {
					p.Same(st.Ghost["trOld"], ai.VNil{}, "a value is replaced but not reported")
					zero(st, p, st.Result[0])
				})
		}},
		{"LoadOrStore", kv, func(st *ai.State, p *Post) {
			two(st, p, 1, func() { none(st, p); sawVal(st, p, st.Result[0]) }, func() {
				if one(st, p) {
					p.Same(st.Ghost["trOld"], ai.VNil{}, "a present value is replaced")
					p.Same(st.Ghost["trNew"], st.Ghost["arg:new"], "the value stored is not the given one")
					p.Same(st.Result[0], st.Ghost["arg:new"], "the value returned is not the one stored")
				}
			})
		}},
		{"LoadAndDelete", ko, func(st *ai.State, p *Post) {
			two(st, p, 1, func() {
				if one(st, p) {
					p.Same(st.Ghost["trNew"], ai.VNil{}, "the key is not deleted")
					p.Same(st.Result[0], st.Ghost["trOld"], "the value returned is not the one deleted")
				}
			}, func() { none(st, p); sawAbsent(st, p); zero(st, p, st.Result[0]) })
		}},
		{"Delete", ko, func(st *ai.State, p *Post) {
			if known(st, ai.EQ(gl(st, "trN"), ai.K(0))) {
				sawAbsent(st, p)
			} else if one(st, p) {
				p.Same(st.Ghost["trNew"], ai.VNil{}, "the key is not deleted")
			}
		}},
		{"CompareAndSwap", func(st *ai.State, f *ssa.Function, M, k ai.Val) []ai.Val {
			return []ai.Val{M, k, named(st, f, 2, "old"), named(st, f, 3, "new")}
		}, func(st *ai.State, p *Post) {
			two(st, p, 0, func() {
				if one(st, p) {
					p.Same(st.Ghost["trOld"], st.Ghost["arg:old"], "a value different from the given one is replaced")
					p.Same(st.Ghost["trNew"], st.Ghost["arg:new"], "the value stored is not the given one")
				}
			}, func() { none(st, p); sawNot(st, p) })
		}},
		{"CompareAndDelete", func(st *ai.State, f *ssa.Function, M, k ai.Val) []ai.Val {
			return []ai.Val{M, k, named(st, f, 2, "old")}
		}, func(st *ai.State, p *Post) {
			two(st, p, 0, func() {
				if one(st, p) {
					p.Same(st.Ghost["trOld"], st.Ghost["arg:old"], "a value different from the given one is deleted")
					p.Same(st.Ghost["trNew"], ai.VNil{}, "the key is not deleted")
				}
			}, func() { none(st, p); sawNot(st, p) })
		}},
	}
	if prop != "C25" {
		for _, o := range ops {
			o := o
			run(o.fn, "the observed key", "", false, o.args, func(st *ai.State, p *Post) {
				if prop == "C21" {
					o.post(st, p)
				}
			})
			run(o.fn, "another key", "", true, o.args, nil)
		}
	}
	if prop == "C22" || prop == "C23" || prop == "C24" {
		run("Len", "any state", "", false, func(st *ai.State, f *ssa.Function, M, k ai.Val) []ai.Val { return []ai.Val{M} }, func(st *ai.State, p *Post) {
			v, ok := st.Ghost["lenObs"]
			if p.Ok(ok, "the length counter is not read") {
				p.Same(st.Result[0], v, "the length is not the counter")
			}
		})
	}
	rng := func(st *ai.State, f *ssa.Function, M, k ai.Val) []ai.Val {
		fv := ai.Named("f", f.Params[1].Type())
		st.Assume(ai.Not(st.CmpEq(fv, ai.VNil{})))
		return []ai.Val{M, fv}
	}
	mo := func(st *ai.State, f *ssa.Function, M, k ai.Val) []ai.Val { return []ai.Val{M} }
	run("Range", "any schedule", "", false, rng, func(st *ai.State, p *Post) {
		if prop == "C25" {
			p.True(ai.LE(gl(st, "cbK"), ai.K(1)), "the callback is called twice for a key")
		}
		none(st, p)
	})
	if prop == "C25" {
		run("Range", "a key that stays", "keep", false, rng, func(st *ai.State, p *Post) {
			if !gb(st, "stopped") {
				p.True(ai.EQ(gl(st, "cbK"), ai.K(1)), "the callback is not called once for a key that is present throughout")
			}
		})
		run("SlowLen", "any schedule", "", false, mo, func(st *ai.State, p *Post) {
			p.Same(st.Result[0], ai.VInt{L: gl(st, "nlive")}, "the count is not the number of keys seen")
		})
	}
	run("Clear", "any schedule", "", false, mo, nil)
	if prop == "C23" || prop == "C24" {
		run("SlowLen", "any schedule", "", false, mo, nil)
	}
	if prop == "C25" {
		run("Clear", "no concurrent store", "nostore", false, mo, func(st *ai.State, p *Post) {
			t := r.truth(st, "0")
			p.Ok(isNilV(t) || !r.live(st, r.pOf(st, t)), "the key is still present after clearing")
		})
	}
	if r.races != nil {
		r.races.report(c, "rwmap")
	}
}
