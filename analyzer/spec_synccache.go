package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	rule := "every method of the expiring cache is interpreted for an arbitrary key on every state, with arbitrary stores, removals and deadline changes by other calls before every shared access; the concurrent map underneath is used through its contract (C21, C25), the clock is symbolic and never goes back; "
	register("C26", rule+"an entry reported as present was read from the map in this call and its deadline was then compared with a later clock reading and had not passed", func(c *Ctx) { runSyncCache(c) })
	register("C27", rule+"every removal made by the call is matched by exactly one run of the configured callback with the removed entry's value, after the removal; nothing else runs it", func(c *Ctx) { runSyncCache(c) })
	register("C28", rule+"every entry the call removes is the entry it examined, and was examined as the operation requires (expired, equal value, given entry)", func(c *Ctx) { runSyncCache(c) })
	register("C29", rule+"the deadline written is the one prescribed, an entry is treated as expired only after it; trimming removes exactly the expired entries; registration, closing and the single background task follow the API", func(c *Ctx) { runSyncCache(c) })
}

type scT struct {
	c     *Ctx
	fn    string
	races *raceLog

	sc, ent, valT, keyT types.Type
	cb, cache           int
	val, exp            int
	reg                 *ssa.Global
	once                *ssa.Global
	rangeFn             *ssa.Function
}

func isAtomicInt64(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Int64 {
		return true
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" && n.Obj().Name() == "Int64"
}

func isRWMap(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	return ok && n.Obj().Name() == "RWMap"
}

func (r *scT) resolve(e *ai.Engine) {
	p := e.Pkgs[e.Module+"/synccache"]
	if p == nil {
		ai.Undecided("package synccache not found")
	}
	tn := func(n string) types.Type {
		o := p.Pkg.Scope().Lookup(n)
		if o == nil {
			ai.Undecided("synccache.%s not found", n)
		}
		return o.Type()
	}
	r.sc, r.ent = tn("SyncCache"), tn("Entry")
	r.keyT, r.valT = typeArg(r.sc, 0), typeArg(r.ent, 0)
	r.cb = roleField(r.sc, "deletedCallback", func(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok })
	r.cache = roleField(r.sc, "cache", isRWMap)
	r.val = roleField(r.ent, "value", func(t types.Type) bool { _, ok := t.(*types.TypeParam); return ok })
	r.exp = roleField(r.ent, "expiration", isAtomicInt64)
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			t := deref(g.Type())
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Once" {
				r.once = g
			}
			if isRWMap(t) {
				if r.reg != nil {
					ai.Undecided("several candidates for the registry of caches")
				}
				r.reg = g
			}
		}
	}
	if r.reg == nil {
		ai.Undecided("the registry of caches was not found")
	}
	r.rangeFn = p.Func("verifRange")
}

func (r *scT) flag(st *ai.State, prop, f string, a ...interface{}) {
	for _, p := range strings.Fields(prop) {
		k := "bad:" + p
		if _, ok := st.Ghost[k]; !ok {
			st.Ghost[k] = ai.VStr{S: fmt.Sprintf(f, a...) + " at " + strings.SplitN(st.Pos(), " <- ", 2)[0]}
		}
	}
}

func (r *scT) S(st *ai.State) ai.VPtr { return st.N(st.Ghost["S"]).(ai.VPtr) }

// newEntry: an entry somebody else stored.
func (r *scT) newEntry(st *ai.State, tag string) ai.Val {
	f := append([]ai.Val(nil), st.Zero(r.ent).(ai.VStruct).F...)
	f[r.val] = ai.At(tag+"val", st.E.FreshSym(), r.valT)
	f[r.exp] = ai.VInt{L: st.E.FreshSym()}
	return ai.VPtr{O: st.AllocObj(&ai.Obj{Typ: r.ent, V: ai.VStruct{F: f}, Tag: tag})}
}

func (r *scT) valueOf(st *ai.State, e ai.Val) ai.Val {
	return st.N(st.Heap[st.N(e).(ai.VPtr).O].V.(ai.VStruct).F[r.val])
}

func (r *scT) expOf(st *ai.State, e ai.Val) ai.Lin {
	return st.Lin(st.N(st.Heap[st.N(e).(ai.VPtr).O].V.(ai.VStruct).F[r.exp]))
}

func (r *scT) isEntryExp(st *ai.State, p ai.Val) (ai.Val, bool) {
	x, ok := p.(ai.VPtr)
	if !ok || x.P != fmt.Sprint(r.exp) && x.P != fmt.Sprintf(".%d", r.exp) {
		return nil, false
	}
	b := st.Heap[x.O]
	if b == nil || b.Typ == nil {
		return nil, false
	}
	n, ok := types.Unalias(b.Typ).(*types.Named)
	m := types.Unalias(r.ent).(*types.Named)
	return ai.VPtr{O: x.O}, ok && n.Obj() == m.Obj()
}

func (r *scT) own(st *ai.State, e ai.Val) bool {
	b := st.Heap[st.N(e).(ai.VPtr).O]
	return b.New && b.Tag == ""
}

// interfere: other calls may store, replace or remove the entry of the key.
func (r *scT) interfere(st *ai.State) {
	if _, ok := st.Ghost["quiet"]; ok {
		return
	}
	cur := st.N(st.Ghost["cur"])
	opts := []string{"same", "new"}
	if !isNilV(cur) {
		opts = append(opts, "gone")
	}
	switch opts[st.Choose(len(opts))] {
	case "gone":
		st.Ghost["cur"] = ai.VNil{}
	case "new":
		st.Ghost["cur"] = r.newEntry(st, "key")
	}
}

func (r *scT) expired(st *ai.State, e ai.Val) bool   { return r.judge(st, e, true, false) }
func (r *scT) unexpired(st *ai.State, e ai.Val) bool { return r.judge(st, e, false, false) }

// expiry known from the last comparison of the entry's deadline with the clock
func (r *scT) judged(st *ai.State, e ai.Val, expired bool) bool {
	return r.judge(st, e, expired, true)
}

func (r *scT) judge(st *ai.State, e ai.Val, expired, later bool) bool {
	re, ok := st.Ghost["rdE"]
	if !ok || !ai.Same(st.N(re), st.N(e)) {
		return false
	}
	now, ok := st.Ghost["now"]
	if !ok {
		return false
	}
	x := st.Lin(st.N(st.Ghost["rdX"])).AddC(1).Mul(1000000)
	if expired {
		return known(st, ai.GE(st.Lin(st.N(now)), x))
	}
	if o, ok := st.Ghost["obtNow"]; later && ok && ai.Same(st.N(o), st.N(now)) {
		return false // the clock was not read since the entry was read from the map
	}
	return known(st, ai.LTc(st.Lin(st.N(now)), x))
}

// got: the call read the entry from the map.
func (r *scT) got(st *ai.State, e ai.Val) {
	if isNilV(e) {
		st.Ghost["sawAbsent"] = ai.VBool{B: true}
		return
	}
	st.Ghost["seen"] = e
	delete(st.Ghost, "rdE")
	if n, ok := st.Ghost["now"]; ok {
		st.Ghost["obtNow"] = n
	}
}

// removes: the call takes entry e out of the map.
func (r *scT) removes(st *ai.State, e ai.Val, op string) {
	e = st.N(e)
	if isNilV(e) {
		return
	}
	st.Ghost["nrem"] = ai.VInt{L: ai.K(1)}
	st.Ghost["remE"] = e
	if known(st, ai.EQ(gl(st, "nrem"), ai.K(1))) {
		ok := false
		switch r.fn {
		case "Delete", "LoadAndDelete":
			ok = true
		case "CompareAndDelete":
			ok = ai.Same(st.N(st.Ghost["arg:old"]), e)
		case "Clear":
			s, has := st.Ghost["seen"]
			ok = gb(st, "nocb") || has && ai.Same(st.N(s), e)
		case "CompareValueAndDelete":
			ok = r.judged(st, e, true) || r.judged(st, e, false) && known(st, st.CmpEq(r.valueOf(st, e), st.N(st.Ghost["arg:val"])))
		default:
			ok = r.judged(st, e, true)
		}
		if !ok {
			r.flag(st, "C28", "an entry is removed that was not examined as the operation requires (%s)", op)
			if r.fn != "CompareAndDelete" && r.fn != "Clear" && r.fn != "CompareValueAndDelete" {
				r.flag(st, "C29", "an entry is removed that is not known to be expired (%s)", op)
			}
		}
	}
	if !gb(st, "nocb") {
		if _, ok := st.Ghost["pend"]; ok {
			r.flag(st, "C27", "a second entry is removed before the callback ran for the first one")
		}
		st.Ghost["pend"] = e
	}
}

func (r *scT) mapOf(st *ai.State, p ai.Val) string {
	x, ok := st.N(p).(ai.VPtr)
	if !ok {
		return ""
	}
	if s, ok := st.Ghost["S"]; ok && x.O == st.N(s).(ai.VPtr).O && (x.P == fmt.Sprint(r.cache) || x.P == fmt.Sprintf(".%d", r.cache)) {
		return "cache"
	}
	if b := st.Heap[x.O]; b != nil && b.Name == r.reg.String() && x.P == "" {
		return "reg"
	}
	return ""
}

func (r *scT) override(c *ai.Call) (ai.Val, bool) {
	st := c.St
	fn := c.Fn
	if fn.Pkg != nil && strings.HasSuffix(fn.Pkg.Pkg.Path(), "/synccache") {
		switch fn.Name() {
		case "verifMore":
			return r.more(st), true
		case "verifKey":
			return r.nextKey(st), true
		case "verifVal":
			if gs(st, "rng") == "reg" {
				return ai.VStruct{}, true
			}
			return st.N(st.Ghost["nextV"]), true
		case "verifStopped":
			st.Ghost["rngStop"] = ai.VBool{B: true}
			r.rangeEnd(st)
			return ai.VTuple{}, true
		}
		return nil, false
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "time" {
		switch fn.Name() {
		case "NewTicker":
			return ai.VPtr{O: st.AllocObj(&ai.Obj{Typ: deref(fn.Signature.Results().At(0).Type()), V: st.Zero(deref(fn.Signature.Results().At(0).Type())), Name: "ticker", New: true})}, true
		case "Tick":
			return ai.Named("tick", fn.Signature.Results().At(0).Type()), true
		case "Stop", "Reset":
			return ai.VTuple{}, true
		case "Sleep":
			return ai.VTuple{}, true
		}
		return nil, false
	}
	if fn.Signature.Recv() == nil || !isRWMap(fn.Signature.Recv().Type()) {
		return nil, false
	}
	a := c.Args
	m := r.mapOf(st, a[0])
	if m == "" {
		ai.Undecided("concurrent map of unknown origin")
	}
	if fn.Name() == "Range" {
		if g := gs(st, "rng"); g != "" {
			ai.Undecided("nested ranging")
		}
		st.Ghost["rng"] = ai.VStr{S: m}
		st.Ghost["visited"], st.Ghost["rngStop"] = ai.VBool{}, ai.VBool{}
		if m == "cache" {
			r.interfere(st)
		}
		ta := ai.TEnv{}
		if n, ok := types.Unalias(deref(fn.Signature.Recv().Type())).(*types.Named); ok {
			_ = n
		}
		c.CallValue(ai.VFunc{Fn: r.rangeFn, TA: ta}, []ai.Val{a[1]}, func(s *ai.State, v ai.Val) ai.Val { return ai.VTuple{} })
		return nil, true
	}
	if m == "reg" {
		return r.registry(st, fn.Name(), a), true
	}
	return r.mapOp(st, fn.Name(), a), true
}

func (r *scT) registry(st *ai.State, op string, a []ai.Val) ai.Val {
	who := ""
	switch op {
	case "Len", "SlowLen":
		n := st.E.FreshSym()
		st.Assume(ai.GE(n, ai.K(0)))
		return ai.VInt{L: n}
	case "Clear":
		ai.Undecided("the registry is cleared")
	}
	k := st.N(a[1])
	if i, ok := k.(ai.VIface); ok {
		k = st.N(i.V)
	}
	for _, n := range []string{"S", "S2"} {
		if s, ok := st.Ghost[n]; ok && ai.Same(st.N(s), k) {
			who = n
		}
	}
	if p, ok := k.(ai.VPtr); ok && who == "" {
		if n, ok := types.Unalias(st.Heap[p.O].Typ).(*types.Named); ok && n.Obj() == types.Unalias(r.sc).(*types.Named).Obj() {
			who = "S"
			st.Ghost["S"] = ai.VPtr{O: p.O}
			st.Share(p)
		}
	}
	if rk, ok := st.Ghost["regKey"]; ok && ai.Same(st.N(rk), k) {
		who = "S"
	}
	if _, ok := k.(ai.VTerm); ok && who == "" { // some other cache
		switch op {
		case "Store", "Delete":
			return ai.VTuple{}
		case "Load", "LoadOrStore", "LoadAndDelete":
			return ai.VTuple{F: []ai.Val{ai.VStruct{}, ai.VBool{B: st.Choose(2) == 0}}}
		}
	}
	if who == "" {
		ai.Undecided("registration of %s", ai.Key(k))
	}
	was := gb(st, "reg:"+who)
	set := func(b bool) { st.Ghost["reg:"+who] = ai.VBool{B: b} }
	switch op {
	case "Store":
		set(true)
		return ai.VTuple{}
	case "Delete":
		set(false)
		return ai.VTuple{}
	case "LoadOrStore":
		set(true)
		return ai.VTuple{F: []ai.Val{ai.VStruct{}, ai.VBool{B: was}}}
	case "LoadAndDelete":
		set(false)
		return ai.VTuple{F: []ai.Val{ai.VStruct{}, ai.VBool{B: was}}}
	case "Load":
		return ai.VTuple{F: []ai.Val{ai.VStruct{}, ai.VBool{B: was}}}
	}
	ai.Undecided("%s on the registry", op)
	return nil
}

// mapOp: the contract of the concurrent map for the key (others are independent).
func (r *scT) mapOp(st *ai.State, op string, a []ai.Val) ai.Val {
	pair := func(v ai.Val, ok bool) ai.Val { return ai.VTuple{F: []ai.Val{v, ai.VBool{B: ok}}} }
	switch op {
	case "Len", "SlowLen":
		n := st.E.FreshSym()
		st.Assume(ai.GE(n, ai.K(0)))
		return ai.VInt{L: n}
	case "Clear":
		r.interfere(st)
		r.removes(st, st.Ghost["cur"], op)
		st.Ghost["cur"] = ai.VNil{}
		return ai.VTuple{}
	}
	key := st.N(a[1])
	if !st.Decide(st.CmpEq(key, st.N(st.Ghost["key"]))) {
		// another key: whatever the contract allows
		switch op {
		case "CompareAndDelete", "CompareAndSwap":
			return ai.VBool{B: st.Choose(2) == 0}
		case "Store", "Delete":
			return ai.VTuple{}
		case "Load", "LoadAndDelete":
			if st.Choose(2) == 0 {
				return pair(ai.VNil{}, false)
			}
			return pair(r.newEntry(st, "other"), true)
		}
		ai.Undecided("%s on another key", op)
	}
	r.interfere(st)
	cur := st.N(st.Ghost["cur"])
	put := func(v ai.Val) {
		v = st.N(v)
		if _, ok := v.(ai.VPtr); !ok {
			r.flag(st, "C26", "a nil entry is stored")
			v = r.newEntry(st, "key")
		}
		if r.own(st, v) {
			st.Ghost["exp0"] = ai.VInt{L: r.expOf(st, v)}
		}
		st.Share(v)
		st.Ghost["cur"], st.Ghost["stored"] = v, v
	}
	switch op {
	case "Load":
		r.got(st, cur)
		return pair(cur, !isNilV(cur))
	case "Store", "Swap":
		if r.fn != "Store" && !isNilV(cur) {
			r.removes(st, cur, op)
		}
		put(a[2])
		if op == "Swap" {
			return pair(cur, !isNilV(cur))
		}
		return ai.VTuple{}
	case "LoadOrStore":
		r.got(st, cur)
		if isNilV(cur) {
			put(a[2])
			return pair(st.N(a[2]), false)
		}
		return pair(cur, true)
	case "LoadAndDelete", "Delete":
		r.removes(st, cur, op)
		r.got(st, cur)
		st.Ghost["cur"] = ai.VNil{}
		if op == "Delete" {
			return ai.VTuple{}
		}
		return pair(cur, !isNilV(cur))
	case "CompareAndDelete", "CompareAndSwap":
		old := st.N(a[2])
		ok := false
		if !isNilV(cur) && !isNilV(old) {
			ok = ai.Same(cur, old)
			if _, isP := old.(ai.VPtr); !isP {
				ai.Undecided("comparison with %s", ai.Key(old))
			}
		}
		if ok {
			r.removes(st, cur, op)
			st.Ghost["cur"] = ai.VNil{}
			if op == "CompareAndSwap" {
				put(a[3])
			}
		} else {
			st.Ghost["casLost"] = ai.VBool{B: true}
		}
		return ai.VBool{B: ok}
	}
	ai.Undecided("%s on the cache", op)
	return nil
}

func (r *scT) more(st *ai.State) ai.Val {
	g := gs(st, "rng")
	if g == "cache" {
		r.interfere(st)
		if _, ok := st.Ghost["pend"]; ok {
			r.flag(st, "C27", "an entry was removed and the callback did not run")
			delete(st.Ghost, "pend")
		}
	}
	present := g == "cache" && !isNilV(st.N(st.Ghost["cur"])) || g == "reg" && gb(st, "reg:S")
	if _, quiet := st.Ghost["quiet"]; quiet && present && !gb(st, "visited") {
		return ai.VBool{B: true} // present throughout: it will be visited (C25)
	}
	if st.Choose(2) == 0 {
		return ai.VBool{B: true}
	}
	r.rangeEnd(st)
	return ai.VBool{B: false}
}

func (r *scT) rangeEnd(st *ai.State) {
	if gs(st, "rng") == "reg" {
		if gb(st, "rngStop") {
			r.flag(st, "C29", "trimming stops before all caches were trimmed")
		}
		if gb(st, "visited") && !known(st, ai.EQ(gl(st, "ntrim"), ai.K(1))) {
			r.flag(st, "C29", "a registered cache is not trimmed exactly once per round")
		}
		st.Ghost["swept"] = ai.VBool{B: true}
	}
	delete(st.Ghost, "rng")
}

func (r *scT) nextKey(st *ai.State) ai.Val {
	g := gs(st, "rng")
	present := g == "cache" && !isNilV(st.N(st.Ghost["cur"])) || g == "reg" && gb(st, "reg:S")
	if present && !gb(st, "visited") && st.Choose(2) == 0 {
		st.Ghost["visited"] = ai.VBool{B: true}
		if g == "reg" {
			return st.N(st.Ghost["regKey"])
		}
		cur := st.N(st.Ghost["cur"])
		r.got(st, cur)
		st.Ghost["nextV"] = cur
		return st.N(st.Ghost["key"])
	}
	if g == "reg" {
		k := st.E.FreshTerm(typeArg(r.sc, 0))
		st.Assume(ai.Not(st.CmpEq(k, ai.VNil{})))
		return k
	}
	k := st.E.FreshTerm(r.keyT)
	distinct(st, k, st.N(st.Ghost["key"]))
	st.Ghost["nextV"] = r.newEntry(st, "other")
	return k
}

func (r *scT) hooks(e *ai.Engine) {
	e.TrackShared = true
	e.MaxSteps = 1000000
	e.Override = r.override
	pre := func(st *ai.State, p ai.Val) {
		if _, q := st.Ghost["quiet"]; q {
			return
		}
		if en, ok := r.isEntryExp(st, p); ok && st.IsShared(en.(ai.VPtr).O) {
			st.SetField(en.(ai.VPtr), r.exp, ai.VInt{L: st.E.FreshSym()})
		}
	}
	e.Atomic = func(a *ai.AtomicOp) bool {
		st := a.St
		if !a.After {
			pre(st, a.Ptr)
			if x, ok := a.Ptr.(ai.VPtr); ok && strings.Contains(st.Heap[x.O].Name, "/synccache.") && !gb(st, "bgDone") && !gb(st, "quiet") && st.Choose(2) == 1 {
				// another call starts the background task now
				v := a.New
				if v == nil {
					v = ai.VInt{L: ai.K(1)}
				}
				st.SetCell(x, v)
				st.Ghost["bgDone"] = ai.VBool{B: true}
			}
			return true
		}
		en, ok := r.isEntryExp(st, a.Ptr)
		if !ok {
			return false
		}
		if a.Op != "Store" {
			st.Ghost["rdE"], st.Ghost["rdX"] = en, a.Pre
		}
		if a.Op != "Load" && a.OK {
			st.Ghost["nwr"] = ai.VInt{L: gl(st, "nwr").AddC(1)}
			st.Ghost["wrPre"], st.Ghost["wrPost"] = a.Pre, a.Post
			if !r.own(st, en) && r.fn != "AddExpiration" && r.fn != "SetExpiration" {
				r.flag(st, "C29", "the deadline of an entry is changed")
			}
		}
		return false
	}
	e.OnAccess = func(st *ai.State, p ai.Val, t types.Type, k ai.AccessKind) {
		if r.races != nil {
			r.races.access(st, p, k, known(st, ai.EQ(gl(st, "locks"), ai.K(1))))
		}
		if k == ai.AccRead {
			pre(st, p)
		}
		if k == ai.AccWrite {
			if x, ok := p.(ai.VPtr); ok && st.IsShared(x.O) && st.Heap[x.O].Typ != nil {
				if n, ok := types.Unalias(st.Heap[x.O].Typ).(*types.Named); ok && n.Obj() == types.Unalias(r.ent).(*types.Named).Obj() {
					r.flag(st, "C29 C26", "a stored entry is written without synchronisation")
				}
			}
		}
	}
	e.AfterAccess = func(st *ai.State, p ai.Val, t types.Type, v ai.Val, k ai.AccessKind) {
		if en, ok := r.isEntryExp(st, p); ok {
			if n, has := st.Ghost["now"]; has && r.own(st, en) && (k == ai.AccWrite || k == ai.AccAtomicWrite) {
				st.Ghost["mkNow"] = n
			}
			if k == ai.AccRead {
				st.Ghost["rdE"], st.Ghost["rdX"] = en, v
			}
		}
	}
	e.Lock = func(st *ai.State, p ai.Val, op string) {
		switch op {
		case "Lock", "RLock":
			st.Ghost["locks"] = ai.VInt{L: gl(st, "locks").AddC(1)}
		default:
			st.Ghost["locks"] = ai.VInt{L: gl(st, "locks").AddC(-1)}
		}
	}
	e.LoopNorm = func(st *ai.State) { // facts about deadlines end with the iteration
		if e0, ok := st.Ghost["e0"]; ok {
			if r.expired(st, e0) {
				st.Ghost["wasExpired"] = ai.VBool{B: true}
			}
			if r.unexpired(st, e0) {
				st.Ghost["wasFresh"] = ai.VBool{B: true}
			}
		}
		for _, g := range []string{"rdE", "rdX", "obtNow", "mkNow", "wrPre", "wrPost"} {
			delete(st.Ghost, g)
		}
		if _, ok := st.Ghost["now"]; ok && r.fn != "trim" {
			st.Ghost["now"] = ai.VInt{L: st.E.FreshSym()}
		}
	}
	e.OnGo = func(st *ai.State, g *ssa.Go, callee ai.Val, args []ai.Val) {
		st.Ghost["ngo"] = ai.VInt{L: gl(st, "ngo").AddC(1)}
		if gb(st, "bgDone") {
			r.flag(st, "C29", "a second background task is started")
		}
		st.Ghost["bgDone"] = ai.VBool{B: true}
		if gb(st, "follow") {
			f, ok := callee.(ai.VFunc)
			if !ok {
				ai.Undecided("background task %s", ai.Key(callee))
			}
			st.Ghost["follow"] = ai.VBool{}
			st.PushGo(f, args, g, func(s *ai.State) { r.flag(s, "C29", "the background task ends") })
		}
	}
	e.OnRecv = func(st *ai.State, x *ssa.UnOp) ai.Val {
		if gb(st, "ticked") && !gb(st, "swept") {
			r.flag(st, "C29", "the background task does not trim the caches on every tick")
		}
		if v, ok := st.Ghost["bad:"+r.c.Prop].(ai.VStr); ok {
			ai.Undecided("%s", v.S)
		}
		if st.Choose(2) == 1 {
			ai.Infeasible() // no further tick
		}
		st.Ghost["ticked"], st.Ghost["swept"] = ai.VBool{B: true}, ai.VBool{}
		st.Ghost["ntrim"] = ai.VInt{L: ai.K(0)}
		t := ai.TimeVal(st.Now())
		if x.CommaOk {
			return ai.VTuple{F: []ai.Val{t, ai.VBool{B: true}}}
		}
		return t
	}
	e.OnCallback = func(cb *ai.Callback) ai.Val {
		st := cb.St
		if !known(st, ai.EQ(gl(st, "locks"), ai.K(0))) {
			r.flag(st, "C24", "a callback runs while a lock is held")
		}
		if m, ok := cb.F.(ai.VMethod); ok {
			if m.M.Name() == "trim" || m.M.Pkg() != nil && strings.HasSuffix(m.M.Pkg().Path(), "/synccache") {
				if ai.Same(st.N(m.Recv), st.N(st.Ghost["regKey"])) {
					st.Ghost["ntrim"] = ai.VInt{L: gl(st, "ntrim").AddC(1)}
				}
				return ai.VTuple{}
			}
		}
		if r.c.Prop == "C24" && st.Choose(2) == 1 {
			st.Ghost["cbPanic"], cb.Panics = ai.VBool{B: true}, true
			return ai.VTuple{}
		}
		t, ok := cb.F.(ai.VTerm)
		if !ok {
			ai.Undecided("call of %s", ai.Key(cb.F))
		}
		switch t.T.Op {
		case "cb":
			r.called(st, st.N(cb.Args[0]))
			return ai.VTuple{}
		case "f":
			if ai.Same(st.N(cb.Args[0]), st.N(st.Ghost["key"])) {
				st.Ghost["ncb"] = ai.VInt{L: gl(st, "ncb").AddC(1)}
				e := st.N(cb.Args[1])
				if _, ok := e.(ai.VPtr); !ok || !ai.Same(e, st.N(st.Ghost["seen"])) {
					r.flag(st, "C26", "the entry handed out is not the one read from the map")
				} else if !r.judged(st, e, false) {
					r.flag(st, "C26", "an entry is handed out that is not known to be unexpired")
				}
			}
			if st.Choose(2) == 0 {
				return ai.VBool{B: true}
			}
			st.Ghost["stopped"] = ai.VBool{B: true}
			return ai.VBool{B: false}
		}
		ai.Undecided("call of an unknown function")
		return nil
	}
}

// called: the deletion callback runs.
func (r *scT) called(st *ai.State, v ai.Val) {
	if p, ok := st.Ghost["pend"]; ok && ai.Same(r.valueOf(st, p), v) {
		delete(st.Ghost, "pend")
		return
	}
	if _, ok := atIdx(v, "otherval"); ok {
		return // an entry of another key
	}
	r.flag(st, "C27", "the callback runs for an entry that this call did not just remove (%s)", ai.Key(v))
}

// mk builds a cache in any state and the key.
func (r *scT) mk(st *ai.State) ai.Val {
	k := ai.Named("k", r.keyT)
	st.Ghost["key"] = k
	st.E.Keys = []ai.Val{k}
	for _, x := range []string{"nrem", "ncb", "nwr", "locks", "ngo", "ntrim"} {
		st.Ghost[x] = ai.VInt{L: ai.K(0)}
	}
	f := append([]ai.Val(nil), st.Zero(r.sc).(ai.VStruct).F...)
	if st.Choose(2) == 0 {
		f[r.cb] = ai.VNil{}
		st.Ghost["nocb"] = ai.VBool{B: true}
	} else {
		f[r.cb] = r.fnVal(st, "cb", r.sc.Underlying().(*types.Struct).Field(r.cb).Type())
	}
	S := ai.VPtr{O: st.AllocObj(&ai.Obj{Typ: r.sc, V: ai.VStruct{F: f}, Name: "cache"})}
	st.Ghost["S"] = S
	st.Ghost["cur"] = ai.VNil{}
	return S
}

func (r *scT) fnVal(st *ai.State, n string, t types.Type) ai.Val {
	v := ai.Named(n, t)
	st.Assume(ai.Not(st.CmpEq(v, ai.VNil{})))
	return v
}

func runSyncCache(c *Ctx) {
	r := &scT{c: c}
	if c.Prop == "C23" {
		r.races = newRaceLog()
	}
	r.resolve(c.E)
	prop := c.Prop
	checks := func(st *ai.State, p *Post) {
		if v, ok := st.Ghost["bad:"+prop].(ai.VStr); ok {
			p.Ok(false, "%s", v.S)
		} else {
			c.Obligations++
		}
		switch prop {
		case "C27":
			_, ok := st.Ghost["pend"]
			p.Ok(!ok, "an entry was removed and the callback did not run")
		case "C24":
			if v, ok := st.Ghost["deadlock"].(ai.VStr); ok {
				p.Ok(false, "%s", v.S)
			}
			p.True(ai.EQ(gl(st, "locks"), ai.K(0)), "a lock is still held when the call ends")
		}
	}
	run := func(fn, name string, args func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val, post func(st *ai.State, p *Post)) {
		m := fn
		if i := strings.LastIndex(fn, "."); i >= 0 {
			m = fn[i+1:]
		}
		c.Run(Scenario{Name: name, Pkg: "synccache", Fn: fn, Inits: []string{"synccache"}, MayPanic: true,
			Hooks: func(e *ai.Engine) { r.fn = m; r.hooks(e) },
			Init: func(st *ai.State, f *ssa.Function) []ai.Val {
				S := r.mk(st)
				return args(st, f, S, st.N(st.Ghost["key"]))
			},
			Post: func(st *ai.State, p *Post) {
				if st.Panic && !gb(st, "cbPanic") {
					p.fail("violated", "panics: "+ai.Key(st.PanicVal))
					return
				}
				checks(st, p)
				if post != nil && !st.Panic && prop != "C23" && prop != "C24" {
					post(st, p)
				}
			}})
	}
	val := func(st *ai.State, n string) ai.Val {
		v := ai.Named(n, r.valT)
		st.Ghost["arg:"+n] = v
		return v
	}
	num := func(st *ai.State, f *ssa.Function, i int, n string) ai.Val {
		v := st.Opaque(ai.Named(n, f.Params[i].Type()), f.Params[i].Type())
		st.Ghost["arg:"+n] = v
		return v
	}
	decided := func(st *ai.State, p *Post, v ai.Val) (bool, bool) {
		return st.Decide(st.N(v)), true
	}
	// an entry reported present
	present := func(st *ai.State, p *Post, v ai.Val) {
		if prop != "C26" {
			return
		}
		e := st.N(v)
		s, ok := st.Ghost["seen"]
		if _, isP := e.(ai.VPtr); p.Ok(isP && ok && ai.Same(st.N(s), e), "the entry returned is not the one read from the map") {
			p.Ok(r.judged(st, e, false), "the entry returned is not known to be unexpired")
		}
	}
	// nothing reported
	missing := func(st *ai.State, p *Post, v ai.Val) {
		if prop == "C26" && v != nil {
			p.Same(v, ai.VNil{}, "an entry is returned although none is reported")
		}
		if prop != "C29" {
			return
		}
		s, ok := st.Ghost["seen"]
		p.Ok(gb(st, "sawAbsent") || ok && r.judged(st, s, true), "an entry is treated as expired before its time to live passed")
	}
	deadline := func(st *ai.State, p *Post, e, d ai.Val) {
		e = st.N(e)
		if _, ok := e.(ai.VPtr); !p.Ok(ok, "no entry was created") {
			return
		}
		if prop == "C29" || prop == "C26" {
			p.Same(r.valueOf(st, e), st.Ghost["arg:value"], "the entry does not hold the given value")
		}
		if prop == "C29" {
			x := r.initExp(st, e)
			n, ok := st.Ghost["mkNow"]
			if !p.Ok(ok, "the deadline does not depend on the clock") {
				return
			}
			t := st.Lin(st.N(n)).Add(st.Lin(d)).Sub(x.Mul(1000000))
			p.True(ai.GE(t, ai.K(0)), "the entry expires later than its time to live after it was stored")
			p.True(ai.LTc(t, ai.K(1000000)), "the entry expires earlier than its time to live after it was stored")
		}
	}
	kOnly := func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val { return []ai.Val{S, k} }
	sOnly := func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val { return []ai.Val{S} }
	kve := func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val {
		return []ai.Val{S, k, val(st, "value"), num(st, f, 3, "expire")}
	}
	run("SyncCache.Load", "any schedule", kOnly, func(st *ai.State, p *Post) {
		if b, ok := decided(st, p, st.Result[1]); ok {
			if b {
				present(st, p, st.Result[0])
			} else {
				missing(st, p, st.Result[0])
			}
		}
	})
	run("SyncCache.LoadOrStore", "any schedule", kve, func(st *ai.State, p *Post) {
		if b, ok := decided(st, p, st.Result[1]); ok {
			s, has := st.Ghost["stored"]
			if b {
				present(st, p, st.Result[0])
				p.Ok(!has, "an entry is stored although one is reported present")
			} else if p.Ok(has, "nothing is stored although no entry is reported present") {
				p.Same(st.Result[0], s, "the entry returned is not the one stored")
				deadline(st, p, s, st.Ghost["arg:expire"])
			}
		}
	})
	run("SyncCache.Store", "any schedule", kve, func(st *ai.State, p *Post) {
		s, has := st.Ghost["stored"]
		if p.Ok(has, "nothing is stored") {
			deadline(st, p, s, st.Ghost["arg:expire"])
		}
	})
	run("SyncCache.Delete", "any schedule", kOnly, func(st *ai.State, p *Post) {
		p.Ok(gb(st, "sawAbsent") || known(st, ai.EQ(gl(st, "nrem"), ai.K(1))), "the key is not deleted")
	})
	run("SyncCache.LoadAndDelete", "any schedule", kOnly, func(st *ai.State, p *Post) {
		if b, ok := decided(st, p, st.Result[1]); ok {
			if b {
				present(st, p, st.Result[0])
				if e, ok := st.Ghost["remE"]; p.Ok(ok, "nothing is removed although an entry is reported") {
					p.Same(st.Result[0], e, "the entry returned is not the one removed")
				}
			} else {
				missing(st, p, st.Result[0])
			}
		}
	})
	old := func(isNil bool) func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val {
		return func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val {
			if isNil {
				st.Ghost["arg:old"] = ai.VNil{}
				return []ai.Val{S, k, ai.VNil{}}
			}
			e := r.newEntry(st, "key")
			st.Ghost["arg:old"] = e
			if st.Choose(2) == 0 {
				st.Ghost["cur"] = e
			}
			return []ai.Val{S, k, e}
		}
	}
	for _, isNil := range []bool{false, true} {
		name := "an entry of the key"
		if isNil {
			name = "no entry"
		}
		run("SyncCache.CompareAndDelete", name, old(isNil), func(st *ai.State, p *Post) {
			if b, ok := decided(st, p, st.Result[0]); ok {
				removed := known(st, ai.EQ(gl(st, "nrem"), ai.K(1)))
				p.Ok(b == removed, "the result does not say whether the entry was removed")
				if !b {
					p.Ok(gb(st, "casLost"), "failure is reported although the entry was never compared")
				}
			}
		})
	}
	run("SyncCache.CompareValueAndDelete", "any schedule", func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val {
		return []ai.Val{S, k, val(st, "val")}
	}, func(st *ai.State, p *Post) {
		b, ok := decided(st, p, st.Result[0])
		if !ok {
			return
		}
		e, rem := st.Ghost["remE"]
		if b {
			if prop == "C28" && p.Ok(rem, "removal is reported although nothing was removed") {
				p.Ok(r.judged(st, e, false), "removal is reported for an expired entry")
			}
			return
		}
		if prop == "C28" {
			p.Ok(!rem || r.judged(st, e, true), "an unexpired entry is removed but not reported")
			s, seen := st.Ghost["seen"]
			p.Ok(gb(st, "sawAbsent") || gb(st, "casLost") || seen && (r.judged(st, s, true) || known(st, ai.Not(st.CmpEq(r.valueOf(st, s), st.N(st.Ghost["arg:val"]))))), "failure is reported although the value was never seen to differ")
		}
	})
	rng := func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val {
		return []ai.Val{S, r.fnVal(st, "f", f.Params[1].Type())}
	}
	quiet := func(with bool, args func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val) func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val {
		return func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val {
			st.Ghost["quiet"] = ai.VBool{B: true}
			if with {
				e := r.newEntry(st, "key")
				st.Ghost["cur"], st.Ghost["e0"] = e, e
			}
			return args(st, f, S, k)
		}
	}
	gone := func(st *ai.State) bool { return isNilV(st.N(st.Ghost["cur"])) }
	run("SyncCache.Range", "any schedule", rng, nil)
	if prop == "C29" || prop == "C26" {
		run("SyncCache.Range", "no other call", quiet(true, rng), func(st *ai.State, p *Post) {
			if !known(st, ai.EQ(gl(st, "ncb"), ai.K(0))) || gb(st, "stopped") {
				return
			}
			if prop == "C29" {
				p.Ok(gb(st, "wasExpired") || r.expired(st, st.Ghost["e0"]), "an unexpired entry is not visited")
			}
		})
	}
	run("SyncCache.Clear", "any schedule", sOnly, nil)
	if prop == "C27" || prop == "C28" {
		run("SyncCache.Clear", "no other call", quiet(true, sOnly), func(st *ai.State, p *Post) {
			p.Ok(gone(st), "an entry is still there after clearing")
		})
	}
	if c.E.Fn("synccache", "SyncCache.trim") == nil {
		c.addViolation(Violation{Kind: "unresolved", Fn: "synccache.SyncCache.trim", Clause: "the trimming method does not exist"})
	} else {
		run("SyncCache.trim", "any schedule", sOnly, nil)
		if prop == "C29" || prop == "C27" {
			run("SyncCache.trim", "no other call", quiet(true, sOnly), func(st *ai.State, p *Post) {
				if prop != "C29" {
					return
				}
				if gone(st) {
					p.Ok(gb(st, "wasExpired") || r.expired(st, st.Ghost["e0"]), "an unexpired entry is trimmed")
				} else {
					p.Ok(gb(st, "wasFresh") || r.unexpired(st, st.Ghost["e0"]), "an expired entry is not trimmed")
				}
			})
		}
	}
	// entries
	ent := func(st *ai.State, f *ssa.Function, S, k ai.Val) ai.Val {
		e := r.newEntry(st, "key")
		st.Ghost["e0"] = e
		return e
	}
	if prop == "C29" || prop == "C26" || prop == "C23" {
		run("NewEntry", "any", func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val {
			return []ai.Val{val(st, "value"), num(st, f, 1, "expire")}
		}, func(st *ai.State, p *Post) { deadline(st, p, st.Result[0], st.Ghost["arg:expire"]) })
		run("Entry.IsExpired", "any", func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val { return []ai.Val{ent(st, f, S, k)} }, func(st *ai.State, p *Post) {
			if b, ok := decided(st, p, st.Result[0]); ok {
				if b && prop == "C29" {
					p.Ok(r.judged(st, st.Ghost["e0"], true), "the entry is reported expired before its deadline")
				}
				if !b {
					p.Ok(r.judged(st, st.Ghost["e0"], false), "the entry is not reported expired after its deadline")
				}
			}
		})
		run("Entry.Value", "any", func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val { return []ai.Val{ent(st, f, S, k)} }, func(st *ai.State, p *Post) {
			p.Same(st.Result[0], r.valueOf(st, st.Ghost["e0"]), "the value is not the one stored")
		})
		run("Entry.AddExpiration", "any", func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val {
			return []ai.Val{ent(st, f, S, k), num(st, f, 1, "d")}
		}, func(st *ai.State, p *Post) {
			if prop != "C29" || !p.True(ai.EQ(gl(st, "nwr"), ai.K(1)), "the deadline is not changed exactly once") {
				return
			}
			d := st.Lin(st.N(st.Ghost["arg:d"])).Sub(st.Lin(st.N(st.Ghost["wrPost"])).Sub(st.Lin(st.N(st.Ghost["wrPre"]))).Mul(1000000))
			p.True(ai.LTc(d, ai.K(1000000)), "less than the given duration is added to the deadline")
			p.True(ai.LTc(ai.K(-1000000), d), "more than the given duration is added to the deadline")
		})
		run("Entry.SetExpiration", "any", func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val {
			t := st.E.FreshSym()
			st.Ghost["arg:t"] = ai.VInt{L: t}
			return []ai.Val{ent(st, f, S, k), ai.TimeVal(t)}
		}, func(st *ai.State, p *Post) {
			if prop != "C29" || !p.Ok(st.Ghost["wrPost"] != nil, "the deadline is not changed") {
				return
			}
			d := st.Lin(st.N(st.Ghost["arg:t"])).Sub(st.Lin(st.N(st.Ghost["wrPost"])).Mul(1000000))
			p.True(ai.GE(d, ai.K(0)), "the deadline is later than the given time")
			p.True(ai.LTc(d, ai.K(1000000)), "the deadline is earlier than the given time")
		})
	}
	// construction, registration and the background task
	if prop == "C26" || prop == "C28" {
		return
	}
	bg := func(st *ai.State) {
		if st.Choose(2) == 1 && r.once != nil {
			// started before
			g := st.GlobalPtr(r.once).(ai.VPtr)
			st.SetCell(g, ai.VInt{L: ai.K(1)})
			st.Ghost["bgDone"] = ai.VBool{B: true}
		}
	}
	started := func(st *ai.State, p *Post) {
		if prop == "C29" {
			p.Ok(gb(st, "bgDone"), "the background task is not started")
		}
	}
	run("verifNew", "with a callback", func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val {
		bg(st)
		delete(st.Ghost, "S")
		return []ai.Val{r.fnVal(st, "cb", f.Params[0].Type())}
	}, func(st *ai.State, p *Post) {
		started(st, p)
		s, ok := st.Ghost["S"]
		if prop == "C29" && p.Ok(ok && gb(st, "reg:S"), "the new cache is not registered for trimming") {
			p.Same(st.Result[0], s, "the cache registered is not the one returned")
		}
		if q, ok := st.N(st.Result[0]).(ai.VPtr); p.Ok(ok, "no cache is returned") && prop == "C27" {
			p.Same(st.Heap[q.O].V.(ai.VStruct).F[r.cb], ai.Named("cb", nil), "the callback configured is not the given one")
		}
	})
	run("verifNewPlain", "without a callback", func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val {
		bg(st)
		delete(st.Ghost, "S")
		return nil
	}, func(st *ai.State, p *Post) {
		started(st, p)
		s, ok := st.Ghost["S"]
		if prop == "C29" && p.Ok(ok && gb(st, "reg:S"), "the new cache is not registered for trimming") {
			p.Same(st.Result[0], s, "the cache registered is not the one returned")
		}
		if q, ok := st.N(st.Result[0]).(ai.VPtr); p.Ok(ok, "no cache is returned") && prop == "C27" {
			p.Same(st.Heap[q.O].V.(ai.VStruct).F[r.cb], ai.VNil{}, "a callback is configured although none was given")
		}
	})
	if prop == "C27" {
		return
	}
	run("SyncCache.Start", "any", func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val {
		bg(st)
		return []ai.Val{S}
	}, func(st *ai.State, p *Post) {
		started(st, p)
		if prop == "C29" {
			p.Ok(gb(st, "reg:S"), "the cache is not registered for trimming")
		}
	})
	run("SyncCache.Close", "registered", func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val {
		st.Ghost["reg:S"] = ai.VBool{B: true}
		return []ai.Val{S}
	}, func(st *ai.State, p *Post) {
		if prop == "C29" {
			p.Ok(!gb(st, "reg:S"), "the cache is still registered after closing")
		}
	})
	run("verifTwo", "two caches, one started twice", func(st *ai.State, f *ssa.Function, S, k ai.Val) []ai.Val {
		S2 := ai.VPtr{O: st.AllocObj(&ai.Obj{Typ: r.sc, V: st.Zero(r.sc), Name: "cache2"})}
		st.Ghost["S2"] = S2
		st.Ghost["reg:S2"] = ai.VBool{}
		return []ai.Val{S, S2}
	}, func(st *ai.State, p *Post) {
		started(st, p)
		if prop == "C29" {
			p.Ok(gb(st, "reg:S") && gb(st, "reg:S2"), "a started cache is not registered")
		}
	})
	if prop == "C29" || prop == "C23" {
		c.Run(Scenario{Name: "background task", Pkg: "synccache", Fn: "SyncCache.Start", Inits: []string{"synccache"}, NoFinal: true,
			Hooks: func(e *ai.Engine) { r.fn = "background"; r.hooks(e) },
			Init: func(st *ai.State, f *ssa.Function) []ai.Val {
				S := r.mk(st)
				k := ai.Named("cacheKey", types.NewInterfaceType(nil, nil))
				st.Assume(ai.Not(st.CmpEq(k, ai.VNil{})))
				st.Ghost["regKey"], st.Ghost["follow"] = k, ai.VBool{B: true}
				st.Ghost["quiet"] = ai.VBool{B: true}
				return []ai.Val{S}
			},
			Post: func(st *ai.State, p *Post) { checks(st, p) }})
	}
	if r.races != nil {
		r.races.report(c, "synccache")
	}
}

// initExp: the deadline an entry was created with.
func (r *scT) initExp(st *ai.State, e ai.Val) ai.Lin {
	if x, ok := st.Ghost["exp0"]; ok {
		return st.Lin(st.N(x))
	}
	return r.expOf(st, e)
}
