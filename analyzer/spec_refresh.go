package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	rule := "every exported method of the three refresh caches is interpreted on every cache state, with arbitrary interference by concurrent refreshes (while the lock is free) and clears (always) before every shared access; "
	register("C30", rule+"a refresh runs only under the lock after a check made under the lock found neither an unexpired value nor an unexpired error; a cached result is returned only if unexpired at the time of the check", func(c *Ctx) { runRefresh(c) })
	register("C31", rule+"the cells of the cache when the lock is released after a refresh must be exactly those of its outcome (success, failure, panic); the refresh function's context and arguments are compared with the prescribed ones", func(c *Ctx) { runRefresh(c) })
	register("C32", rule+"each value carries its version; a value returned as fresh must be at least as new as the timestamp judged fresh, every timestamp is stored after its value, published values are never written again", func(c *Ctx) { runRefresh(c) })
	register("C33", rule+"the clear function is called exactly once, after the timestamp was reset, with the previous value and the caller's arguments, and its error is returned", func(c *Ctx) { runRefresh(c) })
}

type rcT struct {
	c     *Ctx
	pkg   string
	args  int // 0 variadic, 1 none, 2 one
	races *raceLog

	rd                                             types.Type
	err, data, last, maxAge, lastErr, errAge, lock int
	// RefreshCache
	rc            types.Type
	emb, rfn, cfn int
	valT, errT    types.Type
	key           types.Type
}

var rcPkgs = []string{"refreshcache", "refreshcache0", "refreshcache1"}

func isAtomicPtrTo(pred func(types.Type) bool) func(types.Type) bool {
	return func(t types.Type) bool {
		n, ok := types.Unalias(t).(*types.Named)
		return ok && n.Obj().Name() == "Pointer" && n.TypeArgs().Len() == 1 && pred(n.TypeArgs().At(0))
	}
}

func isMutexT(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && strings.HasSuffix(n.Obj().Name(), "Mutex")
}

// accessorField: the only field of the receiver the named method touches.
func accessorField(e *ai.Engine, pkg, name string) int {
	fn := e.Fn(pkg, name)
	hit := -1
	if fn != nil {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && fa.X == fn.Params[0] {
					if hit >= 0 && hit != fa.Field {
						return -1
					}
					hit = fa.Field
				}
			}
		}
	}
	return hit
}

func (r *rcT) resolve(e *ai.Engine) {
	p := e.Pkgs[e.Module+"/"+r.pkg]
	if p == nil {
		ai.Undecided("package %s not found", r.pkg)
	}
	tn := func(n string) types.Type {
		o := p.Pkg.Scope().Lookup(n)
		if o == nil {
			ai.Undecided("%s.%s not found", r.pkg, n)
		}
		return o.Type()
	}
	r.rd = tn("RefreshData")
	r.rc = tn("RefreshCache")
	byAcc := func(field, acc string) int {
		if i := fieldIndex(r.rd, field); i >= 0 {
			return i
		}
		i := accessorField(e, r.pkg, "RefreshData."+acc)
		if i < 0 {
			ai.Undecided("%s.RefreshData has no field %s", r.pkg, field)
		}
		return i
	}
	r.valT = typeArg(r.rd, 0)
	r.errT = types.Universe.Lookup("error").Type()
	r.err = roleField(r.rd, "err", isAtomicPtrTo(func(t types.Type) bool { return types.Identical(t, r.errT) }))
	r.data = roleField(r.rd, "data", isAtomicPtrTo(func(t types.Type) bool { _, ok := t.(*types.TypeParam); return ok }))
	r.last, r.maxAge = byAcc("last", "Last"), byAcc("maxAge", "MaxAge")
	r.lastErr, r.errAge = byAcc("lastErr", "LastErr"), byAcc("errAge", "MaxErrAge")
	r.lock = roleField(r.rd, "lock", isMutexT)
	r.emb = mustField(r.rc, "RefreshData")
	r.rfn, r.cfn = mustField(r.rc, "RefreshFunc"), mustField(r.rc, "ClearFunc")
	if o := p.Pkg.Scope().Lookup("OldValKey"); o != nil {
		r.key = o.Type()
	} else {
		ai.Undecided("%s.OldValKey not found", r.pkg)
	}
}

func (r *rcT) R(st *ai.State) ai.VPtr { return st.N(st.Ghost["R"]).(ai.VPtr) }

func (r *rcT) cell(st *ai.State, f int) ai.Val {
	return st.N(st.Heap[r.R(st).O].V.(ai.VStruct).F[f])
}

func (r *rcT) setCell(st *ai.State, f int, v ai.Val) { st.SetField(r.R(st), f, v) }

func (r *rcT) box(st *ai.State, t types.Type, v ai.Val) ai.Val {
	return ai.VPtr{O: st.AllocObj(&ai.Obj{Typ: t, V: v})}
}

func (r *rcT) held(st *ai.State) bool {
	b, ok := st.Known(ai.EQ(st.Lin(r.cell(st, r.lock)), ai.K(1)))
	return ok && b
}

func gl(st *ai.State, k string) ai.Lin { return st.Lin(st.N(st.Ghost[k])) }

func (r *rcT) flag(st *ai.State, prop, f string, a ...interface{}) {
	k := "bad:" + prop
	if _, ok := st.Ghost[k]; !ok {
		st.Ghost[k] = ai.VStr{S: fmt.Sprintf(f, a...) + " at " + st.Pos()}
	}
}

// havoc: any number of complete or partial steps of other calls, lock free.
func (r *rcT) havoc(st *ai.State) {
	mono := func(k string) ai.Lin {
		n := st.E.FreshSym()
		st.Assume(ai.GE(n, gl(st, k)))
		st.Ghost[k] = ai.VInt{L: n}
		return n
	}
	now := st.Now()
	for _, x := range []struct {
		v, t      string
		box, cell int
		ty        types.Type
		base      string
	}{{"vd", "vl", r.data, r.last, r.valT, "ver"}, {"ve", "vle", r.err, r.lastErr, r.errT, "errs"}} {
		vd := mono(x.v)
		vl := mono(x.t)
		st.Assume(ai.LE(st.NL(vl), st.NL(vd)))
		l := st.E.FreshSym()
		st.Assume(ai.GE(l, ai.K(0)))
		st.Assume(ai.LE(l, now))
		r.setCell(st, x.box, r.box(st, x.ty, ai.At(x.base, st.NL(vd), x.ty)))
		r.setCell(st, x.cell, ai.VInt{L: st.NL(l)})
	}
	st.Ghost["own:last"], st.Ghost["own:lastErr"] = ai.VBool{}, ai.VBool{}
}

// interfere: what other calls may do before the next shared access.
// Their effect on a timestamp under the lock (a clear) is applied when the timestamp is next read.
func (r *rcT) interfere(st *ai.State, f int) {
	if _, ok := st.Ghost["quiet"]; ok {
		return
	}
	if !r.held(st) {
		r.havoc(st)
		return
	}
	if f == r.last || f == r.lastErr {
		if known(st, ai.EQ(st.Lin(r.cell(st, f)), ai.K(0))) {
			return
		}
		if st.Choose(2) == 1 {
			r.setCell(st, f, ai.VInt{L: ai.K(0)})
		}
	}
}

// field: the cell of the shared cache a pointer names, -1 if another object.
func (r *rcT) field(st *ai.State, p ai.Val) int {
	x, ok := p.(ai.VPtr)
	if !ok || x.O != r.R(st).O {
		return -1
	}
	for _, f := range []int{r.err, r.data, r.last, r.maxAge, r.lastErr, r.errAge, r.lock} {
		if x.P == fmt.Sprint(f) || x.P == fmt.Sprintf(".%d", f) {
			return f
		}
	}
	return -1
}

func (r *rcT) isC(st *ai.State, p ai.Val, f int) bool {
	c, ok := st.Ghost["C"].(ai.VPtr)
	x, ok2 := p.(ai.VPtr)
	return ok && ok2 && x.O == c.O && (x.P == fmt.Sprint(f) || x.P == fmt.Sprintf(".%d", f))
}

func known(st *ai.State, c ai.Val) bool {
	b, ok := st.Known(c)
	return ok && b
}

func (r *rcT) hooks(e *ai.Engine) {
	e.TrackShared = true
	shared := func(f int) bool { return f == r.err || f == r.data || f == r.last || f == r.lastErr }
	pre := func(st *ai.State, p ai.Val) { // before a read
		if f := r.field(st, p); f >= 0 && shared(f) {
			r.interfere(st, f)
		}
		if r.isC(st, p, r.rfn) {
			n := st.E.FreshSym()
			st.Assume(ai.GE(n, gl(st, "vrf")))
			st.Ghost["vrf"] = ai.VInt{L: st.NL(n)}
			st.SetField(st.Ghost["C"].(ai.VPtr), r.rfn, r.box(st, r.fnT(st, r.rfn), ai.At("rf", st.NL(n), r.fnT(st, r.rfn))))
		}
	}
	e.Atomic = func(a *ai.AtomicOp) bool {
		if !a.After {
			if f := r.field(a.St, a.Ptr); a.Op == "CAS" && (f == r.data || f == r.err) {
				ai.Undecided("compare-and-swap on the value pointer")
			}
			if a.Op != "Store" {
				pre(a.St, a.Ptr)
			}
			return true
		}
		return false
	}
	e.OnAccess = func(st *ai.State, p ai.Val, t types.Type, k ai.AccessKind) {
		if r.races != nil {
			r.races.access(st, p, k, r.held(st))
		}
		if k == ai.AccRead {
			pre(st, p)
		}
		if k == ai.AccWrite || k == ai.AccAtomicWrite {
			if x, ok := p.(ai.VPtr); ok && st.IsShared(x.O) && x.O != r.R(st).O {
				if t := st.Heap[x.O].Typ; t != nil && (types.Identical(t, r.valT) || types.Identical(t, r.errT)) {
					r.flag(st, "C32", "a value that is already published is written again")
				}
			}
		}
	}
	e.AfterAccess = func(st *ai.State, p ai.Val, t types.Type, v ai.Val, k ai.AccessKind) {
		f := r.field(st, p)
		if f < 0 || !shared(f) {
			return
		}
		n := int(gl(st, "nev").C)
		st.Ghost["nev"] = ai.VInt{L: ai.K(int64(n + 1))}
		if k == ai.AccRead || k == ai.AccAtomicRead {
			switch f {
			case r.last:
				st.Ghost[fmt.Sprintf("ld:last:%d", n)] = ai.VTuple{F: []ai.Val{v, st.Ghost["vl"], ai.VBool{B: r.held(st)}}}
				if known(st, ai.EQ(st.Lin(v), ai.K(0))) {
					st.Ghost["zeroed"] = ai.VBool{B: true}
				}
			case r.lastErr:
				st.Ghost[fmt.Sprintf("ld:lastErr:%d", n)] = ai.VTuple{F: []ai.Val{v, st.Ghost["vle"], ai.VBool{B: r.held(st)}}}
			}
			return
		}
		r.wrote(st, f, v)
	}
	e.Lock = func(st *ai.State, p ai.Val, op string) {
		if r.field(st, p) != r.lock {
			return
		}
		switch op {
		case "Lock", "RLock":
			if !r.held(st) {
				r.interfere(st, -1)
			}
			st.Ghost["tref"] = ai.VInt{L: st.Now()}
			if _, ok := st.Ghost["vrf"]; ok {
				st.Ghost["rfLock"] = st.Ghost["vrf"]
			}
		default:
			r.released(st)
		}
	}
	e.OnCallback = r.callback
}

func (r *rcT) fnT(st *ai.State, f int) types.Type {
	n := types.Unalias(r.rc.Underlying().(*types.Struct).Field(f).Type()).(*types.Named)
	return n.TypeArgs().At(0)
}

func (r *rcT) content(st *ai.State, f int) ai.Val {
	p, ok := r.cell(st, f).(ai.VPtr)
	if !ok || st.Heap[p.O] == nil {
		return ai.VNil{}
	}
	return st.N(st.Heap[p.O].V)
}

// wrote: this call stored v into the shared cell f.
func (r *rcT) wrote(st *ai.State, f int, v ai.Val) {
	held := r.held(st)
	out, _ := st.Ghost["out"].(ai.VStr)
	switch f {
	case r.data:
		if !held {
			r.flag(st, "C32", "a value is published without the lock")
		}
		if _, ok := st.N(v).(ai.VPtr); !ok {
			r.flag(st, "C32", "a nil value is published")
		}
		if out.S != "ok" {
			r.flag(st, "C31", "a value is published although no refresh succeeded")
		}
		st.Ghost["vd"] = ai.VInt{L: gl(st, "vd").AddC(1)}
	case r.err:
		if !held {
			r.flag(st, "C32", "an error is published without the lock")
		}
		if _, ok := st.N(v).(ai.VPtr); !ok {
			r.flag(st, "C32", "a nil error box is published")
		}
		st.Ghost["ve"] = ai.VInt{L: gl(st, "ve").AddC(1)}
	case r.last:
		if known(st, ai.EQ(st.Lin(v), ai.K(0))) {
			st.Ghost["zeroed"] = ai.VBool{B: true}
			return
		}
		if !held {
			r.flag(st, "C32", "a timestamp is stored without the lock")
		}
		if _, ok := st.Ghost["clearing"]; ok {
			r.flag(st, "C33", "clearing gives the cached value a timestamp")
		}
		if out.S != "ok" {
			r.flag(st, "C31", "a success is recorded although no refresh succeeded")
		}
		if !ai.Same(r.content(st, r.data), st.N(ai.Named("nv", r.valT))) {
			r.flag(st, "C32", "the timestamp is stored before the value it belongs to")
		}
		if !r.between(st, v) {
			r.flag(st, "C31", "the timestamp is not the time of the refresh")
		}
		st.Ghost["own:last"] = ai.VBool{B: true}
		st.Ghost["vl"] = st.Ghost["vd"]
	case r.lastErr:
		if known(st, ai.EQ(st.Lin(v), ai.K(0))) {
			return
		}
		if !held {
			r.flag(st, "C32", "an error timestamp is stored without the lock")
		}
		if out.S != "fail" {
			r.flag(st, "C31", "a failure is recorded although no refresh failed")
		}
		if !ai.Same(r.content(st, r.err), st.N(ai.Named("ferr", r.errT))) {
			r.flag(st, "C32", "the error timestamp is stored before the error it belongs to")
		}
		if !r.between(st, v) {
			r.flag(st, "C31", "the error timestamp is not the time of the refresh")
		}
		st.Ghost["own:lastErr"] = ai.VBool{B: true}
		st.Ghost["vle"] = st.Ghost["ve"]
	}
}

// between: v is a time between the call of the refresh function and now.
func (r *rcT) between(st *ai.State, v ai.Val) bool {
	l := st.Lin(v)
	if _, ok := st.Ghost["tcb"]; !ok {
		return false
	}
	return known(st, ai.GE(l, gl(st, "tcb"))) && known(st, ai.LE(l, gl(st, "now")))
}

// released: the lock is about to be released.
func (r *rcT) released(st *ai.State) {
	out, ok := st.Ghost["out"].(ai.VStr)
	if !ok {
		return
	}
	st.Ghost["recorded"] = ai.VBool{B: true}
	zero := func(f int) bool { return known(st, ai.EQ(st.Lin(r.cell(st, f)), ai.K(0))) }
	own := func(k string) bool { b, _ := st.Ghost["own:"+k].(ai.VBool); return b.B }
	switch out.S {
	case "ok":
		if !ai.Same(r.content(st, r.data), st.N(ai.Named("nv", r.valT))) {
			r.flag(st, "C31", "after a successful refresh its value is not the cached one")
		}
		if !own("last") {
			r.flag(st, "C31", "a successful refresh is not timestamped")
		}
		if !zero(r.lastErr) {
			r.flag(st, "C31", "a successful refresh does not end the cached error")
		}
	case "fail":
		if !ai.Same(r.content(st, r.data), st.N(st.Ghost["prev"])) {
			r.flag(st, "C31", "a failed refresh changes the cached value")
		}
		if !zero(r.last) {
			r.flag(st, "C31", "after a failed refresh the previous value is not expired")
		}
		if !ai.Same(r.content(st, r.err), st.N(ai.Named("ferr", r.errT))) {
			r.flag(st, "C31", "a failed refresh does not cache its error")
		}
		if !own("lastErr") {
			r.flag(st, "C31", "a failed refresh is not timestamped")
		}
	case "panic":
		if !ai.Same(r.content(st, r.data), st.N(st.Ghost["prev"])) {
			r.flag(st, "C31", "a panicking refresh changes the cached value")
		}
	}
}

// loads lists the recorded loads of a timestamp.
func (r *rcT) loads(st *ai.State, which string) []ai.VTuple {
	var out []ai.VTuple
	for _, k := range sortedKeys(st.Ghost) {
		if strings.HasPrefix(k, "ld:"+which+":") {
			out = append(out, st.N(st.Ghost[k]).(ai.VTuple))
		}
	}
	return out
}

// stale: a check made under the lock found the timestamp expired or absent (at time t).
func (r *rcT) stale(st *ai.State, which string, age int, t ai.Lin) bool {
	a := st.Lin(r.cell(st, age))
	if which == "lastErr" && known(st, ai.LE(a, ai.K(0))) {
		return true
	}
	for _, l := range r.loads(st, which) {
		v := st.Lin(l.F[0])
		if b, _ := l.F[2].(ai.VBool); !b.B {
			continue
		}
		if known(st, ai.LE(v, ai.K(0))) {
			return true
		}
		if known(st, ai.GE(a, ai.K(0))) && known(st, ai.GE(t.Sub(v), a)) {
			return true
		}
	}
	return false
}

// fresh: a load found the timestamp unexpired at the reference time; returns the versions it may belong to.
func (r *rcT) fresh(st *ai.State, which string, age int, ver ai.Lin) bool {
	a := st.Lin(r.cell(st, age))
	t := gl(st, "tref")
	for _, l := range r.loads(st, which) {
		v := st.Lin(l.F[0])
		if !known(st, ai.GE(v, ai.K(1))) {
			continue
		}
		ok := known(st, ai.LTc(t.Sub(v), a))
		if which == "last" && known(st, ai.LTc(a, ai.K(0))) {
			ok = true
		}
		if which == "lastErr" && !known(st, ai.GE(a, ai.K(1))) {
			ok = false
		}
		if ok && known(st, ai.GE(ver, st.Lin(l.F[1]))) {
			return true
		}
	}
	return false
}

func atIdx(v ai.Val, base string) (ai.Lin, bool) {
	e := ai.ElemOf(v)
	if e == nil || e.Base != base {
		return ai.Lin{}, false
	}
	return e.Off, true
}

func (r *rcT) callback(cb *ai.Callback) ai.Val {
	st := cb.St
	name := ""
	if t, ok := cb.F.(ai.VTerm); ok {
		name = t.T.Op
	}
	if x, ok := atIdx(cb.F, "rf"); ok {
		name = "refreshFunc"
		if !known(st, ai.GE(x, gl(st, "vrf0"))) {
			r.flag(st, "C33", "a refresh function that was replaced before the call is used")
		}
		if _, ok := st.Ghost["rfLock"]; !ok || !known(st, ai.LE(x, gl(st, "rfLock"))) {
			r.flag(st, "C33", "the refresh function used is not the one configured when the call started")
		}
	}
	// context and arguments
	prop := "C31"
	if name == "clearFunc" {
		prop = "C33"
	}
	if len(cb.Args) == 0 {
		r.flag(st, prop, "no context is passed")
	} else {
		okc := false
		if t, ok := st.N(cb.Args[0]).(ai.VTerm); ok && t.T.Op == "ctxval" && len(t.T.A) == 3 {
			k, isI := t.T.A[1].(ai.VIface)
			okc = ai.Same(t.T.A[0], ai.Named("ctx", nil)) && isI && types.Identical(k.T, r.key)
			v := t.T.A[2]
			if i, isI := v.(ai.VIface); isI {
				v = i.V
			}
			if name == "refreshFunc" {
				okc = okc && ai.Same(st.N(v), r.content(st, r.data))
			} else {
				x, isV := atIdx(st.N(v), "ver")
				okc = okc && isV && known(st, ai.GE(x, gl(st, "vd0")))
			}
		}
		if !okc {
			r.flag(st, prop, "the context does not carry the previous value (%s)", ai.Key(st.N(cb.Args[0])))
		}
		want := []ai.Val{st.Ghost["args"]}
		if r.args == 1 {
			want = nil
		}
		okA := len(cb.Args) == 1+len(want)
		if okA && len(want) == 1 {
			a, b := st.N(cb.Args[1]), st.N(want[0])
			okA = ai.Same(a, b)
			if sa, ok := a.(ai.VSlice); ok && !okA {
				if sb, ok := b.(ai.VSlice); ok {
					okA = known(st, ai.EQ(sa.Len, sb.Len)) && ai.PiecesKey(st.NormPieces(st.Pieces(sa.O, sa.Off, sa.Off.Add(sa.Len)))) == ai.PiecesKey(st.NormPieces(st.Pieces(sb.O, sb.Off, sb.Off.Add(sb.Len))))
				}
			}
		}
		if !okA {
			r.flag(st, prop, "the caller's arguments are not passed on unchanged")
		}
	}
	switch name {
	case "refreshFunc":
		st.Ghost["calls"] = ai.VInt{L: gl(st, "calls").AddC(1)}
		if !r.held(st) {
			r.flag(st, "C30", "the refresh function runs without exclusive access")
		}
		t := st.Now()
		st.Ghost["tcb"] = ai.VInt{L: t}
		if b, _ := st.Ghost["get"].(ai.VBool); b.B {
			if !r.stale(st, "last", r.maxAge, t) {
				r.flag(st, "C30", "a get refreshes although the value was not found expired under the lock")
			}
			if !r.stale(st, "lastErr", r.errAge, t) {
				r.flag(st, "C30", "a get refreshes although the cached error was not found expired under the lock")
			}
		}
		st.Ghost["prev"] = r.content(st, r.data)
		switch st.Choose(3) {
		case 0:
			st.Ghost["out"] = ai.VStr{S: "ok"}
			return ai.VTuple{F: []ai.Val{ai.Named("nv", r.valT), ai.VNil{}}}
		case 1:
			st.Ghost["out"] = ai.VStr{S: "fail"}
			e := ai.Named("ferr", r.errT)
			st.Assume(ai.Not(st.CmpEq(e, ai.VNil{})))
			return ai.VTuple{F: []ai.Val{ai.Named("fv", r.valT), e}}
		}
		st.Ghost["out"] = ai.VStr{S: "panic"}
		cb.Panics = true
		return nil
	case "clearFunc":
		st.Ghost["clears"] = ai.VInt{L: gl(st, "clears").AddC(1)}
		if b, _ := st.Ghost["zeroed"].(ai.VBool); !b.B {
			r.flag(st, "C33", "the clear function runs before the cached value was marked expired")
		}
		if st.Choose(2) == 1 {
			st.Ghost["out"] = ai.VStr{S: "cpanic"}
			cb.Panics = true
			return nil
		}
		return ai.Named("clearErr", r.errT)
	}
	ai.Undecided("call of unknown function %s", ai.Key(cb.F))
	return nil
}

// mk builds an arbitrary cache state.
func (r *rcT) mk(st *ai.State) ai.Val {
	f := append([]ai.Val(nil), st.Zero(r.rd).(ai.VStruct).F...)
	R := ai.VPtr{O: st.AllocObj(&ai.Obj{Typ: r.rd, V: ai.VStruct{F: f}, Name: "cache"})}
	st.Ghost["R"] = R
	for _, k := range []string{"vd", "vl", "ve", "vle"} {
		n := st.E.FreshSym()
		st.Assume(ai.GE(n, ai.K(0)))
		st.Ghost[k] = ai.VInt{L: n}
	}
	for _, k := range []string{"calls", "clears", "nev"} {
		st.Ghost[k] = ai.VInt{L: ai.K(0)}
	}
	st.SetField(R, r.maxAge, ai.VInt{L: st.E.FreshSym()})
	st.SetField(R, r.errAge, ai.VInt{L: st.E.FreshSym()})
	st.Ghost["maxAge"], st.Ghost["errAge"] = r.cell(st, r.maxAge), r.cell(st, r.errAge)
	r.havoc(st)
	st.Ghost["vd0"], st.Ghost["vl0"] = st.Ghost["vd"], st.Ghost["vl"]
	st.Ghost["tref"] = ai.VInt{L: st.Now()}
	return R
}

func (r *rcT) mkC(st *ai.State, clearKind int) ai.Val {
	R := r.mk(st)
	f := append([]ai.Val(nil), st.Zero(r.rc).(ai.VStruct).F...)
	C := ai.VPtr{O: st.AllocObj(&ai.Obj{Typ: r.rc, V: ai.VStruct{F: f}, Name: "refreshcache"})}
	st.SetField(C, r.emb, R)
	n := st.E.FreshSym()
	st.Ghost["vrf"], st.Ghost["vrf0"] = ai.VInt{L: n}, ai.VInt{L: n}
	st.SetField(C, r.rfn, r.box(st, r.fnT(st, r.rfn), ai.At("rf", n, r.fnT(st, r.rfn))))
	switch clearKind {
	case 1:
		st.SetField(C, r.cfn, r.box(st, r.fnT(st, r.cfn), ai.VNil{}))
	case 2:
		c := ai.Named("clearFunc", r.fnT(st, r.cfn))
		st.Assume(ai.Not(st.CmpEq(c, ai.VNil{})))
		st.SetField(C, r.cfn, r.box(st, r.fnT(st, r.cfn), c))
	}
	st.Ghost["C"] = C
	return C
}

func (r *rcT) callArgs(st *ai.State, f *ssa.Function, recv ai.Val, fn ai.Val) []ai.Val {
	a := []ai.Val{recv, ai.Named("ctx", nil)}
	if fn != nil {
		a = append(a, fn)
	}
	if r.args != 1 {
		i := len(a)
		v := st.Opaque(ai.Named("args", f.Params[i].Type()), f.Params[i].Type())
		st.Ghost["args"] = v
		a = append(a, v)
	}
	return a
}

// flags reports what the hooks found for this property.
func (r *rcT) flags(st *ai.State, p *Post) {
	if v, ok := st.Ghost["bad:"+r.c.Prop].(ai.VStr); ok {
		p.Ok(false, "%s", v.S)
	} else {
		r.c.Obligations++
	}
	if r.c.Prop == "C24" {
		if v, ok := st.Ghost["deadlock"].(ai.VStr); ok {
			p.Ok(false, "%s", v.S)
		}
		if _, ok := st.Ghost["R"]; ok {
			p.Ok(!r.held(st), "the lock is still held when the call ends")
		}
	}
	if r.c.Prop == "C30" {
		if _, ok := st.Ghost["R"]; ok {
			if _, fresh := st.Ghost["R-new"]; !fresh {
				p.Same(r.cell(st, r.maxAge), st.Ghost["maxAge"], "the maximum age is changed")
				p.Same(r.cell(st, r.errAge), st.Ghost["errAge"], "the error age is changed")
			}
		}
	}
}

func runRefresh(c *Ctx) {
	for i, pkg := range rcPkgs {
		runRefreshPkg(c, &rcT{c: c, pkg: pkg, args: i})
	}
}

func runRefreshPkg(c *Ctx, r *rcT) {
	r.resolve(c.E)
	prop := c.Prop
	if prop == "C23" {
		r.races = newRaceLog()
		defer r.races.report(c, r.pkg)
	}
	run := func(fn, name string, quiet bool, init func(st *ai.State, f *ssa.Function) []ai.Val, post func(st *ai.State, p *Post)) {
		c.Run(Scenario{Name: name, Pkg: r.pkg, Fn: fn, Hooks: func(e *ai.Engine) { r.hooks(e) }, MayPanic: true, Init: init, Post: func(st *ai.State, p *Post) {
			out, _ := st.Ghost["out"].(ai.VStr)
			if st.Panic && out.S != "panic" && out.S != "cpanic" {
				p.fail("violated", "panics: "+ai.Key(st.PanicVal))
				return
			}
			r.flags(st, p)
			if prop != "C23" && prop != "C24" {
				post(st, p)
			}
		}})
	}
	nonnil := func(st *ai.State, name string, t types.Type) ai.Val {
		f := ai.Named(name, t)
		st.Assume(ai.Not(st.CmpEq(f, ai.VNil{})))
		return f
	}
	outcome := func(st *ai.State, p *Post) bool {
		out, ok := st.Ghost["out"].(ai.VStr)
		if !ok {
			return false
		}
		if prop != "C31" {
			return true
		}
		p.True(ai.EQ(gl(st, "calls"), ai.K(1)), "the refresh function is not called exactly once")
		rec, _ := st.Ghost["recorded"].(ai.VBool)
		p.Ok(rec.B, "the outcome is not recorded under the lock")
		switch out.S {
		case "ok":
			if p.Ok(!st.Panic, "a successful refresh panics") {
				p.Same(st.Result[0], ai.Named("nv", nil), "the value of the refresh is not returned")
				p.Same(st.Result[1], ai.VNil{}, "a successful refresh returns an error")
			}
		case "fail":
			if p.Ok(!st.Panic, "a failed refresh panics") {
				p.Same(st.Result[1], ai.Named("ferr", nil), "the error of the refresh is not returned")
			}
		case "panic":
			p.Ok(st.Panic, "the panic of the refresh function is swallowed")
		}
		return true
	}
	cached := func(st *ai.State, p *Post, raw bool) {
		if _, ok := st.N(st.Result[1]).(ai.VNil); ok {
			x, isV := atIdx(st.N(st.Result[0]), "ver")
			if prop == "C30" || prop == "C32" {
				if p.Ok(isV, "a cached result that is not the cached value (%s)", ai.Key(st.N(st.Result[0]))) {
					p.Ok(r.fresh(st, "last", r.maxAge, x), "a value is returned as unexpired without a timestamp judged unexpired, or one older than that timestamp")
				}
			}
			return
		}
		y, isE := atIdx(st.N(st.Result[1]), "errs")
		x, isV := atIdx(st.N(st.Result[0]), "ver")
		if raw && isE && isV {
			// neither is fresh: the last outcome as it is
			if prop == "C32" {
				p.Ok(known(st, ai.GE(x, gl(st, "vd0"))), "an outdated value is returned")
			}
			return
		}
		if prop == "C30" || prop == "C32" {
			if p.Ok(isE, "a cached result whose error is not the cached one (%s)", ai.Key(st.N(st.Result[1]))) {
				p.Ok(r.fresh(st, "lastErr", r.errAge, y), "an error is returned as unexpired without a timestamp judged unexpired, or one older than that timestamp")
			}
		}
	}
	for _, onC := range []bool{false, true} {
		onC := onC
		ty := "RefreshData"
		if onC {
			ty = "RefreshCache"
		}
		mk := func(st *ai.State, f *ssa.Function, get bool) []ai.Val {
			st.Ghost["get"] = ai.VBool{B: get}
			if onC {
				return r.callArgs(st, f, r.mkC(st, 2), nil)
			}
			R := r.mk(st)
			return r.callArgs(st, f, R, nonnil(st, "refreshFunc", f.Params[2].Type()))
		}
		run(ty+".Get", "any state", false, func(st *ai.State, f *ssa.Function) []ai.Val { return mk(st, f, true) }, func(st *ai.State, p *Post) {
			if !outcome(st, p) {
				cached(st, p, false)
				if prop == "C31" {
					p.c.Obligations++
				}
			}
			if prop == "C30" {
				p.True(ai.LE(gl(st, "calls"), ai.K(1)), "the refresh function is called more than once")
			}
		})
		run(ty+".Refresh", "any state", false, func(st *ai.State, f *ssa.Function) []ai.Val { return mk(st, f, false) }, func(st *ai.State, p *Post) {
			if prop == "C30" {
				p.True(ai.EQ(gl(st, "calls"), ai.K(1)), "an explicit refresh does not call the refresh function exactly once")
			}
			p.Ok(outcome(st, p), "an explicit refresh does not refresh")
		})
		for k := 0; k < 3; k++ {
			k := k
			if !onC && k == 1 {
				continue
			}
			run(ty+".Clear", []string{"no clear function", "nil clear function", "clear function"}[k], false, func(st *ai.State, f *ssa.Function) []ai.Val {
				st.Ghost["clearing"] = ai.VBool{B: true}
				if onC {
					return r.callArgs(st, f, r.mkC(st, k), nil)
				}
				R := r.mk(st)
				if k == 0 {
					return r.callArgs(st, f, R, ai.VNil{})
				}
				return r.callArgs(st, f, R, nonnil(st, "clearFunc", f.Params[2].Type()))
			}, func(st *ai.State, p *Post) {
				if prop != "C33" {
					return
				}
				z, _ := st.Ghost["zeroed"].(ai.VBool)
				p.Ok(z.B, "clearing does not mark the cached value expired")
				p.True(ai.EQ(gl(st, "calls"), ai.K(0)), "clearing refreshes")
				p.Ok(ai.Same(r.content(st, r.data), st.N(st.Ghost["v0"])) || known(st, ai.GE(gl(st, "vd"), gl(st, "vd0"))), "clearing changes the value")
				if k == 2 {
					p.True(ai.EQ(gl(st, "clears"), ai.K(1)), "the clear function is not called exactly once")
					if !st.Panic {
						p.Same(st.Result[0], ai.Named("clearErr", nil), "the error of the clear function is not returned")
					}
				} else {
					p.True(ai.EQ(gl(st, "clears"), ai.K(0)), "a clear function that is not configured is called")
					p.Same(st.Result[0], ai.VNil{}, "clearing without a clear function fails")
				}
			})
		}
	}
	run("RefreshData.Raw", "any state", false, func(st *ai.State, f *ssa.Function) []ai.Val { return []ai.Val{r.mk(st)} }, func(st *ai.State, p *Post) {
		cached(st, p, true)
		p.True(ai.EQ(gl(st, "calls"), ai.K(0)), "a raw read refreshes")
	})
	// accessors
	for _, a := range []struct {
		fn    string
		field int
		time  bool
	}{{"Last", r.last, false}, {"LastErr", r.lastErr, false}, {"MaxAge", r.maxAge, false}, {"MaxErrAge", r.errAge, false}, {"LastTime", r.last, true}, {"LastErrTime", r.lastErr, true}} {
		a := a
		run("RefreshData."+a.fn, "any state", true, func(st *ai.State, f *ssa.Function) []ai.Val {
			R := r.mk(st)
			st.Ghost["quiet"] = ai.VBool{B: true}
			return []ai.Val{R}
		}, func(st *ai.State, p *Post) {
			want := r.cell(st, a.field)
			if a.time {
				want = st.N(ai.TimeVal(st.Lin(want)))
			}
			if prop == "C31" {
				p.Same(st.Result[0], want, "%s does not report the recorded time", a.fn)
			}
		})
	}
	if prop == "C33" || prop == "C23" || prop == "C24" {
		run("RefreshCache.SetRefreshFunc", "any state", true, func(st *ai.State, f *ssa.Function) []ai.Val {
			return []ai.Val{r.mkC(st, 2), ai.Named("newFn", f.Params[1].Type())}
		}, func(st *ai.State, p *Post) {
			p.Ok(r.boxHolds(st, r.rfn, "newFn"), "the refresh function is not replaced")
			p.Ok(r.boxHolds(st, r.cfn, "clearFunc"), "the clear function changes")
		})
		run("RefreshCache.SetClearFunc", "any state", true, func(st *ai.State, f *ssa.Function) []ai.Val {
			return []ai.Val{r.mkC(st, 2), ai.Named("newFn", f.Params[1].Type())}
		}, func(st *ai.State, p *Post) {
			p.Ok(r.boxHolds(st, r.cfn, "newFn"), "the clear function is not replaced")
		})
		run("RefreshCache.GetRefreshFunc", "any state", true, func(st *ai.State, f *ssa.Function) []ai.Val {
			return []ai.Val{r.mkC(st, 2)}
		}, func(st *ai.State, p *Post) {
			x, ok := atIdx(st.N(st.Result[0]), "rf")
			p.Ok(ok && known(st, ai.GE(x, gl(st, "vrf0"))), "the configured refresh function is not returned")
		})
		for k := 0; k < 3; k++ {
			k := k
			run("RefreshCache.GetClearFunc", []string{"none", "nil", "set"}[k], true, func(st *ai.State, f *ssa.Function) []ai.Val {
				return []ai.Val{r.mkC(st, k)}
			}, func(st *ai.State, p *Post) {
				if k == 2 {
					p.Same(st.Result[0], ai.Named("clearFunc", nil), "the configured clear function is not returned")
				} else {
					p.Same(st.Result[0], ai.VNil{}, "a clear function although none is configured")
				}
			})
		}
		run("RefreshCache.Data", "any state", true, func(st *ai.State, f *ssa.Function) []ai.Val { return []ai.Val{r.mkC(st, 2)} }, func(st *ai.State, p *Post) {
			p.Same(st.Result[0], st.Ghost["R"], "Data does not return the cache data")
		})
	}
	// construction: never filled means no timestamps, but readable cells
	for _, withErr := range []bool{false, true} {
		withErr := withErr
		fn := "verifNew"
		if withErr {
			fn = "verifNewErr"
		}
		c.Run(Scenario{Name: "construction", Pkg: r.pkg, Fn: fn, Hooks: func(e *ai.Engine) { e.Unroll = 2 }, Init: func(st *ai.State, f *ssa.Function) []ai.Val {
			fv := nonnil(st, "newFn", f.Params[0].Type())
			a := []ai.Val{fv, ai.VInt{L: st.E.RigidSym("m")}}
			st.Ghost["m"] = a[1]
			if withErr {
				a = append(a, ai.VInt{L: st.E.RigidSym("e")})
				st.Ghost["e"] = a[2]
			}
			return a
		}, Post: func(st *ai.State, p *Post) {
			C, ok := st.N(st.Result[0]).(ai.VPtr)
			if !p.Ok(ok && st.Heap[C.O] != nil && C.P == "", "no cache is returned") {
				return
			}
			cf := st.Heap[C.O].V.(ai.VStruct).F
			st.Ghost["C"] = C
			R, ok := st.N(cf[r.emb]).(ai.VPtr)
			if !p.Ok(ok && st.Heap[R.O] != nil && R.P == "", "a cache without data") {
				return
			}
			st.Ghost["R"] = R
			zero := func(f int) bool { return known(st, ai.EQ(st.Lin(r.cell(st, f)), ai.K(0))) }
			p.Ok(zero(r.last) && zero(r.lastErr), "a new cache holds a timestamp")
			p.Ok(zero(r.lock), "a new cache is locked")
			p.Same(r.cell(st, r.maxAge), st.Ghost["m"], "the maximum age is not the requested one")
			if withErr {
				p.Same(r.cell(st, r.errAge), st.Ghost["e"], "the error age is not the requested one")
			} else {
				p.Ok(zero(r.errAge), "errors are cached although not requested")
			}
			_, ok1 := r.cell(st, r.data).(ai.VPtr)
			_, ok2 := r.cell(st, r.err).(ai.VPtr)
			p.Ok(ok1 && ok2, "a new cache has nil cells")
			p.Ok(r.boxHolds(st, r.rfn, "newFn"), "the refresh function is not configured")
		}})
	}
}

func (r *rcT) boxHolds(st *ai.State, f int, name string) bool {
	C, ok := st.N(st.Ghost["C"]).(ai.VPtr)
	if !ok {
		return false
	}
	p, ok := st.N(st.Heap[C.O].V.(ai.VStruct).F[f]).(ai.VPtr)
	return ok && st.Heap[p.O] != nil && ai.Same(st.N(st.Heap[p.O].V), ai.Named(name, nil))
}
