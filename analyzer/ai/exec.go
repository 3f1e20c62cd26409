package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RuntimePanic starts a Go panic in the top frame.
type goPanic struct{ v Val }

func (st *State) RuntimePanic(msg string) {
	panic(goPanic{VTerm{&Term{Op: "lit:panic:" + msg}}})
}

func (st *State) constVal(c *ssa.Const, env TEnv) Val {
	t := st.E.Resolve(c.Type(), env)
	if c.Value == nil {
		return st.Zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return VBool{constant.BoolVal(c.Value)}
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger == 0 {
			return VTerm{&Term{Op: "lit:" + c.Value.ExactString(), Typ: t}}
		}
		if _, ok := types.Unalias(t).(*types.TypeParam); ok {
			return VTerm{&Term{Op: "lit:" + c.Value.ExactString(), Typ: t}}
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return VInt{K(i)}
		}
		return VTerm{&Term{Op: "lit:" + c.Value.ExactString(), Typ: t}}
	}
	return VTerm{&Term{Op: "lit:" + c.Value.ExactString(), Typ: t}}
}

// get reads an SSA value in the top frame.
func (st *State) get(v ssa.Value) Val {
	f := st.Top()
	switch x := v.(type) {
	case *ssa.Const:
		return st.constVal(x, f.TA)
	case *ssa.Function:
		return st.funcVal(x, f.TA)
	case *ssa.Global:
		return st.global(x)
	case *ssa.Builtin:
		return VBuiltin{x.Name()}
	}
	r, ok := f.Regs[v]
	if !ok {
		Undecided("register %s of %s has no value", v.Name(), f.Fn)
	}
	return r
}

func (st *State) global(g *ssa.Global) Val {
	k := "global:" + g.String()
	if v, ok := st.Ghost[k]; ok {
		return v
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	var v Val
	if st.E.IsRepo(g.Pkg.Pkg.Path()) {
		v = VPtr{O: st.AllocObj(&Obj{Typ: t, V: st.Zero(t), Name: g.String()})}
	} else {
		v = VPtr{O: st.AllocObj(&Obj{Typ: t, V: st.Opaque(Named("global:"+g.String(), t), t), Name: g.String()})}
	}
	st.Ghost[k] = v
	return v
}

func (st *State) funcVal(fn *ssa.Function, env TEnv) VFunc {
	ta := TEnv{}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	targs := fn.TypeArgs()
	tps := o.TypeParams()
	if tps != nil && len(targs) == tps.Len() {
		for i := 0; i < tps.Len(); i++ {
			ta[tps.At(i)] = st.E.Resolve(targs[i], env)
		}
	}
	if fn.Parent() != nil || fn.Synthetic != "" && len(targs) == 0 {
		for k, v := range env {
			ta[k] = v
		}
	}
	return VFunc{Fn: fn, TA: ta}
}

func (st *State) set(r ssa.Value, v Val) {
	st.Top().Regs[r] = v
}

func (st *State) typ(t types.Type) types.Type { return st.E.Resolve(t, st.Top().TA) }

// step executes one instruction. Splits surface as splitErr panics.
func (st *State) step() {
	st.jumped = false
	f := st.Top()
	if f.Panicking {
		st.unwind()
		return
	}
	in := f.Block.Instrs[f.PC]
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.PC++
	case *ssa.Phi:
		Undecided("phi outside block entry")
	case *ssa.Alloc:
		t := st.typ(x.Type().Underlying().(*types.Pointer).Elem())
		st.set(x, st.New(t, st.E.PosOf(x)))
		f.PC++
	case *ssa.BinOp:
		v := st.binop(x)
		st.set(x, v)
		f.PC++
	case *ssa.UnOp:
		st.unop(x)
	case *ssa.ChangeType:
		v := st.get(x.X)
		if _, tp := types.Unalias(x.X.Type()).(*types.TypeParam); tp && types.IsInterface(x.Type()) {
			if _, tp := types.Unalias(x.Type()).(*types.TypeParam); !tp {
				// a type parameter converted to an interface type
				if t := st.typ(x.X.Type()); !types.IsInterface(t) {
					v = VIface{t, v}
				}
			}
		}
		st.set(x, v)
		f.PC++
	case *ssa.MultiConvert:
		st.set(x, st.convert(st.get(x.X), x.X.Type(), x.Type()))
		f.PC++
	case *ssa.Convert:
		v := st.convert(st.get(x.X), x.X.Type(), x.Type())
		st.set(x, v)
		f.PC++
	case *ssa.ChangeInterface:
		st.set(x, st.get(x.X))
		f.PC++
	case *ssa.MakeInterface:
		t := st.typ(x.X.Type())
		v := st.get(x.X)
		if types.IsInterface(t) {
			if _, tp := types.Unalias(t).(*types.TypeParam); !tp {
				st.set(x, v)
				f.PC++
				return
			}
		}
		st.set(x, VIface{t, v})
		f.PC++
	case *ssa.TypeAssert:
		st.typeAssert(x)
	case *ssa.Extract:
		t, ok := st.get(x.Tuple).(VTuple)
		if !ok {
			Undecided("extract of %s", Key(st.get(x.Tuple)))
		}
		st.set(x, t.F[x.Index])
		f.PC++
	case *ssa.Field:
		st.set(x, st.getPath(st.get(x.X), []int{x.Field}))
		f.PC++
	case *ssa.FieldAddr:
		ft := st.typ(x.Type().Underlying().(*types.Pointer).Elem())
		v := st.FieldPtr(st.get(x.X), x.Field, ft)
		st.set(x, v)
		f.PC++
	case *ssa.IndexAddr:
		st.set(x, st.indexAddr(x))
		f.PC++
	case *ssa.Index:
		st.set(x, st.index(x))
		f.PC++
	case *ssa.Lookup:
		st.lookup(x)
		f.PC++
	case *ssa.MapUpdate:
		m := st.get(x.Map)
		k := st.get(x.Key)
		st.MapSet(m, k, st.get(x.Value))
		f.PC++
	case *ssa.MakeMap:
		t := st.typ(x.Type())
		st.set(x, st.NewMap(t.Underlying().(*types.Map)))
		f.PC++
	case *ssa.MakeSlice:
		n := st.lin(st.get(x.Len))
		c := st.lin(st.get(x.Cap))
		if !st.decide(GE(n, K(0))) || !st.decide(GE(c, n)) {
			st.RuntimePanic("makeslice: len out of range")
		}
		t := st.typ(x.Type())
		et := sliceElem(t)
		o := st.AllocObj(&Obj{Typ: t, New: true, Site: st.E.PosOf(x), Arr: &ArrObj{P: st.normPieces([]Piece{{Len: c, V: st.Zero(et)}})}})
		st.set(x, VSlice{o, K(0), n, c})
		f.PC++
	case *ssa.Slice:
		st.set(x, st.slice(x))
		f.PC++
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		b := make([]Val, len(x.Bindings))
		for i := range b {
			b[i] = st.get(x.Bindings[i])
		}
		v := st.funcVal(fn, f.TA)
		v.B = b
		st.set(x, v)
		f.PC++
	case *ssa.Range:
		st.set(x, st.newIter(st.get(x.X)))
		f.PC++
	case *ssa.Next:
		v := st.next(x)
		st.set(x, v)
		f.PC++
	case *ssa.Store:
		p := st.get(x.Addr)
		if q, ok := p.(VPtr); ok && q.End != 0 {
			p = st.materialise(q)
		}
		st.Store(p, st.get(x.Val), st.typ(x.Val.Type()))
		f.PC++
	case *ssa.If:
		c := st.get(x.Cond)
		b := st.decide(c)
		st.hint(c, b)
		i := 1
		if b {
			i = 0
		}
		if _, isConst := c.(VBool); !isConst {
			st.Tracef("%s: %s is %v", st.E.PosOf(x), st.E.condStr(x), b)
		}
		st.jump(f.Block.Succs[i])
	case *ssa.Jump:
		st.jump(f.Block.Succs[0])
	case *ssa.Return:
		vs := make([]Val, len(x.Results))
		for i := range vs {
			vs[i] = st.get(x.Results[i])
		}
		st.doReturn(vs)
	case *ssa.Panic:
		panic(goPanic{st.get(x.X)})
	case *ssa.Call:
		st.call(x, &x.Call)
	case *ssa.Defer:
		callee, args := st.resolveCall(&x.Call)
		f.Defers = append(f.Defers, DeferRec{Callee: callee, Args: args, Call: &x.Call, Pos: x, TA: f.TA})
		f.PC++
	case *ssa.RunDefers:
		if n := len(f.Defers); n > 0 {
			d := f.Defers[n-1]
			f.Defers = f.Defers[:n-1]
			st.invoke(nil, d.Pos, d.Callee, d.Args, d.Call, true)
			return
		}
		f.PC++
	case *ssa.Go:
		callee, args := st.resolveCall(&x.Call)
		if st.E.OnGo == nil {
			Undecided("go statement")
		}
		st.E.OnGo(st, x, callee, args)
		f.PC++
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		Undecided("channel operation")
	default:
		Undecided("instruction %T", in)
	}
}

func (st *State) jump(b *ssa.BasicBlock) {
	f := st.Top()
	f.Prev = f.Block
	f.Block = b
	f.PC = 0
	st.jumped = true
	// phis in parallel
	pi := -1
	for i, p := range b.Preds {
		if p == f.Prev {
			pi = i
			break
		}
	}
	var vals []Val
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.DebugRef); ok {
			n++
			vals = append(vals, nil)
			continue
		}
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, st.get(p.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		if p, ok := b.Instrs[i].(*ssa.Phi); ok {
			f.Regs[p] = vals[i]
		}
	}
	f.PC = n
}

func tupleVal(vs []Val) Val {
	switch len(vs) {
	case 0:
		return VTuple{}
	case 1:
		return vs[0]
	}
	return VTuple{vs}
}

func (st *State) doReturn(vs []Val) {
	f := st.Top()
	res := tupleVal(vs)
	st.Frames = st.Frames[:len(st.Frames)-1]
	if f.OnRet != nil {
		res = f.OnRet(st, res)
	}
	if len(st.Frames) == 0 {
		st.Done = true
		st.Result = vs
		if f.OnRet != nil {
			st.Result = []Val{res}
		}
		return
	}
	if f.Deferred {
		return // RunDefers (or unwinding) continues in the frame below
	}
	c := st.Top()
	if f.Call != nil {
		c.Regs[f.Call] = res
	}
	c.PC++
}

// unwind continues a panic in the top frame.
func (st *State) unwind() {
	f := st.Top()
	if n := len(f.Defers); n > 0 {
		if f.Recovered {
			// recovered: remaining deferred calls run normally
		}
		d := f.Defers[n-1]
		f.Defers = f.Defers[:n-1]
		st.invoke(nil, d.Pos, d.Callee, d.Args, d.Call, true)
		return
	}
	if f.Recovered {
		f.Panicking = false
		f.Recovered = false
		if f.Fn.Recover == nil {
			res := f.Fn.Signature.Results()
			vs := make([]Val, res.Len())
			for i := range vs {
				vs[i] = st.Zero(st.typ(res.At(i).Type()))
			}
			st.doReturn(vs)
			return
		}
		f.Prev = f.Block
		f.Block = f.Fn.Recover
		f.PC = 0
		return
	}
	v := f.PanicVal
	st.Frames = st.Frames[:len(st.Frames)-1]
	if len(st.Frames) == 0 {
		st.Done, st.Panic, st.PanicVal = true, true, v
		return
	}
	c := st.Top()
	c.Panicking = true
	c.Recovered = false
	c.PanicVal = v
}

// ---- operators ----

func (st *State) lin(v Val) Lin {
	switch x := st.N(v).(type) {
	case VInt:
		return x.L
	case VTerm:
		t := x.T.Typ
		if t == nil || !isInt(t) {
			t = types.Typ[types.Int]
		}
		if w, ok := st.Opaque(x, t).(VInt); ok {
			return w.L
		}
	}
	Undecided("not an integer: %s", Key(v))
	return Lin{}
}

func (st *State) Lin(v Val) Lin { return st.lin(v) }

func (st *State) binop(x *ssa.BinOp) Val {
	a, b := st.get(x.X), st.get(x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		ra := st.resolve(a)
		b = st.get(x.Y)
		rb := st.resolve(b)
		ra = st.resolve(st.get(x.X))
		_ = rb
		rb = st.resolve(st.get(x.Y))
		c := st.eqByType(ra, rb, st.typ(x.X.Type()))
		if x.Op == token.NEQ {
			c = notVal(c)
		}
		return c
	}
	return st.arith(x.Op, a, b, st.typ(x.X.Type()), st.typ(x.Type()))
}

func basicInfo(t types.Type) types.BasicInfo {
	if t == nil {
		return 0
	}
	if _, tp := types.Unalias(t).(*types.TypeParam); tp {
		return 0
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()
	}
	return 0
}

func isFloat(t types.Type) bool  { return basicInfo(t)&types.IsFloat != 0 }
func isString(t types.Type) bool { return basicInfo(t)&types.IsString != 0 }

// eqByType is == at a type: floats compare by value and NaN equals nothing.
func (st *State) eqByType(a, b Val, t types.Type) Val {
	if isFloat(t) {
		if st.decide(st.App("nan", nil, a)) || st.decide(st.App("nan", nil, b)) {
			return VBool{false}
		}
		if st.decide(Less("float", a, b)) || st.decide(Less("float", b, a)) {
			return VBool{false}
		}
		return VBool{true}
	}
	return st.cmpEq(a, b)
}

func (st *State) arith(op token.Token, a, b Val, xt, rt types.Type) Val {
	if st.E.OnBinOp != nil {
		if v, ok := st.E.OnBinOp(st, op, a, b, xt); ok {
			return v
		}
	}
	numeric := false
	if _, tp := types.Unalias(xt).(*types.TypeParam); !tp {
		numeric = isInt(xt)
	}
	if numeric && st.E.Wrap && (op == token.ADD || op == token.SUB || op == token.MUL) {
		if !st.lin(a).IsConst() || !st.lin(b).IsConst() {
			if st.decide(st.App("overflows:"+op.String(), types.Typ[types.Bool], a, b)) {
				return st.Opaque(VTerm{&Term{Op: "overflow:" + op.String(), A: []Val{a, b}, Typ: rt}}, rt)
			}
		}
	}
	if numeric {
		switch op {
		case token.ADD:
			return VInt{st.lin(a).Add(st.lin(b))}
		case token.SUB:
			r := st.lin(a).Sub(st.lin(b))
			return VInt{st.NL(r)}
		case token.MUL:
			la, lb := st.lin(a), st.lin(b)
			if la.IsConst() {
				return VInt{lb.Mul(la.C)}
			}
			if lb.IsConst() {
				return VInt{la.Mul(lb.C)}
			}
			return VInt{st.E.FreshSym()}
		case token.QUO, token.REM, token.SHR:
			la, lb := st.lin(a), st.lin(b)
			if op == token.SHR && lb.IsConst() && lb.C >= 0 && lb.C < 32 {
				lb = K(1 << uint(lb.C))
				if !EntailsGE(st.Cons, la) && !st.decide(GE(la, K(0))) {
					return VInt{st.E.FreshSym()}
				}
				op = token.QUO
			}
			if lb.IsConst() && lb.C > 0 && op != token.SHR {
				if la.IsConst() {
					if op == token.QUO {
						return VInt{K(la.C / lb.C)}
					}
					return VInt{K(la.C % lb.C)}
				}
				q := st.E.FreshSym()
				d := lb.C
				if st.decide(GE(la, K(0))) {
					st.addCon(Con{la.Sub(q.Mul(d)), false})
					st.addCon(Con{q.Mul(d).AddC(d - 1).Sub(la), false})
				} else {
					st.addCon(Con{q.Mul(d).Sub(la), false})
					st.addCon(Con{la.Sub(q.Mul(d)).AddC(d - 1), false})
				}
				q = st.NL(q)
				if op == token.QUO {
					return VInt{q}
				}
				return VInt{st.NL(la).Sub(q.Mul(d))}
			}
			if op != token.SHR {
				if st.decide(EQ(lb, K(0))) {
					st.RuntimePanic("integer divide by zero")
				}
				la, lb = st.NL(la), st.NL(lb)
				r := st.E.FreshSym()
				if EntailsGE(st.Cons, la) && EntailsGE(st.Cons, lb) {
					st.addCon(Con{r, false})
					if op == token.REM {
						st.addCon(Con{lb.Sub(r).AddC(-1), false})
						st.addCon(Con{la.Sub(r), false})
					} else {
						st.addCon(Con{la.Sub(r), false})
					}
				}
				return VInt{st.NL(r)}
			}
			return VInt{st.E.FreshSym()}
		case token.LSS:
			return LTc(st.lin(a), st.lin(b))
		case token.LEQ:
			return LE(st.lin(a), st.lin(b))
		case token.GTR:
			return LTc(st.lin(b), st.lin(a))
		case token.GEQ:
			return GE(st.lin(a), st.lin(b))
		case token.SHL:
			la, lb := st.lin(a), st.lin(b)
			if lb.IsConst() && lb.C >= 0 && lb.C < 32 {
				return VInt{la.Mul(1 << uint(lb.C))}
			}
			return VInt{st.E.FreshSym()}
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			la, lb := st.lin(a), st.lin(b)
			if op == token.AND && lb.IsConst() && lb.C == 1 {
				return st.arith(token.REM, a, VInt{K(2)}, xt, rt)
			}
			_ = la
			return VInt{st.E.FreshSym()}
		}
	}
	// booleans
	switch op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if isFloat(xt) {
			if st.decide(st.App("nan", nil, a)) || st.decide(st.App("nan", nil, b)) {
				return VBool{false}
			}
		}
		if isString(xt) {
			// a total order: decide equality first
			if st.decide(st.cmpEq(a, b)) {
				return VBool{op == token.LEQ || op == token.GEQ}
			}
			if op == token.GTR || op == token.GEQ {
				a, b = b, a
			}
			if Key(a) > Key(b) {
				return notVal(Less("string", b, a))
			}
			return Less("string", a, b)
		}
		ord := "T"
		if isFloat(xt) {
			ord = "float"
		} else if _, tp := types.Unalias(xt).(*types.TypeParam); !tp {
			ord = types.TypeString(xt, nil)
		}
		switch op {
		case token.LSS:
			return Less(ord, a, b)
		case token.GTR:
			return Less(ord, b, a)
		case token.LEQ:
			return notVal(Less(ord, b, a))
		case token.GEQ:
			return notVal(Less(ord, a, b))
		}
	}
	return st.App("op:"+op.String(), rt, a, b)
}

func (st *State) unop(x *ssa.UnOp) {
	f := st.Top()
	switch x.Op {
	case token.NOT:
		st.set(x, notVal(st.get(x.X)))
	case token.SUB:
		v := st.get(x.X)
		if _, tp := types.Unalias(st.typ(x.Type())).(*types.TypeParam); !tp && isInt(st.typ(x.Type())) {
			st.set(x, VInt{st.lin(v).Neg()})
		} else {
			st.set(x, st.App("op:neg", st.typ(x.Type()), v))
		}
	case token.XOR:
		st.set(x, st.FreshVal(st.typ(x.Type())))
	case token.MUL:
		t := st.typ(x.Type())
		v := st.Load(st.get(x.X), t)
		st.set(x, v)
	case token.ARROW:
		if st.E.OnRecv == nil {
			Undecided("channel receive")
		}
		st.set(x, st.E.OnRecv(st, x))
	default:
		Undecided("operator %s", x.Op)
	}
	f.PC++
}

func (st *State) convert(v Val, from, to types.Type) Val {
	from, to = st.typ(from), st.typ(to)
	_, tpF := types.Unalias(from).(*types.TypeParam)
	_, tpT := types.Unalias(to).(*types.TypeParam)
	if tpF || tpT {
		if types.Identical(from, to) {
			return v
		}
		return st.App("conv:"+to.String(), to, v)
	}
	fb, okF := from.Underlying().(*types.Basic)
	tb, okT := to.Underlying().(*types.Basic)
	if okF && okT && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		// widening or same size: value preserved within the documented no-overflow assumption
		if narrowing(fb, tb) {
			if l, ok := v.(VInt); ok && !l.L.IsConst() {
				return st.Opaque(VTerm{&Term{Op: "trunc:" + tb.Name(), A: []Val{v}, Typ: to}}, to)
			}
		}
		if st.E.Wrap {
			l, ok := v.(VInt)
			fu, tu := fb.Info()&types.IsUnsigned != 0, tb.Info()&types.IsUnsigned != 0
			if ok && !l.L.IsConst() && (fu && !tu && bits(fb) == bits(tb) || !fu && tu) {
				if st.decide(st.App("wraps:"+tb.Name(), types.Typ[types.Bool], v)) {
					return st.Opaque(VTerm{&Term{Op: "wrap:" + tb.Name(), A: []Val{v}, Typ: to}}, to)
				}
				if tu && !st.decide(GE(l.L, K(0))) {
					infeasible()
				}
			}
		}
		return v
	}
	isP := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return true
		case *types.Basic:
			return u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
		}
		return false
	}
	if isP(from) && isP(to) {
		return v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	if st.E.TermBytes && okF && fb.Info()&types.IsString != 0 {
		return st.N(st.appTerm("conv:"+to.String(), to, v))
	}
	return st.Opaque(st.appTerm("conv:"+to.String(), to, v), to)
}

func (st *State) appTerm(op string, t types.Type, a ...Val) VTerm {
	return VTerm{&Term{Op: op, A: a, Typ: t}}
}

func bits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func narrowing(f, t *types.Basic) bool {
	return bits(t) < bits(f) || bits(t) == bits(f) && f.Info()&types.IsUnsigned != t.Info()&types.IsUnsigned && bits(t) < 64
}

func (st *State) typeAssert(x *ssa.TypeAssert) {
	v := st.get(x.X)
	t := st.typ(x.AssertedType)
	ok := false
	var res Val
	switch y := v.(type) {
	case VNil:
	case VIface:
		if types.IsInterface(t) {
			if it, isI := t.Underlying().(*types.Interface); isI {
				ok = types.Implements(y.T, it)
			}
			res = y
		} else {
			if _, tp := types.Unalias(y.T).(*types.TypeParam); tp && !types.Identical(y.T, t) {
				ok = st.decide(st.App("dyntype:"+t.String(), types.Typ[types.Bool], y.V))
				if ok {
					res = st.Opaque(st.appTerm("as:"+t.String(), t, y.V), t)
				}
			} else {
				ok = types.Identical(y.T, t)
				res = y.V
			}
		}
	case VTerm:
		if st.decide(st.isNil(y)) {
			break
		}
		ok = st.decide(st.App("dyntype:"+t.String(), types.Typ[types.Bool], y))
		if ok {
			if types.IsInterface(t) {
				res = y
			} else {
				res = st.Opaque(st.appTerm("as:"+t.String(), t, y), t)
			}
		}
	default:
		Undecided("type assertion on %s", Key(v))
	}
	if !ok {
		if !x.CommaOk {
			st.RuntimePanic("interface conversion")
		}
		res = st.Zero(t)
	}
	if x.CommaOk {
		st.set(x, VTuple{[]Val{res, VBool{ok}}})
	} else {
		st.set(x, res)
	}
	st.Top().PC++
}

// ---- calls ----

func (st *State) resolveCall(c *ssa.CallCommon) (Val, []Val) {
	args := make([]Val, len(c.Args))
	for i := range args {
		args[i] = st.get(c.Args[i])
	}
	if !c.IsInvoke() {
		return st.get(c.Value), args
	}
	recv := st.get(c.Value)
	callee, rv := st.methodOf(recv, c.Method)
	return callee, append([]Val{rv}, args...)
}

// VMethod is a method of an opaque interface value.
type VMethod struct {
	Recv Val
	M    *types.Func
}

func (st *State) methodOf(recv Val, m *types.Func) (Val, Val) {
	switch r := recv.(type) {
	case VNil:
		st.RuntimePanic("nil pointer dereference")
	case VIface:
		if t, ok := r.V.(VTerm); ok && strings.HasPrefix(t.T.Op, "rtype:") {
			return VMethod{r.V, m}, r.V
		}
		ms := st.E.Prog.MethodSets.MethodSet(r.T)
		sel := ms.Lookup(m.Pkg(), m.Name())
		if sel == nil {
			sel = ms.Lookup(nil, m.Name())
		}
		if sel != nil {
			if fn := st.E.Prog.MethodValue(sel); fn != nil {
				return st.funcVal(fn, nil), r.V
			}
			// generic receiver: use the origin method
			if fo, ok := sel.Obj().(*types.Func); ok {
				if fn := st.E.Prog.FuncValue(fo.Origin()); fn != nil {
					ta := TEnv{}
					rt := r.T
					if p, ok := rt.(*types.Pointer); ok {
						rt = p.Elem()
					}
					if n, ok := types.Unalias(rt).(*types.Named); ok && n.TypeArgs() != nil {
						tps := fn.TypeParams()
						for i := 0; i < tps.Len() && i < n.TypeArgs().Len(); i++ {
							ta[tps.At(i)] = n.TypeArgs().At(i)
						}
					}
					rv := r.V
					// pointer receiver in the type, value receiver in the method
					if _, isP := r.T.(*types.Pointer); isP {
						if _, mp := fn.Signature.Recv().Type().(*types.Pointer); !mp {
							rv = st.Load(rv, r.T.(*types.Pointer).Elem())
						}
					}
					return VFunc{Fn: fn, TA: ta}, rv
				}
			}
		}
		Undecided("method %s of %s not found", m.Name(), r.T)
	case VTerm:
		return VMethod{r, m}, r
	}
	Undecided("invoke on %s", Key(recv))
	return nil, nil
}

func (st *State) call(reg ssa.Value, c *ssa.CallCommon) {
	callee, args := st.resolveCall(c)
	st.invoke(reg, st.Top().Block.Instrs[st.Top().PC], callee, args, c, false)
}

// finish delivers the result of a call that was handled without a frame.
func (st *State) finish(reg ssa.Value, v Val, deferred bool) {
	if deferred {
		return
	}
	f := st.Top()
	if reg != nil {
		f.Regs[reg] = v
	}
	f.PC++
}

func (st *State) invoke(reg ssa.Value, site ssa.Instruction, callee Val, args []Val, c *ssa.CallCommon, deferred bool) {
	e := st.E
	switch f := callee.(type) {
	case VNil:
		st.RuntimePanic("nil function call")
	case VBuiltin:
		v := st.builtin(f.Name, args, c, deferred)
		st.finish(reg, v, deferred)
		return
	case VFunc:
		fn := f.Fn
		o := fn
		if fn.Origin() != nil {
			o = fn.Origin()
		}
		ci := &Call{St: st, Fn: o, FV: f, Args: args, Site: site, Common: c, Deferred: deferred}
		if e.Override != nil {
			if v, ok := e.Override(ci); ok {
				if !ci.pushed {
					st.finish(reg, v, deferred)
				} else {
					st.Top().Call, st.Top().Deferred = reg, deferred
				}
				return
			}
		}
		if v, ok := st.intrinsic(ci); ok {
			if !ci.pushed {
				st.finish(reg, v, deferred)
			} else {
				// frames pushed by the intrinsic deliver through OnRet
				st.Frames[ci.base].Call, st.Frames[ci.base].Deferred = reg, deferred
			}
			return
		}
		if len(o.Blocks) > 0 && e.inlinable(o) {
			if st.tailCall(f, o, args, site, deferred) {
				return
			}
			st.PushFrame(f, args, reg, site, deferred)
			return
		}
		if v, ok := e.external(ci); ok {
			st.finish(reg, v, deferred)
			return
		}
		Undecided("call of %s (no body, no model)", fn)
	case VTerm, VMethod:
		if m, ok := f.(VMethod); ok {
			if t, ok := m.Recv.(VTerm); ok && strings.HasPrefix(t.T.Op, "rtype:") {
				v, ok := st.reflectCall(&Call{St: st, Args: args}, "Type", m.M.Name())
				if !ok {
					Undecided("reflect.Type.%s", m.M.Name())
				}
				st.finish(reg, v, deferred)
				return
			}
		}
		if e.OnCallback == nil {
			Undecided("call of unknown function %s", Key(callee))
		}
		cb := &Callback{St: st, F: callee, Args: args, Site: site, Common: c, Deferred: deferred}
		if c != nil {
			cb.Sig = e.Resolve(c.Signature(), st.Top().TA).(*types.Signature)
		}
		v := e.OnCallback(cb)
		if cb.Panics {
			panic(goPanic{VTerm{&Term{Op: "panic-of-callback"}}})
		}
		st.finish(reg, v, deferred)
		return
	}
	Undecided("call of %s", Key(callee))
}

// Call describes a statically resolved call for hooks.
type Call struct {
	St       *State
	Fn       *ssa.Function // origin
	FV       VFunc
	Args     []Val
	Site     ssa.Instruction
	Common   *ssa.CallCommon
	Deferred bool
	pushed   bool
	base     int
}

// Callback describes a call of an opaque function.
type Callback struct {
	St       *State
	F        Val
	Args     []Val
	Sig      *types.Signature
	Site     ssa.Instruction
	Common   *ssa.CallCommon
	Deferred bool
	Panics   bool
}

// isTailCall: in is a call of its own function whose results the function returns at once.
func isTailCall(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	fn := c.Parent()
	t := c.Call.StaticCallee()
	if t == nil || fn.Recover != nil || len(fn.FreeVars) > 0 {
		return false
	}
	if t.Origin() != nil {
		t = t.Origin()
	}
	if t != fn {
		return false
	}
	b := c.Block()
	at := -1
	for i, x := range b.Instrs {
		if x == in {
			at = i
		}
	}
	n := fn.Signature.Results().Len()
	results := func(v []ssa.Value) bool {
		if len(v) != n {
			return false
		}
		if n == 1 {
			return v[0] == ssa.Value(c)
		}
		for i, r := range v {
			x, ok := r.(*ssa.Extract)
			if !ok || x.Tuple != ssa.Value(c) || x.Index != i {
				return false
			}
		}
		return true
	}
	for _, x := range b.Instrs[at+1:] {
		switch y := x.(type) {
		case *ssa.DebugRef:
		case *ssa.Extract:
			if y.Tuple != ssa.Value(c) {
				return false
			}
		case *ssa.Return:
			return results(y.Results)
		case *ssa.Jump:
			if n > 0 {
				return false
			}
			for d := b.Succs[0]; ; d = d.Succs[0] {
				for _, z := range d.Instrs {
					switch z.(type) {
					case *ssa.DebugRef:
						continue
					case *ssa.Return:
						return true
					case *ssa.Jump:
						if d == d.Succs[0] {
							return false
						}
						continue
					}
					return false
				}
			}
		default:
			return false
		}
	}
	return false
}

// tailCall turns a call of the running function by itself, in return position, into a jump to its start.
func (st *State) tailCall(f VFunc, o *ssa.Function, args []Val, site ssa.Instruction, deferred bool) bool {
	if deferred || len(st.Frames) == 0 || len(f.B) > 0 || site == nil || !isTailCall(site) {
		return false
	}
	fr := st.Top()
	if fr.Fn != o || len(fr.Defers) > 0 || len(args) != len(o.Params) || len(fr.TA) != len(f.TA) {
		return false
	}
	for k, t := range fr.TA {
		if u, ok := f.TA[k]; !ok || !types.Identical(t, u) {
			return false
		}
	}
	fr.Regs = map[ssa.Value]Val{}
	for i, p := range o.Params {
		fr.Regs[p] = args[i]
	}
	fr.Block, fr.PC, fr.Prev = o.Blocks[0], 0, nil
	st.jumped = true
	return true
}

// PushFrame enters a function.
func (st *State) PushFrame(f VFunc, args []Val, reg ssa.Value, site ssa.Instruction, deferred bool) *Frame {
	o := f.Fn
	if f.Fn.Origin() != nil {
		o = f.Fn.Origin()
	}
	if len(st.Frames) > 40 {
		Undecided("call depth exceeded at %s", o)
	}
	rec := 0
	for _, fr := range st.Frames {
		if fr.Fn == o {
			rec++
		}
	}
	if rec > st.E.MaxRec {
		Undecided("recursion of %s without a summary", o)
	}
	st.E.touch(o)
	fr := &Frame{Fn: o, TA: f.TA, Regs: map[ssa.Value]Val{}, Block: o.Blocks[0], Call: reg, CallSite: site, Deferred: deferred}
	if len(o.Params) != len(args) {
		Undecided("argument count mismatch calling %s: %d vs %d", o, len(args), len(o.Params))
	}
	for i, p := range o.Params {
		fr.Regs[p] = args[i]
	}
	for i, v := range o.FreeVars {
		if i < len(f.B) {
			fr.Regs[v] = f.B[i]
		}
	}
	st.Frames = append(st.Frames, fr)
	if st.E.EntryHeads && st.E.info(o).heads[fr.Block] {
		st.jumped = true // its start is a loop head
	}
	return fr
}

// CallValue starts a call of a function value from an intrinsic; onRet receives the result.
// The intrinsic must return (nil,true) afterwards.
func (c *Call) CallValue(fv Val, args []Val, onRet func(*State, Val) Val) {
	st := c.St
	switch f := fv.(type) {
	case VFunc:
		if !c.pushed {
			c.pushed = true
			c.base = len(st.Frames)
		}
		fr := st.PushFrame(f, args, nil, c.Site, false)
		fr.OnRet = onRet
		return
	}
	Undecided("intrinsic call of %s", Key(fv))
}

func (st *State) builtin(name string, args []Val, c *ssa.CallCommon, deferred bool) Val {
	switch name {
	case "len":
		return VInt{st.lenOf(args[0], c.Args[0].Type())}
	case "cap":
		switch x := args[0].(type) {
		case VNil:
			return VInt{K(0)}
		case VSlice:
			return VInt{x.Cap}
		}
		return VInt{st.lenOf(args[0], c.Args[0].Type())}
	case "append":
		return st.appendSlice(args[0], args[1], st.typ(c.Args[0].Type()))
	case "copy":
		return VInt{st.copySlice(args[0], args[1], st.typ(c.Args[0].Type()))}
	case "delete":
		st.MapDelete(args[0], args[1])
		return VTuple{}
	case "clear":
		st.clearVal(args[0], st.typ(c.Args[0].Type()))
		return VTuple{}
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		// called directly by a deferred function
		n := len(st.Frames)
		if deferred {
			// defer recover(): called directly by the runtime, not by a deferred function
			return VNil{}
		}
		if n >= 2 && st.Frames[n-1].Deferred {
			b := st.Frames[n-2]
			if b.Panicking && !b.Recovered {
				b.Recovered = true
				return b.PanicVal
			}
		}
		return VNil{}
	case "min", "max":
		r := args[0]
		t := st.typ(c.Args[0].Type())
		for _, a := range args[1:] {
			lt := st.decide(st.arith(token.LSS, a, r, t, types.Typ[types.Bool]))
			if name == "min" && lt || name == "max" && !lt {
				r = a
			}
		}
		return r
	case "print", "println":
		return VTuple{}
	case "ssa:wrapnilchk":
		if st.decide(st.isNil(args[0])) {
			st.RuntimePanic("nil pointer dereference")
		}
		return args[0]
	}
	Undecided("builtin %s", name)
	return nil
}

var _ = fmt.Sprintf

// PushGo continues in the body of a started goroutine; when it returns the starter continues.
func (st *State) PushGo(f VFunc, args []Val, g *ssa.Go, onRet func(*State)) {
	fr := st.PushFrame(f, args, nil, g, true)
	fr.OnRet = func(s *State, v Val) Val { onRet(s); return v }
}

// GlobalPtr is the address of a package variable.
func (st *State) GlobalPtr(g *ssa.Global) Val { return st.global(g) }

// SetCell writes a cell without any hook.
func (st *State) SetCell(p Val, v Val) { st.rawAccess(p, nil, v, true) }
