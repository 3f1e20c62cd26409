package ai

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TEnv binds type parameters of an inlined generic body.
type TEnv map[*types.TypeParam]types.Type

type DeferRec struct {
	Callee Val
	Args   []Val
	Call   *ssa.CallCommon
	Pos    ssa.Instruction
	TA     TEnv
}

type Frame struct {
	Fn        *ssa.Function
	TA        TEnv
	Regs      map[ssa.Value]Val
	Block     *ssa.BasicBlock
	PC        int
	Prev      *ssa.BasicBlock
	Defers    []DeferRec
	Call      ssa.Value // register of the caller receiving the result
	CallSite  ssa.Instruction
	Deferred  bool
	Panicking bool
	PanicVal  Val
	Recovered bool
	Ret       Val                   // pending result while a spec continuation runs
	OnRet     func(*State, Val) Val // native post-processing of the result
	Tag       string
}

func (f *Frame) clone() *Frame {
	n := *f
	n.Regs = make(map[ssa.Value]Val, len(f.Regs))
	for k, v := range f.Regs {
		n.Regs[k] = v
	}
	n.Defers = append([]DeferRec(nil), f.Defers...)
	return &n
}

type Fact struct {
	T Val
	B bool
}

// RangeFact: for all lo<=k<hi the fact obtained from T by replacing the hole by k has truth B.
type RangeFact struct {
	T      Val // contains the symbol HoleSym as the index
	Lo, Hi Lin
	B      bool
	Key    string
}

// AliasEnt: the term From equals T (and has been replaced by it).
type AliasEnt struct {
	From VTerm
	T    Val
}

type traceNode struct {
	s    string
	prev *traceNode
	n    int
}

// State is one abstract state (a disjunct).
type State struct {
	E         *Engine
	Frames    []*Frame
	Heap      map[ObjID]*Obj
	Facts     map[string]Fact
	RFacts    []RangeFact
	Alias     map[string]AliasEnt // term key -> value
	SymAlias  map[Sym]Lin
	Cons      []Con
	Ghost     map[string]Val
	Trace     *traceNode
	choices   []int
	chIdx     int
	freshLog  []int
	freshIdx  int
	Done      bool
	Panic     bool
	PanicVal  Val
	Result    []Val
	Dead      bool
	pendingEq [][2]Val
	jumped    bool
	peeled    map[string]int // loop heads passed without joining
	origin    int            // loop state (or start) it was reached from
	hints     []Lin          // branch conditions taken since the last loop head (candidates for invariants)
}

func (st *State) Clone() *State {
	n := *st
	n.Frames = make([]*Frame, len(st.Frames))
	for i, f := range st.Frames {
		n.Frames[i] = f.clone()
	}
	n.Heap = make(map[ObjID]*Obj, len(st.Heap))
	for k, v := range st.Heap {
		n.Heap[k] = v
	}
	n.Facts = make(map[string]Fact, len(st.Facts))
	for k, v := range st.Facts {
		n.Facts[k] = v
	}
	n.Alias = make(map[string]AliasEnt, len(st.Alias))
	for k, v := range st.Alias {
		n.Alias[k] = v
	}
	n.SymAlias = make(map[Sym]Lin, len(st.SymAlias))
	for k, v := range st.SymAlias {
		n.SymAlias[k] = v
	}
	n.RFacts = append([]RangeFact(nil), st.RFacts...)
	n.hints = append([]Lin(nil), st.hints...)
	n.Cons = append([]Con(nil), st.Cons...)
	n.Ghost = make(map[string]Val, len(st.Ghost))
	for k, v := range st.Ghost {
		n.Ghost[k] = v
	}
	n.Result = append([]Val(nil), st.Result...)
	n.choices = append([]int(nil), st.choices...)
	n.freshLog = append([]int(nil), st.freshLog...)
	return &n
}

func (st *State) Top() *Frame {
	if len(st.Frames) == 0 {
		return nil
	}
	return st.Frames[len(st.Frames)-1]
}

func (st *State) Tracef(f string, a ...interface{}) {
	n := 0
	if st.Trace != nil {
		n = st.Trace.n + 1
	}
	st.Trace = &traceNode{fmt.Sprintf(f, a...), st.Trace, n}
}

func (st *State) TraceList() []string {
	var r []string
	for t := st.Trace; t != nil && len(r) < 40; t = t.prev {
		r = append(r, t.s)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---- control by exceptions ----

type splitErr struct{ alts []func(*State) bool }
type deadErr struct{}
type undecidedErr struct{ msg string }

// Undecided aborts the analysis of this state: a construct is outside the domain.
func Undecided(f string, a ...interface{}) {
	panic(undecidedErr{fmt.Sprintf(f, a...)})
}

func infeasible() { panic(deadErr{}) }

// choose returns 0..n-1, forking the state.
func (st *State) choose(n int) int {
	if n == 1 {
		return 0
	}
	if st.chIdx < len(st.choices) {
		c := st.choices[st.chIdx]
		st.chIdx++
		return c
	}
	var alts []func(*State) bool
	for i := 0; i < n; i++ {
		i := i
		alts = append(alts, func(s *State) bool { s.choices = append(s.choices, i); return true })
	}
	panic(splitErr{alts})
}

func (st *State) Choose(n int) int { return st.choose(n) }

// decide evaluates a condition, forking if it is not determined.
func (st *State) decide(c Val) bool {
	if b, ok := st.known(c); ok {
		return b
	}
	panic(splitErr{[]func(*State) bool{
		func(s *State) bool { return s.assume(c, true) },
		func(s *State) bool { return s.assume(c, false) },
	}})
}

func (st *State) Decide(c Val) bool { return st.decide(c) }

// Assume restricts the state (dead if inconsistent).
func (st *State) Assume(c Val) {
	if !st.assume(c, true) {
		infeasible()
	}
}

func GE(a, b Lin) Val  { return VCmp{L: a.Sub(b)} }
func LE(a, b Lin) Val  { return GE(b, a) }
func LTc(a, b Lin) Val { return GE(b, a.AddC(1)) }
func EQ(a, b Lin) Val  { return VCmp{L: a.Sub(b), Eq: true} }

// ---- numeric ----

func (st *State) NL(l Lin) Lin {
	for i := 0; i < 50; i++ {
		ch := false
		for _, t := range l.T {
			if r, ok := st.SymAlias[t.S]; ok {
				l = l.Subst(t.S, r)
				ch = true
				break
			}
		}
		if !ch {
			return l
		}
	}
	return l
}

func (st *State) addCon(c Con) bool {
	c.L = st.NL(c.L)
	n, triv, ok := c.norm()
	if !ok {
		return false
	}
	if triv {
		return true
	}
	if n.Eq {
		// substitute a unit symbol
		best := -1
		for i, t := range n.L.T {
			if t.K == 1 || t.K == -1 {
				if best < 0 || st.E.Rigid[n.L.T[best].S] && !st.E.Rigid[t.S] || (st.E.Rigid[n.L.T[best].S] == st.E.Rigid[t.S] && t.S > n.L.T[best].S) {
					best = i
				}
			}
		}
		if best >= 0 {
			s := n.L.T[best].S
			k := n.L.T[best].K
			rest := n.L.Sub(SymLin(s).Mul(k)) // k*s + rest = 0
			var v Lin
			if k == 1 {
				v = rest.Neg()
			} else {
				v = rest
			}
			return st.substSym(s, v)
		}
	}
	r := relevant(st.Cons, n.L)
	if !n.Eq {
		if EntailsGE(r, n.L) {
			return true
		}
		if !Feasible(append(append([]Con(nil), r...), n)) {
			return false
		}
		if EntailsGE(r, n.L.Neg()) {
			return st.addCon(Con{n.L, true})
		}
		st.Cons = append(st.Cons, n)
		return st.propagateEq(n)
	}
	st.Cons = append(st.Cons, n)
	return Feasible(relevant(st.Cons, n.L))
}

// propagateEq turns inequalities that became equalities into substitutions.
func (st *State) propagateEq(n Con) bool {
	for _, c := range st.Cons {
		if c.Eq || c.L.Equal(n.L) {
			continue
		}
		sh := false
		for _, t := range c.L.T {
			if n.L.Coef(t.S) != 0 {
				sh = true
			}
		}
		if sh && EntailsGE(st.Cons, c.L.Neg()) {
			return st.addCon(Con{c.L, true})
		}
	}
	return true
}

func (st *State) substSym(s Sym, v Lin) bool {
	f := func(l Lin) Lin { return l.Subst(s, v) }
	st.SymAlias[s] = v
	for k, l := range st.SymAlias {
		st.SymAlias[k] = f(l)
	}
	var cs []Con
	for _, c := range st.Cons {
		cs = append(cs, Con{f(c.L), c.Eq})
	}
	st.Cons = nil
	m := &mapper{lin: f}
	if !st.rewrite(m) {
		return false
	}
	d, ok := dedupe(cs)
	if !ok {
		return false
	}
	st.Cons = append(st.Cons, d...)
	if !Feasible(st.Cons) {
		return false
	}
	// equalities with unit symbols may remain
	for _, c := range d {
		if c.Eq {
			rest := make([]Con, 0, len(st.Cons))
			for _, x := range st.Cons {
				if !(x.Eq && x.L.Equal(c.L)) {
					rest = append(rest, x)
				}
			}
			st.Cons = rest
			if !st.addCon(c) {
				return false
			}
		}
	}
	return true
}

// rewrite applies the mapper to all values of the state; false if contradictory.
func (st *State) rewrite(m *mapper) bool {
	if m.term == nil {
		m.term = st.aliasTerm
	}
	for _, f := range st.Frames {
		for k, v := range f.Regs {
			f.Regs[k] = m.val(v)
		}
		for i := range f.Defers {
			d := &f.Defers[i]
			d.Callee = m.val(d.Callee)
			d.Args = m.vals(d.Args)
		}
		if f.PanicVal != nil {
			f.PanicVal = m.val(f.PanicVal)
		}
	}
	for k, o := range st.Heap {
		st.Heap[k] = m.obj(o)
	}
	for k, v := range st.Ghost {
		st.Ghost[k] = m.val(v)
	}
	for i, v := range st.Result {
		st.Result[i] = m.val(v)
	}
	if st.PanicVal != nil {
		st.PanicVal = m.val(st.PanicVal)
	}
	old := st.Facts
	st.Facts = map[string]Fact{}
	ord := false
	for _, k := range sortedKeys(old) {
		f := old[k]
		nt := m.val(f.T)
		if t, ok := nt.(VTerm); ok && t.T.Op == "less" && t.T.key() != k {
			ord = true
		}
		if !st.addFact(nt, f.B) {
			return false
		}
	}
	if ord && !st.orderConsistent() {
		return false
	}
	if len(st.Alias) > 0 {
		oa := st.Alias
		na := make(map[string]AliasEnt, len(oa))
		for _, k := range sortedKeys(oa) {
			a := oa[k]
			from := a.From
			if len(from.T.A) > 0 {
				from = VTerm{&Term{Op: from.T.Op, A: m.vals(from.T.A), Typ: from.T.Typ}}
			}
			to := m.val(a.T)
			nk := from.T.key()
			if prev, ok := na[nk]; ok && Key(prev.T) != Key(to) {
				st.pendingEq = append(st.pendingEq, [2]Val{prev.T, to})
				continue
			}
			na[nk] = AliasEnt{from, to}
		}
		st.Alias = na
	}
	rf := st.RFacts
	st.RFacts = nil
	for _, r := range rf {
		st.RFacts = append(st.RFacts, RangeFact{T: m.val(r.T), Lo: m.l(r.Lo), Hi: m.l(r.Hi), B: r.B})
	}
	for i := range st.RFacts {
		st.RFacts[i].Key = Key(st.RFacts[i].T)
	}
	for len(st.pendingEq) > 0 {
		p := st.pendingEq[0]
		st.pendingEq = st.pendingEq[1:]
		if !st.unify(st.N(p[0]), st.N(p[1])) {
			return false
		}
	}
	return true
}

func (st *State) aliasTerm(t VTerm) (Val, bool) {
	if len(st.Alias) == 0 {
		return nil, false
	}
	if f, ok := st.Alias[t.T.key()]; ok {
		return f.T, true
	}
	return nil, false
}

// addFact records a boolean term; conditions that became decidable are re-assumed.
func (st *State) addFact(t Val, b bool) bool {
	switch x := t.(type) {
	case VBool:
		return x.B == b
	case VNot:
		return st.addFact(x.V, !b)
	case VCmp:
		return st.assume(x, b)
	case VTerm:
		if x.T.Op == "eq" {
			r := st.cmpEq(x.T.A[0], x.T.A[1])
			if bb, ok := r.(VBool); ok {
				return bb.B == b
			}
			if _, ok := r.(VCmp); ok {
				return st.assume(r, b)
			}
			if tt, ok := r.(VTerm); ok {
				x = tt
			}
		}
		if x.T.Op == "isnil" {
			r := st.isNil(x.T.A[0])
			if bb, ok := r.(VBool); ok {
				return bb.B == b
			}
			x = r.(VTerm)
		}
		k := x.T.key()
		if f, ok := st.Facts[k]; ok {
			return f.B == b
		}
		st.Facts[k] = Fact{x, b}
		return true
	}
	return true
}

// N normalises a value under the substitutions made so far.
func (st *State) N(v Val) Val {
	m := &mapper{lin: st.NL}
	m.term = st.aliasTerm
	for i := 0; i < 10; i++ {
		w := m.val(v)
		if Key(w) == Key(v) {
			return w
		}
		v = w
	}
	return v
}

// ---- conditions ----

func (st *State) known(c Val) (bool, bool) {
	switch x := c.(type) {
	case VBool:
		return x.B, true
	case VNot:
		b, ok := st.known(x.V)
		return !b, ok
	case VCmp:
		l := st.NL(x.L)
		if x.Eq {
			if l.IsConst() {
				return (l.C == 0) != x.Neg, true
			}
			if EntailsEq(st.Cons, l) {
				return !x.Neg, true
			}
			if !Feasible(append(append([]Con(nil), relevant(st.Cons, l)...), Con{l, true})) {
				return x.Neg, true
			}
			if EntailsGE(st.Cons, l.AddC(-1)) || EntailsGE(st.Cons, l.Neg().AddC(-1)) {
				return x.Neg, true
			}
			if st.neqKnown(l) {
				return x.Neg, true
			}
			return false, false
		}
		if l.IsConst() {
			return (l.C >= 0) != x.Neg, true
		}
		if EntailsGE(st.Cons, l) {
			return !x.Neg, true
		}
		if EntailsGE(st.Cons, l.Neg().AddC(-1)) {
			return x.Neg, true
		}
		if st.neqKnown(l.AddC(1)) && EntailsGE(st.Cons, l.AddC(1)) {
			return !x.Neg, true
		}
		if st.neqKnown(l) && EntailsGE(st.Cons, l.Neg()) {
			return x.Neg, true
		}
		return false, false
	case VTerm:
		v := st.N(x)
		if t, ok := v.(VTerm); ok {
			return st.knownTerm(t)
		}
		if _, ok := v.(VTerm); !ok {
			return st.known(v)
		}
	}
	Undecided("condition of kind %T", c)
	return false, false
}

func (st *State) Known(c Val) (bool, bool) { return st.known(c) }

func (st *State) neqKnown(l Lin) bool {
	for _, f := range st.Facts {
		if t, ok := f.T.(VTerm); ok && !f.B && t.T.Op == "zero?" {
			d := t.T.A[0].(VInt).L
			if EntailsEq(st.Cons, d.Sub(l)) || EntailsEq(st.Cons, d.Add(l)) {
				return true
			}
		}
	}
	return false
}

func (st *State) knownTerm(t VTerm) (bool, bool) {
	if f, ok := st.Facts[t.T.key()]; ok {
		return f.B, true
	}
	switch t.T.Op {
	case "eq":
		r := st.cmpEq(t.T.A[0], t.T.A[1])
		if b, ok := r.(VBool); ok {
			return b.B, true
		}
	case "isnil":
		r := st.isNil(t.T.A[0])
		if b, ok := r.(VBool); ok {
			return b.B, true
		}
	case "less":
		if b, ok := st.orderKnown(t); ok {
			return b, true
		}
	}
	if b, ok := st.rangeKnown(t); ok {
		return b, true
	}
	if st.E.TermTheory != nil {
		if b, ok := st.E.TermTheory(st, t); ok {
			return b, true
		}
	}
	return false, false
}

func (st *State) assume(c Val, b bool) bool {
	if !st.assume0(c, b) {
		return false
	}
	if _, ok := c.(VCmp); ok {
		// what was assumed to be different may now be forced to be equal
		for _, f := range st.Facts {
			if t, ok := f.T.(VTerm); ok && !f.B && t.T.Op == "zero?" {
				l := st.NL(t.T.A[0].(VInt).L)
				if l.IsConst() && l.C == 0 || !l.IsConst() && EntailsGE(st.Cons, l) && EntailsGE(st.Cons, l.Neg()) {
					return false
				}
			}
		}
	}
	return true
}

func (st *State) assume0(c Val, b bool) bool {
	switch x := c.(type) {
	case VBool:
		return x.B == b
	case VNot:
		return st.assume(x.V, !b)
	case VCmp:
		if x.Neg {
			return st.assume(VCmp{L: x.L, Eq: x.Eq}, !b)
		}
		l := st.NL(x.L)
		if x.Eq {
			if b {
				return st.addCon(Con{l, true})
			}
			// disequality: use bounds if one side is known
			if EntailsGE(st.Cons, l) {
				return st.addCon(Con{l.AddC(-1), false})
			}
			if EntailsGE(st.Cons, l.Neg()) {
				return st.addCon(Con{l.Neg().AddC(-1), false})
			}
			if l.IsConst() {
				return l.C != 0
			}
			t := VTerm{&Term{Op: "zero?", A: []Val{VInt{l}}}}
			st.Facts[t.T.key()] = Fact{t, false}
			return true
		}
		if b {
			return st.addCon(Con{l, false})
		}
		return st.addCon(Con{l.Neg().AddC(-1), false})
	case VTerm:
		v := st.N(x)
		t, ok := v.(VTerm)
		if !ok {
			return st.assume(v, b)
		}
		if kb, ok := st.knownTerm(t); ok {
			return kb == b
		}
		if b && t.T.Op == "eq" {
			return st.unify(t.T.A[0], t.T.A[1])
		}
		if b && t.T.Op == "isnil" {
			if tt, ok := t.T.A[0].(VTerm); ok {
				return st.bind(tt, VNil{})
			}
		}
		st.Facts[t.T.key()] = Fact{t, b}
		if t.T.Op == "less" && !st.orderConsistent() {
			return false
		}
		return true
	}
	Undecided("assume of kind %T", c)
	return false
}

func occurs(t VTerm, v Val) bool {
	k := t.T.key()
	found := false
	m := &mapper{term: func(x VTerm) (Val, bool) {
		if x.T.key() == k {
			found = true
		}
		return nil, false
	}}
	m.val(v)
	return found
}

func (st *State) unify(a, b Val) bool {
	ta, oka := a.(VTerm)
	tb, okb := b.(VTerm)
	rank := func(t VTerm) int {
		switch {
		case t.T.Fresh > 0:
			return 0
		case len(t.T.A) > 0:
			return 1
		case strings.HasPrefix(t.T.Op, "zero"):
			return 3
		}
		return 2
	}
	switch {
	case oka && okb:
		ra, rb := rank(ta), rank(tb)
		if ra > rb || ra == rb && ta.T.key() < tb.T.key() {
			ta, tb, a, b = tb, ta, b, a
		}
		if occurs(ta, b) {
			if occurs(tb, a) {
				return true
			}
			return st.bind(tb, a)
		}
		return st.bind(ta, b)
	case oka:
		return st.bind(ta, b)
	case okb:
		return st.bind(tb, a)
	}
	r := st.cmpEq(a, b)
	return st.assume(r, true)
}

// bind replaces a term by a value everywhere.
func (st *State) bind(t VTerm, v Val) bool {
	if t.T.key() == Key(v) {
		return true
	}
	k := t.T.key()
	st.Alias[k] = AliasEnt{t, v}
	return st.rewrite(&mapper{})
}

func (st *State) Bind(t VTerm, v Val) {
	if !st.bind(t, v) {
		infeasible()
	}
}

// ---- strict weak orders ----

// less(ord,a,b)
func (st *State) orderGraph(ord string) (nodes []string, le map[string]map[string]bool, lt map[string]map[string]bool) {
	le, lt = map[string]map[string]bool{}, map[string]map[string]bool{}
	seen := map[string]bool{}
	add := func(m map[string]map[string]bool, a, b string) {
		if m[a] == nil {
			m[a] = map[string]bool{}
		}
		m[a][b] = true
		for _, x := range []string{a, b} {
			if !seen[x] {
				seen[x] = true
				nodes = append(nodes, x)
			}
		}
	}
	for _, k := range sortedKeys(st.Facts) {
		f := st.Facts[k]
		t, ok := f.T.(VTerm)
		if !ok || t.T.Op != "less" || Key(t.T.A[0]) != ord {
			continue
		}
		a, b := Key(t.T.A[1]), Key(t.T.A[2])
		if f.B {
			add(lt, a, b)
			add(le, a, b)
		} else {
			add(le, b, a)
		}
	}
	sort.Strings(nodes)
	for _, k := range nodes {
		for _, i := range nodes {
			for _, j := range nodes {
				if le[i][k] && le[k][j] {
					add(le, i, j)
					if lt[i][k] || lt[k][j] {
						add(lt, i, j)
					}
				}
			}
		}
	}
	// second pass for strictness propagation
	for _, k := range nodes {
		for _, i := range nodes {
			for _, j := range nodes {
				if le[i][k] && le[k][j] && (lt[i][k] || lt[k][j]) {
					add(lt, i, j)
				}
			}
		}
	}
	return
}

func (st *State) orderKnown(t VTerm) (bool, bool) {
	a, b := Key(t.T.A[1]), Key(t.T.A[2])
	if a == b {
		return false, true
	}
	_, le, lt := st.orderGraph(Key(t.T.A[0]))
	if lt[a][b] {
		return true, true
	}
	if le[b][a] {
		return false, true
	}
	return false, false
}

func (st *State) orderConsistent() bool {
	ords := map[string]bool{}
	for _, f := range st.Facts {
		if t, ok := f.T.(VTerm); ok && t.T.Op == "less" {
			ords[Key(t.T.A[0])] = true
		}
	}
	for o := range ords {
		nodes, _, lt := st.orderGraph(o)
		for _, n := range nodes {
			if lt[n][n] {
				return false
			}
		}
	}
	return true
}

// Less builds the literal a<b in the named strict weak order.
func Less(ord string, a, b Val) Val {
	return VTerm{&Term{Op: "less", A: []Val{VStr{ord}, a, b}}}
}

// ---- range facts ----

// HoleSym is the bound variable of range facts.
const HoleSym = Sym(0)

// splitAt finds the (unique up to offset) index occurring in at(base,i) subterms of t.
func indexTemplate(t Val) (tmpl Val, idx Lin, ok bool) {
	var first *Lin
	good := true
	m := &mapper{}
	m.term = func(x VTerm) (Val, bool) {
		if x.T.Op == "at" && len(x.T.A) == 2 {
			if l, isInt := x.T.A[1].(VInt); isInt && !l.L.IsConst() || isInt {
				if first == nil {
					c := l.L
					first = &c
				}
				d := l.L.Sub(*first)
				if !d.IsConst() {
					good = false
					return nil, false
				}
				return VTerm{&Term{Op: "at", A: []Val{x.T.A[0], VInt{SymLin(HoleSym).AddC(d.C)}}, Typ: x.T.Typ}}, true
			}
		}
		return nil, false
	}
	tmpl = m.val(t)
	if first == nil || !good {
		return nil, Lin{}, false
	}
	return tmpl, *first, true
}

func (st *State) rangeKnown(t VTerm) (bool, bool) {
	if len(st.RFacts) == 0 {
		return false, false
	}
	tm, ix, ok := indexTemplate(t)
	if !ok {
		return false, false
	}
	k := Key(tm)
	for _, r := range st.RFacts {
		if r.Key != k {
			continue
		}
		if EntailsGE(st.Cons, ix.Sub(r.Lo)) && EntailsGE(st.Cons, r.Hi.Sub(ix).AddC(-1)) {
			return r.B, true
		}
	}
	return false, false
}

// AddRange records a universally quantified fact.
func (st *State) AddRange(tmpl Val, lo, hi Lin, b bool) {
	st.RFacts = append(st.RFacts, RangeFact{T: tmpl, Lo: lo, Hi: hi, B: b, Key: Key(tmpl)})
}

// ---- terms ----

func (e *Engine) FreshTerm(t types.Type) VTerm {
	if n, ok := e.replay(); ok {
		return VTerm{&Term{Op: "#", Fresh: n, Typ: t}}
	}
	e.nterm++
	e.logFresh(e.nterm)
	return VTerm{&Term{Op: "#", Fresh: e.nterm, Typ: t}}
}

func (e *Engine) FreshSym() Lin {
	if n, ok := e.replay(); ok {
		return e.cur.NL(SymLin(Sym(n)))
	}
	e.nsym++
	e.logFresh(e.nsym)
	return SymLin(Sym(e.nsym))
}

// replay: when an instruction is executed again after a split, its fresh names are those of the first execution,
// so that what the split decided about them holds.
func (e *Engine) replay() (int, bool) {
	if st := e.cur; st != nil && st.freshIdx < len(st.freshLog) {
		n := st.freshLog[st.freshIdx]
		st.freshIdx++
		return n, true
	}
	return 0, false
}

func (e *Engine) logFresh(n int) {
	if st := e.cur; st != nil {
		st.freshLog = append(st.freshLog, n)
		st.freshIdx++
	}
}

// RigidSym is a symbol naming a quantity of the initial state.
func (e *Engine) RigidSym(name string) Lin {
	e.nsym++
	e.Rigid[Sym(e.nsym)] = true
	e.SymName[Sym(e.nsym)] = name
	return SymLin(Sym(e.nsym))
}

// NamedSym is the rigid symbol of that name (the same one each time).
func (e *Engine) NamedSym(name string) Lin {
	if e.named == nil {
		e.named = map[string]Lin{}
	}
	if l, ok := e.named[name]; ok {
		return l
	}
	l := e.RigidSym(name)
	e.named[name] = l
	return l
}

func Named(name string, t types.Type) VTerm { return VTerm{&Term{Op: name, Typ: t}} }

func (st *State) App(op string, t types.Type, a ...Val) Val {
	return st.N(VTerm{&Term{Op: op, A: a, Typ: t}})
}

func At(base string, i Lin, t types.Type) VTerm {
	return VTerm{&Term{Op: "at", A: []Val{VStr{base}, VInt{i}}, Typ: t}}
}

// ---- equality ----

func (st *State) isNil(v Val) Val {
	switch x := v.(type) {
	case VNil:
		return VBool{true}
	case VTerm:
		t := &Term{Op: "isnil", A: []Val{x}}
		if f, ok := st.Facts[t.key()]; ok {
			return VBool{f.B}
		}
		if x.T.Op == "&fld" || x.T.Op == "nonnil" || x.T.Op == "&new" {
			return VBool{false}
		}
		return VTerm{t}
	}
	return VBool{false}
}

func isPtrLike(v Val) bool {
	switch v.(type) {
	case VPtr, VIdx, VFunc, VMap, VSlice, VIface, VIter:
		return true
	}
	return false
}

// cmpEq is the Go == of two values as a condition.
func (st *State) cmpEq(a, b Val) Val {
	if a == nil || b == nil {
		Undecided("comparison of unknown values")
	}
	if Key(a) == Key(b) {
		return VBool{true}
	}
	switch x := a.(type) {
	case VNil:
		return st.isNil(b)
	case VInt:
		if y, ok := b.(VInt); ok {
			return EQ(x.L, y.L)
		}
	case VBool:
		if x.B {
			return b
		}
		return notVal(b)
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			var res Val = VBool{true}
			for i := range x.F {
				c := st.cmpEq(x.F[i], y.F[i])
				if cb, ok := c.(VBool); ok {
					if !cb.B {
						return VBool{false}
					}
					continue
				}
				if rb, ok := res.(VBool); ok && rb.B {
					res = c
					continue
				}
				// conjunction: decide the previous one
				if !st.decide(res) {
					return VBool{false}
				}
				res = c
			}
			return res
		}
	case VPtr:
		if y, ok := b.(VPtr); ok {
			if x.O == y.O && x.End != 0 && y.End != 0 {
				if x.End == y.End {
					return VBool{true}
				}
				return EQ(st.Heap[x.O].Seg.Len, K(1))
			}
			return VBool{false}
		}
	case VIface:
		if y, ok := b.(VIface); ok {
			if !types.Identical(x.T, y.T) {
				return VBool{false}
			}
			return st.cmpEq(x.V, y.V)
		}
	case VStr:
		if _, ok := b.(VStr); ok {
			return VBool{false}
		}
	}
	switch b.(type) {
	case VNil:
		return st.isNil(a)
	case VBool:
		return st.cmpEq(b, a)
	}
	ta, oka := a.(VTerm)
	tb, okb := b.(VTerm)
	if oka || okb {
		// a freshly allocated object differs from every term that existed before
		if oka && !okb {
			if p, ok := b.(VPtr); ok && st.isNew(p) {
				return VBool{false}
			}
		}
		if okb && !oka {
			if p, ok := a.(VPtr); ok && st.isNew(p) {
				return VBool{false}
			}
		}
		if oka && okb && st.E.DistinctTerms != nil && st.E.DistinctTerms(st, ta, tb) {
			return VBool{false}
		}
		if oka && okb && ta.T.Op == "at" && tb.T.Op == "at" && Key(ta.T.A[0]) == Key(tb.T.A[0]) {
			if i, ok := ta.T.A[1].(VInt); ok {
				if j, ok := tb.T.A[1].(VInt); ok && EntailsEq(st.Cons, i.L.Sub(j.L)) {
					return VBool{true}
				}
			}
		}
		ka, kb := Key(a), Key(b)
		if ka > kb {
			a, b = b, a
		}
		t := &Term{Op: "eq", A: []Val{a, b}}
		if f, ok := st.Facts[t.key()]; ok {
			return VBool{f.B}
		}
		if at, okA := a.(VTerm); okA {
			if bt, okB := b.(VTerm); okB && isLit(at) && isLit(bt) {
				return VBool{false}
			}
		}
		return VTerm{t}
	}
	if isPtrLike(a) && isPtrLike(b) {
		return VBool{false}
	}
	Undecided("comparison of %s and %s", Key(a), Key(b))
	return nil
}

func isLit(t VTerm) bool { return strings.HasPrefix(t.T.Op, "lit:") || t.T.Op == "zero" && false }

func (st *State) isNew(p VPtr) bool {
	o := st.Heap[p.O]
	return o != nil && o.New
}

func (st *State) CmpEq(a, b Val) Val { return st.cmpEq(a, b) }

func (st *State) AllocObj(o *Obj) ObjID {
	st.E.nobj++
	id := ObjID(st.E.nobj)
	st.Heap[id] = o
	return id
}

func (st *State) Pos() string {
	var parts []string
	for i := len(st.Frames) - 1; i >= 0 && len(parts) < 6; i-- {
		f := st.Frames[i]
		var p string
		if f.Block != nil && f.PC < len(f.Block.Instrs) {
			p = st.E.PosOf(f.Block.Instrs[f.PC])
		}
		parts = append(parts, fmt.Sprintf("%s (%s)", f.Fn.RelString(nil), p))
	}
	return strings.Join(parts, " <- ")
}

func Not(v Val) Val { return notVal(v) }

// ArrSet writes one array element (specifications).
func (st *State) ArrSet(o ObjID, i Lin, v Val) { st.arrSet(o, i, v) }

// Infeasible drops the current state.
func Infeasible() { infeasible() }

// MapPieces rewrites the pieces of every array.
func (st *State) MapPieces(f func(Piece) Piece) {
	for _, id := range sortedIDs(st.Heap) {
		o := st.Heap[id]
		if o.Arr == nil {
			continue
		}
		a := &ArrObj{}
		for _, p := range o.Arr.P {
			a.P = append(a.P, f(p))
		}
		a.P = st.normPieces(a.P)
		n := *o
		n.Arr = a
		st.Heap[id] = &n
	}
}

// HeapIDs lists the objects in a fixed order.
func (st *State) HeapIDs() []ObjID { return sortedIDs(st.Heap) }

// SetPieces replaces the contents of an array object.
func (st *State) SetPieces(id ObjID, ps []Piece) { st.setArr(id, &ArrObj{P: st.normPieces(ps)}) }

// ForgetCap forgets how much spare capacity the arrays chosen have: the unused piece at the end (with the given
// tag) becomes arbitrarily long. Only slices that reach the end of the array know the difference.
// ForgetMapLen drops what is known about the size of maps with unknown content that nobody is iterating over,
// beyond the entries known to be there.
func (st *State) ForgetMapLen() {
	busy := map[ObjID]bool{}
	for _, o := range st.Heap {
		if o.Iter != nil {
			if m, ok := o.Iter.M.(VMap); ok {
				busy[m.O] = true
			}
		}
	}
	for _, id := range sortedIDs(st.Heap) {
		o := st.Heap[id]
		if o.Map == nil || !o.Map.Unknown || busy[id] {
			continue
		}
		n := int64(0)
		for _, e := range o.Map.Ents {
			if e.Present {
				n++
			}
		}
		m := *o.Map
		m.Len = st.E.FreshSym()
		st.addCon(Con{m.Len.AddC(-n), false})
		st.setMap(VMap{id}, &m)
	}
}

func (st *State) ForgetCap(tag string, sel func(*Obj) bool) {
	for _, id := range sortedIDs(st.Heap) {
		o := st.Heap[id]
		if o.Arr == nil || len(o.Arr.P) == 0 || !sel(o) {
			continue
		}
		ps := o.Arr.P
		last := ps[len(ps)-1]
		total := K(0)
		for _, p := range ps {
			total = total.Add(p.Len)
		}
		var s Lin
		if last.V == nil && last.E == nil && (last.Tag == tag || last.Tag == "") {
			s = last.Len
			ps = ps[:len(ps)-1]
		} else {
			s = K(0)
		}
		ok := true
		chk := &mapper{term: func(t VTerm) (Val, bool) { return t, false }, sl: func(v VSlice) VSlice {
			if v.O == id {
				if b, known := st.known(EQ(v.Off.Add(v.Cap), total)); !known || !b {
					ok = false
				}
			}
			return v
		}}
		st.rootVals(func(v Val) { chk.val(v) })
		for _, o2 := range st.Heap {
			chk.obj(o2)
		}
		if !ok {
			continue
		}
		n := st.E.FreshSym()
		if !st.addCon(Con{n, false}) {
			infeasible()
		}
		d := n.Sub(s)
		if !st.rewrite(&mapper{sl: func(v VSlice) VSlice {
			if v.O == id {
				v.Cap = v.Cap.Add(d)
			}
			return v
		}}) {
			infeasible()
		}
		st.SetPieces(id, append(append([]Piece(nil), ps...), Piece{Len: n, Tag: tag}))
	}
}

// IterVisiting finds an iteration over m that has visited k.
func (st *State) IterVisiting(m VMap, k Val) (Val, bool) {
	for _, id := range sortedIDs(st.Heap) {
		o := st.Heap[id]
		if o.Iter == nil || !Same(o.Iter.M, m) {
			continue
		}
		for _, v := range o.Iter.Visited {
			if Same(v, k) {
				return VIter{id}, true
			}
		}
	}
	return nil, false
}

// TypeParamOf is the i-th type parameter of a generic function or method.
func TypeParamOf(fn *ssa.Function, i int) types.Type {
	tp := fn.TypeParams()
	if tp == nil || tp.Len() <= i {
		Undecided("%s has no type parameter %d", fn, i)
	}
	return tp.At(i)
}

// MergeElem joins two contiguous runs of the same base (specifications).
func (st *State) MergeElem(a *Elem, na Lin, b *Elem, nb Lin) (*Elem, bool) {
	return st.mergeElem(a, na, b, nb)
}

// ElemOf recognises the value at(base,i).
func ElemOf(v Val) *Elem { return elemOf(v) }

// Pieces is the content of an array between two positions (specifications).
func (st *State) Pieces(o ObjID, lo, hi Lin) []Piece { return st.pieces(o, lo, hi) }

// NormPieces drops empty pieces and joins contiguous ones.
func (st *State) NormPieces(p []Piece) []Piece { return st.normPieces(p) }

// PiecesKey renders pieces.
func PiecesKey(p []Piece) string { return piecesKey(p) }

// hint remembers the linear condition of a branch.
func (st *State) hint(c Val, b bool) {
	x, ok := c.(VCmp)
	if !ok {
		if n, isNot := c.(VNot); isNot {
			st.hint(n.V, !b)
		}
		return
	}
	if x.Neg {
		b = !b
	}
	l := st.NL(x.L)
	if len(l.T) < 2 {
		return
	}
	if st.OnlyRigid(l) { // about quantities that never change: worth remembering at every loop
		if x.Eq && !b {
			st.E.rigidHint(l.AddC(-1))
			st.E.rigidHint(l.Neg().AddC(-1))
		} else if !x.Eq && b {
			st.E.rigidHint(l)
		} else if !x.Eq {
			st.E.rigidHint(l.Neg().AddC(-1))
		}
	}
	switch {
	case x.Eq && !b:
		st.addHint(l)
		st.addHint(l.Neg())
	case x.Eq:
	case b:
		st.addHint(l)
	default:
		st.addHint(l.Neg().AddC(-1))
	}
}

func (e *Engine) rigidHint(l Lin) {
	for _, h := range e.rigidHints {
		if h.Equal(l) {
			return
		}
	}
	if len(e.rigidHints) < 16 {
		e.rigidHints = append(e.rigidHints, l)
	}
}

func (st *State) addHint(l Lin) {
	if len(st.hints) >= 16 {
		st.hints = append([]Lin(nil), st.hints[1:]...)
	}
	st.hints = append(st.hints, l)
}

// Objs lists the objects of the heap in a stable order.
func (st *State) Objs() []ObjID { return sortedIDs(st.Heap) }

// SetField writes a field of the struct p points to, without any hook.
func (st *State) SetField(p VPtr, f int, v Val) {
	o := *st.Heap[p.O]
	o.V = st.setPath(o.V, append(parsePath(p.P), f), v)
	st.Heap[p.O] = &o
}

// OnlyRigid: the form mentions only symbols fixed for the whole analysis.
func (st *State) OnlyRigid(l Lin) bool {
	for _, t := range st.NL(l).T {
		if !st.E.Rigid[t.S] {
			return false
		}
	}
	return true
}
