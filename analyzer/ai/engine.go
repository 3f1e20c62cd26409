package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine holds the program and the hooks of one analysis.
type Engine struct {
	Prog       *ssa.Program
	Pkgs       map[string]*ssa.Package
	Initial    []*packages.Package
	Module     string
	Rigid      map[Sym]bool
	SymName    map[Sym]string
	Keys       []Val
	ListTypes  map[*types.TypeName]ListType
	MaxRec     int
	MaxSteps   int
	Unroll     int // loop iterations analysed separately before joining
	InlinePkgs []string

	Override      func(*Call) (Val, bool)
	OnCallback    func(*Callback) Val
	OnAccess      func(st *State, p Val, t types.Type, k AccessKind)
	AfterAccess   func(st *State, p Val, t types.Type, v Val, k AccessKind) // value read or written
	TrackShared   bool
	OnMap         func(st *State, m VMap, k Val, write bool)
	OnGo          func(st *State, g *ssa.Go, callee Val, args []Val)
	OnRecv        func(st *State, x *ssa.UnOp) Val
	OnBinOp       func(st *State, op token.Token, a, b Val, t types.Type) (Val, bool)
	OpaqueAccess  func(st *State, p VTerm, t types.Type, v Val, write bool) (Val, bool)
	OpaqueField   func(st *State, p VTerm, i int) (Val, bool)
	UnknownElem   func(st *State, o ObjID, piece int, i Lin, t types.Type) (Val, bool)
	ElemRead      func(st *State, base string, i Lin, t types.Type) (Val, bool) // an element of a named sequence is read
	MapUnknown    func(st *State, m VMap, k Val) (MapEnt, bool)
	MapOther      func(st *State, m VMap, k Val) (MapEnt, bool)
	TermTheory    func(st *State, t VTerm) (bool, bool)
	DistinctTerms func(st *State, a, b VTerm) bool
	Atomic        func(a *AtomicOp) bool // interference hook, before the access
	Lock          func(st *State, p Val, op string)
	LoopNorm      func(st *State)
	TermBytes     bool // the bytes of a string stay a term of the string
	Wrap          bool // integer conversions and arithmetic may wrap around
	ProjectFacts  bool // at loop heads forget facts about elements no live value refers to
	External      func(*Call) (Val, bool)
	KeepNode      func(st *State, o *Obj) bool                     // the node is never folded into a segment
	SegTag        func(st *State, o *Obj, field int, v Val) string // forget a field when folding a node
	AfterStep     func(st *State)

	EntryHeads bool // join states at the start of functions that call themselves last, on entry too

	Endless []Problem // loops of the last run that never end
	Touched map[*ssa.Function]bool
	Steps   int
	Paths   int
	Loops   int

	nobj, nterm, nsym int
	rigidHints        []Lin
	named             map[string]Lin
	infos             map[*ssa.Function]*fnInfo
	tctx              *types.Context
	MaxTime           time.Duration
	deadline          time.Time
	Debug             bool
	cur               *State // state whose instruction is executed
}

// Load type-checks the repository and builds SSA.
func Load(dir string, overlay map[string][]byte) (*Engine, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Fset: fset, Tests: false, Overlay: overlay}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	e := &Engine{Prog: prog, Pkgs: map[string]*ssa.Package{}, Initial: pkgs}
	for _, p := range pkgs {
		e.Pkgs[p.PkgPath] = prog.Package(p.Types)
		if p.Module != nil {
			e.Module = p.Module.Path
		}
	}
	e.Reset()
	return e, nil
}

// Reset prepares the engine for a new analysis (keeps the program).
func (e *Engine) Reset() {
	n := &Engine{Prog: e.Prog, Pkgs: e.Pkgs, Initial: e.Initial, Module: e.Module}
	n.Rigid = map[Sym]bool{}
	n.SymName = map[Sym]string{}
	n.ListTypes = map[*types.TypeName]ListType{}
	n.MaxRec = 3
	n.MaxSteps = 400000
	n.infos = e.infos
	if n.infos == nil {
		n.infos = map[*ssa.Function]*fnInfo{}
	}
	n.tctx = e.tctx
	if n.tctx == nil {
		n.tctx = types.NewContext()
	}
	n.Touched = map[*ssa.Function]bool{}
	n.nobj, n.nterm = 100000, 100000
	n.nsym = 0
	n.InlinePkgs = []string{"golang.org/x/exp/maps", "golang.org/x/exp/slices", "maps", "slices", "cmp", "iter"}
	*e = *n
}

func (e *Engine) IsRepo(path string) bool {
	return path == e.Module || strings.HasPrefix(path, e.Module+"/")
}

func (e *Engine) inlinable(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if p == "" {
		return fn.Synthetic != ""
	}
	if e.IsRepo(p) {
		return true
	}
	for _, q := range e.InlinePkgs {
		if p == q {
			return true
		}
	}
	return false
}

func fnPkg(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Origin() != nil && fn.Origin().Pkg != nil {
		return fn.Origin().Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (e *Engine) touch(fn *ssa.Function) {
	if e.IsRepo(fnPkg(fn)) {
		e.Touched[fn] = true
	}
}

func (e *Engine) keyOfType(k Val, t types.Type) bool {
	if x, ok := k.(VTerm); ok && x.T.Typ != nil {
		return types.Identical(x.T.Typ, t) || true
	}
	return true
}

func (e *Engine) PosOf(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		if v, ok := in.(ssa.Value); ok {
			p = v.Pos()
		}
	}
	if !p.IsValid() {
		if i, ok := in.(*ssa.If); ok {
			p = i.Cond.Pos()
		}
	}
	if !p.IsValid() {
		return in.Parent().Name()
	}
	q := e.Prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	} else if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Engine) condStr(x *ssa.If) string {
	switch c := x.Cond.(type) {
	case *ssa.BinOp:
		return c.X.Name() + c.Op.String() + c.Y.Name()
	case *ssa.Call:
		if f := c.Call.StaticCallee(); f != nil {
			return f.Name() + "()"
		}
	}
	return "condition"
}

// NewState is an empty state.
func (e *Engine) NewState() *State {
	return &State{E: e, Heap: map[ObjID]*Obj{}, Facts: map[string]Fact{}, Alias: map[string]AliasEnt{}, SymAlias: map[Sym]Lin{}, Ghost: map[string]Val{}}
}

// Problem is a construct the analysis could not decide.
type Problem struct {
	Msg   string
	Pos   string
	Trace []string
}

type runner struct {
	e        *Engine
	heads    map[string][]*headEntry
	nheads   int
	maxHeads int
	work     []*State
	final    []*State
	probs    []Problem

	edges map[int][]int // between starts and loop states
	exits map[int]bool  // a return (or a problem) is reached from there
	where []Problem
}

func (r *runner) node(st *State) int {
	r.where = append(r.where, Problem{"a loop that never ends", st.Pos(), st.TraceList()})
	return len(r.where)
}

func (r *runner) edge(a, b int) {
	if r.edges == nil {
		r.edges = map[int][]int{}
	}
	r.edges[a] = append(r.edges[a], b)
}

func (r *runner) exit(st *State) {
	if r.exits == nil {
		r.exits = map[int]bool{}
	}
	r.exits[st.origin] = true
}

// endless gives the loop states that lie on a cycle and from which no return can be reached.
func (r *runner) endless() []Problem {
	rev := map[int][]int{}
	for a, bs := range r.edges {
		for _, b := range bs {
			rev[b] = append(rev[b], a)
		}
	}
	ok := map[int]bool{}
	var q []int
	for n := range r.exits {
		ok[n] = true
		q = append(q, n)
	}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		for _, a := range rev[n] {
			if !ok[a] {
				ok[a] = true
				q = append(q, a)
			}
		}
	}
	var out []Problem
	for n := 1; n <= len(r.where); n++ {
		if ok[n] {
			continue
		}
		seen := map[int]bool{}
		q := append([]int(nil), r.edges[n]...)
		for len(q) > 0 && !seen[n] {
			m := q[0]
			q = q[1:]
			if !seen[m] {
				seen[m] = true
				q = append(q, r.edges[m]...)
			}
		}
		if seen[n] {
			out = append(out, r.where[n-1])
			break // one is enough
		}
	}
	return out
}

// guard runs f on st; handles splits by forking. cont receives surviving states.
func (r *runner) guard(st *State, f func(*State), cont func(*State)) {
	snap := st.Clone()
	snap.chIdx = 0
	st.chIdx = 0
	st.freshIdx = 0
	saved := r.e.cur
	r.e.cur = st
	func() {
		defer func() {
			x := recover()
			r.e.cur = saved
			switch y := x.(type) {
			case nil:
				st.choices, st.chIdx = nil, 0
				st.freshLog, st.freshIdx = nil, 0
				cont(st)
			case splitErr:
				for _, a := range y.alts {
					n := snap.Clone()
					n.freshLog = append([]int(nil), st.freshLog...)
					ok := false
					func() {
						defer func() {
							switch z := recover().(type) {
							case nil:
							case deadErr:
								ok = false
							case undecidedErr:
								r.exit(n)
								r.probs = append(r.probs, Problem{z.msg, n.Pos(), n.TraceList()})
								ok = false
							default:
								panic(z)
							}
						}()
						ok = a(n)
					}()
					if ok {
						r.guard(n, f, cont)
					}
				}
			case deadErr:
			case undecidedErr:
				r.exit(st)
				r.probs = append(r.probs, Problem{y.msg, st.Pos(), st.TraceList()})
			case goPanic:
				// the panic starts in the frame executing the instruction
				if len(st.Frames) == 0 {
					st.Done, st.Panic, st.PanicVal = true, true, y.v
				} else {
					fr := st.Top()
					fr.Panicking, fr.Recovered, fr.PanicVal = true, false, y.v
					st.Tracef("panic at %s: %s", st.Pos(), Key(y.v))
				}
				st.choices, st.chIdx = nil, 0
				st.freshLog, st.freshIdx = nil, 0
				cont(st)
			default:
				panic(x)
			}
		}()
		f(st)
	}()
}

// Run explores all states reachable from st and returns the final ones.
func (e *Engine) Run(st *State) ([]*State, []Problem) {
	return e.RunAll([]*State{st})
}

func (e *Engine) RunAll(sts []*State) ([]*State, []Problem) {
	r := &runner{e: e, heads: map[string][]*headEntry{}, maxHeads: 4000}
	for _, st := range sts {
		st.origin = r.node(st)
	}
	r.work = append(r.work, sts...)
	steps := 0
	if e.MaxTime == 0 {
		e.MaxTime = 300 * time.Second
	}
	e.deadline = time.Now().Add(e.MaxTime)
	for len(r.work) > 0 {
		st := r.work[len(r.work)-1]
		r.work = r.work[:len(r.work)-1]
		if st.Done {
			r.exit(st)
			r.final = append(r.final, st)
			continue
		}
		if len(st.Frames) == 0 {
			st.Done = true
			r.exit(st)
			r.final = append(r.final, st)
			continue
		}
		for {
			steps++
			e.Steps++
			if steps > e.MaxSteps || steps%64 == 0 && time.Now().After(e.deadline) {
				r.probs = append(r.probs, Problem{"analysis budget exceeded", st.Pos(), st.TraceList()})
				r.work = nil
				break
			}
			var outs []*State
			r.guard(st, func(s *State) { s.step() }, func(s *State) { outs = append(outs, s) })
			var next []*State
			for _, o := range outs {
				if e.AfterStep != nil {
					e.AfterStep(o)
				}
				if o.Done || len(o.Frames) == 0 {
					o.Done = true
					r.exit(o)
					r.final = append(r.final, o)
					continue
				}
				f := o.Top()
				if o.jumped && !f.Panicking && e.info(f.Fn).heads[f.Block] {
					// arrival at a loop head
					e.Loops++
					keep := false
					r.guard(o, func(s *State) {
						keep = r.loopHead(s)
					}, func(s *State) {
						if keep {
							next = append(next, s)
						}
					})
					continue
				}
				next = append(next, o)
			}
			if len(next) == 0 {
				break
			}
			for _, n := range next[1:] {
				r.work = append(r.work, n)
			}
			st = next[0]
		}
	}
	e.Paths += len(r.final)
	e.Endless = nil
	if len(r.probs) == 0 {
		e.Endless = r.endless()
	}
	return r.final, r.probs
}

// Check runs f (which may split) on a final state; returns problems found.
func (e *Engine) Check(st *State, f func(*State)) []Problem {
	r := &runner{e: e}
	r.guard(st.Clone(), f, func(*State) {})
	return r.probs
}

// Fork runs f, which may split, and returns the surviving states.
func (e *Engine) Fork(st *State, f func(*State)) ([]*State, []Problem) {
	r := &runner{e: e}
	var out []*State
	r.guard(st.Clone(), f, func(s *State) { out = append(out, s) })
	return out, r.probs
}

// Enter starts a call of fn on the state.
func (st *State) Enter(fn *ssa.Function, args ...Val) {
	st.Done, st.Panic, st.PanicVal, st.Result = false, false, nil, nil
	st.PushFrame(VFunc{Fn: fn}, args, nil, nil, false)
}

// Fn finds a package function or method ("T.M" for methods of T or *T).
func (e *Engine) Fn(pkg, name string) *ssa.Function {
	p := e.Pkgs[pkg]
	if p == nil {
		p = e.Pkgs[e.Module+"/"+pkg]
	}
	if p == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		o := p.Pkg.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		n, ok := o.Type().(*types.Named)
		if !ok {
			return nil
		}
		for i := 0; i < n.NumMethods(); i++ {
			if n.Method(i).Name() == mn {
				return e.Prog.FuncValue(n.Method(i))
			}
		}
		return nil
	}
	return p.Func(name)
}

func (e *Engine) external(c *Call) (Val, bool) {
	if e.External != nil {
		return e.External(c)
	}
	return nil, false
}
