package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

type Violation struct {
	Key, Kind, Fn, Pos, Case, Clause, Dump string
	Trace                                  []string
}

// Ctx collects what one property check analysed and found.
type Ctx struct {
	E           *ai.Engine
	Prop        string
	Only        string
	Debug       bool
	Viol        []Violation
	Obligations int
	Paths       int
	Steps       int
	Loops       int
	cases       []string
	touched     map[string]string
	seen        map[string]bool
	cur         string
}

func (c *Ctx) addViolation(v Violation) {
	if v.Key == "" {
		v.Key = fmt.Sprintf("%s|%s|%s|%s", c.Prop, v.Fn, v.Case, v.Clause)
	}
	if c.seen[v.Key] {
		return
	}
	c.seen[v.Key] = true
	c.Viol = append(c.Viol, v)
}

// Scenario: run Fn from every state Init builds, check Post in every final state.
type Scenario struct {
	Name  string
	Pkg   string
	Fn    string
	Hooks func(e *ai.Engine)
	Init  func(st *ai.State, fn *ssa.Function) []ai.Val
	Post  func(st *ai.State, p *Post)
	// MayPanic: panics are not themselves violations (Post looks at st.Panic)
	MayPanic bool
	// NoFinal: it is fine if no path returns
	NoFinal bool
	// Inits: packages whose variable initialisers run first
	Inits []string
	// TA binds the type parameters of the entry function
	TA func(fn *ssa.Function) ai.TEnv
}

// Post checks one final state.
type Post struct {
	c    *Ctx
	s    *Scenario
	fn   *ssa.Function
	st   *ai.State
	bad  bool
	seen map[string]bool
}

func (p *Post) fail(kind, clause string) {
	p.bad = true
	v := Violation{Kind: kind, Fn: p.fn.RelString(nil), Pos: p.c.pos(p.fn), Case: p.s.Name, Clause: clause, Trace: p.st.TraceList()}
	if p.c.Debug {
		v.Dump = p.st.Dump()
	}
	p.c.addViolation(v)
}

// True requires a condition to be established.
func (p *Post) True(cond ai.Val, clause string, a ...interface{}) bool {
	p.c.Obligations++
	if b, ok := p.st.Known(cond); !ok || !b {
		p.fail("violated", fmt.Sprintf(clause, a...))
		return false
	}
	return true
}

func (p *Post) Ok(b bool, clause string, a ...interface{}) bool {
	p.c.Obligations++
	if !b {
		p.fail("violated", fmt.Sprintf(clause, a...))
	}
	return b
}

// Same requires two values to be equal as Go values.
func (p *Post) Same(a, b ai.Val, clause string, args ...interface{}) bool {
	p.c.Obligations++
	a, b = p.st.N(a), p.st.N(b)
	if !ai.Same(a, b) {
		if x, ok := p.st.Known(p.st.CmpEq(a, b)); ok && x {
			return true
		}
		p.fail("violated", fmt.Sprintf(clause, args...)+fmt.Sprintf(" (%s vs %s)", ai.Key(a), ai.Key(b)))
		return false
	}
	return true
}

func (c *Ctx) pos(fn *ssa.Function) string {
	q := c.E.Prog.Fset.Position(fn.Pos())
	f := q.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (c *Ctx) fnOf(s *Scenario) *ssa.Function {
	fn := c.E.Fn(s.Pkg, s.Fn)
	if fn == nil || len(fn.Blocks) == 0 {
		c.addViolation(Violation{Kind: "unresolved", Fn: s.Pkg + "." + s.Fn, Case: s.Name, Clause: "the function the rule is about does not exist"})
		return nil
	}
	return fn
}

// Run executes a scenario.
func (c *Ctx) Run(s Scenario) {
	full := s.Pkg + "." + s.Fn + " " + s.Name
	if c.Only != "" && !strings.Contains(full, c.Only) {
		return
	}
	c.cur = full
	if os.Getenv("AN_VERBOSE") != "" {
		t0 := time.Now()
		fmt.Fprintf(os.Stderr, "-> %s\n", full)
		defer func() {
			fmt.Fprintf(os.Stderr, "   %.2fs steps %d loops %d\n", time.Since(t0).Seconds(), c.E.Steps, c.E.Loops)
		}()
	}
	fn := c.fnOf(&s)
	if fn == nil {
		return
	}
	c.cases = append(c.cases, full)
	e := c.E
	e.Reset()
	if s.Hooks != nil {
		s.Hooks(e)
	}
	if len(c.Viol) > 0 {
		e.MaxTime = 20 * time.Second // already failed: the rest only adds detail
	}
	st := e.NewState()
	for _, pkg := range s.Inits {
		if st = c.initPkg(&s, st, pkg); st == nil {
			return
		}
	}
	starts, probs := e.Fork(st, func(st *ai.State) {
		args := s.Init(st, fn)
		for i := range args {
			args[i] = st.N(args[i])
		}
		st.Enter(fn, args...)
		if s.TA != nil {
			st.Top().TA = s.TA(fn)
		}
	})
	finals, p2 := e.RunAll(starts)
	probs = append(probs, p2...)
	c.finish(&s, fn, finals, probs)
}

// initPkg interprets the initialisers of the package variables.
func (c *Ctx) initPkg(s *Scenario, st *ai.State, pkg string) *ai.State {
	e := c.E
	p := e.Pkgs[e.Module+"/"+pkg]
	var fn *ssa.Function
	if p != nil {
		fn = p.Func("init")
	}
	if fn == nil {
		c.addViolation(Violation{Kind: "unresolved", Fn: pkg, Case: s.Name, Clause: "the package has no initialiser"})
		return nil
	}
	hooks := *e
	e.Override = func(cl *ai.Call) (ai.Val, bool) {
		if cl.Fn.Name() == "init" && cl.Fn.Synthetic != "" {
			return ai.VTuple{}, true
		}
		return nil, false
	}
	e.Atomic, e.OnAccess, e.AfterAccess, e.Lock, e.OnMap, e.MapUnknown, e.MapOther, e.AfterStep, e.OnCallback = nil, nil, nil, nil, nil, nil, nil, nil, nil
	st.Enter(fn)
	finals, probs := e.RunAll([]*ai.State{st})
	e.Override, e.Atomic, e.OnAccess, e.AfterAccess, e.Lock, e.OnMap, e.MapUnknown, e.MapOther, e.AfterStep, e.OnCallback = hooks.Override, hooks.Atomic, hooks.OnAccess, hooks.AfterAccess, hooks.Lock, hooks.OnMap, hooks.MapUnknown, hooks.MapOther, hooks.AfterStep, hooks.OnCallback
	var out []*ai.State
	for _, f := range finals { // the run in which the guard was unset
		if !f.Panic {
			out = append(out, f)
		}
	}
	if len(probs) > 0 || len(out) != 1 {
		msg := fmt.Sprintf("%d outcomes", len(out))
		if len(probs) > 0 {
			msg = probs[0].Msg
		}
		c.addViolation(Violation{Kind: "undecided", Fn: pkg + ".init", Case: s.Name, Clause: "package initialisers not decided: " + msg})
		return nil
	}
	r := out[0]
	r.Frames = nil
	for _, id := range r.Objs() {
		o := *r.Heap[id]
		o.New = false
		r.Heap[id] = &o
	}
	return r
}

func (c *Ctx) finish(s *Scenario, fn *ssa.Function, finals []*ai.State, probs []ai.Problem) {
	e := c.E
	for _, p := range probs {
		c.addViolation(Violation{Key: fmt.Sprintf("%s|%s|%s|undecided", c.Prop, fn.RelString(nil), s.Name), Kind: "undecided", Fn: fn.RelString(nil), Pos: p.Pos, Case: s.Name, Clause: "not decided: " + p.Msg, Trace: p.Trace})
	}
	if !s.NoFinal {
		for _, p := range e.Endless {
			c.addViolation(Violation{Key: fmt.Sprintf("%s|%s|%s|endless", c.Prop, fn.RelString(nil), s.Name), Kind: "violated", Fn: fn.RelString(nil), Pos: p.Pos, Case: s.Name, Clause: p.Msg + " (no return can be reached from it)", Trace: p.Trace})
		}
	}
	if len(finals) == 0 && !s.NoFinal && len(probs) == 0 {
		c.addViolation(Violation{Kind: "vacuous", Fn: fn.RelString(nil), Pos: c.pos(fn), Case: s.Name, Clause: "no path reaches a return"})
	}
	for _, f := range finals {
		c.Paths++
		ps := e.Check(f, func(st *ai.State) {
			p := &Post{c: c, s: s, fn: fn, st: st}
			if st.Panic && !s.MayPanic {
				p.fail("violated", "panics: "+ai.Key(st.PanicVal))
				return
			}
			s.Post(st, p)
		})
		for _, p := range ps {
			c.addViolation(Violation{Key: fmt.Sprintf("%s|%s|%s|undecided", c.Prop, fn.RelString(nil), s.Name), Kind: "undecided", Fn: fn.RelString(nil), Pos: c.pos(fn), Case: s.Name, Clause: "postcondition not decided: " + p.Msg, Trace: p.Trace})
		}
	}
	for f := range e.Touched {
		c.touched[f.RelString(nil)] = c.pos(f)
	}
	c.Steps += e.Steps
	c.Loops += e.Loops
}

// Either runs alternative analyses of the same obligations (each sound by itself) until one succeeds;
// if none does, the findings of the last one stand.
func (c *Ctx) Either(alts ...func()) {
	for i, f := range alts {
		save := *c
		save.seen = map[string]bool{}
		for k := range c.seen {
			save.seen[k] = true
		}
		f()
		if len(c.Viol) == len(save.Viol) || i == len(alts)-1 {
			return
		}
		*c = save
	}
}

// ---- helpers for specifications ----

func term(name string, t types.Type) ai.Val { return ai.Named(name, t) }

func distinct(st *ai.State, a, b ai.Val) {
	st.Assume(ai.Not(st.CmpEq(a, b)))
}

func ptrTo(v ai.ObjID) ai.Val { return ai.VPtr{O: v} }

func typeOfParam(fn *ssa.Function, i int) types.Type { return fn.Params[i].Type() }

// elemType of *T or T
func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func mapType(t types.Type) *types.Map { return t.Underlying().(*types.Map) }

// fieldIndex finds a struct field by name; -1 if missing.
func fieldIndex(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func mustField(t types.Type, name string) int {
	i := fieldIndex(t, name)
	if i < 0 {
		ai.Undecided("type %s has no field %s", t, name)
	}
	return i
}

// roleField finds a field by name, or else as the only field whose type satisfies the predicate.
func roleField(t types.Type, name string, pred func(types.Type) bool) int {
	if i := fieldIndex(t, name); i >= 0 {
		return i
	}
	hit := -1
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if pred(s.Field(i).Type()) {
				if hit >= 0 {
					ai.Undecided("type %s has no field %s and several candidates", t, name)
				}
				hit = i
			}
		}
	}
	if hit < 0 {
		ai.Undecided("type %s has no field for %s", t, name)
	}
	return hit
}

func isMapT(t types.Type) bool   { _, ok := t.Underlying().(*types.Map); return ok }
func isSliceT(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }
func isBasicT(k types.BasicKind) func(types.Type) bool {
	return func(t types.Type) bool { b, ok := types.Unalias(t).(*types.Basic); return ok && b.Kind() == k }
}
func namedT(name string) func(types.Type) bool {
	return func(t types.Type) bool {
		n, ok := types.Unalias(deref(t)).(*types.Named)
		return ok && n.Obj().Name() == name
	}
}
func isTypeParam(i int, of types.Type) func(types.Type) bool {
	return func(t types.Type) bool { return types.Identical(t, typeArg(of, i)) }
}

func typeArg(t types.Type, i int) types.Type {
	if n, ok := types.Unalias(deref(t)).(*types.Named); ok {
		if a := n.TypeArgs(); a != nil && i < a.Len() {
			return a.At(i)
		}
		if p := n.TypeParams(); p != nil && i < p.Len() {
			return p.At(i)
		}
	}
	return types.Typ[types.Invalid]
}
