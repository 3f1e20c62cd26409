package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

func init() {
	register("C01", "shape analysis: every exported list operation is interpreted from every well-formed list (runs of any length around the handles, the zero list, foreign and detached handles) and must leave every list well-formed: next/prev inverse, closed at the root, owner set, length equal to the number of elements, no panic", func(c *Ctx) { dllist(c, 1) })
	register("C02", "shape analysis with element identities: the element sequence after each positional edit must be exactly the prescribed rearrangement of the runs before it, and the result the prescribed element or value", func(c *Ctx) { dllist(c, 2) })
	register("C03", "shape analysis: with a handle that is detached or owned by another list, no list changes and insertions return nil; elements removed, cleared or sorted away are detached", func(c *Ctx) { dllist(c, 3) })
	register("C04", "shape analysis with symbolic value sequences: whole-list operations produce exactly the prescribed sequence of values; sorting is checked for an arbitrary pair of elements with the recursive calls summarised inductively", func(c *Ctx) { dllistWhole(c, 4) })
}

// dlop is one positional operation.
type dlop struct {
	fn    string
	elemM bool     // method of Element
	args  []string // "v", or handle names "e","f"
	// want: sequence after the operation, per initial shape; "" = unchanged
	cases map[string]string
	// result: "new", "val:e" (value of e), "elem:tok", "none"
	res string
}

var dlops = []dlop{
	{fn: "Dllist.PushFront", args: []string{"v"}, cases: map[string]string{"A": "+v A", "zero": "+v"}, res: "new"},
	{fn: "Dllist.PushBack", args: []string{"v"}, cases: map[string]string{"A": "A +v", "zero": "+v"}, res: "new"},
	{fn: "Dllist.InsertBefore", args: []string{"v", "e"}, cases: map[string]string{"A e B": "A +v e B"}, res: "new"},
	{fn: "Dllist.InsertAfter", args: []string{"v", "e"}, cases: map[string]string{"A e B": "A e +v B"}, res: "new"},
	{fn: "Element.InsertBefore", elemM: true, args: []string{"v"}, cases: map[string]string{"A e B": "A +v e B"}, res: "new"},
	{fn: "Element.InsertAfter", elemM: true, args: []string{"v"}, cases: map[string]string{"A e B": "A e +v B"}, res: "new"},
	{fn: "Dllist.Remove", args: []string{"e"}, cases: map[string]string{"A e B": "A B"}, res: "val"},
	{fn: "Element.Remove", elemM: true, cases: map[string]string{"A e B": "A B"}, res: "val"},
	{fn: "Dllist.MoveToFront", args: []string{"e"}, cases: map[string]string{"A e B": "e A B"}},
	{fn: "Dllist.MoveToBack", args: []string{"e"}, cases: map[string]string{"A e B": "A B e"}},
	{fn: "Dllist.MoveBefore", args: []string{"e", "f"}, cases: map[string]string{"A e B f C": "A B e f C", "A f B e C": "A e f B C", "A e B": "A e B"}},
	{fn: "Dllist.MoveAfter", args: []string{"e", "f"}, cases: map[string]string{"A e B f C": "A B f e C", "A f B e C": "A f e B C", "A e B": "A e B"}},
	{fn: "Dllist.Swap", args: []string{"e", "f"}, cases: map[string]string{"A e B f C": "A f B e C", "A f B e C": "A e B f C", "A e B": "A e B"}},
}

func dlTypesFor(fn *ssa.Function, elemM bool) dlT {
	if elemM {
		return dlTypesOfElem(fn.Params[0].Type())
	}
	return dlTypes(fn.Params[0].Type())
}

// handle kinds
const (
	hMember = iota
	hDetached
	hForeign
)

func dllist(c *Ctx, prop int) {
	pkg := "dllist"
	for _, op := range dlops {
		op := op
		fn := c.E.Fn(pkg, op.fn)
		if fn == nil {
			c.fnOf(&Scenario{Pkg: pkg, Fn: op.fn})
			continue
		}
		d := dlTypesFor(fn, op.elemM)
		nh := 0
		for _, a := range op.args {
			if a != "v" {
				nh++
			}
		}
		if op.elemM {
			nh++
		}
		// all handles are members
		if prop != 3 {
			for _, shape := range sortedKeys(op.cases) {
				want := op.cases[shape]
				c.Run(Scenario{Name: "list <" + shape + ">", Pkg: pkg, Fn: op.fn, Hooks: d.hooks, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
					l := d.mk(st, "l", shape)
					var args []ai.Val
					h := func(a string) ai.Val {
						if v, ok := st.Ghost["l."+a]; ok {
							return v
						}
						return st.Ghost["l.e"]
					}
					if op.elemM {
						args = append(args, h("e"))
					} else {
						args = append(args, l)
					}
					for _, a := range op.args {
						if a == "v" {
							args = append(args, st.Opaque(ai.Named("v", d.valT), d.valT))
						} else {
							args = append(args, h(a))
						}
					}
					return args
				}, Post: func(st *ai.State, p *Post) {
					got, ok := d.read(st, p, st.Ghost["l"], op.fn)
					if !ok || prop == 1 {
						return
					}
					w := toks(st, "l", want, d.valT)
					if !sameRuns(st, p, got, w, "%s: the list is not as asked", op.fn) {
						return
					}
					switch op.res {
					case "new":
						r, isP := st.Result[0].(ai.VPtr)
						found := false
						for _, g := range got {
							if isP && g.ident == nil && g.o == r.O && r.P == "" && r.End == 0 {
								found = true
							}
						}
						p.Ok(found, "%s does not return the new element", op.fn)
					case "val":
						p.Same(st.Result[0], st.N(st.Opaque(ai.At("V:l", tok(st, "l.e").ident.Off, d.valT), d.valT)), "%s does not return the removed value", op.fn)
					}
				}})
			}
		}
		if nh == 0 {
			continue
		}
		// some handle is not a member
		kinds := [][]int{{hDetached}, {hForeign}}
		if nh == 2 {
			kinds = [][]int{{hMember, hDetached}, {hMember, hForeign}, {hDetached, hMember}, {hForeign, hMember}, {hDetached, hForeign}, {hForeign, hForeign}}
		}
		if op.elemM {
			kinds = [][]int{{hDetached}}
		}
		if prop == 2 {
			continue
		}
		for _, ks := range kinds {
			for _, shape := range []string{"A e B", "zero"} {
				ks, shape := ks, shape
				bad := false
				name := "list <" + shape + ">"
				for _, k := range ks {
					if k == hMember && shape == "zero" {
						bad = true
					}
					name += " " + []string{"member", "detached", "foreign"}[k]
				}
				if bad {
					continue
				}
				c.Run(Scenario{Name: name, Pkg: pkg, Fn: op.fn, Hooks: d.hooks, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
					l := d.mk(st, "l", shape)
					d.mk(st, "o", "P g Q")
					i := 0
					h := func() ai.Val {
						k := ks[i]
						i++
						var v ai.Val
						switch k {
						case hMember:
							v = st.Ghost["l.e"]
						case hDetached:
							v = d.mkElem(st, fmt.Sprintf("x%d", i), ai.VNil{}, ai.VNil{})
						default:
							v = st.Ghost["o.g"]
						}
						st.Ghost[fmt.Sprintf("h%d", i)] = v
						return v
					}
					var args []ai.Val
					if op.elemM {
						args = append(args, h())
					} else {
						args = append(args, l)
					}
					for _, a := range op.args {
						if a == "v" {
							args = append(args, st.Opaque(ai.Named("v", d.valT), d.valT))
						} else {
							args = append(args, h())
						}
					}
					return args
				}, Post: func(st *ai.State, p *Post) {
					got, ok := d.read(st, p, st.Ghost["l"], op.fn)
					got2, ok2 := d.read(st, p, st.Ghost["o"], op.fn+" (other list)")
					if !ok || !ok2 || prop == 1 {
						return
					}
					if shape != "zero" {
						sameRuns(st, p, got, toks(st, "l", shape, d.valT), "%s changes the list though a handle is not a member", op.fn)
					} else {
						p.Ok(len(normRuns(st, got)) == 0, "%s changes the empty list", op.fn)
					}
					sameRuns(st, p, got2, toks(st, "o", "P g Q", d.valT), "%s changes the list owning the handle", op.fn)
					for i := range ks {
						if ks[i] == hDetached {
							d.detached(st, p, st.Ghost[fmt.Sprintf("h%d", i+1)], op.fn)
						}
					}
					if op.res == "new" {
						_, isNil := st.Result[0].(ai.VNil)
						p.Ok(isNil, "%s relative to a non-member does not return nil", op.fn)
					}
				}})
			}
		}
	}
	if prop == 1 || prop == 2 {
		dllistLookups(c, prop)
	}
	if prop == 3 {
		dllistDetach(c)
	}
	if prop == 1 {
		dllistWhole(c, 1)
	}
}

// detached: the element belongs to no list and reaches nothing.
func (d dlT) detached(st *ai.State, p *Post, e ai.Val, what string) {
	x, ok := st.N(e).(ai.VPtr)
	if !ok || st.Heap[x.O] == nil || st.Heap[x.O].V == nil {
		p.Ok(false, "%s: element lost", what)
		return
	}
	s := st.Heap[x.O].V.(ai.VStruct)
	nilp := func(v ai.Val) bool { _, ok := v.(ai.VNil); return ok }
	p.Ok(nilp(s.F[d.owner]), "%s: an element that left the list is still owned by %s", what, ai.Key(s.F[d.owner]))
	p.Ok(nilp(s.F[d.next]) && nilp(s.F[d.prev]), "%s: an element that left the list still points to its former neighbours", what)
}

// identity of a returned element pointer: "I:l" offset
func identOf(st *ai.State, v ai.Val) (*ai.Elem, bool) {
	v = st.Resolve(st.N(v))
	p, ok := v.(ai.VPtr)
	if !ok || p.P != "" || st.Heap[p.O] == nil {
		return nil, false
	}
	o := st.Heap[p.O]
	if p.End == 0 {
		return o.Ident, o.Ident != nil
	}
	if o.Seg == nil || o.Seg.Ident == nil {
		return nil, false
	}
	e := *o.Seg.Ident
	if p.End == 2 {
		d := e.Dir
		if d == 0 {
			d = 1
		}
		e.Off = e.Off.Add(o.Seg.Len.AddC(-1).Mul(d))
	}
	return &e, true
}

// lookups: Get, Front, Back, Len, Next, Prev
func dllistLookups(c *Ctx, prop int) {
	pkg := "dllist"
	unchanged := func(st *ai.State, p *Post, d dlT, shape, fn string) bool {
		got, ok := d.read(st, p, st.Ghost["l"], fn)
		if !ok {
			return false
		}
		if prop == 1 {
			return false
		}
		if shape == "zero" {
			return p.Ok(len(normRuns(st, got)) == 0, "%s changes the list", fn)
		}
		return sameRuns(st, p, got, toks(st, "l", shape, d.valT), "%s changes the list", fn)
	}
	// want: index of the element returned, or out of range
	is := func(st *ai.State, p *Post, idx, n ai.Lin, fn string) {
		in := st.Decide(ai.GE(idx, ai.K(0))) && st.Decide(ai.LTc(idx, n))
		r := st.Result[0]
		if !in {
			_, isNil := st.Resolve(st.N(r)).(ai.VNil)
			p.Ok(isNil, "%s returns an element where there is none", fn)
			return
		}
		e, ok := identOf(st, r)
		if !p.Ok(ok, "%s returns no element of the list for an existing position", fn) {
			return
		}
		p.Ok(e.Base == "I:l", "%s returns a foreign element", fn)
		p.True(ai.EQ(e.Off, idx), "%s returns the element at another position", fn)
	}
	for _, m := range []string{"Get", "Front", "Back", "Len"} {
		m := m
		name := "Dllist." + m
		fn := c.fnOf(&Scenario{Pkg: pkg, Fn: name})
		if fn == nil {
			continue
		}
		d := dlTypes(fn.Params[0].Type())
		for _, shape := range []string{"A", "zero"} {
			shape := shape
			c.Run(Scenario{Name: "list <" + shape + ">", Pkg: pkg, Fn: name, Hooks: d.hooks, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
				l := d.mk(st, "l", shape)
				if m == "Get" {
					i := st.E.RigidSym("i")
					st.Ghost["i"] = ai.VInt{L: i}
					return []ai.Val{l, ai.VInt{L: i}}
				}
				return []ai.Val{l}
			}, Post: func(st *ai.State, p *Post) {
				if m != "Len" && prop == 2 {
					n := st.Lin(st.N(st.Ghost["len:l"]))
					var idx ai.Lin
					switch m {
					case "Get":
						idx = st.Lin(st.N(st.Ghost["i"]))
					case "Front":
						idx = ai.K(0)
					case "Back":
						idx = n.AddC(-1)
					}
					is(st, p, idx, n, name)
				}
				if !unchanged(st, p, d, shape, name) {
					return
				}
				if m == "Len" {
					p.True(ai.EQ(st.Lin(st.Result[0]), st.Lin(st.N(st.Ghost["len:l"]))), "Len is not the number of elements")
				}
			}})
		}
	}
	for _, m := range []string{"Next", "Prev"} {
		m := m
		name := "Element." + m
		fn := c.fnOf(&Scenario{Pkg: pkg, Fn: name})
		if fn == nil {
			continue
		}
		d := dlTypesOfElem(fn.Params[0].Type())
		c.Run(Scenario{Name: "member", Pkg: pkg, Fn: name, Hooks: d.hooks, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
			d.mk(st, "l", "A e B")
			return []ai.Val{st.Ghost["l.e"]}
		}, Post: func(st *ai.State, p *Post) {
			if prop == 2 {
				n := st.Lin(st.N(st.Ghost["len:l"]))
				i := tok(st, "l.e").ident.Off
				if m == "Next" {
					i = i.AddC(1)
				} else {
					i = i.AddC(-1)
				}
				is(st, p, i, n, name)
			}
			unchanged(st, p, d, "A e B", name)
		}})
		c.Run(Scenario{Name: "detached", Pkg: pkg, Fn: name, Hooks: d.hooks, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
			return []ai.Val{d.mkElem(st, "x1", ai.VNil{}, ai.VNil{})}
		}, Post: func(st *ai.State, p *Post) {
			_, isNil := st.Result[0].(ai.VNil)
			p.Ok(isNil, "%s of a detached element is not nil", name)
		}})
	}
}

// dllistDetach: elements that leave a list are detached.
func dllistDetach(c *Ctx) {
	pkg := "dllist"
	for _, m := range []string{"Dllist.Remove", "Element.Remove", "Dllist.Clear", "Dllist.Sort"} {
		m := m
		fn := c.fnOf(&Scenario{Pkg: pkg, Fn: m})
		if fn == nil {
			continue
		}
		elemM := strings.HasPrefix(m, "Element.")
		d := dlTypesFor(fn, elemM)
		d.tagged = m == "Dllist.Sort"
		c.Run(Scenario{Name: "member leaves the list", Pkg: pkg, Fn: m, Hooks: func(e *ai.Engine) {
			d.hooks(e)
			if m == "Dllist.Sort" {
				sortHooks(e, d, false)
			}
		}, Init: func(st *ai.State, fn *ssa.Function) []ai.Val {
			l := d.mk(st, "l", "A e B")
			switch m {
			case "Dllist.Clear":
				return []ai.Val{l}
			case "Element.Remove":
				return []ai.Val{st.Ghost["l.e"]}
			case "Dllist.Sort":
				return []ai.Val{l, ai.Named("less", fn.Params[1].Type())}
			}
			return []ai.Val{l, st.Ghost["l.e"]}
		}, Post: func(st *ai.State, p *Post) {
			got, ok := d.read(st, p, st.Ghost["l"], m)
			if !ok {
				return
			}
			x := st.N(st.Ghost["l.e"]).(ai.VPtr)
			for _, g := range got {
				if g.o == x.O {
					p.Ok(m == "Dllist.Sort", "%s leaves the element in the list", m)
					return
				}
			}
			d.detached(st, p, x, m)
		}})
	}
}
