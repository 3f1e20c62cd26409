package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/ai"
)

// ---- doubly linked lists with a root node inside the list object ----

// dlT gives the roles of the fields of a list and its element type.
type dlT struct {
	list, elem             types.Type // Dllist[T], Element[T]
	root, len, inited      int
	next, prev, owner, val int
	valT                   types.Type
	// tagged: values of runs are unknown ("other"), single elements hold their own named value
	tagged bool
	// anon: elements carry no identity (only their values matter)
	anon bool
}

func dlTypes(t types.Type) dlT {
	var d dlT
	d.list = deref(t)
	d.root = roleField(d.list, "root", namedT("Element"))
	d.len = roleField(d.list, "len", isBasicT(types.Int))
	us0 := d.list.Underlying().(*types.Struct)
	d.inited = -1
	for i := 0; i < us0.NumFields(); i++ {
		if isBasicT(types.Bool)(us0.Field(i).Type()) {
			d.inited = i
		}
	}
	us := d.list.Underlying().(*types.Struct)
	d.elem = us.Field(d.root).Type()
	d.next, d.prev, d.owner, d.val = mustField(d.elem, "next"), mustField(d.elem, "prev"), roleField(d.elem, "list", namedT("Dllist")), mustField(d.elem, "Value")
	d.valT = d.elem.Underlying().(*types.Struct).Field(d.val).Type()
	return d
}

// listOfElem: the list type an element type belongs to.
func dlTypesOfElem(t types.Type) dlT {
	e := deref(t)
	return dlTypes(e.Underlying().(*types.Struct).Field(roleField(e, "list", namedT("Dllist"))).Type())
}

func (d dlT) hooks(e *ai.Engine) {
	n := types.Unalias(d.elem).(*types.Named)
	e.ListTypes[n.Origin().Obj()] = ai.ListType{Next: d.next, Prev: d.prev}
}

func (d dlT) rootPtr(l ai.ObjID) ai.Val { return ai.VPtr{O: l, P: fmt.Sprint(d.root)} }

func isSegTok(s string) bool { return s[0] >= 'A' && s[0] <= 'Z' }

// mk builds a well-formed list: upper-case tokens are segments of any length, lower-case ones single
// elements; "zero" is a list never initialised. Pointers are left in Ghost["name.tok"], the list in
// Ghost[name], offset and length of each token in Ghost["at:name.tok"].
func (d dlT) mk(st *ai.State, name, shape string) ai.Val {
	l := st.AllocObj(&ai.Obj{Typ: d.list, Name: name})
	lp := ai.VPtr{O: l}
	st.Ghost[name] = lp
	lf := append([]ai.Val(nil), st.Zero(d.list).(ai.VStruct).F...)
	rf := append([]ai.Val(nil), lf[d.root].(ai.VStruct).F...)
	if shape == "zero" {
		st.Ghost["len:"+name] = ai.VInt{L: ai.K(0)}
		st.Heap[l].V = ai.VStruct{F: lf}
		return lp
	}
	toks := strings.Fields(shape)
	ids := make([]ai.ObjID, len(toks))
	for i := range toks {
		ids[i] = st.AllocObj(&ai.Obj{Typ: d.elem})
	}
	end := func(i int, which uint8) ai.Val {
		if i < 0 || i >= len(toks) {
			return d.rootPtr(l)
		}
		if isSegTok(toks[i]) {
			return ai.VPtr{O: ids[i], End: which}
		}
		return ai.VPtr{O: ids[i]}
	}
	off := ai.K(0)
	ib, vb := "I:"+name, "V:"+name
	for i, t := range toks {
		n := ai.K(1)
		o := st.Heap[ids[i]]
		zero := st.Zero(d.elem).(ai.VStruct).F
		if isSegTok(t) {
			n = st.E.RigidSym(name + "." + t)
			st.Assume(ai.GE(n, ai.K(0)))
			g := &ai.SegObj{Len: n, NextF: d.next, PrevF: d.prev, Before: end(i-1, 2), After: end(i+1, 1)}
			if !d.anon {
				g.Ident = &ai.Elem{Base: ib, Off: off, Dir: 1}
			}
			for j := range zero {
				f := ai.SegField{V: zero[j]}
				switch j {
				case d.next, d.prev:
					f = ai.SegField{}
				case d.owner:
					f = ai.SegField{V: lp}
				case d.val:
					if d.tagged {
						f = ai.SegField{Tag: "other"}
						break
					}
					f = ai.SegField{E: &ai.Elem{Base: vb, Off: off, Dir: 1}}
				}
				g.F = append(g.F, f)
			}
			o.Seg = g
		} else {
			f := append([]ai.Val(nil), zero...)
			f[d.next], f[d.prev], f[d.owner] = end(i+1, 1), end(i-1, 2), lp
			f[d.val] = st.Opaque(ai.At(vb, off, d.valT), d.valT)
			if d.tagged {
				f[d.val] = st.Opaque(ai.Named("val:"+t, d.valT), d.valT)
			}
			o.V = ai.VStruct{F: f}
			if !d.anon {
				o.Ident = &ai.Elem{Base: ib, Off: off}
				st.Ghost[name+"."+t] = ai.VPtr{O: ids[i]}
			}
		}
		st.Ghost["at:"+name+"."+t] = ai.VTuple{F: []ai.Val{ai.VInt{L: off}, ai.VInt{L: n}}}
		off = off.Add(n)
	}
	st.Ghost["len:"+name] = ai.VInt{L: off}
	rf[d.next], rf[d.prev] = end(0, 1), end(len(toks)-1, 2)
	lf[d.root] = ai.VStruct{F: rf}
	lf[d.len] = ai.VInt{L: off}
	if d.inited >= 0 {
		lf[d.inited] = ai.VBool{B: true}
	}
	st.Heap[l].V = ai.VStruct{F: lf}
	return lp
}

// mkElem is an element that belongs to no list.
func (d dlT) mkElem(st *ai.State, name string, next, prev ai.Val) ai.Val {
	f := append([]ai.Val(nil), st.Zero(d.elem).(ai.VStruct).F...)
	f[d.next], f[d.prev], f[d.owner] = next, prev, ai.VNil{}
	f[d.val] = st.Opaque(ai.Named("V:"+name, d.valT), d.valT)
	p := ai.VPtr{O: st.AllocObj(&ai.Obj{Typ: d.elem, V: ai.VStruct{F: f}, Name: name, Ident: &ai.Elem{Base: "I:" + name, Off: ai.K(0)}})}
	st.Ghost[name] = p
	return p
}

// run: a run of list elements.
type run struct {
	n     ai.Lin
	ident *ai.Elem // nil: created by the operation
	val   *ai.Elem
	v     ai.Val
	o     ai.ObjID // the node, for single nodes
}

func (r run) str() string {
	s := "new"
	if r.ident != nil {
		s = fmt.Sprintf("%s[%s]", r.ident.Base, ai.Key(ai.VInt{L: r.ident.Off}))
	}
	if r.val != nil {
		return fmt.Sprintf("%s=%s[%s]/%d x%s", s, r.val.Base, ai.Key(ai.VInt{L: r.val.Off}), r.val.Dir, ai.Key(ai.VInt{L: r.n}))
	}
	return fmt.Sprintf("%s=%s x%s", s, ai.Key(r.v), ai.Key(ai.VInt{L: r.n}))
}

func runsStr(rs []run) string {
	var s []string
	for _, r := range rs {
		s = append(s, r.str())
	}
	return "<" + strings.Join(s, ", ") + ">"
}

// read walks the list and requires it to be well-formed.
func (d dlT) read(st *ai.State, p *Post, l ai.Val, what string) ([]run, bool) {
	p.c.Obligations += 4
	rs, bad := d.walk(st, l)
	if bad != "" {
		p.fail("violated", what+": "+bad)
		return nil, false
	}
	return rs, true
}

func holds_(st *ai.State, c ai.Val) bool {
	b, ok := st.Known(c)
	return ok && b
}

// walk reads the element sequence of a list, or says why the list is malformed.
func (d dlT) walk(st *ai.State, l ai.Val) ([]run, string) {
	lp, ok := st.N(l).(ai.VPtr)
	if !ok || st.Heap[lp.O] == nil || lp.P != "" {
		return nil, "not a list"
	}
	ls := st.Heap[lp.O].V.(ai.VStruct)
	root := ls.F[d.root].(ai.VStruct)
	ln := st.Lin(st.N(ls.F[d.len]))
	if _, isNil := root.F[d.next].(ai.VNil); isNil {
		if !holds_(st, ai.EQ(ln, ai.K(0))) {
			return nil, "uninitialised list with a length"
		}
		if _, pn := root.F[d.prev].(ai.VNil); !pn {
			return nil, "half initialised list"
		}
		if d.inited >= 0 && !ai.Same(ls.F[d.inited], ai.VBool{B: false}) {
			return nil, "list claims to be initialised but is not"
		}
		return nil, ""
	}
	if d.inited >= 0 && !ai.Same(ls.F[d.inited], ai.VBool{B: true}) {
		return nil, "initialised list not marked so"
	}
	var out []run
	rootP := d.rootPtr(lp.O)
	cur, from := root.F[d.next], rootP
	total := ai.K(0)
	for steps := 0; ; steps++ {
		if steps > 64 {
			return nil, "the forward walk does not end"
		}
		cp, ok := cur.(ai.VPtr)
		if !ok {
			return nil, "the forward walk leaves the list at " + ai.Key(cur)
		}
		if ai.Same(cp, rootP) {
			if !ai.Same(root.F[d.prev], from) {
				return nil, fmt.Sprintf("the backward walk starts elsewhere than the forward walk ends (%s vs %s)", ai.Key(root.F[d.prev]), ai.Key(from))
			}
			break
		}
		o := st.Heap[cp.O]
		if o == nil || cp.P != "" {
			return nil, "the forward walk leaves the list"
		}
		var prev, owner, next, self ai.Val
		var r run
		switch {
		case cp.End == 1 && o.Seg != nil:
			g := o.Seg
			prev, owner, next, self = g.Before, g.F[d.owner].V, g.After, ai.VPtr{O: cp.O, End: 2}
			r = run{n: g.Len, ident: g.Ident, val: g.F[d.val].E, v: g.F[d.val].V}
		case cp.End == 0 && o.V != nil:
			s, isS := o.V.(ai.VStruct)
			if !isS || len(s.F) <= d.val {
				return nil, "the forward walk meets something that is not an element"
			}
			prev, owner, next, self = s.F[d.prev], s.F[d.owner], s.F[d.next], cp
			r = run{n: ai.K(1), ident: o.Ident, v: s.F[d.val], o: cp.O}
			if e := ai.ElemOf(s.F[d.val]); e != nil {
				r.val, r.v = e, nil
			}
		default:
			return nil, "the forward walk meets " + ai.Key(cp)
		}
		if !ai.Same(prev, from) {
			return nil, fmt.Sprintf("next and previous links disagree (%s has prev %s, reached from %s)", ai.Key(cp), ai.Key(prev), ai.Key(from))
		}
		if owner == nil || !ai.Same(owner, lp) {
			return nil, "an element of the list is owned by " + ai.Key(owner)
		}
		total = total.Add(r.n)
		out = append(out, r)
		from, cur = self, next
	}
	if !holds_(st, ai.EQ(ln, total)) {
		return nil, "Len is not the number of elements"
	}
	return out, ""
}

func normRuns(st *ai.State, rs []run) []run {
	var out []run
	for _, r := range rs {
		if b, ok := st.Known(ai.EQ(r.n, ai.K(0))); ok && b {
			continue
		}
		if len(out) > 0 {
			a := out[len(out)-1]
			if (a.ident == nil) == (r.ident == nil) {
				m := run{n: a.n.Add(r.n)}
				ok := true
				if a.ident != nil {
					m.ident, ok = st.MergeElem(a.ident, a.n, r.ident, r.n)
				}
				if ok && a.val != nil && r.val != nil {
					m.val, ok = st.MergeElem(a.val, a.n, r.val, r.n)
				} else {
					ok = false
				}
				if ok {
					out[len(out)-1] = m
					continue
				}
			}
		}
		out = append(out, r)
	}
	return out
}

func sameElem(st *ai.State, a, b *ai.Elem, n ai.Lin) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Base != b.Base {
		return false
	}
	if k, ok := st.Known(ai.EQ(a.Off, b.Off)); !ok || !k {
		return false
	}
	if one, ok := st.Known(ai.EQ(n, ai.K(1))); ok && one {
		return true
	}
	return a.Dir == b.Dir
}

// sameRuns requires two element sequences to be equal.
func sameRuns(st *ai.State, p *Post, got, want []run, what string, a ...interface{}) bool {
	p.c.Obligations++
	g, w := normRuns(st, got), normRuns(st, want)
	bad := len(g) != len(w)
	for i := 0; !bad && i < len(g); i++ {
		if k, ok := st.Known(ai.EQ(g[i].n, w[i].n)); !ok || !k {
			bad = true
			break
		}
		if !sameElem(st, g[i].ident, w[i].ident, g[i].n) || !sameElem(st, g[i].val, w[i].val, g[i].n) {
			bad = true
			break
		}
		if g[i].val == nil && !ai.Same(st.N(g[i].v), st.N(w[i].v)) {
			bad = true
		}
	}
	if bad {
		// an undecided emptiness may hide equality: split on the lengths
		for _, rs := range [][]run{g, w} {
			for _, r := range rs {
				c := ai.EQ(r.n, ai.K(0))
				if _, ok := st.Known(c); !ok {
					st.Decide(c)
				}
			}
		}
		p.fail("violated", fmt.Sprintf(what, a...)+fmt.Sprintf(": %s instead of %s", runsStr(g), runsStr(w)))
		return false
	}
	return true
}

// tok: the run a token of the initial list denoted.
func tok(st *ai.State, name string) run {
	t, ok := st.Ghost["at:"+name].(ai.VTuple)
	if !ok {
		ai.Undecided("no token %s", name)
	}
	i := strings.Index(name, ".")
	off, n := st.Lin(st.N(t.F[0])), st.Lin(st.N(t.F[1]))
	return run{n: n, ident: &ai.Elem{Base: "I:" + name[:i], Off: off, Dir: 1}, val: &ai.Elem{Base: "V:" + name[:i], Off: off, Dir: 1}}
}

// toks: "l: A e +v B" style description; "+name" is a new element with the named value, "*o" new elements
// with all values of list o.
func toks(st *ai.State, name, s string, vt types.Type) []run {
	var out []run
	for _, t := range strings.Fields(s) {
		switch t[0] {
		case '+':
			out = append(out, run{n: ai.K(1), v: st.N(st.Opaque(ai.Named(t[1:], vt), vt))})
		case '*':
			out = append(out, run{n: st.Lin(st.N(st.Ghost["len:"+t[1:]])), val: &ai.Elem{Base: "V:" + t[1:], Off: ai.K(0), Dir: 1}})
		default:
			out = append(out, tok(st, name+"."+t))
		}
	}
	return out
}

var _ = ssa.BuilderMode(0)

// padTagged inserts empty runs between adjacent single elements of tagged lists made by the analysed
// code, so that loop states differing only in which gaps are empty have the same shape.
func (d dlT) padTagged(st *ai.State) {
	for _, id := range st.Objs() {
		o := st.Heap[id]
		if o == nil || o.V == nil || !types.Identical(o.Typ, d.list) {
			continue
		}
		lp := ai.VPtr{O: id}
		rs, bad := d.walk(st, lp)
		if bad != "" {
			continue
		}
		old := false
		for _, r := range rs {
			if r.ident != nil || r.val != nil {
				old = true
			}
		}
		root := o.V.(ai.VStruct).F[d.root].(ai.VStruct)
		if _, isP := root.F[d.next].(ai.VPtr); old || !isP {
			continue
		}
		// positions: root, runs..., root
		type end struct {
			ptr ai.VPtr // pointer to the node or segment end
			seg bool
		}
		rootP := d.rootPtr(id).(ai.VPtr)
		ends := []end{{rootP, false}}
		cur := root.F[d.next].(ai.VPtr)
		for !ai.Same(cur, rootP) {
			co := st.Heap[cur.O]
			if co.Seg != nil {
				ends = append(ends, end{ai.VPtr{O: cur.O}, true})
				cur = co.Seg.After.(ai.VPtr)
			} else {
				ends = append(ends, end{cur, false})
				cur = co.V.(ai.VStruct).F[d.next].(ai.VPtr)
			}
		}
		ends = append(ends, end{rootP, false})
		for i := 0; i+1 < len(ends); i++ {
			a, b := ends[i], ends[i+1]
			if a.seg || b.seg {
				continue
			}
			zero := st.Zero(d.elem).(ai.VStruct).F
			g := &ai.SegObj{Len: ai.K(0), NextF: d.next, PrevF: d.prev, Before: a.ptr, After: b.ptr}
			for j := range zero {
				f := ai.SegField{V: zero[j]}
				switch j {
				case d.next, d.prev:
					f = ai.SegField{}
				case d.owner:
					f = ai.SegField{V: lp}
				case d.val:
					f = ai.SegField{Tag: "other"}
				}
				g.F = append(g.F, f)
			}
			s := st.AllocObj(&ai.Obj{Typ: d.elem, New: true, Seg: g})
			st.SetField(a.ptr, d.next, ai.VPtr{O: s, End: 1})
			st.SetField(b.ptr, d.prev, ai.VPtr{O: s, End: 2})
		}
	}
}

// forgetLens drops every relation between the lengths of runs, except that each well-formed list knows
// its own length.
func (d dlT) forgetLens(st *ai.State) {
	var good []ai.ObjID
	for _, id := range st.Objs() {
		if o := st.Heap[id]; o != nil && o.V != nil && types.Identical(o.Typ, d.list) {
			if _, bad := d.walk(st, ai.VPtr{O: id}); bad == "" {
				good = append(good, id)
			}
		}
	}
	for _, id := range st.Objs() {
		if o := st.Heap[id]; o != nil && o.Seg != nil && types.Identical(o.Typ, d.elem) {
			if holds_(st, ai.EQ(o.Seg.Len, ai.K(0))) {
				continue
			}
			oo, g := *o, *o.Seg
			min := int64(0)
			if holds_(st, ai.GE(g.Len, ai.K(1))) {
				min = 1 // pointers to the first or last node rely on it
			}
			g.Len = st.E.FreshSym()
			oo.Seg = &g
			st.Heap[id] = &oo
			st.Assume(ai.GE(g.Len, ai.K(min)))
		}
	}
	for _, id := range good {
		root := st.Heap[id].V.(ai.VStruct).F[d.root].(ai.VStruct)
		rootP := d.rootPtr(id)
		total := ai.K(0)
		cp, ok := root.F[d.next].(ai.VPtr)
		if !ok {
			continue
		}
		for !ai.Same(cp, rootP) {
			if o := st.Heap[cp.O]; o.Seg != nil {
				total = total.Add(o.Seg.Len)
				cp = o.Seg.After.(ai.VPtr)
			} else {
				total = total.AddC(1)
				cp = o.V.(ai.VStruct).F[d.next].(ai.VPtr)
			}
		}
		st.SetField(ai.VPtr{O: id}, d.len, ai.VInt{L: total})
	}
}
