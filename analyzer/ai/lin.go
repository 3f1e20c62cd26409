// Package ai is an abstract interpreter for go/ssa: a powerset of abstract
// heaps, each with facts over opaque terms and a numeric part (linear
// equalities and inequalities), run to a fixpoint at loop heads.
package ai

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sym is a numeric symbol (an unknown integer).
type Sym int

// LT is one term of a linear form.
type LT struct {
	S Sym
	K int64
}

// Lin is an immutable linear form C + sum K*S.
type Lin struct {
	C int64
	T []LT
}

// K is a constant linear form.
func K(c int64) Lin { return Lin{C: c} }

// SymLin is the form 1*s.
func SymLin(s Sym) Lin { return Lin{T: []LT{{s, 1}}} }

func (a Lin) IsConst() bool { return len(a.T) == 0 }

func (a Lin) Coef(s Sym) int64 {
	for _, t := range a.T {
		if t.S == s {
			return t.K
		}
	}
	return 0
}

func (a Lin) Add(b Lin) Lin { return a.comb(1, b) }
func (a Lin) Sub(b Lin) Lin { return a.comb(-1, b) }
func (a Lin) AddC(c int64) Lin {
	return Lin{C: a.C + c, T: a.T}
}

func (a Lin) comb(k int64, b Lin) Lin {
	r := Lin{C: a.C + k*b.C}
	i, j := 0, 0
	for i < len(a.T) || j < len(b.T) {
		switch {
		case j >= len(b.T) || i < len(a.T) && a.T[i].S < b.T[j].S:
			r.T = append(r.T, a.T[i])
			i++
		case i >= len(a.T) || b.T[j].S < a.T[i].S:
			r.T = append(r.T, LT{b.T[j].S, k * b.T[j].K})
			j++
		default:
			if c := a.T[i].K + k*b.T[j].K; c != 0 {
				r.T = append(r.T, LT{a.T[i].S, c})
			}
			i++
			j++
		}
	}
	return r
}

func (a Lin) Mul(k int64) Lin {
	if k == 0 {
		return Lin{}
	}
	r := Lin{C: a.C * k}
	for _, t := range a.T {
		r.T = append(r.T, LT{t.S, t.K * k})
	}
	return r
}
func (a Lin) Neg() Lin { return a.Mul(-1) }

// Subst replaces s by l.
func (a Lin) Subst(s Sym, l Lin) Lin {
	k := a.Coef(s)
	if k == 0 {
		return a
	}
	r := Lin{C: a.C}
	for _, t := range a.T {
		if t.S != s {
			r.T = append(r.T, t)
		}
	}
	return r.Add(l.Mul(k))
}

func (a Lin) Equal(b Lin) bool {
	if a.C != b.C || len(a.T) != len(b.T) {
		return false
	}
	for i := range a.T {
		if a.T[i] != b.T[i] {
			return false
		}
	}
	return true
}

func (a Lin) Str(name func(Sym) string) string {
	var sb strings.Builder
	for _, t := range a.T {
		switch {
		case t.K == 1:
			fmt.Fprintf(&sb, "+%s", name(t.S))
		case t.K == -1:
			fmt.Fprintf(&sb, "-%s", name(t.S))
		default:
			fmt.Fprintf(&sb, "%+d%s", t.K, name(t.S))
		}
	}
	if a.C != 0 || len(a.T) == 0 {
		fmt.Fprintf(&sb, "%+d", a.C)
	}
	return strings.TrimPrefix(sb.String(), "+")
}

// Con is L >= 0, or L == 0 when Eq.
type Con struct {
	L  Lin
	Eq bool
}

func (c Con) Str(name func(Sym) string) string {
	if c.Eq {
		return c.L.Str(name) + "=0"
	}
	return c.L.Str(name) + ">=0"
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// norm divides by the gcd, tightening inequalities to integers.
// ok=false: trivially false.  triv: trivially true.
func (c Con) norm() (r Con, triv, ok bool) {
	if len(c.L.T) == 0 {
		if c.Eq {
			return c, true, c.L.C == 0
		}
		return c, true, c.L.C >= 0
	}
	g := int64(0)
	for _, t := range c.L.T {
		g = gcd(g, t.K)
	}
	if g > 1 {
		if c.Eq {
			if c.L.C%g != 0 {
				return c, true, false
			}
		}
		n := Lin{C: floorDiv(c.L.C, g)}
		for _, t := range c.L.T {
			n.T = append(n.T, LT{t.S, t.K / g})
		}
		c = Con{n, c.Eq}
	}
	if c.Eq && c.L.T[0].K < 0 {
		c = Con{c.L.Neg(), true}
	}
	return c, false, true
}

func conKey(c Con) string {
	var sb strings.Builder
	for _, t := range c.L.T {
		fmt.Fprintf(&sb, "%d*%d,", t.K, t.S)
	}
	fmt.Fprintf(&sb, "%d%v", c.L.C, c.Eq)
	return sb.String()
}

func dedupe(cs []Con) ([]Con, bool) {
	seen := map[string]bool{}
	var out []Con
	for _, c := range cs {
		n, triv, ok := c.norm()
		if !ok {
			return nil, false
		}
		if triv {
			continue
		}
		k := conKey(n)
		if !seen[k] {
			seen[k] = true
			out = append(out, n)
		}
	}
	return out, true
}

// eliminate one symbol using an equality that mentions it, if any; otherwise
// Fourier-Motzkin.
func elim(cs []Con, s Sym) []Con {
	// prefer unit coefficient equality
	best := -1
	for i, c := range cs {
		if c.Eq {
			k := c.L.Coef(s)
			if k == 1 || k == -1 {
				best = i
				break
			}
			if k != 0 && best < 0 {
				best = i
			}
		}
	}
	var out []Con
	if best >= 0 {
		e := cs[best].L
		k := e.Coef(s)
		if k < 0 {
			e = e.Neg()
			k = -k
		}
		for i, c := range cs {
			if i == best {
				continue
			}
			b := c.L.Coef(s)
			if b == 0 {
				out = append(out, c)
				continue
			}
			out = append(out, Con{c.L.Mul(k).Sub(e.Mul(b)), c.Eq})
		}
		return out
	}
	var pos, neg []Lin
	for _, c := range cs {
		k := c.L.Coef(s)
		switch {
		case k == 0:
			out = append(out, c)
		case k > 0:
			pos = append(pos, c.L)
		default:
			neg = append(neg, c.L)
		}
	}
	for _, p := range pos {
		for _, n := range neg {
			a, b := p.Coef(s), -n.Coef(s)
			out = append(out, Con{p.Mul(b).Add(n.Mul(a)), false})
		}
	}
	return out
}

func symsOf(cs []Con) []Sym {
	m := map[Sym]bool{}
	var r []Sym
	for _, c := range cs {
		for _, t := range c.L.T {
			if !m[t.S] {
				m[t.S] = true
				r = append(r, t.S)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

const maxCons = 600

func pick(cs []Con, keep map[Sym]bool) (Sym, bool) {
	bestCost := -1
	var best Sym
	for _, s := range symsOf(cs) {
		if keep[s] {
			continue
		}
		p, n, eq := 0, 0, false
		for _, c := range cs {
			k := c.L.Coef(s)
			if k == 0 {
				continue
			}
			if c.Eq {
				eq = true
			} else if k > 0 {
				p++
			} else {
				n++
			}
		}
		cost := p*n - p - n
		if eq {
			cost = -1000
		}
		cost += 2000
		if bestCost < 0 || cost < bestCost {
			bestCost, best = cost, s
		}
	}
	return best, bestCost >= 0
}

// Feasible reports whether the constraints may have a solution (over-approximate).
func Feasible(cs []Con) bool {
	cs, ok := dedupe(cs)
	if !ok {
		return false
	}
	for {
		s, more := pick(cs, nil)
		if !more {
			return true
		}
		cs, ok = dedupe(elim(cs, s))
		if !ok {
			return false
		}
		if len(cs) > maxCons {
			return true
		}
	}
}

// Project eliminates every symbol not in keep (over-approximate).
func Project(cs []Con, keep map[Sym]bool) []Con {
	cs, ok := dedupe(cs)
	if !ok {
		return []Con{{K(-1), false}}
	}
	for {
		s, more := pick(cs, keep)
		if !more {
			return cs
		}
		cs, ok = dedupe(elim(cs, s))
		if !ok {
			return []Con{{K(-1), false}}
		}
		if len(cs) > maxCons {
			// drop inequalities mentioning eliminated symbols
			var r []Con
			for _, c := range cs {
				good := true
				for _, t := range c.L.T {
					if !keep[t.S] {
						good = false
					}
				}
				if good {
					r = append(r, c)
				}
			}
			return r
		}
	}
}

// relevant filters constraints to those connected to the symbols of l.
func relevant(cs []Con, l Lin) []Con {
	in := map[Sym]bool{}
	for _, t := range l.T {
		in[t.S] = true
	}
	used := make([]bool, len(cs))
	for changed := true; changed; {
		changed = false
		for i, c := range cs {
			if used[i] {
				continue
			}
			hit := len(c.L.T) == 0
			for _, t := range c.L.T {
				if in[t.S] {
					hit = true
				}
			}
			if hit {
				used[i] = true
				changed = true
				for _, t := range c.L.T {
					in[t.S] = true
				}
			}
		}
	}
	var r []Con
	for i, c := range cs {
		if used[i] {
			r = append(r, c)
		}
	}
	return r
}

// EntailsGE reports cs => l >= 0.
func EntailsGE(cs []Con, l Lin) bool {
	if l.IsConst() {
		return l.C >= 0
	}
	r := append([]Con(nil), relevant(cs, l)...)
	r = append(r, Con{l.Neg().AddC(-1), false})
	return !Feasible(r)
}

// EntailsEq reports cs => l == 0.
func EntailsEq(cs []Con, l Lin) bool {
	if l.IsConst() {
		return l.C == 0
	}
	return EntailsGE(cs, l) && EntailsGE(cs, l.Neg())
}

// implied equalities made explicit
func explicitEqs(cs []Con) []Con {
	var out []Con
	for _, c := range cs {
		if !c.Eq && EntailsGE(cs, c.L.Neg()) {
			out = append(out, Con{c.L, true})
			continue
		}
		out = append(out, c)
	}
	o, ok := dedupe(out)
	if !ok {
		return []Con{{K(-1), false}}
	}
	return o
}

// karr computes the affine hull of the equality parts over vars.
func karr(a, b []Con, vars []Sym) []Con {
	n := len(vars) + 1
	idx := map[Sym]int{}
	for i, v := range vars {
		idx[v] = i
	}
	mat := func(cs []Con) [][]*big.Rat {
		var m [][]*big.Rat
		for _, c := range cs {
			if !c.Eq {
				continue
			}
			row := make([]*big.Rat, n)
			for i := range row {
				row[i] = new(big.Rat)
			}
			for _, t := range c.L.T {
				row[idx[t.S]].SetInt64(t.K)
			}
			row[n-1].SetInt64(c.L.C)
			m = append(m, row)
		}
		return m
	}
	ka := nullspace(mat(a), n)
	kb := nullspace(mat(b), n)
	rows := nullspace(append(ka, kb...), n)
	var out []Con
	for _, r := range rows {
		den := big.NewInt(1)
		for _, x := range r {
			g := new(big.Int).GCD(nil, nil, den, x.Denom())
			den.Div(new(big.Int).Mul(den, x.Denom()), g)
		}
		l := Lin{}
		okk := true
		for i, x := range r {
			v := new(big.Rat).Mul(x, new(big.Rat).SetInt(den))
			if !v.IsInt() || !v.Num().IsInt64() {
				okk = false
				break
			}
			k := v.Num().Int64()
			if i == n-1 {
				l = l.AddC(k)
			} else if k != 0 {
				l = l.Add(SymLin(vars[i]).Mul(k))
			}
		}
		if okk {
			out = append(out, Con{l, true})
		}
	}
	o, _ := dedupe(out)
	return o
}

// nullspace of the rows (each of length n): basis of { x : row.x = 0 for all rows }.
func nullspace(rows [][]*big.Rat, n int) [][]*big.Rat {
	m := make([][]*big.Rat, len(rows))
	for i := range rows {
		m[i] = make([]*big.Rat, n)
		for j := range m[i] {
			m[i][j] = new(big.Rat).Set(rows[i][j])
		}
	}
	var pivCol []int
	r := 0
	for c := 0; c < n && r < len(m); c++ {
		p := -1
		for i := r; i < len(m); i++ {
			if m[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		m[r], m[p] = m[p], m[r]
		inv := new(big.Rat).Inv(m[r][c])
		for j := 0; j < n; j++ {
			m[r][j].Mul(m[r][j], inv)
		}
		for i := range m {
			if i != r && m[i][c].Sign() != 0 {
				f := new(big.Rat).Set(m[i][c])
				for j := 0; j < n; j++ {
					m[i][j].Sub(m[i][j], new(big.Rat).Mul(f, m[r][j]))
				}
			}
		}
		pivCol = append(pivCol, c)
		r++
	}
	isPiv := map[int]int{}
	for i, c := range pivCol {
		isPiv[c] = i
	}
	var out [][]*big.Rat
	for c := 0; c < n; c++ {
		if _, ok := isPiv[c]; ok {
			continue
		}
		v := make([]*big.Rat, n)
		for j := range v {
			v[j] = new(big.Rat)
		}
		v[c].SetInt64(1)
		for pc, i := range isPiv {
			v[pc].Neg(m[i][c])
		}
		out = append(out, v)
	}
	return out
}

// solveEqs splits equalities into substitutions (symbol -> form) and the rest.
func solveEqs(eqs []Con) (order []Sym, sub map[Sym]Lin, rest []Con) {
	sub = map[Sym]Lin{}
	work := append([]Con(nil), eqs...)
	for len(work) > 0 {
		c := work[0]
		work = work[1:]
		n, triv, ok := c.norm()
		if !ok {
			rest = append(rest, c)
			continue
		}
		if triv {
			continue
		}
		best := -1
		for i, t := range n.L.T {
			if t.K != 1 && t.K != -1 {
				continue
			}
			if best < 0 || rankSym(t.S) > rankSym(n.L.T[best].S) {
				best = i
			}
		}
		if best < 0 {
			rest = append(rest, n)
			continue
		}
		s, k := n.L.T[best].S, n.L.T[best].K
		r := n.L.Sub(SymLin(s).Mul(k))
		if k == 1 {
			r = r.Neg()
		}
		for i := range work {
			work[i].L = work[i].L.Subst(s, r)
		}
		for i := range rest {
			rest[i].L = rest[i].L.Subst(s, r)
		}
		for _, o := range order {
			sub[o] = sub[o].Subst(s, r)
		}
		sub[s] = r
		order = append(order, s)
		// equalities without a unit symbol may have one now
		var rr []Con
		for _, x := range rest {
			if y, triv, ok := x.norm(); ok {
				if triv {
					continue
				}
				x = y
			}
			unit := false
			for _, t := range x.L.T {
				if t.K == 1 || t.K == -1 {
					unit = true
				}
			}
			if unit {
				work = append(work, x)
			} else {
				rr = append(rr, x)
			}
		}
		rest = rr
	}
	return
}

// rankSym: holes (negative) are eliminated before named symbols.
func rankSym(s Sym) int {
	if s < 0 {
		return 1000000 - int(s)
	}
	return int(s)
}

func substAll(cs []Con, sub map[Sym]Lin) []Con {
	var out []Con
	for _, c := range cs {
		l := Lin{C: c.L.C}
		for _, t := range c.L.T {
			if r, ok := sub[t.S]; ok {
				l = l.Add(r.Mul(t.K))
			} else {
				l = l.Add(SymLin(t.S).Mul(t.K))
			}
		}
		out = append(out, Con{l, c.Eq})
	}
	o, ok := dedupe(out)
	if !ok {
		return []Con{{K(-1), false}}
	}
	return o
}

// Minimise drops redundant inequalities.
func Minimise(cs []Con) []Con {
	o, ok := dedupe(cs)
	if !ok {
		return []Con{{K(-1), false}}
	}
	for i := 0; i < len(o); {
		if o[i].Eq {
			i++
			continue
		}
		rest := append(append([]Con(nil), o[:i]...), o[i+1:]...)
		if EntailsGE(rest, o[i].L) {
			o = rest
			continue
		}
		i++
	}
	return o
}

// reduce: equalities solved, inequalities over the remaining symbols, implied equalities found.
func reduce(cs []Con) (map[Sym]Lin, []Con, []Con) {
	for {
		var eqs, ineqs []Con
		for _, c := range cs {
			if c.Eq {
				eqs = append(eqs, c)
			} else {
				ineqs = append(ineqs, c)
			}
		}
		order, sub, rest := solveEqs(eqs)
		ineqs = substAll(ineqs, sub)
		more := false
		var out []Con
		for _, c := range ineqs {
			if !c.Eq && EntailsGE(ineqs, c.L.Neg()) {
				out = append(out, Con{c.L, true})
				more = true
			} else {
				out = append(out, c)
			}
		}
		var all []Con
		for _, s := range order {
			all = append(all, Con{SymLin(s).Sub(sub[s]), true})
		}
		all = append(all, rest...)
		if !more {
			return sub, append([]Con(nil), all...), ineqs
		}
		cs = append(all, out...)
	}
}

// JoinPoly over-approximates the union of two constraint sets over vars.
// If first is false only constraints already in a are candidates (widening).
// newCons: constraints of b (loop guards, mostly) are candidates too.
func JoinPoly(a, b []Con, vars []Sym, first, newCons bool, hints, rigid []Lin) []Con {
	subA, eqA, inA := reduce(a)
	subB, eqB, inB := reduce(b)
	hull := karr(eqA, eqB, vars)
	if len(hull) < len(eqA) {
		first = true // an equality was lost: this can happen only finitely often
	}
	_, sub, rest := solveEqs(hull)
	var out []Con
	for s, l := range sub {
		out = append(out, Con{SymLin(s).Sub(l), true})
	}
	sort.Slice(out, func(i, j int) bool { return conKey(out[i]) < conKey(out[j]) })
	out = append(out, rest...)
	// candidates over the symbols the hull leaves free
	inH := func(l Lin) Lin {
		r := Lin{C: l.C}
		for _, t := range l.T {
			if x, ok := sub[t.S]; ok {
				r = r.Add(x.Mul(t.K))
			} else {
				r = r.Add(SymLin(t.S).Mul(t.K))
			}
		}
		return r
	}
	inS := func(l Lin, sb map[Sym]Lin) Lin {
		r := Lin{C: l.C}
		for _, t := range l.T {
			if x, ok := sb[t.S]; ok {
				r = r.Add(x.Mul(t.K))
			} else {
				r = r.Add(SymLin(t.S).Mul(t.K))
			}
		}
		return r
	}
	var cand []Lin
	add := func(l Lin) { cand = append(cand, inH(l)) }
	if first { // what each side says about the named symbols alone
		for _, in := range [][]Con{inA, inB} {
			keep := map[Sym]bool{}
			for _, s := range symsOf(in) {
				if s > 0 {
					keep[s] = true
				}
			}
			for _, c := range Project(in, keep) {
				if !c.Eq && !steep(c.L) {
					add(c.L)
				}
			}
		}
	}
	for _, c := range inA {
		add(c.L)
	}
	free := map[Sym]bool{}
	var fl []Sym
	for _, v := range vars {
		if _, ok := sub[v]; !ok {
			free[v] = true
			fl = append(fl, v)
		}
	}
	eqCand := func(eqs []Con) {
		for _, c := range eqs {
			l := inH(c.L)
			if !l.IsConst() {
				cand = append(cand, l, l.Neg())
			}
		}
	}
	if first {
		eqCand(eqA)
		eqCand(eqB)
		// an inequality that holds on one side, generalised along an equality that is lost
		along := func(eqs, ine []Con) {
			for _, e := range eqs {
				l := inH(e.L)
				if l.IsConst() {
					continue
				}
				for _, c := range ine {
					h := inH(c.L)
					cand = append(cand, h.Add(l), h.Sub(l))
				}
			}
		}
		along(eqA, inA)
		along(eqB, inB)
		for _, c := range inB {
			add(c.L)
		}
		if len(fl) <= 12 {
			for _, v := range fl {
				for _, w := range fl {
					if v != w {
						cand = append(cand, SymLin(v).Sub(SymLin(w)), SymLin(v).Sub(SymLin(w)).AddC(-1))
					}
				}
			}
		}
	}
	for _, h := range rigid {
		add(h)
	}
	for _, h := range hints {
		add(h)
		add(h.AddC(1))
	}
	if newCons && !first {
		eqCand(eqB)
		for _, c := range inB {
			if h := inH(c.L); len(h.T) >= 2 && !steep(h) {
				cand = append(cand, h)
			}
		}
	}
	for _, v := range vars {
		add(SymLin(v).AddC(-1))
		add(SymLin(v))
		add(SymLin(v).AddC(1))
	}
	seen := map[string]bool{}
	var ine []Con
	for _, l := range cand {
		n, triv, ok := Con{l, false}.norm()
		if triv || !ok {
			continue
		}
		k := conKey(n)
		if seen[k] {
			continue
		}
		seen[k] = true
		if EntailsGE(inA, inS(n.L, subA)) && EntailsGE(inB, inS(n.L, subB)) && (namedOnly(n.L) || !EntailsGE(ine, n.L)) {
			ine = append(ine, n)
		}
	}
	// constraints on named symbols alone stay explicit: they outlive the loop variables
	var named, other []Con
	for _, c := range ine {
		if namedOnly(c.L) {
			named = append(named, c)
		} else {
			other = append(other, c)
		}
	}
	named = Minimise(named)
	for i := 0; i < len(other); {
		rest := append(append([]Con(nil), named...), other[:i]...)
		rest = append(rest, other[i+1:]...)
		if EntailsGE(rest, other[i].L) {
			other = append(append([]Con(nil), other[:i]...), other[i+1:]...)
			continue
		}
		i++
	}
	return append(append(out, named...), other...)
}

func namedOnly(l Lin) bool {
	for _, t := range l.T {
		if t.S < 0 {
			return false
		}
	}
	return true
}

// steep: a coefficient only ever reached by accumulating one (halving) step per visit; dropping such
// constraints at joins keeps the iteration finite.
func steep(l Lin) bool {
	for _, t := range l.T {
		if t.K > 2 || t.K < -2 {
			return true
		}
	}
	return false
}
