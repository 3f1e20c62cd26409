package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"verif/analyzer/ai"
)

// raceLog collects the accesses to shared memory of all analysed calls; two accesses to the same kind of cell
// conflict unless both are atomic, both are reads or both are made under the same lock.
type raceLog struct {
	acc map[string]map[string]accRec
}

type accRec struct {
	write, atomic, locked bool
	pos                   string
	fn                    string
}

func newRaceLog() *raceLog { return &raceLog{acc: map[string]map[string]accRec{}} }

// cellName names a cell by the type of its object and the field path.
func cellName(st *ai.State, p ai.Val) (string, bool) {
	var o ai.ObjID
	var path string
	switch x := p.(type) {
	case ai.VPtr:
		o, path = x.O, x.P
	case ai.VIdx:
		o, path = x.O, x.P
	default:
		return "", false
	}
	b := st.Heap[o]
	if b == nil || b.Typ == nil || !st.IsShared(o) {
		return "", false
	}
	t := b.Typ
	name := types.TypeString(t, func(*types.Package) string { return "" })
	for _, s := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		if s == "" {
			continue
		}
		var i int
		fmt.Sscanf(s, "%d", &i)
		u, ok := t.Underlying().(*types.Struct)
		if !ok || i >= u.NumFields() {
			name += "." + s
			break
		}
		name += "." + u.Field(i).Name()
		t = u.Field(i).Type()
	}
	return name, true
}

func (r *raceLog) add(cell string, a accRec) {
	if r.acc[cell] == nil {
		r.acc[cell] = map[string]accRec{}
	}
	r.acc[cell][fmt.Sprintf("%v%v%v%s", a.write, a.atomic, a.locked, a.pos)] = a
}

func (r *raceLog) access(st *ai.State, p ai.Val, k ai.AccessKind, locked bool) {
	cell, ok := cellName(st, p)
	if !ok {
		return
	}
	r.add(cell, accRec{write: k == ai.AccWrite || k == ai.AccAtomicWrite, atomic: k == ai.AccAtomicRead || k == ai.AccAtomicWrite, locked: locked, pos: strings.SplitN(st.Pos(), " <- ", 2)[0]})
}

func (r *raceLog) mapAccess(st *ai.State, m ai.VMap, write, locked bool) {
	b := st.Heap[m.O]
	if b == nil || !st.IsShared(m.O) {
		return
	}
	name := b.Name
	if name == "" {
		name = types.TypeString(b.Typ, func(*types.Package) string { return "" })
	}
	r.add("map "+name, accRec{write: write, locked: locked, pos: strings.SplitN(st.Pos(), " <- ", 2)[0]})
}

// report adds one violation per pair of conflicting cells and positions.
func (r *raceLog) report(c *Ctx, what string) {
	cells := make([]string, 0, len(r.acc))
	for k := range r.acc {
		cells = append(cells, k)
	}
	sort.Strings(cells)
	for _, cell := range cells {
		var recs []accRec
		for _, k := range sortedKeys(r.acc[cell]) {
			recs = append(recs, r.acc[cell][k])
		}
		for i, a := range recs {
			for _, b := range recs[i:] {
				c.Obligations++
				if !a.write && !b.write || a.atomic && b.atomic || a.locked && b.locked {
					continue
				}
				d := func(x accRec) string {
					s := "read"
					if x.write {
						s = "write"
					}
					if x.atomic {
						s = "atomic " + s
					} else {
						s = "plain " + s
					}
					if x.locked {
						s += " under the lock"
					}
					return s + " in " + x.pos
				}
				c.addViolation(Violation{Kind: "violated", Fn: what, Pos: b.pos, Case: cell, Clause: fmt.Sprintf("unsynchronised conflicting accesses to %s: %s, %s", cell, d(a), d(b))})
			}
		}
	}
}
