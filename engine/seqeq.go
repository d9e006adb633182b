package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Element-wise equality of two slices (v.Seq) is an atom R(A, a, B, b, n):
// A[a+i] = B[b+i] for all 0 <= i < n. Two axiom schemes give it its meaning:
// not R has a witness, and R is instantiated at every index that a query reads
// from A or B (or from a row they are built from).
type seqRel struct {
	t         *Term
	a, b      *Term
	ao, bo, n *Term
	elem      types.Type
	trig      []seqTrig
	done      map[*Term]bool
}

// seqTrig: an index j read from base means the index j+delta of the relation.
type seqTrig struct {
	base, delta *Term
}

func (v *V) seqEq(a, ao, b, bo, n *Term, elem types.Type) *Term {
	s := v.st
	if a == b && ao == bo {
		return s.True
	}
	if k, ok := smallLen(n); ok {
		r := s.True
		for i := int64(0); i < k; i++ {
			r = s.And(r, s.Eq(v.rowAt(a, s.Add(ao, s.Int(i)), elem), v.rowAt(b, s.Add(bo, s.Int(i)), elem)))
		}
		return r
	}
	t := s.App("seqeq."+cleanName(a.sort.Name), s.BoolS, a, ao, b, bo, n)
	if v.seqRels == nil {
		v.seqRels = map[*Term]*seqRel{}
	}
	if v.seqRels[t] != nil {
		return t
	}
	r := &seqRel{t: t, a: a, b: b, ao: ao, bo: bo, n: n, elem: elem, done: map[*Term]bool{}}
	v.seqRels[t] = r
	s.AddFact(t, s.Implies(s.Le(n, s.Int(0)), t))
	k := s.Sym("seqk", s.IntS)
	s.AddFact(t, s.Or(t, s.And(s.Le(s.Int(0), k), s.And(s.Lt(k, n), s.Not(s.Eq(v.rowAt(a, s.Add(ao, k), elem), v.rowAt(b, s.Add(bo, k), elem)))))))
	r.trigs(v, a, s.Neg(ao))
	r.trigs(v, b, s.Neg(bo))
	return t
}

func (r *seqRel) trigs(v *V, row, delta *Term) {
	s := v.st
	for _, t := range r.trig {
		if t.base == row && t.delta == delta {
			return
		}
	}
	r.trig = append(r.trig, seqTrig{row, delta})
	switch row.op {
	case OStore:
		r.trigs(v, row.args[0], delta)
	case OSelect: // a row of a heap
		h, ref := row.args[0], row.args[1]
		for h.op == OStore {
			r.trigs(v, h.args[2], delta)
			h = h.args[0]
		}
		if h != row.args[0] {
			r.trigs(v, s.Select(h, ref), delta)
		}
	case OIte:
		r.trigs(v, row.args[1], delta)
		r.trigs(v, row.args[2], delta)
	case OApp:
		if strings.HasPrefix(row.name, "shiftrow.") { // row[i] = base[off+i]
			r.trigs(v, row.args[0], s.Sub(delta, row.args[1]))
		}
		if strings.HasPrefix(row.name, "catrow.") { // row[i] = row2[off2+i-a] in the middle
			r.trigs(v, row.args[0], delta)
			r.trigs(v, row.args[3], s.Add(delta, s.Sub(row.args[1], row.args[4])))
		}
	}
}

// seqFacts instantiates the relations of a query cone.
func (v *V) seqFacts(cone map[*Term]bool) []*Term {
	if len(v.seqRels) == 0 {
		return nil
	}
	s := v.st
	var rels []*seqRel
	for t, r := range v.seqRels {
		if cone[t] {
			rels = append(rels, r)
		}
	}
	if len(rels) == 0 {
		return nil
	}
	sort.Slice(rels, func(i, j int) bool { return rels[i].t.id < rels[j].t.id })
	sel := map[*Term][]*Term{}
	for t := range cone {
		if t.op == OSelect {
			sel[t.args[0]] = append(sel[t.args[0]], t.args[1])
		}
	}
	for _, l := range sel {
		sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	}
	var out []*Term
	for _, r := range rels {
		n := 0
		for _, tr := range r.trig {
			for _, j := range sel[tr.base] {
				i := s.Add(j, tr.delta)
				n++
				if n > 60 {
					break
				}
				f := v.seqInst[seqKey{r, i}]
				if f == nil {
					f = s.Implies(r.t, s.Implies(s.And(s.Le(s.Int(0), i), s.Lt(i, r.n)), s.Eq(v.rowAt(r.a, s.Add(r.ao, i), r.elem), v.rowAt(r.b, s.Add(r.bo, i), r.elem))))
					if v.seqInst == nil {
						v.seqInst = map[seqKey]*Term{}
					}
					v.seqInst[seqKey{r, i}] = f
				}
				out = append(out, f)
			}
		}
	}
	return out
}

type seqKey struct {
	r *seqRel
	i *Term
}

func (v *V) seqArgs(st *State, a, b Value, T types.Type) *Term {
	sl, ok := T.Underlying().(*types.Slice)
	if !ok {
		panic(unsupported(fmt.Sprintf("Seq of %s", T)))
	}
	r1, o1, n1 := v.rowArg(st, a, sl.Elem())
	r2, o2, n2 := v.rowArg(st, b, sl.Elem())
	return v.st.And(v.st.Eq(n1, n2), v.seqEq(r1, o1, r2, o2, n1, sl.Elem()))
}
