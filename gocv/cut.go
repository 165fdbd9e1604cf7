package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// CutSpec decides the loops of a function by an inductive invariant: at the header every object and every loop
// variable the body may change is replaced by an arbitrary value, the invariant is assumed there, and it is checked
// at the loop entry and at the end of an arbitrary iteration. (Partial correctness: termination is not proved.)
type CutSpec struct {
	Havoc func(st *State, v Value) Value // arbitrary value of the same kind; nil: default
	// Inv is called with the objects the outermost loop changes: at the entry (phase 0), at the header with arbitrary
	// values (phase 1, to be assumed), and after one iteration (phase 2).
	Inv func(phase int, st *State, objs []int)
	// Loops selects the loops that are cut (nil: all); the others are explored iteration by iteration.
	Loops func(H *loopInfo) bool
	// Phi gives the arbitrary value of a loop variable (nil: Havoc); seen is a value it has after some iteration, if known.
	Phi  func(st *State, ph *ssa.Phi, v, seen Value) Value
	Back func(e *entry, fr *frame, H *loopInfo) // end of an arbitrary iteration
	seen map[*ssa.Phi]Value
}

type cutInfo struct {
	objs []int
	spec *CutSpec
}

func (s *CutSpec) havoc(st *State, v Value) Value {
	if s.Havoc != nil {
		if r := s.Havoc(st, v); r != nil {
			return r
		}
	}
	switch x := v.(type) {
	case *Term:
		return Fresh(x.W, "any")
	case *Agg:
		a := &Agg{}
		for _, e := range x.E {
			a.E = append(a.E, s.havoc(st, e))
		}
		return a
	}
	unsup("arbitrary value for %s", showVal(v))
	return nil
}

func (fr *frame) cutHavoc(s *CutSpec, H *loopInfo, e *entry, objs map[int]bool) *entry {
	g := e.fork()
	if s.Phi != nil {
		for _, in := range H.header.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			i := fr.fi.idx[ph]
			if !objs[-1-i] {
				continue
			}
			v := s.Phi(g.st, ph, e.env[i], s.seen[ph])
			if v == nil {
				v = s.havoc(g.st, e.env[i])
			}
			g.env[i] = v
		}
	}
	ids := make([]int, 0, len(objs))
	for i := range objs {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	for _, i := range ids {
		if i < 0 {
			if s.Phi == nil {
				g.env[-1-i] = s.havoc(g.st, e.env[-1-i])
			}
			continue
		}
		o := g.st.Heap[i]
		g.st.Heap[i] = &Object{T: o.T, V: s.havoc(g.st, o.V), Name: o.Name, RO: o.RO}
	}
	return g
}

// cutLoop handles an arrival at a loop header; done means the entry is consumed.
func (fr *frame) cutLoop(s *CutSpec, H *loopInfo, e *entry, inside bool) (next *entry, done bool) {
	if inside {
		if ci := e.cut[H.header]; ci != nil {
			if H.parent == nil && s.Inv != nil {
				s.Inv(2, e.st, ci.objs)
			}
			if s.Back != nil {
				s.Back(e, fr, H)
			}
			return nil, true
		}
		return e, false
	}
	mod := map[int]bool{}
	for round := 0; ; round++ {
		if round > 20 {
			unsup("no fixed point of the locations a loop changes")
		}
		h := fr.cutHavoc(s, H, e, mod)
		sub := &frame{ex: fr.ex, fn: fr.fn, fi: fr.fi, path: fr.path, args: fr.args, stop: H, noAccel: H}
		base := h.fork()
		sub.push(h)
		for len(sub.work) > 0 {
			x := sub.work[0]
			sub.work = sub.work[1:]
			sub.block(x)
		}
		n := len(mod)
		for _, a := range sub.arrivals {
			for _, in := range H.header.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				i := fr.fi.idx[ph]
				if !sameVal(a.env[i], base.env[i]) {
					mod[-1-i] = true
					if s.Phi != nil {
						if s.seen == nil {
							s.seen = map[*ssa.Phi]Value{}
						}
						if p, ok := a.env[i].(Ptr); ok && p.Obj != 0 {
							s.seen[ph] = a.st.Heap[p.Obj].V
						}
					}
				}
			}
			for id, o := range base.st.Heap {
				m := a.st.Heap[id]
				if m != o && !sameVal(m.V, o.V) {
					mod[id] = true
				}
			}
		}
		if len(mod) == n {
			break
		}
	}
	var objs []int
	for i := range mod {
		if i >= 0 {
			objs = append(objs, i)
		}
	}
	sort.Ints(objs)
	top := H.parent == nil && s.Inv != nil && fr.stop == nil
	if top {
		s.Inv(0, e.st, objs)
	}
	g := fr.cutHavoc(s, H, e, mod)
	if top {
		s.Inv(1, g.st, objs)
	}
	m := map[*ssa.BasicBlock]*cutInfo{}
	for k, v := range g.cut {
		m[k] = v
	}
	m[H.header] = &cutInfo{objs, s}
	g.cut = m
	return g, false
}
