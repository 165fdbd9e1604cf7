package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// iteVal builds "c ? a : b"; ok is false when the two values cannot be joined.
func iteVal(c *Term, a, b Value, t types.Type) (Value, bool) {
	if _, ok := a.(Undef); ok {
		return a, true
	}
	if _, ok := b.(Undef); ok {
		return b, true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.W != y.W {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.IsConst() && y.IsConst() && t != nil {
			if bt, ok := t.Underlying().(*types.Basic); ok && (bt.Kind() == types.Int || bt.Kind() == types.Uint16 && bt.Info() != 0) {
				return nil, false // lengths, counters, result codes: keep paths apart
			}
		}
		return Ite(c, x, y), true
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.E) != len(y.E) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		n := &Agg{E: make([]Value, len(x.E))}
		for i := range x.E {
			m, ok := iteVal(c, x.E[i], y.E[i], subType(t, i))
			if !ok {
				return nil, false
			}
			n.E[i] = m
		}
		return n, true
	case Ptr:
		y, ok := b.(Ptr)
		if ok && ptrEq(x, y) {
			return x, true
		}
		return nil, false
	case Slice:
		y, ok := b.(Slice)
		if !ok || x.Obj != y.Obj || x.Path != y.Path || (x.Cast == nil) != (y.Cast == nil) {
			return nil, false
		}
		if x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap {
			return x, true
		}
		return nil, false
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.T == nil && y.T == nil {
			return x, true
		}
		if x.T == nil || y.T == nil || !types.Identical(x.T, y.T) {
			return nil, false
		}
		m, ok := iteVal(c, x.V, y.V, x.T)
		if !ok {
			return nil, false
		}
		return Iface{T: x.T, V: m}, true
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.Fn != y.Fn || x.Nat != y.Nat || len(x.Binds) != len(y.Binds) {
			return nil, false
		}
		n := FuncV{Fn: x.Fn, Nat: x.Nat}
		for i := range x.Binds {
			m, ok := iteVal(c, x.Binds[i], y.Binds[i], nil)
			if !ok {
				return nil, false
			}
			n.Binds = append(n.Binds, m)
		}
		return n, true
	case Str:
		y, ok := b.(Str)
		if !ok || len(x.B) != len(y.B) {
			return nil, false
		}
		n := Str{}
		for i := range x.B {
			n.B = append(n.B, Ite(c, x.B[i], y.B[i]))
		}
		return n, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		n := make(Tuple, len(x))
		for i := range x {
			m, ok := iteVal(c, x[i], y[i], nil)
			if !ok {
				return nil, false
			}
			n[i] = m
		}
		return n, true
	case *Opaque:
		y, ok := b.(*Opaque)
		if !ok || x.Kind != y.Kind {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if f := opaqueIte[x.Kind]; f != nil {
			return f(c, x, y)
		}
		return nil, false
	case *Rope:
		y, ok := b.(*Rope)
		if !ok || len(x.P) != len(y.P) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		n := &Rope{}
		for i := range x.P {
			p, q := x.P[i], y.P[i]
			if p.Len != q.Len || p.Sym != q.Sym || p.Off != q.Off || (p.Cells == nil) != (q.Cells == nil) {
				return nil, false
			}
			r := p
			if p.Cells != nil {
				r.Cells = nil
				for j := range p.Cells {
					m, ok := iteVal(c, p.Cells[j], q.Cells[j], nil)
					if !ok {
						return nil, false
					}
					r.Cells = append(r.Cells, m)
				}
			}
			if p.Rep != nil {
				if q.Rep == nil {
					return nil, false
				}
				m, ok := iteVal(c, p.Rep, q.Rep, nil)
				if !ok {
					return nil, false
				}
				r.Rep = m
			}
			n.P = append(n.P, r)
		}
		return n, true
	case nil:
		return nil, b == nil
	}
	return nil, false
}

var opaqueIte = map[string]func(c *Term, a, b *Opaque) (Value, bool){}

func ptrEq(x, y Ptr) bool {
	if x.Obj != y.Obj || x.Path != y.Path || x.Sym != y.Sym || x.Rest != y.Rest {
		return false
	}
	if (x.Cast == nil) != (y.Cast == nil) {
		return false
	}
	return x.Cast == nil || *x.Cast == *y.Cast
}

func subType(t types.Type, i int) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if i < u.NumFields() {
			return u.Field(i).Type()
		}
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	return nil
}

// mergeStates joins two disjoint-path states; returns the joined state and the condition selecting a.
func mergeStates(ex *Exec, a, b *State) (*State, *Term) {
	// a path that determines a length variable is kept apart
	sa, sb := a.singles(), b.singles()
	if len(sa) != len(sb) {
		return nil, nil
	}
	for t, c := range sa {
		if sb[t] != c {
			return nil, nil
		}
	}
	// common prefix of path conditions
	n := 0
	for n < len(a.PC) && n < len(b.PC) && a.PC[n] == b.PC[n] {
		n++
	}
	ca, cb := True(), True()
	// factor out conjuncts common to both remainders
	var common, ra, rb []*Term
	for _, c := range a.PC[n:] {
		if b.pcset[c] {
			common = append(common, c)
		} else {
			ra = append(ra, c)
		}
	}
	for _, c := range b.PC[n:] {
		if !a.pcset[c] {
			rb = append(rb, c)
		}
	}
	if len(ra) > 0 {
		ca = And(ra...)
	}
	if len(rb) > 0 {
		cb = And(rb...)
	}
	sel := ca
	// prefer the shorter discriminator
	if len(ra) != len(rb) && len(rb) < len(ra) && len(rb) > 0 {
		sel = Not(cb)
	}
	m := NewState()
	for _, c := range a.PC[:n] {
		m.assume(c)
	}
	for _, c := range common {
		m.assume(c)
	}
	disj := orFactored(ra, rb)
	m.assume(disj)
	for k, v := range a.visits {
		m.visits[k] = v
	}
	for k, v := range b.visits {
		if v > m.visits[k] {
			m.visits[k] = v
		}
	}
	for id, oa := range a.Heap {
		ob, ok := b.Heap[id]
		if !ok {
			m.Heap[id] = oa
			continue
		}
		if oa == ob {
			m.Heap[id] = oa
			continue
		}
		if ra, ok := oa.V.(*Rope); ok {
			if _, ok := ob.V.(*Agg); ok {
				_ = ra
				return nil, nil
			}
		}
		v, ok := iteVal(sel, oa.V, ob.V, oa.T)
		if !ok {
			return nil, nil
		}
		m.Heap[id] = &Object{T: oa.T, V: v, Name: oa.Name, RO: oa.RO || ob.RO}
	}
	for id, ob := range b.Heap {
		if _, ok := a.Heap[id]; !ok {
			m.Heap[id] = ob
		}
	}
	return m, sel
}

// orFactored simplifies (and ra) or (and rb) when one is the complement continuation of the other.
func orFactored(ra, rb []*Term) *Term {
	if len(ra) == 0 || len(rb) == 0 {
		return True()
	}
	if len(ra) == 1 && len(rb) == 1 {
		return Or(ra[0], rb[0])
	}
	// (c & X) or (!c & Y)  with X or Y empty
	return Or(And(ra...), And(rb...))
}

func (fr *frame) tryMerge(a, b *entry) *entry {
	if fr.ex.NoMerge || a.noMerge || b.noMerge {
		return nil
	}
	for i := range a.iters {
		if a.iters[i] != b.iters[i] {
			return nil
		}
	}
	if !sameHist(a, b) {
		return nil
	}
	st, sel := mergeStates(fr.ex, a.st, b.st)
	if st == nil {
		return nil
	}
	n := &entry{blk: a.blk, st: st, iters: a.iters, key: a.key, hist: a.hist}
	n.env = make([]Value, len(a.env))
	for i := range a.env {
		x, y := a.env[i], b.env[i]
		if x == nil || y == nil {
			continue
		}
		if t, ok := x.(*Term); ok {
			if u, ok := y.(*Term); ok && t == u {
				n.env[i] = x
				continue
			}
		}
		m, ok := iteVal(sel, x, y, fr.valType(i))
		if !ok {
			if !fr.liveAt(i, a.blk) {
				continue
			}
			return nil
		}
		n.env[i] = m
	}
	return n
}

func (fr *frame) valType(i int) types.Type {
	if fr.fi.byIdx == nil {
		fr.fi.byIdx = make([]ssa.Value, fr.fi.n)
		for v, k := range fr.fi.idx {
			fr.fi.byIdx[k] = v
		}
	}
	return fr.fi.byIdx[i].Type()
}

// liveAt: is value i used in any block reachable from blk (including phis on outgoing edges)?
func (fr *frame) liveAt(i int, blk *ssa.BasicBlock) bool {
	fr.valType(i)
	v := fr.fi.byIdx[i]
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	reach := fr.fi.reachFrom(blk)
	for _, r := range *refs {
		if reach[r.Block()] {
			if _, ok := r.(*ssa.Phi); ok && r.Block() == blk {
				// consumed on the edge already unless reachable again through a loop
				again := false
				for _, p := range blk.Preds {
					if reach[p] {
						again = true
					}
				}
				if !again {
					continue
				}
			}
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			return true
		}
	}
	return false
}

func (fi *fnInfo) reachFrom(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if fi.reach == nil {
		fi.reach = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	}
	if r, ok := fi.reach[b]; ok {
		return r
	}
	r := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	st = append(st, b)
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if r[x] {
			continue
		}
		r[x] = true
		st = append(st, x.Succs...)
	}
	fi.reach[b] = r
	return r
}

func mergeOutcomes(ex *Exec, fn *ssa.Function, outs []Outcome) []Outcome {
	var res []Outcome
	rt := fn.Signature.Results()
	for _, o := range outs {
		if o.Panic != "" {
			res = append(res, o)
			continue
		}
		done := false
		for i := range res {
			r := &res[i]
			if r.Panic != "" {
				continue
			}
			st, sel := mergeStates(ex, r.St, o.St)
			if st == nil {
				continue
			}
			ret := make(Tuple, len(r.Ret))
			ok := true
			for k := range r.Ret {
				var v Value
				v, ok = iteVal(sel, r.Ret[k], o.Ret[k], rt.At(k).Type())
				if !ok {
					break
				}
				ret[k] = v
			}
			if !ok {
				continue
			}
			r.St, r.Ret = st, ret
			done = true
			break
		}
		if !done {
			res = append(res, o)
		}
	}
	return res
}
