package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Undef is the value of a location a retry loop may have changed in any way; using it leaves the supported subset.
type Undef struct{}

// restart implements the loop rule for retry loops that draw fresh randomness: when the body comes back to the header
// having drawn randomness, the loop is continued once more from the state at its entry in which every location the
// body may change is undefined. A return to the header that changes no further location is covered by that state.
// (Partial correctness: termination of retry loops is not proved.)
func (fr *frame) restart(H *loopInfo, e *entry) bool {
	snap := e.hist[H.header]
	if snap == nil || e.st.visits["rnd"] == snap.st.visits["rnd"] {
		return false
	}
	grown := false
	for _, in := range H.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		i := fr.fi.idx[ph]
		if !snap.poison[-1-i] && !sameVal(e.env[i], snap.env[i]) {
			snap.poison[-1-i] = true
			grown = true
		}
	}
	// other values live at the header are defined before the loop and do not change
	for id, o := range snap.st.Heap {
		n := e.st.Heap[id]
		if n == nil {
			unsup("object disappears in a loop")
		}
		if n != o && !snap.poison[id] && !sameVal(n.V, o.V) {
			snap.poison[id] = true
			grown = true
		}
	}
	if !grown {
		return true
	}
	g := &entry{blk: H.header, env: append([]Value(nil), snap.env...), st: snap.st.clone(), hist: map[*ssa.BasicBlock]*hdrSnap{}, defers: e.defers}
	for k, v := range snap.hist {
		g.hist[k] = v
	}
	g.hist[H.header] = snap
	for p := range snap.poison {
		if p < 0 {
			g.env[-1-p] = Undef{}
			continue
		}
		o := g.st.Heap[p]
		g.st.Heap[p] = &Object{T: o.T, V: Undef{}, Name: o.Name, RO: o.RO}
	}
	g.iters = append([]int{}, e.iters...)
	g.iters[H.depth] = e.iters[H.depth] + 1
	fr.push(g)
	return true
}

func (fr *frame) snapLoop(H *loopInfo, e *entry) {
	h := map[*ssa.BasicBlock]*hdrSnap{}
	for k, v := range e.hist {
		h[k] = v
	}
	s := &hdrSnap{env: append([]Value(nil), e.env...), st: e.st.clone(), poison: map[int]bool{}, hist: h}
	e.hist = map[*ssa.BasicBlock]*hdrSnap{}
	for k, v := range h {
		e.hist[k] = v
	}
	e.hist[H.header] = s
}

func sameHist(a, b *entry) bool {
	if len(a.hist) != len(b.hist) {
		return false
	}
	for k, v := range a.hist {
		if b.hist[k] != v {
			return false
		}
	}
	return true
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.E {
			if !sameVal(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case Ptr:
		y, ok := b.(Ptr)
		return ok && ptrEq(x, y)
	case Slice:
		y, ok := b.(Slice)
		return ok && x.Obj == y.Obj && x.Path == y.Path && x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap && x.Cast == y.Cast
	case Iface:
		y, ok := b.(Iface)
		return ok && (x.T == nil) == (y.T == nil) && (x.T == nil || types.Identical(x.T, y.T) && sameVal(x.V, y.V))
	case FuncV:
		y, ok := b.(FuncV)
		if !ok || x.Fn != y.Fn || x.Nat != y.Nat || len(x.Binds) != len(y.Binds) {
			return false
		}
		for i := range x.Binds {
			if !sameVal(x.Binds[i], y.Binds[i]) {
				return false
			}
		}
		return true
	case Str:
		y, ok := b.(Str)
		if !ok || len(x.B) != len(y.B) {
			return false
		}
		for i := range x.B {
			if x.B[i] != y.B[i] {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Opaque:
		y, ok := b.(*Opaque)
		return ok && (x == y || x.Kind == y.Kind && x.X == y.X)
	case *Rope:
		y, ok := b.(*Rope)
		if !ok || len(x.P) != len(y.P) {
			return false
		}
		if x == y {
			return true
		}
		for i := range x.P {
			p, q := x.P[i], y.P[i]
			if len(p.Cells) != len(q.Cells) || p.Sym != q.Sym || p.Len != q.Len || p.Off != q.Off || !sameVal(p.Rep, q.Rep) {
				return false
			}
			for k := range p.Cells {
				if !sameVal(p.Cells[k], q.Cells[k]) {
					return false
				}
			}
		}
		return true
	case Undef:
		_, ok := b.(Undef)
		return ok
	}
	return false
}

var rndN int
var rdErrs []*Term

func isRdErr(t *Term) bool { return t.Op == OVar && strings.HasPrefix(t.Name, "rderr") }

// rdErr is the condition that some read of randomness failed.
func rdErr() *Term { return Or(append([]*Term{False()}, rdErrs...)...) }

// useRand models the sources of randomness: every read yields fresh arbitrary bytes or an error.
func useRand(ex *Exec) {
	ex.RestartRule = true
	fill := func(ex *Exec, st *State, s Slice, path string) {
		rndN++
		st.visits["rnd"]++
		st.visits["rndid"] = rndN
		sym := fmt.Sprintf("rnd%d", rndN)
		ex.writeSlice(st, s, s.Len, []Piece{{Sym: sym, Off: I64(0), Len: s.Len, W: 8}}, path)
	}
	ex.Natives["io.ReadFull"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		s := c.Args[1].(Slice)
		rndN++
		v := Var(1, fmt.Sprintf("rderr%d", rndN))
		rdErrs = append(rdErrs, v)
		bad := st.clone()
		bad.assume(v)
		st.assume(Not(v))
		fill(ex, st, s, c.Path)
		bad.visits["rnd"]++
		return []Outcome{{St: st, Ret: Tuple{s.Len, Iface{}}}, {St: bad, Ret: Tuple{I64(0), ex.errVal(bad, c.Path)}}}
	}
	ex.Natives["crypto/rand.Read"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		s := c.Args[0].(Slice)
		fill(ex, st, s, c.Path)
		return ret(st, s.Len, Iface{})
	}
	ex.Natives["crypto/aes.NewCipher"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		s := c.Args[0].(Slice)
		if !s.Len.IsConst() {
			unsup("AES key of symbolic length")
		}
		if n := s.Len.C; n != 16 && n != 24 && n != 32 {
			return ret(st, Iface{}, ex.errVal(st, c.Path))
		}
		return ret(st, Iface{T: cipherObjT, V: &Opaque{Kind: "cipher", X: "aes"}}, Iface{})
	}
	ex.Natives["crypto/cipher.NewCTR"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		if i, ok := c.Args[0].(Iface); !ok || i.T == nil {
			return []Outcome{{St: st, Panic: "nil cipher.Block", Pos: c.Path}}
		}
		s := c.Args[1].(Slice)
		if !s.Len.IsConst() || s.Len.C != 16 {
			return []Outcome{{St: st, Panic: "cipher.NewCTR: IV length must equal block size", Pos: c.Path}}
		}
		return ret(st, Iface{T: cipherObjT, V: &Opaque{Kind: "cipher", X: "ctr"}})
	}
	ex.GlobalVals["crypto/rand.Reader"] = func(ex *Exec, st *State) Value {
		return Iface{T: cipherObjT, V: &Opaque{Kind: "cipher", X: "rand"}}
	}
}

func (ex *Exec) errVal(st *State, path string) Value {
	id := ex.Alloc(st, path+".err", types.Typ[types.Int], I64(0))
	return Iface{T: types.NewPointer(errT), V: Ptr{Obj: id}}
}

var cipherObjT = types.NewNamed(types.NewTypeName(0, nil, "gocvCipher", nil), types.Typ[types.Int], nil)
