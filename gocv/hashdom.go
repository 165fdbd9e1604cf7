package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- helpers over structs ----

// fieldsOf returns indices of struct fields whose type prints as typ.
func fieldsOf(t types.Type, typ string) []int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []int
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Type().Underlying().String() == typ {
			r = append(r, i)
		}
	}
	return r
}

func agg(ts []*Term) *Agg {
	a := &Agg{}
	for _, t := range ts {
		a.E = append(a.E, t)
	}
	return a
}
func terms(v Value) []*Term {
	a := v.(*Agg)
	r := make([]*Term, len(a.E))
	for i := range r {
		r[i] = a.E[i].(*Term)
	}
	return r
}
func freshTerms(n, w int, name string) []*Term {
	r := make([]*Term, n)
	for i := range r {
		r[i] = Fresh(w, fmt.Sprintf("%s%d", name, i))
	}
	return r
}

// freshOf builds a fully symbolic value of a scalar/array/struct type.
func (ex *Exec) freshOf(t types.Type, name string) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w := widthOf(t); w > 0 {
			return Fresh(w, name)
		}
	case *types.Array:
		a := &Agg{}
		for i := 0; i < int(u.Len()); i++ {
			a.E = append(a.E, ex.freshOf(u.Elem(), fmt.Sprintf("%s_%d", name, i)))
		}
		return a
	case *types.Struct:
		a := &Agg{}
		for i := 0; i < u.NumFields(); i++ {
			a.E = append(a.E, ex.freshOf(u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return a
	}
	if sl, ok := t.Underlying().(*types.Slice); ok && widthOf(sl.Elem()) > 0 {
		// an arbitrary slice, not to be written
		n := Fresh(64, name+".len")
		varRange[n] = urng{0, symMax}
		id := ex.newID("fresh:" + name)
		return Slice{Obj: -id, Off: n, Len: n, Cap: n}
	}
	return ex.Zero(t)
}

// runSpec executes a specification function and expects one normal outcome.
func (ex *Exec) runSpec(fn *ssa.Function, args []Value, st *State) (Tuple, *State) {
	if fn == nil {
		unsup("missing specification function")
	}
	outs := ex.Run(fn, args, st, "spec:"+fn.Name())
	if len(outs) != 1 || outs[0].Panic != "" {
		msg := ""
		for _, o := range outs {
			msg += o.Panic + ";"
		}
		unsup("specification %s has %d outcomes %s", fn, len(outs), msg)
	}
	return outs[0].Ret, outs[0].St
}

const symMax = 1 << 40

func lenVar(ex *Exec, name string, lo uint64) *Term {
	v := Fresh(64, name)
	varRange[v] = urng{lo, symMax}
	ex.LenVars = append(ex.LenVars, v)
	return v
}

// ---- canonical comparison of object graphs ----

type canonState struct {
	skel  strings.Builder
	cells []*Term
	refs  []canonCell
	seen  map[int]int
}
type canonCell struct {
	obj int
	k   int // flattened position in the object (or -1: derived)
}

// canon walks the object graph from v; slices are compared by visible contents, not capacity or identity.
func (ex *Exec) canon(st *State, v Value, c *canonState, obj int, base *int) {
	switch x := v.(type) {
	case *Term:
		c.skel.WriteByte('t')
		c.skel.WriteString(strconv.Itoa(x.W))
		c.skel.WriteByte(',')
		c.cells = append(c.cells, x)
		c.refs = append(c.refs, canonCell{obj, *base})
		*base++
	case *Agg:
		c.skel.WriteString("{")
		for _, e := range x.E {
			ex.canon(st, e, c, obj, base)
		}
		c.skel.WriteString("}")
	case Ptr:
		if x.Obj == 0 {
			c.skel.WriteString("nil,")
			return
		}
		ex.canonObj(st, x.Obj, c)
		fmt.Fprintf(&c.skel, "p%d%s,", c.seen[x.Obj], x.Path)
	case Slice:
		// visible contents only
		*base += 3
		if x.Len.IsConst() && x.Len.C == 0 {
			c.skel.WriteString("s[],")
			return
		}
		fmt.Fprintf(&c.skel, "s[")
		var ps []Piece
		for _, p := range ex.SliceView(st, x) {
			if p.Len.IsConst() {
				p = cellsPiece(expandPiece(p))
			}
			ps = append(ps, p)
		}
		for _, p := range normPieces(ps) {
			fmt.Fprintf(&c.skel, "%s:%v;", p.Sym, p.Cells == nil)
			if p.Cells != nil {
				fmt.Fprintf(&c.skel, "%d", len(p.Cells))
			}
			c.cells = append(c.cells, p.Len)
			c.refs = append(c.refs, canonCell{-1, 0})
			if p.Sym != "" {
				c.cells = append(c.cells, p.Off)
				c.refs = append(c.refs, canonCell{-1, 0})
			}
			for _, e := range p.Cells {
				t, ok := e.(*Term)
				if !ok {
					unsup("canon of slice of %T", e)
				}
				c.cells = append(c.cells, t)
				c.refs = append(c.refs, canonCell{-1, 0})
			}
		}
		c.skel.WriteString("],")
	case Iface:
		if x.T == nil {
			c.skel.WriteString("nil-if,")
			return
		}
		c.skel.WriteString(x.T.String() + ":")
		ex.canon(st, x.V, c, obj, base)
	default:
		var ts []*Term
		flatten(v, &ts, &c.skel)
		for range ts {
			c.refs = append(c.refs, canonCell{obj, *base})
			*base++
		}
		c.cells = append(c.cells, ts...)
	}
}
func (ex *Exec) canonObj(st *State, id int, c *canonState) {
	if _, ok := c.seen[id]; ok {
		return
	}
	c.seen[id] = len(c.seen) + 1
	b := 0
	fmt.Fprintf(&c.skel, "<obj%d ", c.seen[id])
	ex.canon(st, ex.obj(st, id).V, c, id, &b)
	c.skel.WriteString(">")
}
func (ex *Exec) Canon(st *State, v Value) *canonState {
	c := &canonState{seen: map[int]int{}}
	b := 0
	ex.canon(st, v, c, -2, &b)
	return c
}

// rebase moves the contents of every buffer that only the receiver's slice fields reach into a fresh
// array with arbitrary spare capacity: the state a later call may see after any history.
func rebase(ex *Exec, st *State, recv Value) map[int]*Object {
	heap := map[int]*Object{}
	for k, v := range st.Heap {
		heap[k] = v
	}
	v := recv
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	p, ok := v.(Ptr)
	if !ok || p.Obj == 0 {
		return heap
	}
	o := heap[p.Obj]
	a, ok := o.V.(*Agg)
	if !ok {
		return heap
	}
	n := &Agg{E: append([]Value{}, a.E...)}
	for i, e := range a.E {
		s, ok := e.(Slice)
		if !ok || s.Obj == p.Obj || s.Obj == 0 || s.Cast != nil || s.Path != "" {
			continue
		}
		ps := ex.SliceView(st, s)
		w := 8
		for _, q := range ps {
			w = q.W
		}
		x := Fresh(64, "spare")
		varRange[x] = urng{0, 1 << 47}
		ps = append(append([]Piece{}, ps...), Piece{Sym: x.Name + "junk", Off: I64(0), Len: x, W: w})
		id := ex.newID(fmt.Sprintf("rebased:%d.%d", p.Obj, i))
		heap[id] = &Object{T: heap[s.Obj].T, V: &Rope{P: ps}, Name: "buffer"}
		n.E[i] = Slice{Obj: id, Off: I64(0), Len: s.Len, Cap: Add(s.Len, x)}
	}
	heap[p.Obj] = &Object{T: o.T, V: n, Name: o.Name, RO: o.RO}
	return heap
}

// ---- streaming hashes ----

type StreamHash struct {
	Name    string
	Pkg     string
	New     func(ex *Exec, st *State) (Value, *State) // receiver (Iface or Ptr)
	Rate    int
	Block   func(c *Ctx) bool                                        // proves the block-function contract
	Setup   func(ex *Exec)                                           // installs callee contracts
	Spec    func(ex *Exec, st *State, tail []*Term, q *Term) []*Term // expected digest of M[0 : Rate*q+len(tail)]
	OutLen  int
	NoReset bool
	Lazy    bool // a full last block stays buffered until more data follows
	// Finish replaces the checks of Sum (extendable-output functions); Extra yields further states Reset must handle
	SkipWrite, WriteOnly bool // the preservation proof for Write is done for a whole group of constructors
	Finish               func(ex *Exec, recv Value, st *State, a int, q *Term, label string)
	Extra                func(ex *Exec) []*State
	SumCases             []SumCase // values of configuration variables to distinguish when summing
}

type SumCase struct {
	Name string
	Sub  map[*Term]*Term
	Set  func()
}

// substHeap replaces variables throughout the scalar objects of a state.
func substHeap(st *State, m map[*Term]*Term) {
	for id, o := range st.Heap {
		if _, ok := o.V.(*Agg); !ok || o.RO {
			continue
		}
		var ts []*Term
		var sb strings.Builder
		flatten(o.V, &ts, &sb)
		ch := false
		n := make([]*Term, len(ts))
		for i := range ts {
			n[i] = Subst(ts[i], m)
			ch = ch || n[i] != ts[i]
		}
		if ch {
			st.Heap[id] = &Object{T: o.T, V: unflatten(o.V, &n), Name: o.Name, RO: o.RO}
		}
	}
}

// residues of the length of the buffered data
func (h *StreamHash) residues() []int {
	var r []int
	lo := 0
	if h.Lazy {
		lo = 1
	}
	for i := 0; i < h.Rate; i++ {
		r = append(r, lo+i)
	}
	return r
}

// method resolves a method on the receiver value.
func (ex *Exec) method(recv Value, name string) (*ssa.Function, Value) {
	switch r := recv.(type) {
	case Iface:
		ms := types.NewMethodSet(r.T)
		for i := 0; i < ms.Len(); i++ {
			if m := ms.At(i); m.Obj().Name() == name {
				return ex.Prog.MethodValue(m), r.V
			}
		}
	}
	return nil, nil
}

func inputBytes(ex *Exec, st *State, sym string, off, n *Term, name string) Slice {
	if n.IsConst() && n.C == 0 {
		id := ex.Alloc(st, "in:"+name, nil, &Agg{})
		st.Heap[id].RO = true
		return Slice{Obj: id, Off: I64(0), Len: I64(0), Cap: I64(0)}
	}
	r := &Rope{P: []Piece{{Sym: sym, Off: off, Len: n, W: 8}}}
	id := ex.Alloc(st, "in:"+name, types.NewSlice(types.Typ[types.Uint8]), r)
	st.Heap[id].RO = true
	return Slice{Obj: id, Off: I64(0), Len: n, Cap: n}
}

type absState struct {
	recv Value
	st   *State
	can  *canonState
}

// hv: havoc set per residue: cells (object,pos) of the canonical one-shot state that carry no meaning
type havocSet map[int]map[int]bool // residue -> index into canonical cells

func (h *StreamHash) verify(c *Ctx) {
	ex := c.Exec()
	ex.MaxUnroll = 4096
	h.Setup(ex)
	R := uint64(h.Rate)
	q := lenVar(ex, "q", 0)
	m := lenVar(ex, "m", 0)
	fnW := h.Name + ".Write"
	fnS := h.Name + ".Sum"

	// write runs Write(p) and returns the single resulting state
	write := func(recv Value, st *State, p Slice, want *Term, ob string) []*State {
		fn, rv := ex.method(recv, "Write")
		if fn == nil {
			unsup("%s has no Write method", h.Name)
		}
		nro := len(roWrites)
		outs := ex.Call(fn, []Value{rv, p}, st, "W", 0)
		var res []*State
		for _, o := range outs {
			if o.Panic != "" {
				c.Ob(ob+": no panic", fnW, false, "exec", o.Panic+" at "+o.Pos)
				return nil
			}
			n := o.Ret[0].(*Term)
			e, isI := o.Ret[1].(Iface)
			c.Ob("Write reports len(p), nil", fnW, isI && e.T == nil && ex.sameTerm(o.St, n, want), "canonical", fmt.Sprintf("n=%s want=%s", Show(n, 3), Show(want, 3)))
			res = append(res, o.St)
		}
		c.Ob("Write leaves its argument unmodified", fnW, len(roWrites) == nro, "frame", roDetail(nro))
		return res
	}

	type abst struct {
		recv Value
		st   *State
		can  *canonState
	}
	init := func() (Value, *State) { return h.New(ex, NewState()) }
	// one-shot states S(q,a), q >= 1 or a >= 1
	abs := map[int]*abst{}
	hav := map[int]map[int]bool{}
	for _, a := range h.residues() {
		hav[a] = map[int]bool{}
	}
	mk := func(a int, qq *Term, assume *Term) *abst {
		recv, st := init()
		if assume != nil {
			st.assume(assume)
		}
		L := Add(MulC(qq, R), I64(int64(a)))
		sts := write(recv, st, inputBytes(ex, st, "M", I64(0), L, "M0"), L, "one-shot write")
		if debugExec {
			for i, s := range sts {
				fmt.Fprintln(os.Stderr, "mk", a, i, len(sts), s.singles())
				for _, t := range s.PC {
					fmt.Fprintln(os.Stderr, "   pc", Show(t, 6))
				}
			}
		}
		if len(sts) > 1 {
			// paths for particular small q: compared with the general one below
			var gen, part []*State
			for _, s := range sts {
				if len(s.singles()) > 0 {
					part = append(part, s)
				} else {
					gen = append(gen, s)
				}
			}
			if len(gen) == 1 {
				g := ex.Canon(gen[0], recv)
				for _, s := range part {
					p := ex.Canon(s, recv)
					c.Ob("state after few blocks has the common form", fnW, p.skel.String() == g.skel.String(), "canonical", fmt.Sprintf("a=%d", a))
					if p.skel.String() != g.skel.String() {
						continue
					}
					m := s.singles()
					for i := range p.cells {
						if Subst(g.cells[i], m) != Subst(p.cells[i], m) {
							if debugExec {
								fmt.Fprintln(os.Stderr, "part: a", a, "cell", i, Show(Subst(g.cells[i], m), 5), "vs", Show(Subst(p.cells[i], m), 5), Show(g.cells[i], 5), m)
							}
							hav[a][i] = true
						}
					}
				}
				sts = gen
			}
		}
		if len(sts) != 1 {
			unsup("one-shot Write of %d+%d*q bytes ends in %d states", a, R, len(sts))
		}
		return &abst{recv, sts[0], ex.Canon(sts[0], recv)}
	}
	ok := c.guard("chunk-independent state exists", fnW, func() {
		for _, a := range h.residues() {
			q1 := Slt(I64(0), q)
			s := mk(a, q, q1)
			// rebase: drop the q>=1 assumption when the q=0 state is the same form
			z := mk(a, I64(0), nil)
			sub := map[*Term]*Term{q: I64(0)}
			same := z.can.skel.String() == s.can.skel.String()
			if same {
				for i := range z.can.cells {
					if x := Subst(s.can.cells[i], sub); x != z.can.cells[i] {
						if debugExec {
							fmt.Fprintln(os.Stderr, "stale: a", a, "cell", i, Show(x, 5), "vs", Show(z.can.cells[i], 5))
						}
						hav[a][i] = true
					}
				}
			}
			c.Ob("state after fewer than one block has the common form", fnW, same, "canonical", fmt.Sprintf("a=%d\n%s\n%s", a, z.can.skel.String(), s.can.skel.String()))
			abs[a] = s
		}
	})
	if !ok {
		return
	}
	// generic state: one-shot form with meaningless cells arbitrary, valid for every q >= 0
	type genc struct {
		n  int
		st *State
	}
	cache := map[int]*genc{}
	gen := func(a int) (Value, *State) {
		s := abs[a]
		if g := cache[a]; g != nil && g.n == len(hav[a]) {
			return s.recv, g.st.clone()
		}
		st := s.st.clone()
		st.PC = nil
		st.pcset = map[*Term]bool{}
		st.rng = map[*Term]urng{}
		st.bounds = nil
		for i := range s.can.cells {
			if hav[a][i] {
				r := s.can.refs[i]
				if r.obj < 0 {
					unsup("meaningless cell inside a buffer view")
				}
				o := st.Heap[r.obj]
				var ts []*Term
				var sb strings.Builder
				flatten(o.V, &ts, &sb)
				ts = append([]*Term{}, ts...)
				ts[r.k] = Fresh(ts[r.k].W, "stale")
				st.Heap[r.obj] = &Object{T: o.T, V: unflatten(o.V, &ts), Name: o.Name, RO: o.RO}
			}
		}
		st.Heap = rebase(ex, st, s.recv)
		// the previous input is gone
		for id, o := range st.Heap {
			if strings.HasPrefix(o.Name, "in:") {
				if _, reach := s.can.seen[id]; !reach {
					delete(st.Heap, id)
				}
			}
		}
		st.visits = map[string]int{}
		for k, v := range s.st.visits {
			st.visits[k] = v + 100
		}
		cache[a] = &genc{len(hav[a]), st.clone()}
		return s.recv, st
	}
	compare := func(recv Value, st *State, a2 int, q2 *Term, label string) (bool, bool) {
		can := ex.Canon(st, recv)
		s := abs[a2]
		if can.skel.String() != s.can.skel.String() {
			c.Ob("Write preserves the chunk-independent state", fnW, false, "canonical", label+": shape differs: "+can.skel.String()+" vs "+s.can.skel.String())
			return false, false
		}
		for id, o := range st.Heap {
			if strings.HasPrefix(o.Name, "in:") && reaches(ex, st, recv, id) {
				c.Ob("Write keeps no reference to its argument", fnW, false, "frame", label)
				return false, false
			}
		}
		sub := map[*Term]*Term{q: q2}
		grew := false
		one := st.singles()
		var xs, ys []*Term
		var idx []int
		for i := range can.cells {
			if hav[a2][i] {
				continue
			}
			w := Subst(s.can.cells[i], sub)
			if len(one) > 0 {
				w, can.cells[i] = Subst(w, one), Subst(can.cells[i], one)
			}
			if w != can.cells[i] {
				xs, ys, idx = append(xs, can.cells[i]), append(ys, w), append(idx, i)
			}
		}
		for k, i := range idx {
			r := ex.ProveEq(st.PC, []*Term{xs[k]}, []*Term{ys[k]})
			if !r.OK {
				if s.can.refs[i].obj < 0 {
					c.Ob("Write preserves the chunk-independent state", fnW, false, r.How, fmt.Sprintf("%s: buffered byte %d: %s vs %s", label, i, Show(xs[k], 4), Show(ys[k], 4)))
					return false, false
				}
				if debugExec {
					fmt.Fprintln(os.Stderr, "grew:", label, "cell", i, r.How, Show(xs[k], 5), "vs", Show(ys[k], 5))
				}
				hav[a2][i] = true
				grew = true
			}
		}
		return true, grew
	}
	step := func(a int, kind int, r int) bool { // returns grew
		recv, st := gen(a)
		var L, q2 *Term
		a2 := r
		st.assume(Ule(I64(0), q))
		switch kind {
		case 0: // short: stays in the same block; r = a + len
			L = I64(int64(r - a))
			q2 = q
		case 1: // completes the block and adds r bytes
			L = I64(int64(R) - int64(a) + int64(r))
			q2 = Add(q, I64(1))
		case 2: // completes the block, m >= 1 whole blocks, r bytes
			st.assume(Slt(I64(0), m))
			L = Add(MulC(m, R), I64(int64(R)-int64(a)+int64(r)))
			q2 = Add(Add(q, I64(1)), m)
		}
		p := inputBytes(ex, st, "M", Add(MulC(q, R), I64(int64(a))), L, fmt.Sprintf("p%d", kind))
		sts := write(recv, st, p, L, "Write")
		grew := false
		for _, s := range sts {
			o, g := compare(recv, s, a2, q2, fmt.Sprintf("a=%d kind=%d r=%d", a, kind, r))
			if !o {
				return false
			}
			if g {
				grew = true
			} else {
				c.Ob("Write preserves the chunk-independent state", fnW, true, "canonical", "")
			}
		}
		return grew
	}
	c.guard("Write preserves the chunk-independent state", fnW, func() {
		sample := []int{1, 2, int(R) / 2, int(R) - 10, int(R) - 9, int(R) - 8, int(R) - 2, int(R) - 1}
		if h.Lazy {
			sample = append(sample, int(R))
		} else {
			sample = append(sample, 0)
		}
		// find the meaningless cells on samples first
		for round := 0; round < 6; round++ {
			grew := false
			for _, a := range sample {
				for _, r := range h.residues() {
					if r >= a && step(a, 0, r) {
						grew = true
					}
					if step(a, 1, r) {
						grew = true
					}
				}
			}
			if failed(c) {
				return
			}
			if !grew {
				break
			}
		}
		if h.SkipWrite {
			return
		}
		for _, a := range h.residues() {
			gen(a)
		}
		termMark()
		defer termUnmark()
		for round := 0; ; round++ {
			if round > 6 {
				unsup("no stable representation")
			}
			grew := false
			for _, a := range h.residues() {
				if a%c.NShard != c.Shard {
					continue
				}
				for _, r := range h.residues() {
					for k := 0; k < 3; k++ {
						if k == 0 && r < a {
							continue
						}
						if step(a, k, r) {
							grew = true
						}
						termRelease()
						if failed(c) {
							return
						}
					}
				}
			}
			if !grew {
				break
			}
			if c.NShard > 1 {
				unsup("the sampled representation is not stable")
			}
		}
	})
	if failed(c) {
		return
	}
	if h.WriteOnly {
		return
	}
	c.guard("an empty Write leaves the initial state", fnW, func() {
		recv, st := init()
		c0 := ex.Canon(st, recv)
		for _, s := range write(recv, st, inputBytes(ex, st, "M", I64(0), I64(0), "empty"), I64(0), "empty write") {
			c1 := ex.Canon(s, recv)
			same := c0.skel.String() == c1.skel.String()
			for i := range c0.cells {
				same = same && c0.cells[i] == c1.cells[i]
			}
			c.Ob("an empty Write leaves the initial state", fnW, same, "canonical", "")
		}
	})
	// Sum
	var sum1 func(recv Value, st *State, a int, qq *Term, label string)
	sum := func(recv Value, st *State, a int, qq *Term, label string) {
		if h.Finish != nil {
			h.Finish(ex, recv, st, a, qq, label)
			return
		}
		if h.SumCases == nil {
			sum1(recv, st, a, qq, label)
			return
		}
		for _, k := range h.SumCases {
			s2 := st.clone()
			substHeap(s2, k.Sub)
			k.Set()
			sum1(recv, s2, a, qq, label+" "+k.Name)
		}
	}
	sum1 = func(recv Value, st *State, a int, qq *Term, label string) {
		fn, rv := ex.method(recv, "Sum")
		if fn == nil {
			unsup("no Sum method")
		}
		for _, pre := range []int{0, 1} {
			s2 := st.clone()
			in := Slice{Off: I64(0), Len: I64(0), Cap: I64(0)}
			if pre == 1 {
				li := lenVar(ex, "li", 1)
				in = inputBytes(ex, s2, "IN", I64(0), li, "sumarg")
			}
			before := ex.Canon(s2, recv)
			nro := len(roWrites)
			outs := ex.Call(fn, []Value{rv, in}, s2, "S", 0)
			for _, o := range outs {
				if o.Panic != "" {
					c.Ob("Sum does not panic", fnS, false, "exec", label+": "+o.Panic+" at "+o.Pos)
					continue
				}
				res := o.Ret[0].(Slice)
				ps := ex.SliceView(o.St, res)
				var tail []*Term
				for i := 0; i < a; i++ {
					tail = append(tail, UF(8, "M", Add(MulC(qq, R), I64(int64(i)))))
				}
				want := h.Spec(ex, o.St.clone(), tail, qq)
				var got []*Term
				good := true
				if pre == 1 {
					// first piece is IN
					if len(ps) == 0 || ps[0].Sym != "IN" || ps[0].Len != in.Len || !(ps[0].Off.IsConst() && ps[0].Off.C == 0) {
						good = false
					} else {
						ps = ps[1:]
					}
				}
				c.Ob("Sum appends to its argument", fnS, good, "canonical", label+fmt.Sprintf(": result length %s", Show(res.Len, 3)))
				if good {
					for _, p := range ps {
						for _, e := range expandPiece(p) {
							got = append(got, e.(*Term))
						}
					}
					if len(got) != len(want) {
						c.Ob("Sum returns the specified digest", fnS, false, "canonical", fmt.Sprintf("%s: %d bytes, want %d", label, len(got), len(want)))
					} else {
						r := ex.ProveEq(o.St.PC, got, want)
						det := label
						if !r.OK {
							for i := range got {
								if got[i] != want[i] {
									det += ": " + Show(got[i], 8) + " want " + Show(want[i], 8)
									break
								}
							}
						}
						c.Ob("Sum returns the specified digest", fnS, r.OK, r.How, det)
					}
				}
				after := ex.Canon(o.St, recv)
				c.Ob("Sum returns memory the hash does not keep", fnS, after.seen[res.Obj] == 0 && !reaches(ex, o.St, recv, res.Obj), "frame", label)
				same := after.skel.String() == before.skel.String()
				if same {
					for i := range after.cells {
						if after.cells[i] != before.cells[i] {
							same = false
						}
					}
				}
				c.Ob("Sum leaves the running state unchanged", fnS, same, "canonical", label)
				c.Ob("Sum leaves its argument unmodified", fnS, len(roWrites) == nro, "frame", roDetail(nro))
			}
		}
	}
	c.guard("Sum returns the specified digest", fnS, func() {
		if c.Shard == 0 {
			recv, st := init()
			sum(recv, st, 0, I64(0), "empty message")
		}
		for _, a := range h.residues() {
			if a%c.NShard != c.Shard {
				continue
			}
			recv, st := gen(a)
			if a == 0 {
				st.assume(Slt(I64(0), q))
			}
			sum(recv, st, a, q, fmt.Sprintf("a=%d", a))
		}
	})
	// Reset
	if !h.NoReset {
		fnR := h.Name + ".Reset"
		c.guard("Reset restores the initial state", fnR, func() {
			recv0, st0 := init()
			c0 := ex.Canon(st0, recv0)
			differ := map[int]bool{}
			type rs struct {
				recv Value
				st   *State
				a    string
			}
			var from []rs
			for _, a := range h.residues() {
				recv, st := gen(a)
				from = append(from, rs{recv, st, fmt.Sprint(a)})
			}
			if h.Extra != nil {
				for i, st := range h.Extra(ex) {
					from = append(from, rs{recv0, st, fmt.Sprint("extra ", i)})
				}
			}
			for _, f := range from {
				recv, st, a := f.recv, f.st, f.a
				fn, rv := ex.method(recv, "Reset")
				if fn == nil {
					unsup("no Reset method")
				}
				for _, o := range ex.Call(fn, []Value{rv}, st, "R", 0) {
					if o.Panic != "" {
						c.Ob("Reset does not panic", fnR, false, "exec", o.Panic)
						return
					}
					c1 := ex.Canon(o.St, recv)
					if c1.skel.String() != c0.skel.String() {
						c.Ob("Reset restores the initial state", fnR, false, "canonical", fmt.Sprintf("a=%s: %s vs %s", a, c1.skel.String(), c0.skel.String()))
						return
					}
					for i := range c1.cells {
						if c1.cells[i] != c0.cells[i] {
							differ[i] = true
						}
					}
				}
			}
			// cells Reset does not restore must not matter: arbitrary values there give the same states and digest
			for i := range differ {
				r := c0.refs[i]
				if r.obj < 0 {
					c.Ob("Reset restores the initial state", fnR, false, "canonical", fmt.Sprintf("cell %d of a buffer view", i))
					return
				}
			}
			mkInit := func() (Value, *State) {
				recv, st := init()
				cc := ex.Canon(st, recv)
				for i := range differ {
					r := cc.refs[i]
					o := st.Heap[r.obj]
					var ts []*Term
					var sb strings.Builder
					flatten(o.V, &ts, &sb)
					ts = append([]*Term{}, ts...)
					ts[r.k] = Fresh(ts[r.k].W, "stale0")
					st.Heap[r.obj] = &Object{T: o.T, V: unflatten(o.V, &ts), Name: o.Name, RO: o.RO}
				}
				return recv, st
			}
			for _, a := range h.residues() {
				if a%c.NShard != c.Shard {
					continue
				}
				for _, qq := range []*Term{I64(0), q} {
					if a == 0 && qq != q {
						continue
					}
					recv, st := mkInit()
					if qq == q {
						st.assume(Slt(I64(0), q))
					}
					L := Add(MulC(qq, R), I64(int64(a)))
					for _, s := range write(recv, st, inputBytes(ex, st, "M", I64(0), L, "M0"), L, "write after Reset") {
						good, grew := compare(recv, s, a, qq, fmt.Sprintf("after Reset, a=%d", a))
						c.Ob("Reset restores the initial state", fnR, good && !grew, "canonical", fmt.Sprintf("a=%d: a cell Reset leaves behind matters", a))
					}
				}
			}
			if c.Shard == 0 {
				recv, st := mkInit()
				sum(recv, st, 0, I64(0), "empty message after Reset")
			}
		})
	}
	c.Assume(fmt.Sprintf("%s: total message length below %d blocks of %d bytes (2^40 blocks per call and before it)", h.Name, uint64(symMax), R))
}

// reaches: does any slice field of the receiver share the object?
func reaches(ex *Exec, st *State, recv Value, id int) bool {
	v := recv
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	p, ok := v.(Ptr)
	if !ok || p.Obj == 0 {
		return false
	}
	if p.Obj == id {
		return true
	}
	if a, ok := ex.obj(st, p.Obj).V.(*Agg); ok {
		for _, e := range a.E {
			if s, ok := e.(Slice); ok && s.Obj == id {
				return true
			}
		}
	}
	return false
}

func failed(c *Ctx) bool {
	for _, o := range c.Rep.Obls {
		if !o.OK {
			return true
		}
	}
	return false
}
func roDetail(n int) string {
	if len(roWrites) <= n {
		return ""
	}
	return "write to " + roWrites[n].Name + " at " + roWrites[n].Pos
}

func (ex *Exec) sameTerm(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	return ex.ProveEq(st.PC, []*Term{a}, []*Term{b}).OK
}

var _ = sort.Strings
