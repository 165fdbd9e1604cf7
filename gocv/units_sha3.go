package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// ---- Keccak / SHA-3 ----

func keccakInputs() []*Term { return freshTerms(25, 64, "a") }

// keccakPerm proves both implementations of the permutation against FIPS 202.
func keccakPerm(c *Ctx) {
	want := func(in []*Term) []*Term {
		ex := c.Exec()
		return terms(specCall(c, ex, NewState(), "keccaks", "F1600", agg(in))[0])
	}
	// the function linked on this platform
	fn := c.P.Fn("sha3", "keccakF1600")
	name := "sha3.keccakF1600"
	c.guard("permutation equals Keccak-f[1600]", name, func() {
		if fn == nil {
			unsup("keccakF1600 not found")
		}
		in := keccakInputs()
		w := want(in)
		var got []*Term
		ex := c.Exec()
		if fn.Blocks == nil {
			name = "sha3.keccakF1600 (keccakf_amd64.s)"
			fs, err := asmFuncs(filepath.Join(repoDir, "sha3", "keccakf_amd64.s"))
			if err != nil {
				unsup("%v", err)
			}
			ins, ok := fs["keccakF1600"]
			if !ok {
				unsup("no assembly for keccakF1600")
			}
			m := &asmMachine{reg: map[string]interface{}{}, mem: map[int]map[int64]*Term{1: {}}, size: map[int]int64{1: 200, asmStack: 4096}, arg: map[int64]interface{}{0: asmPtr{1, 0}}, wr: map[int]bool{}}
			for i, t := range in {
				m.mem[1][int64(8*i)] = t
			}
			if err := m.run(ins); err != nil {
				unsup("%v", err)
			}
			for i := range in {
				got = append(got, m.mem[1][int64(8*i)])
			}
			c.Func("sha3.keccakF1600 (assembly)")
		} else {
			st := NewState()
			id := ex.Alloc(st, "state", nil, agg(in))
			ex.MustInit(c.P, "sha3")
			outs := ex.Run(fn, []Value{Ptr{Obj: id}}, st, "perm")
			if len(outs) != 1 || outs[0].Panic != "" {
				unsup("keccakF1600 has %d outcomes", len(outs))
			}
			got = terms(outs[0].St.Heap[id].V)
		}
		t0 := time.Now()
		r := ex.ProveEq(nil, got, w)
		c.Ob("permutation equals Keccak-f[1600]", name, r.OK, r.How, fmt.Sprintf("%.1fs", time.Since(t0).Seconds()))
	})
}

// keccakFold is the sponge absorption of rate bytes per step.
func keccakFold(c *Ctx, rate int) *Fold {
	f := &Fold{Name: fmt.Sprintf("keccak%d", rate), NS: 25, W: 64, BB: rate}
	f.Step = func(h, blk, extra []*Term) []*Term {
		n := append([]*Term{}, h...)
		for i := 0; i < rate/8; i++ {
			var bs []*Term
			for j := 7; j >= 0; j-- {
				bs = append(bs, blk[8*i+j])
			}
			n[i] = Xor(n[i], Concat(bs...))
		}
		return f.keccakF(n)
	}
	return f
}

// keccakF is the abstract permutation; lanes of the form state xor input block are absorbed into the fold.
func (f *Fold) keccakF(l []*Term) []*Term {
	h := append([]*Term{}, l...)
	var sym string
	var off *Term
	ok := true
	for i := 0; i < f.BB/8 && ok; i++ {
		var bs []*Term
		for j := 7; j >= 0 && ok; j-- {
			b := inputByte(Extract(l[i], 8*j, 8))
			if l[i].Op == OXor {
				for _, a := range l[i].Args {
					if x := inputByte(Extract(a, 8*j, 8)); x != nil {
						b = x
					}
				}
			}
			if b == nil || sym != "" && b.Name != sym {
				ok = false
				break
			}
			sym = b.Name
			bs = append(bs, b)
		}
		if !ok {
			break
		}
		if off == nil {
			off = bs[7].Args[0]
		}
		for j := range bs {
			if bs[j].Args[0] != Add(off, I64(int64(8*i+7-j))) {
				ok = false
			}
		}
		h[i] = Xor(l[i], Concat(bs...))
	}
	if ok {
		return f.N(h, nil, sym, off, I64(1))
	}
	r := make([]*Term, 25)
	pk := pack(l)
	for i := range r {
		r[i] = UF(64, kfNames[i], pk...)
	}
	return r
}

var kfNames = func() (r [25]string) {
	for i := range r {
		r[i] = fmt.Sprintf("kf:%d", i)
	}
	return
}()

// inputByte finds the byte of an input array in b = x or b = x xor state.
func inputByte(b *Term) *Term {
	is := func(t *Term) bool {
		return t.Op == OUF && t.W == 8 && len(t.Args) == 1 && !strings.Contains(t.Name, ":")
	}
	if is(b) {
		return b
	}
	if b.Op == OXor {
		for _, a := range b.Args {
			if is(a) {
				return a
			}
		}
	}
	return nil
}

type keccakCfg struct {
	ctor string
	rate int
	out  int
	ds   uint64
	one  string
}

var keccakCfgs = []keccakCfg{{"NewKeccak256", 136, 32, 1, ""}, {"NewKeccak512", 72, 64, 1, ""}, {"New224", 144, 28, 6, "Sum224"}, {"New256", 136, 32, 6, "Sum256"}, {"New384", 104, 48, 6, "Sum384"}, {"New512", 72, 64, 6, "Sum512"}}

func keccakSetup(c *Ctx, ex *Exec, f *Fold) {
	ex.EagerAccel = true
	pf := func(ex *Exec, st *State, cc *CallCtx) []Outcome {
		p := cc.Args[0].(Ptr)
		if p.Obj == 0 {
			return []Outcome{{St: st, Panic: "nil pointer dereference"}}
		}
		ex.Store(st, p, agg(f.keccakF(terms(ex.Load(st, p)))))
		return ret(st)
	}
	ex.Contracts[c.P.Fn("sha3", "keccakF1600").String()] = pf
	ex.Contracts[specFn(c, "keccaks", "F1600").String()] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
		return ret(st, agg(f.keccakF(terms(cc.Args[0]))))
	}
	ex.AccelSpecOf = func(fr *frame, L *loopInfo, e *entry) *AccelSpec {
		// the sponge state is the only [25]uint64 written here
		for _, id := range heapOrder(e.st) {
			o := e.st.Heap[id]
			if a, ok := o.V.(*Agg); ok && !o.RO {
				for _, x := range append([]Value{a}, a.E...) {
					if l, ok := x.(*Agg); ok && len(l.E) == 25 {
						if t, ok := l.E[0].(*Term); ok && t.W == 64 {
							return &AccelSpec{Fold: f, Init: terms(l)}
						}
					}
				}
			}
		}
		return nil
	}
}

func heapOrder(st *State) []int {
	var r []int
	for id := range st.Heap {
		r = append(r, id)
	}
	sort.Ints(r)
	return r
}

func keccakHash(c *Ctx, k keccakCfg) *StreamHash {
	f := keccakFold(c, k.rate)
	return &StreamHash{Name: "sha3." + k.ctor, Pkg: "sha3", Rate: k.rate, OutLen: k.out,
		New:   newVia(c, "sha3", k.ctor, nil),
		Setup: func(ex *Exec) { keccakSetup(c, ex, f) },
		Spec: func(ex *Exec, st *State, tail []*Term, q *Term) []*Term {
			z := make([]*Term, 25)
			for i := range z {
				z[i] = I64(0)
			}
			h := f.N(z, nil, "M", I64(0), q)
			a := specCall(c, ex, st, "keccaks", "Pad", agg(h), sliceOf(ex, st, tail, "tail"), I64(int64(k.rate)), Const(8, k.ds))[0]
			var out []*Term
			for i := 0; i < k.out; i++ {
				out = append(out, Extract(terms(a)[i/8], 8*(i%8), 8))
			}
			return out
		}}
}

func init() {
	pat := []string{"./sha3", "./zzspec/keccaks"}
	us := []string{"sha3.perm", "sha3.perm_generic"}
	unit("sha3.perm", pat, 1, keccakPerm)
	unitTags("sha3.perm_generic", "appengine", pat, 1, keccakPerm)
	// Write is proved once per rate, with the cells in which the constructors differ left arbitrary
	rates := map[int][]keccakCfg{}
	for _, k := range append(append([]keccakCfg{}, keccakCfgs...), shakeCfgs...) {
		rates[k.rate] = append(rates[k.rate], k)
	}
	for _, r := range []int{72, 104, 136, 144, 168} {
		r := r
		n := fmt.Sprintf("sha3.write%d", r)
		us = append(us, n)
		unit(n, pat, 8, func(c *Ctx) { keccakWrite(c, rates[r]) })
	}
	for _, k := range keccakCfgs {
		k := k
		n := "sha3." + k.ctor
		us = append(us, n)
		unit(n, pat, 2, func(c *Ctx) {
			h := keccakHash(c, k)
			h.SkipWrite = true
			h.verify(c)
			if c.Shard == 0 {
				sizes(c, h)
				if k.one != "" {
					oneShot(c, h, k.one)
				}
			}
		})
	}
	for _, k := range shakeCfgs {
		k := k
		us = append(us, "sha3."+k.ctor, "sha3."+k.one)
		unit("sha3."+k.ctor, pat, 4, func(c *Ctx) { shakeUnit(c, k) })
		unit("sha3."+k.one, pat, 2, func(c *Ctx) { shakeSum(c, k) })
	}
	prop(&Prop{ID: "H04", Units: us, Replay: []string{"sha3"}})
}

// ---- SHAKE ----

// shakeStream is bytes [p, p+n) of the squeezed stream that starts with lanes l.
func shakeStream(f *Fold, l []*Term, p, n int) (out, lanes []*Term) {
	for i := 0; ; i++ {
		if p == f.BB {
			l, p = f.keccakF(l), 0
		}
		if i == n {
			return out, l
		}
		out = append(out, Extract(l[p/8], 8*(p%8), 8))
		p++
	}
}

type shaker struct {
	c    *Ctx
	k    keccakCfg
	f    *Fold
	h    *StreamHash
	name string
	recv Value
	base *State // squeezing at position 0 with arbitrary lanes
	l    []*Term
}

// read calls Read with an n-byte destination and returns the bytes written.
func (s *shaker) read(ex *Exec, recv Value, st *State, n int) ([]*Term, *State, bool) {
	fn, rv := ex.method(recv, "Read")
	if fn == nil {
		unsup("no Read method")
	}
	st = st.clone()
	nm := s.name + ".Read"
	out := sliceOf(ex, st, freshTerms(n, 8, "dst"), "dst")
	if n == 0 {
		out = Slice{Off: I64(0), Len: I64(0), Cap: I64(0)}
	}
	outs := ex.Call(fn, []Value{rv, out}, st, "rd", 0)
	if len(outs) != 1 {
		unsup("Read of %d bytes has %d outcomes", n, len(outs))
	}
	o := outs[0]
	if o.Panic != "" {
		s.c.Ob("Read does not panic", nm, false, "exec", o.Panic+" at "+o.Pos)
		return nil, nil, false
	}
	r0, ok := o.Ret[0].(*Term)
	i, ok2 := o.Ret[1].(Iface)
	s.c.Ob("Read reports len(p), nil", nm, ok && r0 == I64(int64(n)) && ok2 && i.T == nil, "canonical", fmt.Sprint(n))
	var got []*Term
	if n > 0 {
		got = retTerms(ex, o.St, out)
		s.c.Ob("Read keeps no reference to its argument", nm, !reaches(ex, o.St, recv, out.Obj), "frame", "")
	}
	return got, o.St, true
}

func (s *shaker) clone(ex *Exec, recv Value, st *State) (Value, *State, bool) {
	fn, rv := ex.method(recv, "Clone")
	if fn == nil {
		unsup("no Clone method")
	}
	outs := ex.Call(fn, []Value{rv}, st.clone(), "cl", 0)
	nm := s.name + ".Clone"
	if len(outs) != 1 || outs[0].Panic != "" {
		d := ""
		if len(outs) > 0 {
			d = outs[0].Panic + " at " + outs[0].Pos
		}
		s.c.Ob("Clone does not panic", nm, false, "exec", d)
		return nil, nil, false
	}
	o := outs[0]
	same := sameCanon(ex.Canon(o.St, o.Ret[0]), ex.Canon(st, recv)) && sameCanon(ex.Canon(o.St, recv), ex.Canon(st, recv))
	s.c.Ob("Clone has the state of the original and leaves that unchanged", nm, same, "canonical", "")
	a, b := ex.Canon(o.St, o.Ret[0]), ex.Canon(o.St, recv)
	sep := true
	for id := range a.seen {
		if _, ok := b.seen[id]; ok {
			sep = false
		}
		if reaches(ex, o.St, recv, id) {
			sep = false
		}
	}
	for id := range b.seen {
		if reaches(ex, o.St, o.Ret[0], id) {
			sep = false
		}
	}
	s.c.Ob("Clone shares no memory with the original", nm, sep, "frame", "")
	return o.Ret[0], o.St, true
}

func sameCanon(a, b *canonState) bool {
	if a.skel.String() != b.skel.String() || len(a.cells) != len(b.cells) {
		return false
	}
	for i := range a.cells {
		if a.cells[i] != b.cells[i] {
			return false
		}
	}
	return true
}

// at is the generic squeezing state at position p.
func (s *shaker) at(ex *Exec, p int) *State {
	if p == 0 {
		return s.base.clone()
	}
	_, st, ok := s.read(ex, s.recv, s.base, p)
	if !ok {
		unsup("no squeezing state")
	}
	return st
}

// finish: an absorbing state holding M[0:rate*q+a] squeezes the padded sponge, through a clone and directly.
func (s *shaker) finish(ex *Exec, recv Value, st *State, a int, q *Term, label string) {
	c := s.c
	var tail []*Term
	for i := 0; i < a; i++ {
		tail = append(tail, UF(8, "M", Add(MulC(q, uint64(s.k.rate)), I64(int64(i)))))
	}
	before := ex.Canon(st, recv)
	cl, st2, ok := s.clone(ex, recv, st)
	if !ok {
		return
	}
	for _, viaClone := range []bool{true, false} {
		r, s0 := recv, st
		if viaClone {
			r, s0 = cl, st2
		}
		sp := s0.clone()
		l := terms(specCall(c, ex, sp, "keccaks", "Pad", agg(s.absorbed(q)), sliceOf(ex, sp, tail, "tail"), I64(int64(s.k.rate)), Const(8, s.k.ds))[0])
		got, s1, ok := s.read(ex, r, s0, 1)
		if !ok {
			return
		}
		want, _ := shakeStream(s.f, l, 0, 1)
		pr := ex.ProveEq(s1.PC, got, want)
		c.Ob("first output byte is the padded sponge's", s.name+".Read", pr.OK, pr.How, label)
		if viaClone {
			c.Ob("reading from a clone leaves the original unchanged", s.name+".Clone", sameCanon(before, ex.Canon(s1, recv)), "canonical", label)
		}
		if s.base == nil {
			e, es := s.h.New(ex, NewState())
			s.makeBase(ex, e, es, terms(specCall(c, ex, es.clone(), "keccaks", "Pad", agg(s.absorbed(I64(0))), Slice{Off: I64(0), Len: I64(0), Cap: I64(0)}, I64(int64(s.k.rate)), Const(8, s.k.ds))[0]))
		}
		// the state after it is the generic squeezing state at position 1 with these lanes
		m := map[*Term]*Term{}
		for i := range s.l {
			m[s.l[i]] = l[i]
		}
		w := s.at(ex, 1)
		substHeap(w, m)
		c.Ob("squeezing state has the common form", s.name+".Read", s.sameUpToProof(ex, s1, r, w, s.recv), "canonical", label)
	}
}

func (s *shaker) absorbed(q *Term) []*Term {
	z := make([]*Term, 25)
	for i := range z {
		z[i] = I64(0)
	}
	return s.f.N(z, nil, "M", I64(0), q)
}

func (s *shaker) sameUpToProof(ex *Exec, st *State, r Value, w *State, wr Value) bool {
	a, b := ex.Canon(st, r), ex.Canon(w, wr)
	if a.skel.String() != b.skel.String() || len(a.cells) != len(b.cells) {
		return false
	}
	var x, y []*Term
	for i := range a.cells {
		if a.cells[i] != b.cells[i] {
			x, y = append(x, a.cells[i]), append(y, b.cells[i])
		}
	}
	return len(x) == 0 || ex.ProveEq(st.PC, x, y).OK
}

// makeBase: read a whole block, so that position 0 is reached with permuted lanes, and make the lanes arbitrary.
func (s *shaker) makeBase(ex *Exec, recv Value, st *State, l []*Term) {
	_, s1, ok := s.read(ex, recv, st, s.k.rate)
	if !ok {
		unsup("no squeezing state")
	}
	n := s.f.keccakF(l)
	s.l = freshTerms(25, 64, "lane")
	m := map[*Term]*Term{}
	for i := range n {
		m[n[i]] = s.l[i]
	}
	// cells equal to the permuted lanes, and bytes of them, become the arbitrary lanes
	substHeap(s1, m)
	s1.PC = nil
	s.recv, s.base = recv, s1
}

// squeeze: every read from the generic squeezing state.
func (s *shaker) squeeze(ex *Exec) {
	c, R := s.c, s.k.rate
	if s.base == nil {
		unsup("no squeezing state")
	}
	for p := 0; p < R; p++ {
		if p%c.NShard != c.Shard {
			continue
		}
		st := s.at(ex, p)
		var ns []int
		if p == 0 {
			for n := 0; n <= 2*R+1; n++ {
				ns = append(ns, n)
			}
		} else {
			for n := 0; n <= R-p+1; n++ {
				ns = append(ns, n)
			}
			ns = append(ns, R, 2*R-p-1, 2*R-p, 2*R-p+1)
		}
		for _, n := range ns {
			got, s1, ok := s.read(ex, s.recv, st, n)
			if !ok {
				return
			}
			want, l := shakeStream(s.f, s.l, p, n)
			r := ex.ProveEq(s1.PC, got, want)
			c.Ob("output continues the squeezed stream", s.name+".Read", r.OK, r.How, fmt.Sprintf("%d bytes at position %d", n, p))
			m := map[*Term]*Term{}
			for i := range l {
				m[s.l[i]] = l[i]
			}
			w := s.at(ex, (p+n)%R)
			substHeap(w, m)
			c.Ob("Read leaves the squeezing state at the next position", s.name+".Read", s.sameUpToProof(ex, s1, s.recv, w, s.recv), "canonical", fmt.Sprintf("%d bytes at position %d", n, p))
			if n == 1 || n == 0 && p > 0 {
				if cl, s2, ok := s.clone(ex, s.recv, s1); ok {
					g, s3, ok := s.read(ex, cl, s2, 3)
					if ok {
						w3, _ := shakeStream(s.f, s.l, p, n+3)
						r := ex.ProveEq(s3.PC, g, w3[n:])
						c.Ob("a clone continues the same stream", s.name+".Clone", r.OK, r.How, fmt.Sprint(p))
						c.Ob("reading from a clone leaves the original unchanged", s.name+".Clone", sameCanon(ex.Canon(s1, s.recv), ex.Canon(s3, s.recv)), "canonical", fmt.Sprint(p))
					}
				}
			}
		}
	}
}

func shakeUnit(c *Ctx, k keccakCfg) {
	h := keccakHash(c, k)
	h.SkipWrite = true
	s := &shaker{c: c, k: k, f: keccakFold(c, k.rate), h: h, name: h.Name}
	h.Finish = s.finish
	var ex0 *Exec
	h.Extra = func(ex *Exec) []*State {
		ex0 = ex
		r := []*State{}
		for p := 0; p < k.rate; p++ {
			if p%c.NShard == c.Shard {
				r = append(r, s.at(ex, p))
			}
		}
		return r
	}
	h.verify(c)
	c.guard("output continues the squeezed stream", h.Name+".Read", func() {
		if ex0 == nil {
			unsup("no squeezing state")
		}
		s.squeeze(ex0)
	})
	c.Rep.Bounded = append(c.Rep.Bounded, h.Name+": a single Read of up to 2*rate+1 bytes (any number of reads, any positions)")
}

// shakeSum: the one-shot functions, for every data length and output lengths up to 2*rate+1.
func shakeSum(c *Ctx, k keccakCfg) {
	f := keccakFold(c, k.rate)
	name := "sha3." + k.one
	h := keccakHash(c, k)
	c.guard("one-shot output equals the specification", name, func() {
		fn := c.P.Fn("sha3", k.one)
		if fn == nil {
			unsup("no function %s", name)
		}
		run := func(a int, zero bool, n int) {
			ex := c.Exec()
			h.Setup(ex)
			ex.MustInit(c.P, "sha3")
			q := lenVar(ex, "q", 0)
			if zero {
				q = I64(0)
			}
			st := NewState()
			if !zero {
				st.assume(Slt(I64(0), q))
			}
			out := sliceOf(ex, st, freshTerms(n, 8, "dst"), "dst")
			if n == 0 {
				out = Slice{Off: I64(0), Len: I64(0), Cap: I64(0)}
			}
			nro := len(roWrites)
			L := Add(MulC(q, uint64(k.rate)), I64(int64(a)))
			outs := ex.Call(fn, []Value{out, inputBytes(ex, st, "M", I64(0), L, "data")}, st, "os", 0)
			for _, o := range outs {
				if o.Panic != "" {
					c.Ob("one-shot output equals the specification", name, false, "exec", o.Panic+" at "+o.Pos)
					continue
				}
				var tail []*Term
				for i := 0; i < a; i++ {
					tail = append(tail, UF(8, "M", Add(MulC(q, uint64(k.rate)), I64(int64(i)))))
				}
				s := &shaker{c: c, k: k, f: f}
				sp := o.St.clone()
				l := terms(specCall(c, ex, sp, "keccaks", "Pad", agg(s.absorbed(q)), sliceOf(ex, sp, tail, "tail"), I64(int64(k.rate)), Const(8, k.ds))[0])
				want, _ := shakeStream(f, l, 0, n)
				var got []*Term
				if n > 0 {
					got = retTerms(ex, o.St, out)
				}
				r := ex.ProveEq(o.St.PC, got, want)
				c.Ob("one-shot output equals the specification", name, r.OK, r.How, fmt.Sprintf("length %d mod %d, output %d", a, k.rate, n))
				c.Ob("one-shot leaves its argument unmodified", name, len(roWrites) == nro, "frame", roDetail(nro))
			}
			if len(outs) == 0 {
				unsup("no outcome")
			}
		}
		for a := 0; a < k.rate; a++ {
			if a%c.NShard == c.Shard {
				run(a, true, 32)
				run(a, false, 64)
			}
		}
		for n := 0; n <= 2*k.rate+1; n += 7 {
			run(k.rate/2, false, n)
		}
	})
}

var shakeCfgs = []keccakCfg{{"NewShake128", 168, 0, 0x1f, "ShakeSum128"}, {"NewShake256", 136, 0, 0x1f, "ShakeSum256"}}

// keccakWrite proves Write for all constructors of one rate.
func keccakWrite(c *Ctx, ks []keccakCfg) {
	h := keccakHash(c, ks[0])
	h.Name = fmt.Sprintf("sha3.state(rate %d)", ks[0].rate)
	h.WriteOnly = true
	mk := h.New
	h.New = func(ex *Exec, st *State) (Value, *State) {
		recv, s := mk(ex, st)
		c0 := ex.Canon(s, recv)
		differ := map[int]bool{}
		for _, k := range ks[1:] {
			r1, s1 := newVia(c, "sha3", k.ctor, nil)(ex, NewState())
			c1 := ex.Canon(s1, r1)
			if c1.skel.String() != c0.skel.String() {
				unsup("constructors of rate %d build different shapes", k.rate)
			}
			for i := range c0.cells {
				if c0.cells[i] != c1.cells[i] {
					differ[i] = true
				}
			}
		}
		for i := range differ {
			r := c0.refs[i]
			if r.obj < 0 {
				unsup("constructors differ in a buffer view")
			}
			o := s.Heap[r.obj]
			var ts []*Term
			var sb strings.Builder
			flatten(o.V, &ts, &sb)
			ts = append([]*Term{}, ts...)
			ts[r.k] = Var(ts[r.k].W, fmt.Sprintf("cfg%d_%d", r.obj, r.k))
			s.Heap[r.obj] = &Object{T: o.T, V: unflatten(o.V, &ts), Name: o.Name, RO: o.RO}
		}
		return recv, s
	}
	h.verify(c)
}
