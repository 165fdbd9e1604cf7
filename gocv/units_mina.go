package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// ---- points of the Pallas curve as ghost multiples of the base point ----

var pallasGy = hexBig("1b74b5a30a12937c53dfa9f06378ee548f655bd4333d477119cf7a23caed2abb")

type pallasPts struct {
	d  *pastaDoms
	xs map[string]*LP // abscissa key -> group value
	ys map[string]*LP // abscissa key -> ordinate
	cx map[string][2]*LP
	n  int
}

func newPallasPts(d *pastaDoms) *pallasPts {
	return &pallasPts{d: d, xs: map[string]*LP{}, ys: map[string]*LP{}, cx: map[string][2]*LP{}}
}

// coords returns the affine coordinates of the point with the given ghost value; (0, 0) stands for infinity.
func (q *pallasPts) coords(v *LP) (x, y *LP) {
	fq, fp := q.d.fq, q.d.fp
	v = fq.red(v)
	if len(v.m) == 0 {
		return LI(0), LI(0)
	}
	if c, ok := v.isConst(); ok && c.Cmp(big1) == 0 {
		return LI(1), LC(pallasGy)
	}
	n := fq.red(LScale(v, big.NewInt(-1)))
	if c, ok := n.isConst(); ok && c.Cmp(big1) == 0 {
		return LI(1), fp.red(LScale(LC(pallasGy), big.NewInt(-1)))
	}
	k, neg := v.key(), false
	if n.key() < k {
		k, neg = n.key(), true
		v = n
	}
	c, ok := q.cx[k]
	if !ok {
		c = [2]*LP{fp.named("gx:" + k), fp.named("gy:" + k)}
		q.learn(v, c[0], c[1])
	}
	if neg {
		return c[0], fp.red(LScale(c[1], big.NewInt(-1)))
	}
	return c[0], c[1]
}
func (q *pallasPts) learn(v, x, y *LP) {
	q.cx[v.key()] = [2]*LP{x, y}
	q.xs[x.key()], q.ys[x.key()] = v, y
}

// value of the point with the given affine coordinates.
func (q *pallasPts) value(x, y *LP) *LP {
	fq, fp := q.d.fq, q.d.fp
	x, y = fp.red(x), fp.red(y)
	if len(x.m) == 0 && len(y.m) == 0 {
		return LI(0)
	}
	if c, ok := x.isConst(); ok && c.Cmp(big1) == 0 {
		if c, ok := y.isConst(); ok && c.Cmp(pallasGy) == 0 {
			return LI(1)
		}
	}
	if v := q.xs[x.key()]; v != nil {
		switch y.key() {
		case q.ys[x.key()].key():
			return v
		case fp.red(LScale(q.ys[x.key()], big.NewInt(-1))).key():
			return fq.red(LScale(v, big.NewInt(-1)))
		}
		unsup("abscissa of a known point with another ordinate")
	}
	v := fq.named("point:" + x.key() + "," + y.key())
	q.learn(v, x, y)
	return v
}
func (q *pallasPts) group(ex *Exec, st *State, v Value) *LP {
	if p, ok := v.(Ptr); ok {
		v = ex.Load(st, p)
	}
	f := q.d.fp
	X, Y, Z := f.coord(st, v, 0), f.coord(st, v, 1), f.coord(st, v, 2)
	if len(Z.m) == 0 {
		return LI(0)
	}
	if _, c := Z.isConst(); !c {
		var ok1, ok2 bool
		if X, ok1 = f.div(X, fPow(Z, 2)); ok1 {
			Y, ok2 = f.div(Y, fPow(Z, 3))
		}
		if !ok1 || !ok2 {
			unsup("not a representation of a known point")
		}
	} else if c, _ := Z.isConst(); c.Cmp(big1) != 0 {
		unsup("constant Z")
	}
	return q.value(X, Y)
}
func (q *pallasPts) affine(ex *Exec, st *State, v Value) *LP {
	if p, ok := v.(Ptr); ok {
		v = ex.Load(st, p)
	}
	return q.value(q.d.fp.coord(st, v, 0), q.d.fp.coord(st, v, 1))
}
func (q *pallasPts) putGroup(ex *Exec, st *State, dst Value, v *LP) {
	x, y := q.coords(v)
	f := q.d.fp
	q.n++
	z := f.Unit(f.Atom(fmt.Sprintf("z%d", q.n)))
	ex.Store(st, dst.(Ptr), f.agg(LMul(x, fPow(z, 2)), LMul(y, fPow(z, 3)), z))
}
func (q *pallasPts) putAffine(ex *Exec, st *State, dst Value, v *LP) {
	x, y := q.coords(v)
	ex.Store(st, dst.(Ptr), q.d.fp.agg(x, y))
}

// install puts the contracts of the group operations (proved by unit g03) in place.
func (q *pallasPts) install(ex *Exec) {
	pk := modPath + "/pasta."
	ex.Contracts[pk+"GroupScalarMul"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		q.putGroup(ex, st, c.Args[0], LMul(q.d.fq.arg(ex, st, c.Args[1]).p, q.group(ex, st, c.Args[2])))
		return ret(st)
	}
	ex.Contracts[pk+"GroupAdd"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		q.putGroup(ex, st, c.Args[0], LAdd(q.group(ex, st, c.Args[1]), q.group(ex, st, c.Args[2])))
		return ret(st)
	}
	ex.Contracts[pk+"GroupDbl"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		q.putGroup(ex, st, c.Args[0], LScale(q.group(ex, st, c.Args[1]), big.NewInt(2)))
		return ret(st)
	}
	ex.Contracts[pk+"GroupNegate"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		q.putGroup(ex, st, c.Args[0], LScale(q.group(ex, st, c.Args[1]), big.NewInt(-1)))
		return ret(st)
	}
	ex.Contracts[pk+"AffineToGroup"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		q.putGroup(ex, st, c.Args[0], q.affine(ex, st, c.Args[1]))
		return ret(st)
	}
	ex.Contracts[pk+"AffineFromGroup"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		q.putAffine(ex, st, c.Args[0], q.group(ex, st, c.Args[1]))
		return ret(st)
	}
	ex.Contracts[pk+"AffineIsOnCurve"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		return ret(st, q.onCurve(q.d.fp.coord(st, c.Args[0], 0), q.d.fp.coord(st, c.Args[0], 1)))
	}
}

// onCurve is the curve equation (or infinity) for affine coordinates.
func (q *pallasPts) onCurve(x, y *LP) *Term {
	f := q.d.fp
	return Or(And(f.Zero(x), f.Zero(y)), f.Zero(LSub(LMul(y, y), LAdd(fPow(x, 3), LI(5)))))
}

// ---- Poseidon ----

const poseidonTables = "bafcf3525998062b2a1295644e47173dcb9d2f919ac630a0dacf1c976ee41d2d"

type poseidon struct {
	f   *FDom
	rk  [][]*LP
	mds [][]*LP
}

func (p *poseidon) key(ps []*LP) string {
	s := ""
	for _, x := range ps {
		s += "|" + p.f.red(x).key()
	}
	return s
}

// perm is one permutation kept abstract.
func (p *poseidon) perm(s []*LP) []*LP {
	k := p.key(s)
	r := make([]*LP, 3)
	for i := range r {
		r[i] = p.f.named(fmt.Sprintf("perm%d:%s", i, k))
	}
	return r
}

// sponge is the specification: absorb two elements per permutation, then permute and squeeze.
func (p *poseidon) sponge(iv []*LP, in []*LP) *LP {
	s := append([]*LP{}, iv...)
	n := 0
	for _, x := range in {
		if n == 2 {
			s = p.perm(s)
			n = 0
		}
		s[n] = p.f.red(LAdd(s[n], x))
		n++
	}
	return p.perm(s)[0]
}

func poseidonContracts(ex *Exec, p *poseidon) {
	ex.Contracts[modPath+"/pasta.PerMutation3W"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		ptr := c.Args[0].(Ptr)
		a := ex.Load(st, ptr).(*Agg)
		sv := a.E[0].(*Agg)
		var s []*LP
		for i := 0; i < 3; i++ {
			s = append(s, p.f.get(st, leafTerms(sv.E[i])).p)
		}
		n := &Agg{E: append([]Value{}, sv.E...)}
		for i, x := range p.perm(s) {
			n.E[i] = limbsV(p.f, x)
		}
		b := &Agg{E: append([]Value{}, a.E...)}
		b.E[0] = n
		ex.Store(st, ptr, b)
		return ret(st)
	}
}

func init() {
	pk := modPath + "/pasta"
	unit("m01", []string{pk}, 1, func(c *Ctx) {
		setup := func() (*Exec, *poseidon) {
			ex := c.Exec()
			d := newPasta(ex)
			ex.MustInit(c.P, pk)
			return ex, &poseidon{f: d.fp}
		}
		table := func(ex *Exec, name string) Value {
			g := c.P.Pkgs[pk].Var(name)
			if g == nil {
				unsup("no table %s", name)
			}
			return ex.Load(ex.Base, Ptr{Obj: ex.globalObj(g, ex.Base)})
		}
		rows := func(ex *Exec, v Value) (r [][][]*Term) {
			for _, row := range ex.SliceCells(ex.Base, v.(Slice)) {
				var fs [][]*Term
				for _, e := range ex.SliceCells(ex.Base, row.(Slice)) {
					fs = append(fs, leafTerms(e))
				}
				r = append(r, fs)
			}
			return
		}
		c.guard("published constants", "pasta.RoundKeys3W", func() {
			ex, _ := setup()
			h := sha256.New()
			for _, n := range []string{"RoundKeys3W", "MdsMatrix3W"} {
				for _, row := range rows(ex, table(ex, n)) {
					for _, e := range row {
						for _, t := range e {
							var b [8]byte
							binary.LittleEndian.PutUint64(b[:], t.C)
							h.Write(b[:])
						}
					}
				}
			}
			got := hex.EncodeToString(h.Sum(nil))
			c.Ob("round constants and matrix are the published ones", "pasta.RoundKeys3W", got == poseidonTables, "evaluation", got)
		})
		T := c.typeOf("pasta", "PoseidonCtx")
		newCtx := func(ex *Exec, st *State) *Agg {
			fn := c.P.Fn("pasta", "NewPoseidonCtx3W")
			outs := ex.Call(fn, nil, st, "ctx", 0)
			if len(outs) != 1 || outs[0].Panic != "" {
				unsup("NewPoseidonCtx3W")
			}
			*st = *outs[0].St
			return outs[0].Ret[0].(*Agg)
		}
		withState := func(p *poseidon, a *Agg, s []*LP, absorbed int) *Agg {
			b := &Agg{E: append([]Value{}, a.E...)}
			n := &Agg{E: append([]Value{}, a.E[0].(*Agg).E...)}
			for i := range s {
				n.E[i] = limbsV(p.f, s[i])
			}
			b.E[0] = n
			if absorbed >= 0 {
				b.E[1] = I64(int64(absorbed))
			}
			return b
		}
		state := func(ex *Exec, p *poseidon, st *State, ptr Ptr) (s []*LP, absorbed *Term) {
			a := ex.Load(st, ptr).(*Agg)
			for i := 0; i < 3; i++ {
				s = append(s, p.f.get(st, leafTerms(a.E[0].(*Agg).E[i])).p)
			}
			return s, a.E[1].(*Term)
		}
		c.guard("permutation", "pasta.PerMutation3W", func() {
			ex, p := setup()
			pow := func(a *LP, b uint64) *LP { return p.f.named(fmt.Sprintf("pow%d:%s", b, p.f.red(a).key())) }
			ex.Contracts[pk+".FieldPow"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
				e := cc.Args[2].(*Term)
				if !e.IsConst() {
					unsup("symbolic exponent")
				}
				p.f.put(ex, st, cc.Args[0], pow(p.f.arg(ex, st, cc.Args[1]).p, e.C), 0)
				return ret(st)
			}
			st := ex.Base.clone()
			a := newCtx(ex, st)
			s := []*LP{p.f.Atom("s0"), p.f.Atom("s1"), p.f.Atom("s2")}
			ptr := Ptr{Obj: ex.Alloc(st, "ctx", T, withState(p, a, s, -1))}
			conv := func(v Value) (r [][]*LP) {
				for _, row := range rows(ex, v) {
					var q []*LP
					for _, e := range row {
						q = append(q, p.f.get(nil, e).p)
					}
					r = append(r, q)
				}
				return
			}
			rk, mds := conv(table(ex, "RoundKeys3W")), conv(table(ex, "MdsMatrix3W"))
			c.Ob("64 round keys of width 3", "pasta.RoundKeys3W", len(rk) == 64, "evaluation", fmt.Sprint(len(rk)))
			for r := 0; r < 63; r++ {
				var t []*LP
				for i := range s {
					t = append(t, pow(LAdd(s[i], rk[r][i]), 5))
				}
				s = nil
				for i := range t {
					n := LI(0)
					for j := range t {
						n = LAdd(n, LMul(mds[i][j], t[j]))
					}
					s = append(s, p.f.red(n))
				}
			}
			for i := range s {
				s[i] = LAdd(s[i], rk[63][i])
			}
			c.fcall(ex, "all states", "pasta", "PerMutation3W", []Value{ptr}, st, func(o Outcome) {
				got, _ := state(ex, p, o.St, ptr)
				for i := range s {
					c.fz(p.f, "63 full rounds and the final key addition", "pasta.PerMutation3W", LSub(got[i], s[i]))
				}
			})
		})
		for n := 0; n <= 9; n++ {
			for abs := 0; abs <= 2; abs++ {
				n, abs := n, abs
				c.guard("absorbing", "pasta.PoseidonUpdate", func() {
					ex, p := setup()
					poseidonContracts(ex, p)
					st := ex.Base.clone()
					s := []*LP{p.f.Atom("s0"), p.f.Atom("s1"), p.f.Atom("s2")}
					ptr := Ptr{Obj: ex.Alloc(st, "ctx", T, withState(p, newCtx(ex, st), s, abs))}
					FT := c.typeOf("pasta", "Field")
					a := &Agg{}
					var in []*LP
					for i := 0; i < n; i++ {
						in = append(in, p.f.Atom(fmt.Sprintf("in%d", i)))
						a.E = append(a.E, limbsV(p.f, in[i]))
					}
					id := ex.Alloc(st, "in", types.NewArray(FT, int64(n)), a)
					k := abs
					for _, x := range in {
						if k == 2 {
							s, k = p.perm(s), 0
						}
						s[k] = p.f.red(LAdd(s[k], x))
						k++
					}
					c.fcall(ex, "absorbing", "pasta", "PoseidonUpdate", []Value{ptr, Slice{Obj: id, Off: I64(0), Len: I64(int64(n)), Cap: I64(int64(n))}}, st, func(o Outcome) {
						got, ab := state(ex, p, o.St, ptr)
						for i := range s {
							c.fz(p.f, "absorbs two elements per permutation", "pasta.PoseidonUpdate", LSub(got[i], s[i]))
						}
						c.Ob("absorption position", "pasta.PoseidonUpdate", ex.must(o.St, Eq(ab, I64(int64(k)))), "z3", "")
						same := o.St.Heap[id].V.(*Agg)
						for i, e := range leafTerms(a) {
							c.Ob("input unchanged", "pasta.PoseidonUpdate", leafTerms(same)[i] == e, "normal form", "")
						}
					})
					c.fcall(ex, "digest", "pasta", "PoseidonDigest", []Value{ptr}, st, func(o Outcome) {
						_ = o
					})
				})
			}
		}
		c.Bounded("pasta.PoseidonUpdate: calls with up to 9 elements from every absorption position and arbitrary state (longer sequences follow by splitting the call)")
		for _, iv := range []bool{true, false} {
			iv := iv
			c.guard("squeezing", "pasta.PoseidonDigest", func() {
				ex, p := setup()
				poseidonContracts(ex, p)
				st := ex.Base.clone()
				s := []*LP{LI(0), LI(0), LI(0)}
				arg := nilSlice()
				if iv {
					s = []*LP{p.f.Atom("s0"), p.f.Atom("s1"), p.f.Atom("s2")}
					a := &Agg{E: []Value{limbsV(p.f, s[0]), limbsV(p.f, s[1]), limbsV(p.f, s[2])}}
					arg = Slice{Obj: ex.Alloc(st, "iv", types.NewArray(c.typeOf("pasta", "Field"), 3), a), Off: I64(0), Len: I64(3), Cap: I64(3)}
				}
				c.fcall(ex, "init", "pasta", "Poseidon3WInit", []Value{arg}, st, func(o Outcome) {
					ptr := Ptr{Obj: ex.Alloc(o.St, "ctx", T, o.Ret[0])}
					got, ab := state(ex, p, o.St, ptr)
					for i := range s {
						c.fz(p.f, "initial state", "pasta.Poseidon3WInit", LSub(got[i], s[i]))
					}
					c.Ob("nothing absorbed", "pasta.Poseidon3WInit", ab == I64(0), "normal form", "")
					c.fcall(ex, "digest", "pasta", "PoseidonDigest", []Value{ptr}, o.St, func(o Outcome) {
						cells := ex.SliceCells(o.St, o.Ret[0].(Slice))
						w := p.f.words(p.perm(s)[0])
						ok := len(cells) == 32
						for i := 0; ok && i < 32; i++ {
							ok = ex.must(o.St, Eq(T2(cells[i]), Extract(w[3-i/8], 56-i%8*8, 8)))
						}
						c.Ob("digest is the first element after a final permutation", "pasta.PoseidonDigest", ok, "normal form", "")
					})
				})
			})
		}
	})
	unit("m02", []string{pk}, 1, func(c *Ctx) {
		type env struct {
			ex       *Exec
			d        *pastaDoms
			q        *pallasPts
			p        *poseidon
			pre, suf []*LP
			iv       []*LP
			reads    int
			kb       []*Term
		}
		setup := func(np, ns int) *env {
			ex := c.Exec()
			e := &env{ex: ex, d: newPasta(ex)}
			e.q = newPallasPts(e.d)
			e.q.install(ex)
			e.p = &poseidon{f: e.d.fp}
			poseidonContracts(ex, e.p)
			ex.MustInit(c.P, pk)
			mk := func(n string, k int) (r []*LP) {
				for i := 0; i < k; i++ {
					r = append(r, e.d.fp.Atom(fmt.Sprintf("%s%d", n, i)))
				}
				return
			}
			e.pre, e.suf, e.iv = mk("prefix", np), mk("suffix", ns), mk("iv", 3)
			FT := c.typeOf("pasta", "Field")
			sl := func(st *State, n string, ps []*LP) Value {
				a := &Agg{}
				for _, x := range ps {
					a.E = append(a.E, limbsV(e.d.fp, x))
				}
				id := ex.Alloc(st, n, types.NewArray(FT, int64(len(ps))), a)
				k := I64(int64(len(ps)))
				return Slice{Obj: id, Off: I64(0), Len: k, Cap: k}
			}
			ex.Contracts["encoding/json.Unmarshal"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
				bad := st.clone()
				okc := Var(1, "valid json")
				st.assume(okc)
				bad.assume(Not(okc))
				p := cc.Args[1].(Iface).V.(Ptr)
				iv := &Agg{}
				for _, x := range e.iv {
					iv.E = append(iv.E, limbsV(e.d.fp, x))
				}
				ex.Store(st, p, &Agg{E: []Value{sl(st, cc.Path+".pre", e.pre), sl(st, cc.Path+".suf", e.suf), iv}})
				id := ex.Alloc(bad, cc.Path+".err", types.Typ[types.Int], I64(0))
				return []Outcome{{St: st, Ret: Tuple{Iface{}}}, {St: bad, Ret: Tuple{Iface{T: types.NewPointer(errT), V: Ptr{Obj: id}}}}}
			}
			ex.Contracts["crypto/rand.Read"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
				e.reads++
				s := cc.Args[0].(Slice)
				n := int(s.Len.C)
				if st.visits["rand"] > 0 {
					return []Outcome{} // the retry starts from the same state: one iteration stands for all
				}
				st.visits["rand"]++
				for i := 0; i < n; i++ {
					b := Var(8, fmt.Sprintf("nonce%d", i))
					e.kb = append(e.kb, b)
					ex.Store(st, ex.elemPtr(s, I64(int64(i))).(Ptr), b)
				}
				return ret(st, s.Len, Iface{})
			}
			return e
		}
		bytesArg := func(ex *Exec, st *State, n string, k int) (Slice, []*Term) {
			a := &Agg{}
			var ts []*Term
			for i := 0; i < k; i++ {
				t := Var(8, fmt.Sprintf("%s%d", n, i))
				ts = append(ts, t)
				a.E = append(a.E, t)
			}
			id := ex.Alloc(st, n, types.NewArray(types.Typ[types.Uint8], int64(k)), a)
			return Slice{Obj: id, Off: I64(0), Len: I64(int64(k)), Cap: I64(int64(k))}, ts
		}
		canon := func(f *FDom, b []*Term) *Term { // the bytes are the canonical encoding of a field element
			w := f.words(f.ofWords(beWords(b)))
			r := Const(1, 1)
			for i := range b {
				r = And(r, Eq(Extract(w[3-i/8], 56-i%8*8, 8), b[i]))
			}
			return r
		}
		bytesAre := func(ex *Exec, st *State, cells []Value, f *FDom, v *LP) bool {
			w := f.words(v)
			for i := range cells {
				if !ex.must(st, Eq(T2(cells[i]), Extract(w[3-i/8], 56-i%8*8, 8))) {
					return false
				}
			}
			return len(cells) == 32
		}
		for _, sh := range [][2]int{{0, 0}, {1, 0}, {2, 1}, {3, 4}} {
			sh := sh
			c.guard("signing", "pasta.Sign", func() {
				e := setup(sh[0], sh[1])
				ex, fp, fq := e.ex, e.d.fp, e.d.fq
				st := ex.Base.clone()
				kSl, kb := bytesArg(ex, st, "key", 32)
				mSl, _ := bytesArg(ex, st, "msg", 8)
				x := fq.ofWords(beWords(kb))
				ex.NoMerge = true
				signed := false
				c.fcall(ex, "keys", "pasta", "Sign", []Value{kSl, mSl}, st, func(o Outcome) {
					for i, t := range kb {
						c.Ob("private key unchanged", "pasta.Sign", leafTerms(o.St.Heap[kSl.Obj].V)[i] == t, "normal form", "")
					}
					bad := Not(Eq(And8(kb[0], 0xc0), Const(8, 0)))
					z := Const(1, 1)
					for _, b := range kb {
						z = And(z, Eq(b, Const(8, 0)))
					}
					bad = Or(bad, z)
					if _, isErr := o.Ret[1].(Iface).V.(Ptr); isErr || o.Ret[1].(Iface).T != nil {
						c.Ob("signing fails only for unusable keys or messages", "pasta.Sign", ex.must(o.St, Or(bad, Not(Var(1, "valid json")))), "z3", "")
						return
					}
					c.Ob("unusable keys are rejected", "pasta.Sign", ex.must(o.St, Not(bad)), "z3", "")
					cells := ex.SliceCells(o.St, o.Ret[0].(Slice))
					if !c.Ob("64 bytes", "pasta.Sign", len(cells) == 64, "vc", fmt.Sprint(len(cells))) {
						return
					}
					signed = true
					kbs := append([]*Term{And8(e.kb[0], 3)}, e.kb[1:32]...)
					k := fq.ofWords(beWords(kbs))
					rx, ry := e.q.coords(k)
					px, py := e.q.coords(x)
					in := append(append(append([]*LP{}, e.pre...), px, py, rx), e.suf...)
					h := fq.ofWords(fp.words(e.p.sponge(e.iv, in)))
					odd := Extract(fp.words(ry)[0], 0, 1)
					kk := k
					if o.St.decide(odd) == 1 {
						kk = LScale(k, big.NewInt(-1))
					} else {
						c.Ob("nonce parity is decided", "pasta.Sign", o.St.decide(odd) == 0, "vc", "")
					}
					s := LAdd(kk, LMul(h, x))
					c.Ob("r is the abscissa of the nonce point", "pasta.Sign", bytesAre(ex, o.St, cells[:32], fp, rx), "normal form", "")
					c.Ob("s = k + e*d with an even nonce point", "pasta.Sign", bytesAre(ex, o.St, cells[32:], fq, s), "normal form", "")
					// the verification equation holds for this signature: s*G - e*(d*G) is the even nonce point
					c.fz(fq, "signature satisfies the verification equation", "pasta.Sign", LSub(LSub(s, LMul(h, x)), kk))
				})
				c.Ob("some signature is produced", "pasta.Sign", signed, "vc", "")
			})
			for _, plen := range []int{64, 65} {
				plen := plen
				c.guard("verification", "pasta.Verify", func() {
					e := setup(sh[0], sh[1])
					ex, fp, fq := e.ex, e.d.fp, e.d.fq
					st := ex.Base.clone()
					pSl, pb := bytesArg(ex, st, "pub", plen)
					mSl, _ := bytesArg(ex, st, "msg", 8)
					sSl, sb := bytesArg(ex, st, "sig", 64)
					ex.NoMerge = true
					good := Const(1, 1)
					if plen == 65 {
						good = Eq(pb[0], Const(8, 4))
						pb = pb[1:]
					}
					x, y := fp.ofWords(beWords(pb[:32])), fp.ofWords(beWords(pb[32:]))
					r, s := fp.ofWords(beWords(sb[:32])), fq.ofWords(beWords(sb[32:]))
					v := e.q.value(x, y)
					in := append(append(append([]*LP{}, e.pre...), x, y, r), e.suf...)
					h := fq.ofWords(fp.words(e.p.sponge(e.iv, in)))
					R := LSub(s, LMul(h, v))
					rx, ry := e.q.coords(R)
					spec := And(good, And(canon(fp, pb[:32]), And(canon(fp, pb[32:]), And(canon(fp, sb[:32]), And(canon(fq, sb[32:]),
						And(Var(1, "valid json"), And(Not(And(fp.Zero(x), fp.Zero(y))), And(fp.Zero(LSub(LMul(y, y), LAdd(fPow(x, 3), LI(5)))),
							And(Not(Extract(fp.words(ry)[0], 0, 1)), fp.Zero(LSub(rx, r)))))))))))
					n := 0
					c.fcall(ex, "keys", "pasta", "Verify", []Value{pSl, mSl, sSl}, st, func(o Outcome) {
						n++
						c.Ob(fmt.Sprintf("accepts exactly when the equation holds with canonical inputs (%d-byte keys)", plen), "pasta.Verify", ex.must(o.St, Eq(T(o.Ret[0]), spec)), "z3", Show(T(o.Ret[0]), 3))
					})
				})
			}
		}
		c.Bounded("pasta.MessageHash: messages with up to 3 prefix and 4 suffix elements")
		c.guard("malformed lengths", "pasta.Verify", func() {
			e := setup(0, 0)
			ex := e.ex
			for _, l := range [][2]int{{64, 63}, {64, 65}, {64, 0}, {32, 64}, {66, 64}, {0, 64}} {
				st := ex.Base.clone()
				pSl, _ := bytesArg(ex, st, "pub", l[0])
				mSl, _ := bytesArg(ex, st, "msg", 8)
				sSl, _ := bytesArg(ex, st, "sig", l[1])
				c.fcall(ex, "lengths", "pasta", "Verify", []Value{pSl, mSl, sSl}, st, func(o Outcome) {
					c.Ob("wrong lengths are rejected", "pasta.Verify", ex.must(o.St, Not(T(o.Ret[0]))), "vc", "")
				})
			}
		})
		_ = strings.Join
	})
}

func T2(v Value) *Term             { return v.(*Term) }
func And8(t *Term, m uint64) *Term { return And(t, Const(8, m)) }
