package main

import (
	"fmt"
	"go/types"
	"math/big"
)

func init() {
	pk := modPath + "/pasta"
	unit("g03io", []string{pk}, 1, func(c *Ctx) {
		setup := func() (*Exec, *pastaDoms, *pallasPts) {
			ex := c.Exec()
			d := newPasta(ex)
			q := newPallasPts(d)
			q.install(ex)
			ex.MustInit(c.P, pk)
			ex.Contracts[pk+".FiatPastaFpSqrt"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
				v := d.fp.arg(ex, st, cc.Args[1]).p
				k := v.key()
				no := st.clone()
				sq := Var(1, "square:"+k)
				st.assume(sq)
				no.assume(Not(sq))
				d.fp.put(ex, st, cc.Args[0], d.fp.named("sqrt:"+k), 0)
				return []Outcome{{St: st, Ret: Tuple{Const(1, 1)}}, {St: no, Ret: Tuple{Const(1, 0)}}}
			}
			return ex, d, q
		}
		bytesArg := func(ex *Exec, st *State, n string, k int) (Slice, []*Term) {
			a := &Agg{}
			var ts []*Term
			for i := 0; i < k; i++ {
				t := Var(8, fmt.Sprintf("%s%d", n, i))
				ts = append(ts, t)
				a.E = append(a.E, t)
			}
			id := ex.Alloc(st, n, types.NewArray(types.Typ[types.Uint8], int64(k)), a)
			return Slice{Obj: id, Off: I64(0), Len: I64(int64(k)), Cap: I64(int64(k))}, ts
		}
		canon := func(f *FDom, b []*Term) *Term {
			w := f.words(f.ofWords(beWords(b)))
			r := Const(1, 1)
			for i := range b {
				r = And(r, Eq(Extract(w[3-i/8], 56-i%8*8, 8), b[i]))
			}
			return r
		}
		enc := func(ex *Exec, st *State, v Value, f *FDom, xs ...*LP) bool {
			cells := ex.SliceCells(st, v.(Slice))
			if len(cells) != 32*len(xs) {
				return false
			}
			for i := range cells {
				w := f.words(xs[i/32])
				if !ex.must(st, Eq(T2(cells[i]), Extract(w[3-i%32/8], 56-i%8*8, 8))) {
					return false
				}
			}
			return true
		}
		failed := func(o Outcome, i int) bool { return o.Ret[i].(Iface).T != nil }
		AT := c.typeOf("pasta", "Affine")
		// decode returns, for an encoding in bytes b, the conditions and the point it stands for
		type dec struct {
			ok   *Term
			x, y *LP
		}
		spec := func(d *pastaDoms, b []*Term) dec {
			fp := d.fp
			switch len(b) {
			case 65:
				r := dec{Eq(b[0], Const(8, 4)), fp.ofWords(beWords(b[1:33])), fp.ofWords(beWords(b[33:]))}
				r.ok = And(r.ok, And(canon(fp, b[1:33]), canon(fp, b[33:])))
				return r
			case 64:
				return dec{And(canon(fp, b[:32]), canon(fp, b[32:])), fp.ofWords(beWords(b[:32])), fp.ofWords(beWords(b[32:]))}
			}
			x := fp.ofWords(beWords(b[1:33]))
			v := fp.red(LAdd(fPow(x, 3), LI(5)))
			ok := And(Or(Eq(b[0], Const(8, 2)), Eq(b[0], Const(8, 3))), And(canon(fp, b[1:]), Var(1, "square:"+v.key())))
			return dec{ok, x, fp.named("sqrt:" + v.key())}
		}
		ordinate := func(ex *Exec, d *pastaDoms, st *State, b []*Term, s dec) *LP { // the root with the encoded parity
			if len(b) != 33 {
				return s.y
			}
			par := Extract(d.fp.words(s.y)[0], 0, 1)
			if ex.must(st, Eq(par, Extract(b[0], 0, 1))) {
				return s.y
			}
			if ex.must(st, Not(Eq(par, Extract(b[0], 0, 1)))) {
				return LScale(s.y, big.NewInt(-1))
			}
			return nil
		}
		for _, n := range []int{33, 64, 65} {
			n := n
			c.guard("decoding", "pasta.Affine.FromBigEndianBytes", func() {
				ex, d, _ := setup()
				ex.NoMerge = true
				st := ex.Base.clone()
				sl, b := bytesArg(ex, st, "p", n)
				s := spec(d, b)
				out := Ptr{Obj: ex.Alloc(st, "a", AT, ex.Zero(AT))}
				fn := c.P.Fn("pasta", "*Affine.FromBigEndianBytes")
				nm := shortFn(fn)
				acc := 0
				for _, o := range ex.Call(fn, []Value{out, sl}, st, "f", 0) {
					if o.Panic != "" {
						c.Ob("no panic", nm, false, "vc", o.Panic+" at "+o.Pos)
						continue
					}
					if failed(o, 0) {
						c.Ob("only malformed encodings are rejected", nm, ex.must(o.St, Not(s.ok)), "z3", "")
						continue
					}
					acc++
					c.Ob("malformed encodings are rejected", nm, ex.must(o.St, s.ok), "z3", "")
					v := ex.Load(o.St, out)
					y := ordinate(ex, d, o.St, b, s)
					if !c.Ob("parity is decided", nm, y != nil, "vc", "") {
						continue
					}
					c.fz(d.fp, "decoded abscissa", nm, LSub(d.fp.coord(o.St, v, 0), s.x))
					c.fz(d.fp, "decoded ordinate", nm, LSub(d.fp.coord(o.St, v, 1), y))
				}
				c.Ob("well-formed encodings are accepted", nm, acc > 0, "vc", "")
			})
			c.guard("decompression", "pasta.PointDecompress", func() {
				ex, d, _ := setup()
				ex.NoMerge = true
				st := ex.Base.clone()
				sl, b := bytesArg(ex, st, "p", n)
				s := spec(d, b)
				c.fcall(ex, "decompression", "pasta", "PointDecompress", []Value{sl}, st, func(o Outcome) {
					if failed(o, 1) {
						c.Ob("only malformed encodings are rejected", "pasta.PointDecompress", ex.must(o.St, Not(s.ok)), "z3", "")
						return
					}
					c.Ob("malformed encodings are rejected", "pasta.PointDecompress", ex.must(o.St, s.ok), "z3", "")
					y := ordinate(ex, d, o.St, b, s)
					r := o.Ret[0].(Slice)
					cells := ex.SliceCells(o.St, r)
					if !c.Ob("uncompressed encoding", "pasta.PointDecompress", y != nil && len(cells) == 65 && ex.must(o.St, Eq(T2(cells[0]), Const(8, 4))), "vc", "") {
						return
					}
					ok := true
					for i, e := range cells[1:] {
						w := d.fp.words([]*LP{s.x, y}[i/32])
						ok = ok && ex.must(o.St, Eq(T2(e), Extract(w[3-i%32/8], 56-i%8*8, 8)))
					}
					c.Ob("coordinates of the encoded point", "pasta.PointDecompress", ok, "normal form", "")
				})
			})
		}
		c.guard("compression", "pasta.Compress", func() {
			ex, d, _ := setup()
			x, y := d.fp.Atom("x"), d.fp.Atom("y")
			CT := c.typeOf("pasta", "Compressed")
			st := ex.Base.clone()
			out := Ptr{Obj: ex.Alloc(st, "c", CT, ex.Zero(CT))}
			ex.NoMerge = true
			c.fcall(ex, "compression", "pasta", "Compress", []Value{out, d.fp.agg(x, y)}, st, func(o Outcome) {
				a := ex.Load(o.St, out).(*Agg)
				for i, t := range leafTerms(a.E[0]) {
					c.Ob("abscissa words", "pasta.Compress", t == d.fp.words(x)[i], "normal form", "")
				}
				c.Ob("parity of the ordinate", "pasta.Compress", ex.must(o.St, Eq(T2(a.E[1]), Extract(d.fp.words(y)[0], 0, 1))), "z3", "")
			})
		})
		// byte-level operations on valid points
		two := func(name string, fn string, l1, l2 int, g func(ex *Exec, d *pastaDoms, q *pallasPts, st *State, o Outcome, b1, b2 []*Term)) {
			c.guard(name, "pasta."+fn, func() {
				ex, d, q := setup()
				ex.NoMerge = true
				st := ex.Base.clone()
				s1, b1 := bytesArg(ex, st, "p", l1)
				s2, b2 := bytesArg(ex, st, "q", l2)
				c.fcall(ex, name, "pasta", fn, []Value{s1, s2}, st, func(o Outcome) { g(ex, d, q, o.St, o, b1, b2) })
			})
		}
		keyOK := func(b []*Term) *Term {
			z := Const(1, 1)
			for _, t := range b {
				z = And(z, Eq(t, Const(8, 0)))
			}
			return And(Eq(And8(b[0], 0xc0), Const(8, 0)), Not(z))
		}
		for _, l1 := range []int{64, 65, 33} {
			for _, l2 := range []int{64, 65, 33} {
				two(fmt.Sprintf("sum of %d- and %d-byte points", l1, l2), "PointAdd", l1, l2, func(ex *Exec, d *pastaDoms, q *pallasPts, st *State, o Outcome, b1, b2 []*Term) {
					a, b := spec(d, b1), spec(d, b2)
					if failed(o, 1) {
						c.Ob("only malformed operands are rejected", "pasta.PointAdd", ex.must(st, Not(And(a.ok, b.ok))), "z3", "")
						return
					}
					c.Ob("malformed operands are rejected", "pasta.PointAdd", ex.must(st, And(a.ok, b.ok)), "z3", "")
					ya, yb := ordinate(ex, d, st, b1, a), ordinate(ex, d, st, b2, b)
					if !c.Ob("parity is decided", "pasta.PointAdd", ya != nil && yb != nil, "vc", "") {
						return
					}
					x, y := q.coords(LAdd(q.value(a.x, ya), q.value(b.x, yb)))
					c.Ob("encodes the sum", "pasta.PointAdd", enc(ex, st, o.Ret[0], d.fp, x, y), "normal form", "")
				})
			}
			two(fmt.Sprintf("multiple of a %d-byte point", l1), "PointMul", l1, 32, func(ex *Exec, d *pastaDoms, q *pallasPts, st *State, o Outcome, b1, b2 []*Term) {
				a := spec(d, b1)
				if failed(o, 1) {
					c.Ob("only malformed operands are rejected", "pasta.PointMul", ex.must(st, Not(a.ok)), "z3", "")
					return
				}
				c.Ob("malformed operands are rejected", "pasta.PointMul", ex.must(st, a.ok), "z3", "")
				ya := ordinate(ex, d, st, b1, a)
				if !c.Ob("parity is decided", "pasta.PointMul", ya != nil, "vc", "") {
					return
				}
				x, y := q.coords(LMul(d.fq.ofWords(beWords(b2)), q.value(a.x, ya)))
				c.Ob("encodes the multiple", "pasta.PointMul", enc(ex, st, o.Ret[0], d.fp, x, y), "normal form", "")
			})
			two(fmt.Sprintf("base multiple plus a %d-byte point", l1), "PointMulBaseGAdd", l1, 32, func(ex *Exec, d *pastaDoms, q *pallasPts, st *State, o Outcome, b1, b2 []*Term) {
				a := spec(d, b1)
				k := d.fq.ofWords(beWords(b2))
				gx, gy := q.coords(k)
				_, _ = gx, gy
				ok := And(a.ok, keyOK(b2))
				if failed(o, 1) {
					c.Ob("only malformed operands are rejected", "pasta.PointMulBaseGAdd", ex.must(st, Not(ok)), "z3", "")
					return
				}
				c.Ob("malformed operands are rejected", "pasta.PointMulBaseGAdd", ex.must(st, ok), "z3", "")
				ya := ordinate(ex, d, st, b1, a)
				if !c.Ob("parity is decided", "pasta.PointMulBaseGAdd", ya != nil, "vc", "") {
					return
				}
				x, y := q.coords(LAdd(k, q.value(a.x, ya)))
				c.Ob("encodes the sum", "pasta.PointMulBaseGAdd", enc(ex, st, o.Ret[0], d.fp, x, y), "normal form", "")
			})
		}
		c.guard("public key", "pasta.GenPublicKey", func() {
			ex, d, q := setup()
			ex.NoMerge = true
			st := ex.Base.clone()
			s1, b1 := bytesArg(ex, st, "k", 32)
			c.fcall(ex, "public key", "pasta", "GenPublicKey", []Value{s1}, st, func(o Outcome) {
				if failed(o, 1) {
					c.Ob("only unusable keys are rejected", "pasta.GenPublicKey", ex.must(o.St, Not(keyOK(b1))), "z3", "")
					return
				}
				c.Ob("unusable keys are rejected", "pasta.GenPublicKey", ex.must(o.St, keyOK(b1)), "z3", "")
				x, y := q.coords(d.fq.ofWords(beWords(b1)))
				c.Ob("encodes the base multiple", "pasta.GenPublicKey", enc(ex, o.St, o.Ret[0], d.fp, x, y), "normal form", "")
				for i, t := range b1 {
					c.Ob("private key unchanged", "pasta.GenPublicKey", leafTerms(o.St.Heap[s1.Obj].V)[i] == t, "normal form", "")
				}
			})
		})
		for _, k := range []string{"AffineAdd", "AffineNegate", "AffineScalarMul"} {
			k := k
			c.guard("affine layer", "pasta."+k, func() {
				ex, d, q := setup()
				st := ex.Base.clone()
				out := Ptr{Obj: ex.Alloc(st, "r", AT, ex.Zero(AT))}
				a, b := d.fq.Atom("A"), d.fq.Atom("B")
				ax, ay := q.coords(a)
				bx, by := q.coords(b)
				s := d.fq.Atom("s")
				args, want := []Value{out, d.fp.agg(ax, ay), d.fp.agg(bx, by)}, LAdd(a, b)
				if k == "AffineNegate" {
					args, want = args[:2], LScale(a, big.NewInt(-1))
				}
				if k == "AffineScalarMul" {
					args, want = []Value{out, limbsV(d.fq, s), d.fp.agg(ax, ay)}, LMul(s, a)
				}
				c.fcall(ex, k, "pasta", k, args, st, func(o Outcome) {
					c.fz(d.fq, "exact group operation", "pasta."+k, LSub(q.affine(ex, o.St, out), want))
				})
			})
		}
	})
}
