package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// zBytes64 is a fresh slice of the 32-byte big-endian forms of x and y.
func (ex *Exec) zBytes64(st *State, x, y *Z) Slice {
	var cells []Value
	for _, z := range []*Z{x, y} {
		for i := 0; i < 32; i++ {
			cells = append(cells, ex.zByte(st, z, 32, i))
		}
	}
	id := ex.Alloc(st, "post.pub", types.NewArray(types.Typ[types.Uint8], 64), &Agg{E: cells})
	return Slice{Obj: id, Off: I64(0), Len: I64(64), Cap: I64(64)}
}

// sliceZ reads bytes [i,j) of a returned slice of constant length as an integer.
func (ex *Exec) sliceZ(st *State, s Slice, i, j int) *Z {
	t := s
	t.Off, t.Len, t.Cap = Add(s.Off, I64(int64(i))), I64(int64(j-i)), I64(int64(j-i))
	return ex.zSetBytes(st, ex.SliceView(st, t))
}

// gScalar: z is X([k]G) mod N; returns k.
func gScalar(cv *ECurve, z *Z) *Z {
	a := z.single()
	if a == nil {
		return nil
	}
	if a.kind == "mod" && a.n.Cmp(cv.N) == 0 {
		a = a.arg.single()
	}
	if a == nil || a.kind != "X" || a.pt.c != cv || len(a.pt.t) != 1 || !a.pt.isG(a.pt.t[0].b) {
		return nil
	}
	return a.pt.t[0].k
}

func (ex *Exec) zLess(st *State, x, y *Z) *Term {
	n, _ := ex.zSign(st, ZSub(x, y))
	return n
}
func (ex *Exec) zPos(st *State, x *Z) *Term {
	n, z := ex.zSign(st, x)
	return And(Not(n), Not(z))
}

// zeroMod: z is 0 modulo n, identically.
func zeroMod(z *Z, n *big.Int) bool {
	c, ok := z.nf(n).isConst()
	return ok && c.Sign() == 0
}

const (
	codeSuccess = 1
)

func init() {
	unit("e01", []string{"."}, 2, func(c *Ctx) {
		for i, s := range eccSel[:2] {
			if i%c.NShard != c.Shard {
				continue
			}
			s := s
			cv := ecs[s.Name]
			sub := *c
			sub.Shard, sub.NShard = 0, 1
			var vs []Variant
			for k := 0; k < 4; k++ {
				k := k
				vs = append(vs, Variant{fmt.Sprintf("%s/%d", s.Name, k), func(ex *Exec, st *State) []Value {
					opt := func(name string, null bool) Value {
						if null {
							return nilSlice()
						}
						return ex.anyBytes(st, name, 0, symMax)
					}
					return []Value{opt("prikey", k == 1), opt("id", k == 3), opt("hash", k == 2), Const(32, eccSelV[s.Name])}
				}})
			}
			sub.Refine(Refine{Fn: c.P.Fn(".", "Signature"), Name: "owcrypt.Signature[" + s.Name + "]", Setup: func(ex *Exec) { eccSetup(ex); useRand(ex) }, Variants: vs,
				Post: func(ex *Exec, o Outcome, args []Value, ok func(string, bool, string)) { ecdsaPost(ex, cv, o, args, ok) }})
		}
	})
}

// ecdsaPost is the contract of Signature on secp256k1 and secp256r1.
func ecdsaPost(ex *Exec, cv *ECurve, o Outcome, args []Value, ok func(string, bool, string)) {
	st := o.St
	st.fixLens()
	key, hash := args[0].(Slice), args[2].(Slice)
	code := T(o.Ret[2])
	if !code.IsConst() {
		ok("result code", false, "symbolic result code "+Show(code, 5))
		return
	}
	sig, isS := o.Ret[0].(Slice)
	lens := And(Eq(key.Len, I64(32)), Eq(hash.Len, I64(32)))
	valid := lens
	var d *Z
	if ex.must(st, Eq(key.Len, I64(32))) {
		k := key
		k.Len = I64(32)
		d = ex.zSetBytes(st, ex.SliceView(st, k))
		valid = And(lens, ex.zPos(st, d), ex.zLess(st, d, ZC(cv.N)))
	}
	if code.C != codeSuccess {
		ok("no signature with an error", isS && (sig.Obj == 0 || sig.Len.IsConst() && sig.Len.C == 0), fmt.Sprintf("code %#x with signature %s", code.C, showVal(o.Ret[0])))
		// an error is reported only for an invalid key, an invalid digest or a failed source of randomness
		ok("error only for invalid input", ex.must(st, Or(Not(valid), rdErr())), fmt.Sprintf("code %#x for a valid key and digest", code.C))
		return
	}
	ok("success only for valid key and digest", d != nil && ex.must(st, valid), "signature for an invalid key or digest")
	if d == nil || !isS || !sig.Len.IsConst() || sig.Len.C != 64 {
		ok("signature is 64 bytes", false, showVal(o.Ret[0]))
		return
	}
	h := hash
	h.Len = I64(32)
	e := ex.zSetBytes(st, ex.SliceView(st, h))
	r, s := ex.sliceZ(st, sig, 0, 32), ex.sliceZ(st, sig, 32, 64)
	k := gScalar(cv, r)
	if k == nil {
		ok("r is the abscissa of a nonce point", false, "r = "+r.String())
		return
	}
	ok("r is the abscissa of a nonce point", true, "")
	_, kz := ex.zSign(st, ex.ZMod(st, k, cv.N))
	ok("nonce is invertible", ex.must(st, Not(kz)), "k = "+k.String())
	ok("0 < r < n", ex.must(st, And(ex.zPos(st, r), ex.zLess(st, r, ZC(cv.N)))), "r = "+r.String())
	half := new(big.Int).Rsh(cv.N, 1)
	ok("0 < s <= n/2", ex.must(st, And(ex.zPos(st, s), Or(ex.zLess(st, s, ZC(new(big.Int).Add(half, big.NewInt(1)))), Not(ex.zPos(st, ZSub(s, ZC(half))))))), "s = "+s.String())
	m := ZAdd(e, ZMul(r, d))
	sk := ZMul(s, k)
	neg := false
	switch {
	case zeroMod(ZSub(sk, m), cv.N):
	case zeroMod(ZAdd(sk, m), cv.N):
		neg = true
	default:
		ok("signing equation", false, fmt.Sprintf("s = %s, k = %s: s k is neither e + r d nor its negative", s, k))
		return
	}
	ok("signing equation", true, "")
	p := eMul(k, eG(cv))
	_, y := ex.coords(st, p)
	par := ex.zParity(y)
	if neg {
		par = Not(par)
	}
	v := T(o.Ret[1])
	ok("v is the parity of the nonce point, adjusted", ex.must(st, Eq(v, Zext(par, 8))), fmt.Sprintf("v = %s, want %s", Show(v, 6), Show(par, 6)))
	for i, q := range []string{"r", "s"} {
		b0, b1 := byteAt(ex, st, sig, 32*i), byteAt(ex, st, sig, 32*i+1)
		bit := func(b *Term) *Term { return Extract(b, 7, 1) }
		good := And(Not(bit(b0)), Or(Not(Eq(b0, Const(8, 0))), bit(b1)))
		ok(q+" has a positive minimal DER form of 32 bytes", ex.must(st, good), fmt.Sprintf("leading bytes %s %s", showByte(b0), showByte(b1)))
	}
}

func byteAt(ex *Exec, st *State, s Slice, i int) *Term {
	t := s
	t.Off, t.Len, t.Cap = Add(s.Off, I64(int64(i))), I64(1), I64(1)
	return ex.SliceCells(st, t)[0].(*Term)
}

// fixLens restates the facts of the path for the lengths it determines.
func (st *State) fixLens() {
	m := map[*Term]*Term{}
	for _, p := range st.PC {
		for v := range varsOf(p) {
			if r := st.urange(v); r.lo == r.hi {
				m[v] = Const(v.W, r.lo)
			}
		}
	}
	if len(m) == 0 {
		return
	}
	for _, p := range append([]*Term{}, st.PC...) {
		if q := Subst(p, m); q != p && !q.IsTrue() {
			st.assume(q)
		}
	}
}

const standIn = "the contracts of the secp256k1 point arithmetic (property G01, see there)"

func init() {
	tr := append([]string{"crypto/elliptic (P-256) computes the group law of secp256r1", "math/big computes what it names", "crypto/rand, crypto/aes and crypto/cipher return bytes (any bytes) or an error"}, eccTrusted...)
	for _, p := range []*Prop{{ID: "C01", Units: []string{"c01dec"}}, {ID: "E01", Units: []string{"e01"}}, {ID: "E02", Units: []string{"e02"}}, {ID: "E03", Units: []string{"e03"}}} {
		p.Replay, p.Trusted, p.Always = []string{"."}, tr, standIn
		prop(p)
	}
}

func init() {
	opt := func(ex *Exec, st *State, name string, null bool) Value {
		if null {
			return nilSlice()
		}
		return ex.anyBytes(st, name, 0, symMax)
	}
	unit("s01", []string{".", "./zzspec/eccs"}, 2, func(c *Ctx) {
		sel := Const(32, eccSelV["sm2"])
		sub := *c
		sub.Shard, sub.NShard = 0, 1
		if c.Shard == 0 {
			var vs []Variant
			for k := 0; k < 6; k++ {
				k := k
				vs = append(vs, Variant{fmt.Sprintf("sm2/%d", k), func(ex *Exec, st *State) []Value {
					return []Value{opt(ex, st, "pub", k == 1), opt(ex, st, "id", k == 4 || k == 5), opt(ex, st, "msg", k == 2 || k == 5), opt(ex, st, "sig", k == 3), sel}
				}})
			}
			sub.Refine(Refine{Fn: c.P.Fn(".", "Verify"), Name: "owcrypt.Verify[sm2]", Spec: specFn(c, "eccs", "SM2Verify"), Setup: eccSetup, Variants: vs,
				SpecArgs: func(ex *Exec, st *State, a []Value) []Value { return a[:4] }})
			return
		}
		var vs []Variant
		for k := 0; k < 5; k++ {
			k := k
			vs = append(vs, Variant{fmt.Sprintf("sm2/%d", k), func(ex *Exec, st *State) []Value {
				return []Value{opt(ex, st, "prikey", k == 1), opt(ex, st, "id", k == 3 || k == 4), opt(ex, st, "hash", k == 2 || k == 4), sel}
			}})
		}
		dig := specFn(c, "eccs", "SM2Digest")
		sub.Refine(Refine{Fn: c.P.Fn(".", "Signature"), Name: "owcrypt.Signature[sm2]", Setup: func(ex *Exec) { eccSetup(ex); useRand(ex); ex.MustInit(c.P, dig.Pkg.Pkg.Path()) }, Variants: vs,
			Post: func(ex *Exec, o Outcome, args []Value, ok func(string, bool, string)) {
				sm2SigPost(ex, c, dig, o, args, ok)
			}})
	})
}

// sm2SigPost is the contract of Signature on SM2: GB/T 32918.2, 6.1.
func sm2SigPost(ex *Exec, c *Ctx, dig *ssa.Function, o Outcome, args []Value, ok func(string, bool, string)) {
	cv := ecs["sm2"]
	st := o.St
	st.fixLens()
	key, id, hash := args[0].(Slice), args[1].(Slice), args[2].(Slice)
	code := T(o.Ret[2])
	if !code.IsConst() {
		ok("result code", false, "symbolic result code "+Show(code, 5))
		return
	}
	sig, isS := o.Ret[0].(Slice)
	lens := And(Eq(key.Len, I64(32)), Eq(hash.Len, I64(32)))
	idOK := True()
	if id.Obj != 0 {
		idOK = Ult(id.Len, I64(8192))
	}
	valid := And(lens, idOK)
	var d *Z
	if ex.must(st, Eq(key.Len, I64(32))) {
		k := key
		k.Len = I64(32)
		d = ex.zSetBytes(st, ex.SliceView(st, k))
		valid = And(valid, ex.zPos(st, d), ex.zLess(st, d, ZC(new(big.Int).Sub(cv.N, big.NewInt(1)))))
	}
	if code.C != codeSuccess {
		ok("no signature with an error", isS && (sig.Obj == 0 || sig.Len.IsConst() && sig.Len.C == 0), fmt.Sprintf("code %#x with signature %s", code.C, showVal(o.Ret[0])))
		ok("error only for invalid input", ex.must(st, Or(Not(valid), rdErr())), fmt.Sprintf("code %#x for valid arguments", code.C))
		return
	}
	ok("success only for valid arguments", d != nil && ex.must(st, valid), "signature for invalid arguments")
	if d == nil || !isS || !sig.Len.IsConst() || sig.Len.C != 64 {
		ok("signature is 64 bytes", false, showVal(o.Ret[0]))
		return
	}
	// e over the identifier hash, as the specification computes it
	px, py := ex.coords(st, eMul(d, eG(cv)))
	pub := ex.zBytes64(st, px, py)
	h := hash
	h.Len = I64(32)
	so := ex.Run(dig, []Value{pub, id, h}, st, "spec:e")
	if len(so) != 1 || so[0].Panic != "" {
		ok("identifier hash", false, fmt.Sprintf("specification of e has %d outcomes", len(so)))
		return
	}
	st = so[0].St
	e := ex.zGet(st, so[0].Ret[0])
	r, s := ex.sliceZ(st, sig, 0, 32), ex.sliceZ(st, sig, 32, 64)
	n := ZC(cv.N)
	ok("0 < r < n", ex.must(st, And(ex.zPos(st, r), ex.zLess(st, r, n))), "r = "+r.String())
	ok("0 < s < n", ex.must(st, And(ex.zPos(st, s), ex.zLess(st, s, n))), "s = "+s.String())
	// s (1 + d) = k - r d, so the nonce is s (1 + d) + r d; r must be e + x([k]G) for exactly that nonce
	kk := ZAdd(ZMul(s, ZAdd(d, ZI(1))), ZMul(r, d))
	var k *Z
	a := r.single()
	if a != nil && a.kind == "mod" && a.n.Cmp(cv.N) == 0 {
		k = gScalar(cv, ZSub(a.arg, e))
	}
	if k == nil {
		ok("r = e + abscissa of a nonce point", false, fmt.Sprintf("r = %s, e = %s", r, e))
		return
	}
	ok("r = e + abscissa of a nonce point", true, "")
	ok("signing equation s (1 + d) = k - r d", zeroMod(ZSub(kk, k), cv.N), fmt.Sprintf("s(1+d)+rd = %s, k = %s", kk.nf(cv.N), k))
	_, kz := ex.zSign(st, ex.ZMod(st, k, cv.N))
	ok("nonce is invertible", ex.must(st, Not(kz)), "k = "+k.String())
	_, rk := ex.zSign(st, ZSub(ZAdd(r, k), n)) // 0 < r, k < n
	ok("r + k is not n", ex.must(st, Not(rk)), "r + k = 0 mod n is possible")
	_, y := ex.coords(st, eMul(k, eG(cv)))
	v := T(o.Ret[1])
	ok("v is the parity of the nonce point", ex.must(st, Eq(v, Zext(ex.zParity(y), 8))), fmt.Sprintf("v = %s", Show(v, 6)))
}
