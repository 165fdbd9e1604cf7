package pasta

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"strconv"
	"testing"
)

func hx(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

var (
	vP = hx("40000000000000000000000000000000224698fc094cf91b992d30ed00000001")
	vQ = hx("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001")
	vR = new(big.Int).Lsh(big.NewInt(1), 256)
)

type vgen struct {
	t *testing.T
	r *mrand.Rand
}

func newVgen(t *testing.T) *vgen {
	s, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return &vgen{t, mrand.New(mrand.NewSource(int64(s)))}
}
func (g *vgen) fail(f string, a ...interface{}) {
	g.t.Helper()
	g.t.Fatalf("FAILING-INPUT: "+f, a...)
}
func limbs(v *big.Int) (r [4]uint64) {
	m := new(big.Int).SetUint64(^uint64(0))
	for i := range r {
		r[i] = new(big.Int).And(new(big.Int).Rsh(v, uint(64*i)), m).Uint64()
	}
	return
}
func unlimbs(w [4]uint64) *big.Int {
	v := new(big.Int)
	for i := 3; i >= 0; i-- {
		v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(w[i]))
	}
	return v
}
func mont(v, m *big.Int) [4]uint64 {
	x := new(big.Int).Mul(v, vR)
	return limbs(x.Mod(x, m))
}
func unmont(w [4]uint64, m *big.Int) *big.Int {
	x := new(big.Int).Mul(unlimbs(w), new(big.Int).ModInverse(vR, m))
	return x.Mod(x, m)
}

// elems: canonical Montgomery representatives at carry and borrow boundaries, and random ones.
func (g *vgen) elems(m *big.Int, k int) (r [][4]uint64) {
	add := func(v *big.Int) {
		if v.Sign() >= 0 && v.Cmp(m) < 0 {
			r = append(r, limbs(v))
		}
	}
	for i := int64(0); i < 4; i++ {
		add(big.NewInt(i))
		add(new(big.Int).Sub(m, big.NewInt(i+1)))
		add(unlimbs(mont(big.NewInt(i), m)))
		add(unlimbs(mont(new(big.Int).Sub(m, big.NewInt(i+1)), m)))
	}
	h := new(big.Int).Rsh(m, 1)
	add(h)
	add(new(big.Int).Add(h, big.NewInt(1)))
	for s := uint(32); s < 256; s += 32 {
		p := new(big.Int).Lsh(big.NewInt(1), s)
		add(p)
		add(new(big.Int).Sub(p, big.NewInt(1)))
		add(new(big.Int).Sub(m, p))
	}
	mw := limbs(m)
	for i := 0; i < 4; i++ { // agree with the modulus in the upper words
		w := mw
		for j := 0; j < i; j++ {
			w[j] = 0
		}
		add(unlimbs(w))
		for j := 0; j <= i; j++ {
			w[j] = ^uint64(0)
		}
		add(unlimbs(w))
	}
	for i := 0; i < k; i++ {
		var w [4]uint64
		for j := range w {
			switch g.r.Intn(5) {
			case 0:
				w[j] = 0
			case 1:
				w[j] = ^uint64(0)
			case 2:
				w[j] = mw[j]
			default:
				w[j] = g.r.Uint64()
			}
		}
		v := unlimbs(w)
		add(v.Mod(v, m))
	}
	return
}

func TestVerifF01(t *testing.T) {
	g := newVgen(t)
	type fld struct {
		n                                 string
		m                                 *big.Int
		mul, add, sub                     func(o *[4]uint64, a, b [4]uint64)
		sq, opp, from, to                 func(o *[4]uint64, a [4]uint64)
		nz                                func(o *uint64, a [4]uint64)
		eq                                func(a, b [4]uint64) bool
		cp                                func(o *[4]uint64, a [4]uint64)
		one                               func(o *[4]uint64)
		tob                               func(o *[32]uint8, a [4]uint64)
		fromb                             func(o *[4]uint64, a [32]uint8)
	}
	for _, f := range []fld{
		{"Fp", vP, FiatPastaFpMul, FiatPastaFpAdd, FiatPastaFpSub, FiatPastaFpSquare, FiatPastaFpOpp, FiatPastaFpFromMontgomery, FiatPastaFpToMontgomery, FiatPastaFpNonZero, FiatPastaFpEquals, FiatPastaFpCopy, FiatPastaFpSetOne, FiatPastaFpToBytes, FiatPastaFpFromBytes},
		{"Fq", vQ, FiatPastaFqMul, FiatPastaFqAdd, FiatPastaFqSub, FiatPastaFqSquare, FiatPastaFqOpp, FiatPastaFqFromMontgomery, FiatPastaFqToMontgomery, FiatPastaFqNonZero, FiatPastaFqEquals, FiatPastaFqCopy, FiatPastaFqSetOne, FiatPastaFqToBytes, FiatPastaFqFromBytes},
	} {
		es := g.elems(f.m, 60)
		chk := func(op string, got [4]uint64, want *big.Int, in ...[4]uint64) {
			t.Helper()
			if w := mont(new(big.Int).Mod(want, f.m), f.m); got != w {
				g.fail("%s.%s(%x) = %x, want %x (Montgomery words, least significant first)", f.n, op, in, got, w)
			}
		}
		var o [4]uint64
		for _, a := range es {
			A := unmont(a, f.m)
			f.sq(&o, a)
			chk("Square", o, new(big.Int).Mul(A, A), a)
			f.opp(&o, a)
			chk("Opp", o, new(big.Int).Neg(A), a)
			f.from(&o, a)
			if o != limbs(A) {
				g.fail("%s.FromMontgomery(%x) = %x, want %x", f.n, a, o, limbs(A))
			}
			var by [32]byte
			f.tob(&by, a)
			for i := 0; i < 32; i++ {
				if by[i] != byte(a[i/8]>>(8*uint(i%8))) {
					g.fail("%s.ToBytes(%x) = %x", f.n, a, by)
				}
			}
			f.fromb(&o, by)
			if o != a {
				g.fail("%s.FromBytes(%x) = %x, want %x", f.n, by, o, a)
			}
			f.to(&o, limbs(A))
			chk("ToMontgomery", o, A, a)
			var z uint64
			f.nz(&z, a)
			if (z != 0) != (A.Sign() != 0) {
				g.fail("%s.NonZero(%x) = %x", f.n, a, z)
			}
			f.cp(&o, a)
			if o != a {
				g.fail("%s.Copy(%x) = %x", f.n, a, o)
			}
			for _, b := range es {
				B := unmont(b, f.m)
				f.mul(&o, a, b)
				chk("Mul", o, new(big.Int).Mul(A, B), a, b)
				f.add(&o, a, b)
				chk("Add", o, new(big.Int).Add(A, B), a, b)
				f.sub(&o, a, b)
				chk("Sub", o, new(big.Int).Sub(A, B), a, b)
				if f.eq(a, b) != (a == b) {
					g.fail("%s.Equals(%x, %x) = %v", f.n, a, b, f.eq(a, b))
				}
			}
			// destination is an operand
			o = a
			f.mul(&o, o, o)
			chk("Mul (in place)", o, new(big.Int).Mul(A, A), a)
		}
		f.one(&o)
		chk("SetOne", o, big.NewInt(1))
		// words at or above the modulus are reduced by the conversion
		for i := 0; i < 200; i++ {
			var w [4]uint64
			for j := range w {
				w[j] = g.r.Uint64()
				if g.r.Intn(3) == 0 {
					w[j] = ^uint64(0)
				}
			}
			f.to(&o, w)
			chk("ToMontgomery", o, unlimbs(w), w)
		}
	}
	// exponentiation, inversion, roots
	nr := mont(big.NewInt(5), vP)
	odd := new(big.Int).Rsh(new(big.Int).Sub(vP, big.NewInt(1)), 32)
	syl := new(big.Int).Exp(big.NewInt(5), odd, vP) // generator of the 2-part
	for i, a := range g.elems(vP, 25) {
		A := unmont(a, vP)
		var o [4]uint64
		FiatPastaFpInv(&o, a)
		w := new(big.Int).Exp(A, new(big.Int).Sub(vP, big.NewInt(2)), vP)
		if o != mont(w, vP) {
			g.fail("FpInv(%x) = %x, want %x", a, o, mont(w, vP))
		}
		leg := big.Jacobi(A, vP)
		if l := FiatPastaFpLegendRe(a); l != leg {
			g.fail("FpLegendRe(%x) = %d, want %d", a, l, leg)
		}
		for _, e := range []uint8{0, 1, 2, 3, 5, 7, 16, 255, uint8(g.r.Intn(256))} {
			var c Field
			FieldPow(&c, a, e)
			if [4]uint64(c) != mont(new(big.Int).Exp(A, big.NewInt(int64(e)), vP), vP) {
				g.fail("FieldPow(%x, %d) = %x", a, e, c)
			}
		}
		if FieldIsOdd(a) != (A.Bit(0) == 1) {
			g.fail("FieldIsOdd(%x)", a)
		}
		if FiatPastaFpEqualsOne(a) != (A.Cmp(big.NewInt(1)) == 0) || FiatPastaFpEqualsZero(a) != (A.Sign() == 0) {
			g.fail("EqualsOne/EqualsZero(%x)", a)
		}
		// squares with every 2-adic order
		B := new(big.Int).Exp(syl, new(big.Int).Lsh(big.NewInt(int64(2*g.r.Intn(1<<20)+1)), uint(i%33)), vP)
		if i%3 == 0 {
			B.Mul(B, new(big.Int).Exp(A, big.NewInt(0).Lsh(big.NewInt(1), 32), vP)).Mod(B, vP)
		}
		for _, S := range []*big.Int{A, new(big.Int).Mod(new(big.Int).Mul(A, A), vP), B} {
			var x [4]uint64
			s := mont(S, vP)
			ok := FiatPastaFpSqrt(&x, s)
			if ok != (big.Jacobi(S, vP) >= 0) {
				g.fail("FpSqrt(%x) = %v", s, ok)
			}
			if X := unmont(x, vP); ok && (unlimbs(x).Cmp(vP) >= 0 || X.Mul(X, X).Mod(X, vP).Cmp(S) != 0) {
				g.fail("FpSqrt(%x): %x is not a square root", s, x)
			}
		}
	}
	_ = nr
	for i := 0; i < 60; i++ {
		b := make([]byte, 32)
		g.r.Read(b)
		if i&1 == 0 {
			copy(b, bytes.Repeat([]byte{255}, g.r.Intn(32)))
		}
		V := new(big.Int).SetBytes(b)
		if w := BigEndianBytesToFpMontgomeryArray(b); w != mont(new(big.Int).Mod(V, vP), vP) {
			g.fail("BigEndianBytesToFpMontgomeryArray(%x) = %x", b, w)
		}
		if w := BigEndianBytesToFqMontgomeryArray(b); w != mont(new(big.Int).Mod(V, vQ), vQ) {
			g.fail("BigEndianBytesToFqMontgomeryArray(%x) = %x", b, w)
		}
		c := new(big.Int).Mod(V, vP).FillBytes(make([]byte, 32))
		if o := FpMontgomeryArrayToBigEndianBytes(BigEndianBytesToFpMontgomeryArray(c)); !bytes.Equal(o, c) {
			g.fail("Fp bytes round trip of %x gives %x", c, o)
		}
		c = new(big.Int).Mod(V, vQ).FillBytes(make([]byte, 32))
		if o := FqMontgomeryArrayToBigEndianBytes(BigEndianBytesToFqMontgomeryArray(c)); !bytes.Equal(o, c) {
			g.fail("Fq bytes round trip of %x gives %x", c, o)
		}
		var f Field
		var s Scalar
		le := make([]byte, 32)
		for j := range le {
			le[j] = b[31-j]
		}
		okk := le[31]&0xC0 == 0
		if FieldFromHex(&f, hex.EncodeToString(le)) != okk || okk && [4]uint64(f) != mont(new(big.Int).Mod(V, vP), vP) {
			g.fail("FieldFromHex(%x) = %x", le, f)
		}
		if ScalarFromHex(&s, hex.EncodeToString(le)) != okk || okk && [4]uint64(s) != mont(new(big.Int).Mod(V, vQ), vQ) {
			g.fail("ScalarFromHex(%x) = %x", le, s)
		}
	}
}

// ---- reference group ----

type pt struct{ x, y *big.Int } // nil x: infinity

func (p pt) inf() bool { return p.x == nil }
func vadd(p, q pt) pt {
	if p.inf() {
		return q
	}
	if q.inf() {
		return p
	}
	var l *big.Int
	if p.x.Cmp(q.x) == 0 {
		if new(big.Int).Mod(new(big.Int).Add(p.y, q.y), vP).Sign() == 0 {
			return pt{}
		}
		l = new(big.Int).Mul(big.NewInt(3), new(big.Int).Mul(p.x, p.x))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(p.y, 1), vP))
	} else {
		d := new(big.Int).Sub(q.x, p.x)
		l = new(big.Int).Mul(new(big.Int).Sub(q.y, p.y), d.ModInverse(d.Mod(d, vP), vP))
	}
	l.Mod(l, vP)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.x).Sub(x, q.x).Mod(x, vP)
	y := new(big.Int).Sub(p.x, x)
	y.Mul(y, l).Sub(y, p.y).Mod(y, vP)
	return pt{x, y}
}
func vneg(p pt) pt {
	if p.inf() {
		return p
	}
	return pt{p.x, new(big.Int).Mod(new(big.Int).Neg(p.y), vP)}
}
func vmul(k *big.Int, p pt) (r pt) {
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = vadd(r, r)
		if k.Bit(i) == 1 {
			r = vadd(r, p)
		}
	}
	return
}

var vG = pt{big.NewInt(1), hx("1b74b5a30a12937c53dfa9f06378ee548f655bd4333d477119cf7a23caed2abb")}

func (p pt) String() string {
	if p.inf() {
		return "infinity"
	}
	return fmt.Sprintf("(%x, %x)", p.x, p.y)
}

// rep returns a projective representation of p.
func (g *vgen) rep(p pt, z *big.Int) Group {
	if p.inf() {
		e := g.elems(vP, 6)
		return Group{X: e[g.r.Intn(len(e))], Y: e[g.r.Intn(len(e))]}
	}
	z2 := new(big.Int).Mul(z, z)
	return Group{X: mont(new(big.Int).Mul(p.x, z2), vP), Y: mont(new(big.Int).Mul(p.y, new(big.Int).Mul(z2, z)), vP), Z: mont(z, vP)}
}
func denote(r Group) pt {
	z := unmont(r.Z, vP)
	if z.Sign() == 0 {
		return pt{}
	}
	zi := new(big.Int).ModInverse(z, vP)
	z2 := new(big.Int).Mul(zi, zi)
	x := new(big.Int).Mul(unmont(r.X, vP), z2)
	y := new(big.Int).Mul(unmont(r.Y, vP), z2.Mul(z2, zi))
	return pt{x.Mod(x, vP), y.Mod(y, vP)}
}
func same(p, q pt) bool {
	if p.inf() || q.inf() {
		return p.inf() && q.inf()
	}
	return p.x.Cmp(q.x) == 0 && p.y.Cmp(q.y) == 0
}
func aff(p pt) (a Affine) {
	if !p.inf() {
		a.X, a.Y = mont(p.x, vP), mont(p.y, vP)
	}
	return
}
func unaff(a Affine) pt {
	if a.X == (Field{}) && a.Y == (Field{}) {
		return pt{}
	}
	return pt{unmont(a.X, vP), unmont(a.Y, vP)}
}
func (g *vgen) points(k int) (r []pt) {
	r = append(r, pt{})
	for i := int64(1); i < 5; i++ {
		p := vmul(big.NewInt(i), vG)
		r = append(r, p, vneg(p))
	}
	for i := 0; i < k; i++ {
		r = append(r, vmul(new(big.Int).Rand(g.r, vQ), vG))
	}
	return
}
func (g *vgen) zs() []*big.Int {
	return []*big.Int{big.NewInt(1), new(big.Int).Sub(vP, big.NewInt(1)), new(big.Int).Rand(g.r, vP), new(big.Int).Add(big.NewInt(2), new(big.Int).Rsh(new(big.Int).Rand(g.r, vP), 200))}
}
func pt64(p pt) []byte {
	b := make([]byte, 64)
	if !p.inf() {
		p.x.FillBytes(b[:32])
		p.y.FillBytes(b[32:])
	}
	return b
}
func vscalars(g *vgen) (r []*big.Int) {
	for i := int64(0); i < 5; i++ {
		r = append(r, big.NewInt(i), new(big.Int).Sub(vQ, big.NewInt(i+1)))
	}
	h := new(big.Int).Rsh(vQ, 1)
	r = append(r, h, new(big.Int).Add(h, big.NewInt(1)), new(big.Int).Lsh(big.NewInt(1), 254), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 254), big.NewInt(1)))
	for s := uint(60); s < 254; s += 64 {
		v := new(big.Int).Lsh(big.NewInt(0x3f), s)
		r = append(r, v.Mod(v, vQ))
	}
	for i := 0; i < 12; i++ {
		v := new(big.Int).Rand(g.r, vQ)
		if i&1 == 1 {
			v.Rsh(v, uint(g.r.Intn(250)))
		}
		r = append(r, v)
	}
	return
}

func TestVerifG03(t *testing.T) {
	g := newVgen(t)
	ps := g.points(4)
	for _, p := range ps {
		for _, zp := range g.zs() {
			gp := g.rep(p, zp)
			var r Group
			GroupDbl(&r, gp)
			if w := vadd(p, p); !same(denote(r), w) {
				g.fail("GroupDbl(%v with Z=%x) = %v, want %v", p, zp, denote(r), w)
			}
			GroupNegate(&r, gp)
			if !same(denote(r), vneg(p)) {
				g.fail("GroupNegate(%v with Z=%x) = %v", p, zp, denote(r))
			}
			var a Affine
			AffineFromGroup(&a, gp)
			if !same(unaff(a), p) {
				g.fail("AffineFromGroup(%v with Z=%x) = %v", p, zp, unaff(a))
			}
			if GroupIsOnCurve(gp) != 1 {
				g.fail("GroupIsOnCurve(%v with Z=%x) = 0", p, zp)
			}
			off := gp
			FieldAdd(&off.Y, off.Y, FieldOne)
			if !p.inf() && off.Y != Field(mont(new(big.Int).Neg(unmont(gp.Y, vP)), vP)) && GroupIsOnCurve(off) != 0 {
				g.fail("GroupIsOnCurve accepts %x", off)
			}
			for _, q := range append(ps, p, vneg(p)) {
				zq := g.zs()[g.r.Intn(4)]
				gq := g.rep(q, zq)
				w := vadd(p, q)
				GroupAdd(&r, gp, gq)
				if !same(denote(r), w) {
					g.fail("GroupAdd(%v with Z=%x, %v with Z=%x) = %v, want %v", p, zp, q, zq, denote(r), w)
				}
				in := gp
				GroupAdd(&in, in, gq)
				if !same(denote(in), w) {
					g.fail("GroupAdd in place (%v, %v) = %v, want %v", p, q, denote(in), w)
				}
				var ra Affine
				AffineAdd(&ra, aff(p), aff(q))
				if !same(unaff(ra), w) {
					g.fail("AffineAdd(%v, %v) = %v, want %v", p, q, unaff(ra), w)
				}
				if AffineEq(aff(p), aff(q)) != same(p, q) {
					g.fail("AffineEq(%v, %v)", p, q)
				}
				for _, form := range []int{64, 65, 33} {
					e1, e2 := pt64(p), pt64(q)
					if form == 65 {
						e1, e2 = append([]byte{4}, e1...), append([]byte{4}, e2...)
					}
					if form == 33 {
						if p.inf() || q.inf() {
							continue
						}
						e1, e2 = comp(p), comp(q)
					}
					o, err := PointAdd(e1, e2)
					if err != nil || !bytes.Equal(o, pt64(w)) {
						g.fail("PointAdd(%x, %x) = %x, %v; want %x", e1, e2, o, err, pt64(w))
					}
				}
			}
		}
		var na Affine
		AffineNegate(&na, aff(p))
		if !same(unaff(na), vneg(p)) {
			g.fail("AffineNegate(%v) = %v", p, unaff(na))
		}
		if AffineIsOnCurve(aff(p)) != true {
			g.fail("AffineIsOnCurve(%v) = false", p)
		}
		for _, k := range vscalars(g) {
			w := vmul(k, p)
			var r Group
			z := g.zs()[g.r.Intn(4)]
			GroupScalarMul(&r, mont(k, vQ), g.rep(p, z))
			if !same(denote(r), w) {
				g.fail("GroupScalarMul(%x, %v with Z=%x) = %v, want %v", k, p, z, denote(r), w)
			}
			o, err := PointMul(pt64(p), k.FillBytes(make([]byte, 32)))
			if err != nil || !bytes.Equal(o, pt64(w)) {
				g.fail("PointMul(%x, %x) = %x, %v; want %x", pt64(p), k, o, err, pt64(w))
			}
		}
	}
	for _, k := range vscalars(g) {
		w := vmul(k, vG)
		var a Affine
		GeneratePubkey(&a, mont(k, vQ))
		if !same(unaff(a), w) {
			g.fail("GeneratePubkey(%x) = %v, want %v", k, unaff(a), w)
		}
		kb := k.FillBytes(make([]byte, 32))
		o, err := GenPublicKey(kb)
		bad := k.Sign() == 0 || k.BitLen() > 254
		if bad != (err != nil) || err == nil && !bytes.Equal(o, pt64(w)) {
			g.fail("GenPublicKey(%x) = %x, %v", k, o, err)
		}
		if !bad {
			for _, p := range ps[:4] {
				o, err := PointMulBaseGAdd(pt64(p), kb)
				if s := pt64(vadd(w, p)); err != nil || !bytes.Equal(o, s) {
					g.fail("PointMulBaseGAdd(%x, %x) = %x, %v; want %x", pt64(p), kb, o, err, s)
				}
			}
		}
	}
	// compressed encodings
	for i := 0; i < 60; i++ {
		x := new(big.Int).Rand(g.r, vP)
		switch i % 6 {
		case 0:
			x = big.NewInt(int64(i))
		case 1:
			x = new(big.Int).Add(vP, big.NewInt(int64(i)))
		case 2:
			x = new(big.Int).Sub(vP, big.NewInt(int64(i)))
		case 3:
			x = ps[1+g.r.Intn(len(ps)-1)].x
		}
		rhs := new(big.Int).Exp(x, big.NewInt(3), vP)
		rhs.Add(rhs, big.NewInt(5)).Mod(rhs, vP)
		y := new(big.Int).ModSqrt(rhs, vP)
		for _, pre := range []byte{2, 3, 0, 4, byte(g.r.Intn(256))} {
			in := append([]byte{pre}, x.FillBytes(make([]byte, 32))...)
			o, err := PointDecompress(in)
			if x.Cmp(vP) >= 0 || y == nil || pre != 2 && pre != 3 {
				if err == nil {
					g.fail("PointDecompress(%x) = %x accepts a non-point", in, o)
				}
				continue
			}
			yy := y
			if yy.Bit(0) != uint(pre&1) {
				yy = new(big.Int).Sub(vP, y)
			}
			if w := append([]byte{4}, pt64(pt{x, yy})...); err != nil || !bytes.Equal(o, w) {
				g.fail("PointDecompress(%x) = %x, %v; want %x", in, o, err, w)
			}
			var c Compressed
			Compress(&c, Affine{X: mont(x, vP), Y: mont(yy, vP)})
			if !bytes.Equal(c.ToBigEndianBytes(), in) {
				g.fail("Compress(%x, %x) = %x", x, yy, c.ToBigEndianBytes())
			}
		}
	}
}
func comp(p pt) []byte {
	return append([]byte{2 + byte(p.y.Bit(0))}, p.x.FillBytes(make([]byte, 32))...)
}

// ---- reference sponge ----

func tableDigest() string {
	h := sha256.New()
	w := func(f Field) {
		for _, x := range f {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], x)
			h.Write(b[:])
		}
	}
	for _, r := range RoundKeys3W {
		for _, f := range r {
			w(f)
		}
	}
	for _, r := range MdsMatrix3W {
		for _, f := range r {
			w(f)
		}
	}
	return hex.EncodeToString(h.Sum(nil))
}

func vperm(s *[3]*big.Int) {
	add := func(r int) {
		for i := range s {
			s[i] = new(big.Int).Add(s[i], unmont(RoundKeys3W[r][i], vP))
		}
	}
	for r := 0; r < 63; r++ {
		add(r)
		for i := range s {
			s[i].Exp(s[i], big.NewInt(5), vP)
		}
		var n [3]*big.Int
		for i := range n {
			n[i] = new(big.Int)
			for j := range s {
				n[i].Add(n[i], new(big.Int).Mul(s[j], unmont(MdsMatrix3W[i][j], vP)))
			}
			n[i].Mod(n[i], vP)
		}
		*s = n
	}
	add(63)
	for i := range s {
		s[i].Mod(s[i], vP)
	}
}
func vposeidon(iv [3]*big.Int, in []*big.Int) *big.Int {
	s := iv
	n := 0
	for _, x := range in {
		if n == 2 {
			vperm(&s)
			n = 0
		}
		s[n] = new(big.Int).Add(s[n], x)
		s[n].Mod(s[n], vP)
		n++
	}
	vperm(&s)
	return s[0]
}

func TestVerifM01(t *testing.T) {
	g := newVgen(t)
	if d := tableDigest(); d != publishedTables {
		g.fail("Poseidon: round constants or matrix differ from the published ones (digest %s)", d)
	}
	e := g.elems(vP, 60)
	pick := func() [4]uint64 { return e[g.r.Intn(len(e))] }
	for n := 0; n < 14; n++ {
		for rep := 0; rep < 4; rep++ {
			var iv []Field
			ivb := [3]*big.Int{new(big.Int), new(big.Int), new(big.Int)}
			if rep != 0 {
				for i := range ivb {
					w := pick()
					iv = append(iv, w)
					ivb[i] = unmont(w, vP)
				}
			}
			var in []Field
			var inb []*big.Int
			for i := 0; i < n; i++ {
				w := pick()
				in = append(in, w)
				inb = append(inb, unmont(w, vP))
			}
			keep := append([]Field{}, in...)
			keepiv := append([]Field{}, iv...)
			ctx := Poseidon3WInit(iv)
			// in chunks
			for i := 0; i < n; {
				k := 1 + g.r.Intn(n-i)
				PoseidonUpdate(&ctx, in[i:i+k])
				i += k
			}
			if rep == 3 {
				PoseidonUpdate(&ctx, nil)
			}
			o := PoseidonDigest(&ctx)
			if w := vposeidon(ivb, inb).FillBytes(make([]byte, 32)); !bytes.Equal(o, w) {
				g.fail("Poseidon(iv=%x, input=%x) = %x, want %x", iv, in, o, w)
			}
			for i := range in {
				if in[i] != keep[i] {
					g.fail("Poseidon modified its input %d of %x", i, keep)
				}
			}
			for i := range iv {
				if iv[i] != keepiv[i] {
					g.fail("Poseidon modified its initial state")
				}
			}
		}
	}
	if d := tableDigest(); d != publishedTables {
		g.fail("Poseidon modified its tables")
	}
}

// ---- Mina signatures ----

type vreader struct{ b byte }

func (r *vreader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = r.b*31 + byte(i)*7
	}
	r.b++
	return len(p), nil
}

func mhash(pub pt, rx *big.Int, mm MinaMessage) *big.Int {
	var in []*big.Int
	for _, f := range mm.TransactionPrefix {
		in = append(in, unmont(f, vP))
	}
	in = append(in, pub.x, pub.y, rx)
	for _, f := range mm.TransactionSuffix {
		in = append(in, unmont(f, vP))
	}
	var iv [3]*big.Int
	for i := range iv {
		iv[i] = unmont(mm.SpongeIV[i], vP)
	}
	return vposeidon(iv, in)
}
func mverify(pub pt, mm MinaMessage, sig []byte) bool {
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	if r.Cmp(vP) >= 0 || s.Cmp(vQ) >= 0 {
		return false
	}
	e := mhash(pub, r, mm)
	R := vadd(vmul(s, vG), vneg(vmul(new(big.Int).Mod(e, vQ), pub)))
	// the infinite nonce point has coordinates (0, 0)
	if R.inf() {
		return r.Sign() == 0
	}
	return R.y.Bit(0) == 0 && R.x.Cmp(r) == 0
}

func TestVerifM02(t *testing.T) {
	g := newVgen(t)
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = &vreader{byte(g.r.Intn(256))}
	el := g.elems(vP, 40)
	pick := func() Field { return el[g.r.Intn(len(el))] }
	var ks []*big.Int
	for i := int64(1); i < 4; i++ {
		ks = append(ks, big.NewInt(i), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 254), big.NewInt(i)))
	}
	for i := 0; i < 14; i++ {
		ks = append(ks, new(big.Int).Rsh(new(big.Int).Rand(g.r, new(big.Int).Lsh(big.NewInt(1), 254)), uint(g.r.Intn(2)*g.r.Intn(200))))
	}
	for i, k := range ks {
		var mm MinaMessage
		for j := 0; j < i%4; j++ {
			mm.TransactionPrefix = append(mm.TransactionPrefix, pick())
		}
		for j := 0; j < (i/2)%3; j++ {
			mm.TransactionSuffix = append(mm.TransactionSuffix, pick())
		}
		for j := range mm.SpongeIV {
			mm.SpongeIV[j] = pick()
		}
		msg := mm.ToBytes()
		key := k.FillBytes(make([]byte, 32))
		if k.Sign() == 0 {
			continue
		}
		kk := append([]byte{}, key...)
		pub, err := GenPublicKey(key)
		P := vmul(k, vG)
		if err != nil || !bytes.Equal(pub, pt64(P)) {
			g.fail("GenPublicKey(%x) = %x, %v", key, pub, err)
		}
		sig, err := Sign(key, msg)
		if err != nil || len(sig) != 64 || !bytes.Equal(kk, key) {
			g.fail("Sign(%x, %s) = %x, %v", key, msg, sig, err)
		}
		if !mverify(P, mm, sig) {
			g.fail("Sign(%x, %s) = %x: the signature equation does not hold", key, msg, sig)
		}
		try := func(what string, p pt, s []byte, m MinaMessage) {
			w := mverify(p, m, s)
			for _, enc := range [][]byte{pt64(p), append([]byte{4}, pt64(p)...), comp(p)} {
				if got := Verify(enc, m.ToBytes(), s); got != w {
					g.fail("Verify(%x, %s, %x) = %v, want %v (%s)", enc, m.ToBytes(), s, got, w, what)
				}
			}
		}
		try("own signature", P, sig, mm)
		r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
		enc := func(r, s *big.Int) []byte {
			return append(r.FillBytes(make([]byte, 32)), s.FillBytes(make([]byte, 32))...)
		}
		try("r + p", P, enc(new(big.Int).Add(r, vP), s), mm)
		try("s + q", P, enc(r, new(big.Int).Add(s, vQ)), mm)
		try("-s", P, enc(r, new(big.Int).Mod(new(big.Int).Neg(s), vQ)), mm)
		try("r, 0", P, enc(r, new(big.Int)), mm)
		try("0, s", P, enc(new(big.Int), s), mm)
		try("negated key", vneg(P), sig, mm)
		// the nonce point with odd ordinate: same abscissa, opposite nonce
		e := new(big.Int).Mod(mhash(P, r, mm), vQ)
		nonce := new(big.Int).Sub(s, new(big.Int).Mul(e, k))
		s2 := new(big.Int).Sub(new(big.Int).Mul(e, k), nonce)
		try("odd nonce ordinate", P, enc(r, s2.Mod(s2, vQ)), mm)
		for j := 0; j < 6; j++ {
			b := append([]byte{}, sig...)
			b[g.r.Intn(64)] ^= 1 << uint(g.r.Intn(8))
			try("flipped bit", P, b, mm)
		}
		m2 := mm
		m2.SpongeIV[2] = pick()
		try("other message", P, sig, m2)
		// keys that are not finite points
		for _, bad := range [][]byte{make([]byte, 64), append(pt64(P)[:63], pt64(P)[63]^1), nil, {}, pub[:63], append([]byte{5}, pub...), append([]byte{1}, pub[:32]...)} {
			if Verify(bad, msg, sig) {
				g.fail("Verify accepts the key %x", bad)
			}
		}
		// forging under the zero key needs no secret
		z := vmul(big.NewInt(7), vG)
		s7 := big.NewInt(7)
		if z.y.Bit(0) == 1 {
			s7 = new(big.Int).Sub(vQ, s7)
		}
		if Verify(make([]byte, 64), msg, enc(z.x, s7)) {
			g.fail("Verify accepts a signature under the key at infinity")
		}
		for _, bs := range [][]byte{nil, {}, sig[:63], append(append([]byte{}, sig...), 0)} {
			if Verify(pub, msg, bs) {
				g.fail("Verify accepts a signature of %d bytes", len(bs))
			}
		}
		if Verify(pub, nil, sig) || Verify(pub, []byte("{"), sig) {
			g.fail("Verify accepts an undecodable message")
		}
	}
	for _, bad := range [][]byte{nil, {}, make([]byte, 31), make([]byte, 33), append([]byte{0x40}, make([]byte, 31)...), make([]byte, 32)} {
		if s, err := Sign(bad, []byte("{}")); err == nil {
			g.fail("Sign accepts the key %x: %x", bad, s)
		}
	}
}
