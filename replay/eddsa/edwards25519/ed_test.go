package edwards25519

import (
	"bytes"
	"math/big"
	mrand "math/rand"
	"os"
	"strconv"
	"testing"
)

var (
	vP   = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	vL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	vD   = func() *big.Int {
		x := new(big.Int).ModInverse(big.NewInt(121666), vP)
		return x.Mul(x, big.NewInt(-121665)).Mod(x, vP)
	}()
	vI = new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(new(big.Int).Sub(vP, big.NewInt(1)), 2), vP)
)

type vgen struct {
	t *testing.T
	r *mrand.Rand
}

func newVgen(t *testing.T) *vgen {
	s, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return &vgen{t, mrand.New(mrand.NewSource(int64(s)))}
}
func (g *vgen) fail(f string, a ...interface{}) {
	g.t.Helper()
	g.t.Fatalf("FAILING-INPUT: "+f, a...)
}

func zv_add(a, b *big.Int) *big.Int { x := new(big.Int).Add(a, b); return x.Mod(x, vP) }
func zv_sub(a, b *big.Int) *big.Int { x := new(big.Int).Sub(a, b); return x.Mod(x, vP) }
func zv_mul(a, b *big.Int) *big.Int { x := new(big.Int).Mul(a, b); return x.Mod(x, vP) }
func zv_inv(a *big.Int) *big.Int {
	return new(big.Int).Exp(a, new(big.Int).Sub(vP, big.NewInt(2)), vP)
}
func zv_rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}
func zv_leInt(b []byte) *big.Int { return new(big.Int).SetBytes(zv_rev(b)) }
func zv_le(v *big.Int, n int) []byte { return zv_rev(v.FillBytes(make([]byte, n))) }
func zv_le32(v *big.Int) (r [32]byte) { copy(r[:], zv_le(v, 32)); return }

var vShift = [10]uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

func zv_limbs(f *FieldElement) *big.Int {
	v := new(big.Int)
	for i := 9; i >= 0; i-- {
		v.Add(v, new(big.Int).Lsh(big.NewInt(int64(f[i])), vShift[i]))
	}
	return v
}
func zv_val(f *FieldElement) *big.Int { v := zv_limbs(f); return v.Mod(v, vP) }

// limb vectors within k times the bounds of a reduced element
func (g *vgen) limbvec(k int64) (f FieldElement) {
	m := g.r.Intn(6)
	for i := range f {
		b := int64(1<<25) * k
		if i&1 == 1 {
			b = int64(1<<24) * k
		}
		b += b / 10
		switch m {
		case 0:
			f[i] = int32(b)
		case 1:
			f[i] = int32(-b)
		case 2:
			f[i] = int32([]int64{-b, 0, b, 1, -1}[g.r.Intn(5)])
		default:
			f[i] = int32(g.r.Int63n(2*b+1) - b)
		}
	}
	return
}

// a limb vector for the residue v, from its canonical encoding or from limbs close to p
func zv_fromInt(v *big.Int) (f FieldElement) {
	b := zv_le32(new(big.Int).Mod(v, vP))
	FeFromBytes(&f, &b)
	return
}

// digits of v below 2^256, not balanced
func zv_digits(v *big.Int) (f FieldElement) {
	v = new(big.Int).Set(v)
	for i := range f {
		w := uint(26 - i&1)
		if i == 9 {
			w = 30
		}
		d := new(big.Int).And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), w), big.NewInt(1)))
		f[i] = int32(d.Int64())
		v.Rsh(v, w)
	}
	return
}
func zv_negLimbs(f FieldElement) FieldElement {
	for i := range f {
		f[i] = -f[i]
	}
	return f
}

func (g *vgen) elems(n int) (r []*big.Int) {
	for i := int64(0); i < 22; i++ {
		r = append(r, big.NewInt(i), new(big.Int).Sub(vP, big.NewInt(i+1)))
	}
	for s := uint(0); s < 255; s += 17 {
		p := new(big.Int).Lsh(big.NewInt(1), s)
		r = append(r, p, new(big.Int).Sub(p, big.NewInt(1)), new(big.Int).Sub(vP, p))
	}
	for _, s := range vShift {
		p := new(big.Int).Lsh(big.NewInt(1), s)
		r = append(r, p, new(big.Int).Sub(p, big.NewInt(1)), new(big.Int).Sub(vP, p))
	}
	for s := uint(0); s < 256; s += 8 { // values with a single nonzero byte
		for _, m := range []int64{1, 64, 127} {
			r = append(r, new(big.Int).Mod(new(big.Int).Lsh(big.NewInt(m), s), vP))
		}
	}
	r = append(r, vI, vD)
	for i := 0; i < n; i++ {
		r = append(r, new(big.Int).Rand(g.r, vP))
	}
	return
}

// raw strings: everything about p and 2^255, high bit set
func (g *vgen) raws() (r [][32]byte) {
	put := func(v *big.Int) {
		if v.Sign() < 0 || v.BitLen() > 256 {
			return
		}
		r = append(r, zv_le32(v))
	}
	for _, b := range []*big.Int{new(big.Int), vP, new(big.Int).Lsh(big.NewInt(1), 255), new(big.Int).Lsh(vP, 1), new(big.Int).Lsh(big.NewInt(1), 256), vL, new(big.Int).Lsh(vL, 3)} {
		for i := int64(-21); i < 22; i++ {
			put(new(big.Int).Add(b, big.NewInt(i)))
		}
	}
	for i := 0; i < 64; i++ {
		var b [32]byte
		g.r.Read(b[:])
		if i&3 == 0 {
			for j := range b {
				b[j] = []byte{0, 0xff, 0x80, 0x7f, 0x88, 0x08, 0xf8}[g.r.Intn(7)]
			}
		}
		r = append(r, b)
	}
	return
}

func TestVerifF02(t *testing.T) {
	g := newVgen(t)
	low := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(1))
	chkEnc := func(f *FieldElement) {
		in := *f
		var s [32]byte
		FeToBytes(&s, f)
		if zv_val(f).Cmp(zv_val(&in)) != 0 {
			g.fail("FeToBytes(%v) changes its operand", in)
		}
		if w := zv_le32(zv_val(&in)); s != w {
			g.fail("FeToBytes(%v) = %x, want %x", in, s, w)
		}
		if n := FeIsNegative(&in); n != s[0]&1 {
			g.fail("FeIsNegative(%v) = %d", in, n)
		}
		if z := FeIsNonZero(&in); (z != 0) != (zv_val(&in).Sign() != 0) || z&^1 != 0 {
			g.fail("FeIsNonZero(%v) = %d", in, z)
		}
	}
	for _, s := range g.raws() {
		var f FieldElement
		FeFromBytes(&f, &s)
		w := zv_leInt(s[:])
		w.And(w, low).Mod(w, vP)
		if zv_val(&f).Cmp(w) != 0 {
			g.fail("FeFromBytes(%x) = %v", s, f)
		}
		chkEnc(&f)
	}
	for _, v := range g.elems(50) {
		f := zv_digits(v)
		chkEnc(&f)
		h := zv_negLimbs(zv_digits(v))
		chkEnc(&h)
		f = zv_digits(v)
		for i := range f {
			f[i] -= h[i] / 3
		}
		chkEnc(&f)
	}
	for i := int64(-40); i < 40; i++ {
		f := zv_digits(new(big.Int).Add(vP, big.NewInt(i)))
		chkEnc(&f)
		f = zv_negLimbs(zv_digits(new(big.Int).Add(vP, big.NewInt(i))))
		chkEnc(&f)
	}
	one := func(fn string, a FieldElement, op func(h, f *FieldElement), w *big.Int) {
		var h FieldElement
		in := a
		op(&h, &a)
		if a != in {
			g.fail("%s(%v) changes its operand", fn, in)
		}
		if zv_val(&h).Cmp(w) != 0 {
			g.fail("%s(%v) = %v (%x), want %x", fn, in, h, zv_val(&h), w)
		}
		chkEnc(&h)
		op(&a, &a)
		if zv_val(&a).Cmp(w) != 0 {
			g.fail("%s(%v) in place = %v, want %x", fn, in, a, w)
		}
	}
	two := func(fn string, a, b FieldElement, op func(h, f, g *FieldElement), w *big.Int) {
		var h FieldElement
		ia, ib := a, b
		op(&h, &a, &b)
		if a != ia || b != ib {
			g.fail("%s(%v, %v) changes its operands", fn, ia, ib)
		}
		if zv_val(&h).Cmp(w) != 0 {
			g.fail("%s(%v, %v) = %v, want %x", fn, ia, ib, h, w)
		}
		x := a
		op(&x, &x, &b)
		y := b
		op(&y, &a, &y)
		if zv_val(&x).Cmp(w) != 0 || zv_val(&y).Cmp(w) != 0 {
			g.fail("%s(%v, %v) in place = %v / %v, want %x", fn, ia, ib, x, y, w)
		}
	}
	e := g.elems(40)
	var vec []FieldElement
	for _, v := range e {
		vec = append(vec, zv_fromInt(v))
	}
	for i := 0; i < 60; i++ {
		vec = append(vec, g.limbvec(1))
	}
	for i, a := range vec {
		chkEnc(&a)
		va := zv_val(&a)
		one("FeSquare", a, FeSquare, zv_mul(va, va))
		one("FeSquare2", a, FeSquare2, zv_add(zv_mul(va, va), zv_mul(va, va)))
		one("FeNeg", a, FeNeg, zv_sub(new(big.Int), va))
		one("FeCopy", a, FeCopy, va)
		if i < 60 || i%3 == 0 {
			one("FeInvert", a, FeInvert, zv_inv(va))
			one("fePow22523", a, fePow22523, new(big.Int).Exp(va, new(big.Int).Rsh(zv_sub(vP, big.NewInt(5)), 3), vP))
		}
		for _, b := range []FieldElement{vec[(i+1)%len(vec)], a, vec[g.r.Intn(len(vec))]} {
			vb := zv_val(&b)
			two("FeAdd", a, b, FeAdd, zv_add(va, vb))
			two("FeSub", a, b, FeSub, zv_sub(va, vb))
			two("FeMul", a, b, FeMul, zv_mul(va, vb))
			for _, c := range []int32{0, 1} {
				x := a
				FeCMove(&x, &b, c)
				if c == 0 && x != a || c == 1 && x != b {
					g.fail("FeCMove(%v, %v, %d) = %v", a, b, c, x)
				}
			}
		}
	}
	// operands as large as the point formulas produce
	for i := 0; i < 3000; i++ {
		a, b := g.limbvec(3), g.limbvec(3)
		va, vb := zv_val(&a), zv_val(&b)
		two("FeMul", a, b, FeMul, zv_mul(va, vb))
		if i&3 == 0 {
			one("FeSquare", a, FeSquare, zv_mul(va, va))
			two("FeAdd", a, b, FeAdd, zv_add(va, vb))
			two("FeSub", a, b, FeSub, zv_sub(va, vb))
			c := g.limbvec(2)
			one("FeSquare2", c, FeSquare2, zv_add(zv_mul(zv_val(&c), zv_val(&c)), zv_mul(zv_val(&c), zv_val(&c))))
		}
	}
	var z, o FieldElement
	z, o = g.limbvec(1), g.limbvec(1)
	FeZero(&z)
	FeOne(&o)
	if zv_limbs(&z).Sign() != 0 || zv_limbs(&o).Cmp(big.NewInt(1)) != 0 {
		g.fail("FeZero = %v, FeOne = %v", z, o)
	}
}

func TestVerifF03(t *testing.T) {
	g := newVgen(t)
	rs := g.raws()
	for i := 0; i < 4000; i++ {
		a, b, c := rs[g.r.Intn(len(rs))], rs[g.r.Intn(len(rs))], rs[g.r.Intn(len(rs))]
		if i&1 == 0 {
			g.r.Read(a[:])
			g.r.Read(b[:])
			if i&2 == 0 { // make a*b+c land next to a multiple of the order
				v := new(big.Int).Mul(zv_leInt(a[:]), zv_leInt(b[:]))
				v.Mod(v, vL)
				v.Sub(vL, v).Add(v, big.NewInt(int64(g.r.Intn(3))))
				c = zv_le32(v)
			}
		}
		ia, ib, ic := a, b, c
		var s [32]byte
		ScMulAdd(&s, &a, &b, &c)
		w := new(big.Int).Mul(zv_leInt(ia[:]), zv_leInt(ib[:]))
		w.Add(w, zv_leInt(ic[:])).Mod(w, vL)
		if a != ia || b != ib || c != ic {
			g.fail("ScMulAdd(%x, %x, %x) changes its operands", ia, ib, ic)
		}
		if s != zv_le32(w) {
			g.fail("ScMulAdd(%x, %x, %x) = %x, want %x", ia, ib, ic, s, zv_le32(w))
		}
		ScMulAdd(&a, &a, &b, &c)
		if a != zv_le32(w) {
			g.fail("ScMulAdd(%x, %x, %x) in place = %x", ia, ib, ic, a)
		}
	}
	for i := 0; i < 4000; i++ {
		var x [64]byte
		switch i % 4 {
		case 0:
			g.r.Read(x[:])
		case 1:
			copy(x[:], rs[g.r.Intn(len(rs))][:])
			copy(x[32:], rs[g.r.Intn(len(rs))][:])
		case 2: // next to a multiple of the order
			k := new(big.Int).Rand(g.r, new(big.Int).Lsh(big.NewInt(1), uint(1+g.r.Intn(259))))
			k.Mul(k, vL).Add(k, big.NewInt(int64(g.r.Intn(5)-2)))
			if k.Sign() >= 0 && k.BitLen() <= 512 {
				copy(x[:], zv_le(k, 64))
			}
		case 3:
			for j := range x {
				x[j] = []byte{0, 0xff, 0xff, 0x7f, 0x80}[g.r.Intn(5)]
			}
		}
		in := x
		var s [32]byte
		ScReduce(&s, &x)
		if x != in {
			g.fail("ScReduce(%x) changes its operand", in)
		}
		if w := zv_le32(new(big.Int).Mod(zv_leInt(x[:]), vL)); s != w {
			g.fail("ScReduce(%x) = %x, want %x", x, s, w)
		}
	}
}

type zv_pt struct{ x, y *big.Int }

func zv_padd(a, b zv_pt) zv_pt {
	d := zv_mul(vD, zv_mul(zv_mul(a.x, b.x), zv_mul(a.y, b.y)))
	o := big.NewInt(1)
	return zv_pt{zv_mul(zv_add(zv_mul(a.x, b.y), zv_mul(a.y, b.x)), zv_inv(zv_add(o, d))), zv_mul(zv_add(zv_mul(a.y, b.y), zv_mul(a.x, b.x)), zv_inv(zv_sub(o, d)))}
}
func zv_pneg(a zv_pt) zv_pt { return zv_pt{zv_sub(new(big.Int), a.x), a.y} }

var zvZero = zv_pt{new(big.Int), big.NewInt(1)}

func zv_pmul(k *big.Int, a zv_pt) zv_pt {
	r := zvZero
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = zv_padd(r, r)
		if k.Bit(i) == 1 {
			r = zv_padd(r, a)
		}
	}
	return r
}
func (a zv_pt) eq(b zv_pt) bool { return a.x.Cmp(b.x) == 0 && a.y.Cmp(b.y) == 0 }
func (a zv_pt) enc() [32]byte {
	v := new(big.Int).Set(a.y)
	return zv_le32(v.SetBit(v, 255, a.x.Bit(0)))
}

// decompression: the root of the wanted parity, -1 for none
func zv_rec(y *big.Int, neg uint) (zv_pt, bool) {
	o := big.NewInt(1)
	yy := zv_mul(y, y)
	xx := zv_mul(zv_sub(yy, o), zv_inv(zv_add(zv_mul(vD, yy), o)))
	x := new(big.Int).ModSqrt(xx, vP)
	if x == nil {
		return zv_pt{}, false
	}
	if x.Bit(0) != neg {
		x = zv_sub(new(big.Int), x)
	}
	return zv_pt{x, new(big.Int).Mod(y, vP)}, true
}

var vB, _ = zv_rec(zv_mul(big.NewInt(4), zv_inv(big.NewInt(5))), 0)

func (g *vgen) points(n int) (r []zv_pt) {
	r = append(r, zvZero, zv_pt{new(big.Int), zv_sub(new(big.Int), big.NewInt(1))}, zv_pt{vI, new(big.Int)}, zv_pneg(zv_pt{vI, new(big.Int)}))
	r = append(r, vB, zv_pneg(vB))
	// points of order eight
	for {
		y := new(big.Int).Rand(g.r, vP)
		if q, ok := zv_rec(y, 0); ok {
			q = zv_pmul(vL, q)
			if !zv_padd(zv_padd(q, q), zv_padd(q, q)).eq(zvZero) {
				for i := int64(1); i < 8; i += 2 {
					r = append(r, zv_pmul(big.NewInt(i), q))
				}
				break
			}
		}
	}
	for y := int64(2); y < 12; y++ {
		for s := uint(0); s < 2; s++ {
			if q, ok := zv_rec(big.NewInt(y), s); ok {
				r = append(r, q)
			}
			if q, ok := zv_rec(zv_sub(new(big.Int), big.NewInt(y)), s); ok {
				r = append(r, q)
			}
		}
	}
	for i := 0; i < n; i++ {
		if q, ok := zv_rec(new(big.Int).Rand(g.r, vP), uint(g.r.Intn(2))); ok {
			r = append(r, q, zv_pneg(q))
		}
		r = append(r, zv_pmul(new(big.Int).Rand(g.r, vL), vB))
	}
	return
}

func (g *vgen) ext(p zv_pt) (r ExtendedGroupElement) {
	z := big.NewInt(1)
	if g.r.Intn(4) > 0 {
		z = zv_add(new(big.Int).Rand(g.r, vP), new(big.Int))
		if z.Sign() == 0 {
			z = big.NewInt(1)
		}
	}
	r.X, r.Y, r.Z, r.T = zv_fromInt(zv_mul(p.x, z)), zv_fromInt(zv_mul(p.y, z)), zv_fromInt(z), zv_fromInt(zv_mul(zv_mul(p.x, p.y), z))
	return
}
func (g *vgen) extIs(what string, e *ExtendedGroupElement, w zv_pt) {
	g.t.Helper()
	zi := zv_inv(zv_val(&e.Z))
	if zv_val(&e.Z).Sign() == 0 || zv_mul(zv_val(&e.X), zi).Cmp(w.x) != 0 || zv_mul(zv_val(&e.Y), zi).Cmp(w.y) != 0 || zv_mul(zv_val(&e.T), zi).Cmp(zv_mul(w.x, w.y)) != 0 {
		g.fail("%s = %v, want (%x, %x)", what, *e, w.x, w.y)
	}
}
func (g *vgen) projIs(what string, e *ProjectiveGroupElement, w zv_pt) {
	g.t.Helper()
	zi := zv_inv(zv_val(&e.Z))
	if zv_val(&e.Z).Sign() == 0 || zv_mul(zv_val(&e.X), zi).Cmp(w.x) != 0 || zv_mul(zv_val(&e.Y), zi).Cmp(w.y) != 0 {
		g.fail("%s = %v, want (%x, %x)", what, *e, w.x, w.y)
	}
}

func TestVerifG04(t *testing.T) {
	g := newVgen(t)
	ps := g.points(20)
	for i, p := range ps {
		e := g.ext(p)
		in := e
		var s [32]byte
		e.ToBytes(&s)
		if s != p.enc() {
			g.fail("ToBytes of (%x, %x) = %x", p.x, p.y, s)
		}
		var pr ProjectiveGroupElement
		e.ToProjective(&pr)
		pr.ToBytes(&s)
		if s != p.enc() {
			g.fail("projective ToBytes of (%x, %x) = %x", p.x, p.y, s)
		}
		var c CompletedGroupElement
		var r ExtendedGroupElement
		e.Double(&c)
		c.ToExtended(&r)
		g.extIs("2P", &r, zv_padd(p, p))
		pr.Double(&c)
		c.ToProjective(&pr)
		g.projIs("2P", &pr, zv_padd(p, p))
		var f ExtendedGroupElement
		if p.x.Sign() != 0 && !f.FromBytes(&s) {
			g.fail("FromBytes(%x) fails", s)
		}
		if p.x.Sign() != 0 {
			g.extIs("FromBytes", &f, p)
		}
		for _, j := range []int{i, (i + 1) % len(ps), g.r.Intn(len(ps)), g.r.Intn(len(ps))} {
			q := ps[j]
			eq := g.ext(q)
			var ca CachedGroupElement
			eq.ToCached(&ca)
			geAdd(&c, &e, &ca)
			c.ToExtended(&r)
			g.extIs("geAdd", &r, zv_padd(p, q))
			c.ToProjective(&pr)
			g.projIs("geAdd", &pr, zv_padd(p, q))
			geSub(&c, &e, &ca)
			c.ToExtended(&r)
			g.extIs("geSub", &r, zv_padd(p, zv_pneg(q)))
			var pc PreComputedGroupElement
			pc.yPlusX, pc.yMinusX, pc.xy2d = zv_fromInt(zv_add(q.y, q.x)), zv_fromInt(zv_sub(q.y, q.x)), zv_fromInt(zv_mul(zv_mul(vD, big.NewInt(2)), zv_mul(q.x, q.y)))
			geMixedAdd(&c, &e, &pc)
			c.ToExtended(&r)
			g.extIs("geMixedAdd", &r, zv_padd(p, q))
			geMixedSub(&c, &e, &pc)
			c.ToExtended(&r)
			g.extIs("geMixedSub", &r, zv_padd(p, zv_pneg(q)))
		}
		if e != in {
			g.fail("a point operation changes its operand %v", in)
		}
	}
	// decompression of arbitrary strings
	rs := g.raws()
	for y := int64(0); y < 64; y++ {
		rs = append(rs, zv_le32(big.NewInt(y)), zv_le32(new(big.Int).SetBit(big.NewInt(y), 255, 1)))
	}
	for _, s := range rs {
		in := s
		y := zv_leInt(s[:])
		neg := y.Bit(255)
		y.SetBit(y, 255, 0)
		w, ok := zv_rec(new(big.Int).Mod(y, vP), neg)
		var e ExtendedGroupElement
		got := e.FromBytes(&s)
		if s != in {
			g.fail("FromBytes(%x) changes its argument", in)
		}
		if got != ok {
			g.fail("FromBytes(%x) = %v, want %v", s, got, ok)
		}
		if ok && w.x.Sign() != 0 {
			g.extIs("FromBytes", &e, w)
		}
		if ok && w.x.Sign() == 0 && (zv_val(&e.X).Sign() != 0 || zv_val(&e.T).Sign() != 0 || zv_val(&e.Y).Cmp(w.y) != 0) {
			g.fail("FromBytes(%x) = %v", s, e)
		}
	}
	// multiplication
	top := new(big.Int).Lsh(big.NewInt(1), 255)
	var ks [][32]byte
	for _, s := range rs {
		if zv_leInt(s[:]).Cmp(top) < 0 {
			ks = append(ks, s)
		}
	}
	for i, s := range ks {
		in := s
		var h ExtendedGroupElement
		GeScalarMultBase(&h, &s)
		if s != in {
			g.fail("GeScalarMultBase(%x) changes its scalar", in)
		}
		g.extIs("GeScalarMultBase("+zv_leInt(s[:]).Text(16)+")", &h, zv_pmul(zv_leInt(s[:]), vB))
		if i%4 == 0 || i > len(ks)-20 {
			a, b := ks[g.r.Intn(len(ks))], s
			if i&8 == 8 {
				a, b = b, a
			}
			p, q := ps[g.r.Intn(len(ps))], ps[g.r.Intn(len(ps))]
			if i&16 == 16 {
				q = []zv_pt{p, zv_pneg(p), zvZero, vB}[g.r.Intn(4)]
			}
			A, Q := g.ext(p), g.ext(q)
			iA, iQ, ia, ib := A, Q, a, b
			var r ProjectiveGroupElement
			GeDoubleScalarMultVartime(&r, &a, &A, &b)
			g.projIs("GeDoubleScalarMultVartime", &r, zv_padd(zv_pmul(zv_leInt(a[:]), p), zv_pmul(zv_leInt(b[:]), vB)))
			GePointAddVarTime(&r, &a, &A, &b, &Q)
			g.projIs("GePointAddVarTime", &r, zv_padd(zv_pmul(zv_leInt(a[:]), p), zv_pmul(zv_leInt(b[:]), q)))
			if A != iA || Q != iQ || a != ia || b != ib {
				g.fail("a multiplication by %x and %x changes its operands", ia, ib)
			}
		}
	}
	var sl [256]int8
	for _, s := range ks {
		slide(&sl, &s)
		v := new(big.Int)
		for i := 255; i >= 0; i-- {
			v.Lsh(v, 1).Add(v, big.NewInt(int64(sl[i])))
			if sl[i] != 0 && sl[i]&1 == 0 || sl[i] > 15 || sl[i] < -15 {
				g.fail("slide(%x) has digit %d", s, sl[i])
			}
		}
		if v.Cmp(zv_leInt(s[:])) != 0 {
			g.fail("slide(%x) recodes %x", s, v)
		}
	}
	_ = bytes.Equal
}
