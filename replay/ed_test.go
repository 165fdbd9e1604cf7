package owcrypt_test

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"math/big"
	"os"
	"testing"

	owcrypt "github.com/blocktree/go-owcrypt"
)

// Independent reference for the Ed25519 family (math/big).
var (
	edP    = new(big.Int).Sub(new(big.Int).Lsh(bi(1), 255), bi(19))
	edL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	edD    = edMod(new(big.Int).Mul(bi(-121665), new(big.Int).ModInverse(bi(121666), edP)))
	edB, _ = edDecode(edLE(edMod(new(big.Int).Mul(bi(4), new(big.Int).ModInverse(bi(5), edP)))))
)

type ed4 struct{ x, y, z, t *big.Int }

func edMod(v *big.Int) *big.Int    { return new(big.Int).Mod(v, edP) }
func edMul(a, b *big.Int) *big.Int { return edMod(new(big.Int).Mul(a, b)) }
func edSub(a, b *big.Int) *big.Int { return edMod(new(big.Int).Sub(a, b)) }
func edAdd(a, b *big.Int) *big.Int { return edMod(new(big.Int).Add(a, b)) }
func edInv(a *big.Int) *big.Int    { return new(big.Int).Exp(a, new(big.Int).Sub(edP, bi(2)), edP) }
func edRev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}
func edInt(b []byte) *big.Int    { return new(big.Int).SetBytes(edRev(b)) }
func edLE(v *big.Int) []byte     { return edRev(v.FillBytes(make([]byte, 32))) }
func edModL(v *big.Int) *big.Int { return new(big.Int).Mod(v, edL) }
func edPoint(x, y *big.Int) ed4  { return ed4{x, y, bi(1), edMul(x, y)} }
func edZero() ed4                { return edPoint(bi(0), bi(1)) }
func (a ed4) add(b ed4) ed4 {
	A, B := edMul(a.x, b.x), edMul(a.y, b.y)
	C, D := edMul(edMul(a.t, edD), b.t), edMul(a.z, b.z)
	E := edSub(edMul(new(big.Int).Add(a.x, a.y), new(big.Int).Add(b.x, b.y)), new(big.Int).Add(A, B))
	F, G, H := edSub(D, C), edAdd(D, C), edAdd(A, B)
	return ed4{edMul(E, F), edMul(G, H), edMul(F, G), edMul(E, H)}
}
func (a ed4) neg() ed4 { return ed4{edSub(bi(0), a.x), a.y, a.z, edSub(bi(0), a.t)} }
func (a ed4) mul(k *big.Int) ed4 {
	r := edZero()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(a)
		}
	}
	return r
}
func (a ed4) affine() (x, y *big.Int) {
	i := edInv(a.z)
	return edMul(a.x, i), edMul(a.y, i)
}
func (a ed4) enc() []byte {
	x, y := a.affine()
	y.SetBit(y, 255, x.Bit(0))
	return edLE(y)
}

// edDecode: ordinate modulo p, abscissa of the stored parity.
func edDecode(b []byte) (ed4, bool) {
	y := edInt(b)
	s := y.Bit(255)
	y = edMod(y.SetBit(y, 255, 0))
	yy := edMul(y, y)
	xx := edMul(edSub(yy, bi(1)), edInv(edAdd(edMul(edD, yy), bi(1))))
	x := new(big.Int).ModSqrt(xx, edP)
	if x == nil {
		return ed4{}, false
	}
	if x.Bit(0) != s {
		x = edSub(bi(0), x)
	}
	return edPoint(x, y), true
}
func edToMont(enc []byte) []byte {
	y := edInt(enc)
	y.SetBit(y, 255, 0)
	return edLE(edMul(edAdd(bi(1), y), edInv(edSub(bi(1), y))))
}
func edOfMont(u []byte) []byte {
	v := edInt(u)
	v.SetBit(v, 255, 0)
	return edLE(edMul(edSub(v, bi(1)), edInv(edAdd(v, bi(1)))))
}
func edHash(parts ...[]byte) *big.Int {
	h := sha512.New()
	for _, p := range parts {
		h.Write(p)
	}
	return edInt(h.Sum(nil))
}

var edSels = []struct {
	name string
	id   uint32
}{{"Ed25519", owcrypt.ECC_CURVE_ED25519_NORMAL}, {"raw-scalar Ed25519", owcrypt.ECC_CURVE_ED25519}, {"X25519", owcrypt.ECC_CURVE_X25519}, {"Curve25519-SHA256", owcrypt.ECC_CURVE_CURVE25519_SHA256}}

func edRFC(key []byte) (*big.Int, []byte) {
	d := sha512.Sum512(key)
	d[0] &= 248
	d[31] = d[31]&127 | 64
	return edInt(d[:32]), d[32:]
}

func edPub(kind int, key []byte) []byte {
	if len(key) != 32 {
		return nil
	}
	switch kind {
	case 0:
		a, _ := edRFC(key)
		return edB.mul(a).enc()
	case 1:
		return edB.mul(edModL(edInt(key))).enc()
	case 2:
		return edToMont(edB.mul(edModL(edInt(key))).enc())
	}
	k := append([]byte{}, key...)
	k[0] &= 248
	k[31] = k[31]&127 | 64
	return edToMont(edB.mul(edModL(edInt(k))).enc())
}

// ---- Montgomery form for Curve25519-SHA256 ----
type mpt struct{ u, v *big.Int } // v == nil: infinity

var mA = bi(486662)

func (a mpt) add(b mpt) mpt {
	if a.v == nil {
		return b
	}
	if b.v == nil {
		return a
	}
	var l *big.Int
	if a.u.Cmp(b.u) == 0 {
		if edAdd(a.v, b.v).Sign() == 0 {
			return mpt{}
		}
		n := edAdd(edMul(bi(3), edMul(a.u, a.u)), edAdd(edMul(new(big.Int).Lsh(mA, 1), a.u), bi(1)))
		l = edMul(n, new(big.Int).ModInverse(edAdd(a.v, a.v), edP))
	} else {
		l = edMul(edSub(b.v, a.v), new(big.Int).ModInverse(edSub(b.u, a.u), edP))
	}
	u := edSub(edMul(l, l), edAdd(mA, edAdd(a.u, b.u)))
	return mpt{u, edSub(edMul(l, edSub(a.u, u)), a.v)}
}
func (a mpt) mul(k *big.Int) mpt {
	var r mpt
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(a)
		}
	}
	return r
}
func (a mpt) x() []byte {
	if a.v == nil {
		return make([]byte, 32)
	}
	return edLE(a.u)
}
func mLift(u *big.Int, par uint) (mpt, bool) {
	v := new(big.Int).ModSqrt(edMul(u, edAdd(edAdd(edMul(u, u), edMul(mA, u)), bi(1))), edP)
	if v == nil {
		return mpt{}, false
	}
	if v.Bit(0) != par {
		v = edSub(bi(0), v)
	}
	return mpt{u, v}, true
}

var mG, _ = mLift(bi(9), 0)

func edVerify(kind int, pub, msg, sig []byte) bool {
	if len(pub) != 32 || len(sig) != 64 {
		return false
	}
	if kind == 3 {
		v, u := edInt(sig[:32]), edInt(pub)
		if v.Cmp(edL) >= 0 || u.Cmp(edP) >= 0 {
			return false
		}
		p, ok := mLift(u, 0)
		if !ok {
			return false
		}
		m := sha256.Sum256(msg)
		y := p.mul(v).add(mG.mul(edInt(sig[32:]))).x()
		h := sha256.Sum256(append(m[:], y...))
		return bytes.Equal(h[:], sig[32:])
	}
	A, S := append([]byte{}, pub...), append([]byte{}, sig[32:]...)
	if kind == 2 {
		A = edOfMont(pub)
		A[31] |= S[31] & 0x80
		S[31] &= 0x7f
	}
	a, ok := edDecode(A)
	if !ok || S[31]&0xe0 != 0 {
		return false
	}
	h := edModL(edHash(sig[:32], A, msg))
	return bytes.Equal(edB.mul(edInt(S)).add(a.mul(h).neg()).enc(), sig[:32])
}

func (g *gen) edKeys(n int) (r [][]byte) {
	for _, b := range []*big.Int{bi(0), edL, new(big.Int).Lsh(edL, 1), new(big.Int).Lsh(edL, 3), new(big.Int).Lsh(bi(1), 252), new(big.Int).Lsh(bi(1), 255), new(big.Int).Lsh(bi(1), 256), edP, new(big.Int).Mul(edL, bi(15))} {
		for i := int64(-2); i < 3; i++ {
			if v := new(big.Int).Add(b, bi(i)); v.Sign() >= 0 && v.BitLen() <= 256 {
				r = append(r, edLE(v))
			}
		}
	}
	for i := 0; i < n; i++ {
		k := g.bytes(32)
		switch i % 5 {
		case 1:
			for j := range k {
				k[j] = []byte{0, 0xff, 0x80, 0x7f, 0x88}[g.r.Intn(5)]
			}
		case 2:
			k[31] |= 0xc0
		}
		r = append(r, k)
	}
	return
}

func TestVerifK01Ed(t *testing.T) {
	g := newGen(t)
	for kind, s := range edSels {
		for _, k := range append(g.edKeys(40), g.lens(g.bytes(32))...) {
			k = g.spare(k)
			var p []byte
			var ret uint16
			what := fmt.Sprintf("GenPubkey(%x, %s)", k, s.name)
			g.guard(what, func() { p, ret = owcrypt.GenPubkey(k, s.id) }, k)
			want := edPub(kind, k)
			if (ret == owcrypt.SUCCESS) != (want != nil) || !bytes.Equal(p, want) {
				g.fail("%s = %x, %#x; want %x", what, p, ret, want)
			}
		}
	}
}

func TestVerifD01(t *testing.T) {
	g := newGen(t)
	old := rand.Reader
	defer func() { rand.Reader = old }()
	rand.Reader = g.r
	rounds := 60
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	if thorough {
		rounds = 200
	}
	degenerate := edLE(bi(9)) // the base point itself
	for kind, s := range edSels {
		verify := func(pub, msg, sig []byte) {
			pub, msg, sig = g.spare(pub), g.spare(msg), g.spare(sig)
			id := g.spare(g.bytes(g.r.Intn(3)))
			what := fmt.Sprintf("Verify(%x, %x, %x, %x, %s)", pub, id, msg, sig, s.name)
			var ret uint16
			g.guard(what, func() { ret = owcrypt.Verify(pub, id, msg, sig, s.id) }, pub, id, msg, sig)
			w := uint16(owcrypt.FAILURE)
			if edVerify(kind, pub, msg, sig) {
				w = owcrypt.SUCCESS
			}
			if ret != w {
				if kind == 3 && bytes.Equal(pub, degenerate) {
					fmt.Printf("FAILING-INPUT[curve25519-sha256 public key 9]: %s = %#x, want %#x\n", what, ret, w)
					t.Fail()
					return
				}
				g.fail("%s = %#x, want %#x", what, ret, w)
			}
		}
		keys := g.edKeys(rounds)
		keys = append(keys, edLE(new(big.Int).Sub(new(big.Int).Mul(edL, bi(5)), bi(1))))
		for i, key := range keys {
			var msg []byte
			if i%6 != 0 {
				msg = g.bytes([]int{0, 1, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 300}[g.r.Intn(13)])
			}
			key, msg = g.spare(key), g.spare(msg)
			what := fmt.Sprintf("Signature(%x, %x, %s)", key, msg, s.name)
			var sig []byte
			var ret uint16
			var v byte
			g.guard(what, func() { sig, v, ret = owcrypt.Signature(key, nil, msg, s.id) }, key, msg)
			if ret != owcrypt.SUCCESS || len(sig) != 64 || v != 0 {
				g.fail("%s = %x, %d, %#x", what, sig, v, ret)
			}
			pub := edPub(kind, key)
			if kind == 0 {
				a, pre := edRFC(key)
				r := edModL(edHash(pre, msg))
				R := edB.mul(r).enc()
				S := edModL(new(big.Int).Add(r, new(big.Int).Mul(edModL(edHash(R, pub, msg)), a)))
				if w := append(R, edLE(S)...); !bytes.Equal(sig, w) {
					g.fail("%s = %x, want %x", what, sig, w)
				}
			}
			if zero := kind == 2 && edModL(edInt(key)).Sign() == 0; !zero && !edVerify(kind, pub, msg, sig) {
				if kind == 3 && bytes.Equal(pub, degenerate) {
					fmt.Printf("FAILING-INPUT[curve25519-sha256 public key 9]: %s = %x does not verify\n", what, sig)
					t.Fail()
					continue
				}
				g.fail("%s = %x does not satisfy the verification equation for %x", what, sig, pub)
			}
			verify(pub, msg, sig)
			// other nonces
			if kind != 0 && kind != 3 {
				again, _, _ := owcrypt.Signature(key, nil, msg, s.id)
				if bytes.Equal(again[:32], sig[:32]) {
					g.fail("%s repeats its nonce with fresh randomness", what)
				}
			}
			// modified signatures, messages and keys
			if i%6 != 1 && !thorough {
				m := append([]byte{}, sig...)
				m[g.r.Intn(64)] ^= 1 << g.r.Intn(8)
				verify(pub, msg, m)
				continue
			}
			for j := 0; j < 4; j++ {
				m := append([]byte{}, sig...)
				m[g.r.Intn(64)] ^= 1 << g.r.Intn(8)
				verify(pub, msg, m)
			}
			for j := 0; j < 64 && i < 2; j++ { // every byte of the signature counts
				m := append([]byte{}, sig...)
				m[j] ^= 1 << g.r.Intn(8)
				verify(pub, msg, m)
			}
			q := append([]byte{}, pub...)
			q[31] ^= 0x80
			verify(q, msg, sig)
			q = append([]byte{}, pub...)
			q[g.r.Intn(32)] ^= 1 << g.r.Intn(8)
			verify(q, msg, sig)
			verify(pub, append(append([]byte{}, msg...), 0), sig)
			if len(msg) > 0 {
				verify(pub, msg[:len(msg)-1], sig)
			}
			S := edInt(sig[32:])
			if kind == 3 {
				S = edInt(sig[:32])
			}
			top := uint(0)
			if kind == 2 {
				top = S.Bit(255)
				S.SetBit(S, 255, 0)
			}
			for _, d := range []*big.Int{edL, new(big.Int).Neg(edL), new(big.Int).Lsh(edL, 1), new(big.Int).Lsh(edL, 2), new(big.Int).Lsh(bi(1), 253), new(big.Int).Lsh(bi(1), 254), new(big.Int).Lsh(bi(1), 255)} {
				n := new(big.Int).Add(S, d)
				if n.Sign() < 0 || n.BitLen() > 256 {
					continue
				}
				if top == 1 {
					n.SetBit(n, 255, 1)
				}
				if kind == 3 {
					verify(pub, msg, append(edLE(n), sig[32:]...))
				} else {
					verify(pub, msg, append(append([]byte{}, sig[:32]...), edLE(n)...))
				}
			}
			if i < 14 {
				for _, x := range g.lens(sig) {
					verify(pub, msg, x)
				}
				for _, x := range g.lens(pub) {
					verify(x, msg, sig)
				}
				for _, x := range g.lens(key) {
					x = g.spare(x)
					g.guard("Signature with a malformed key", func() { sig, _, ret = owcrypt.Signature(x, nil, msg, s.id) }, x, msg)
					if sig != nil || ret == owcrypt.SUCCESS {
						g.fail("Signature(%x, %x, %s) = %x, %#x", x, msg, s.name, sig, ret)
					}
				}
			}
		}
		// keys that are not points, or have low order; signatures that satisfy the equation for them
		for _, pub := range g.edKeys(30) {
			sig := append(edLE(edModL(edInt(g.bytes(32)))), g.bytes(32)...)
			sig[63] &= 0x9f
			verify(pub, g.bytes(5), sig)
			if kind == 3 {
				continue
			}
			A := append([]byte{}, pub...)
			if kind == 2 {
				A = edOfMont(pub)
			}
			if a, ok := edDecode(A); ok {
				S := edModL(edInt(g.bytes(32)))
				msg := g.bytes(7)
				for j := int64(0); j < 8; j++ { // right whenever A has order j, and the hash agrees
					R := edB.mul(S).add(a.mul(bi(j)).neg()).enc()
					verify(pub, msg, append(R, edLE(S)...))
				}
			}
		}
		if kind == 3 {
			continue
		}
		// low order keys, in every encoding, with signatures that verify
		var low [][]byte
		for _, y := range []*big.Int{bi(0), bi(1), edSub(bi(-1), bi(0)), edP, new(big.Int).Add(edP, bi(1))} {
			low = append(low, edLE(y), edLE(new(big.Int).SetBit(y, 255, 1)))
		}
		for y := int64(2); len(low) < 22; y++ {
			if a, ok := edDecode(edLE(bi(y))); ok {
				low = append(low, a.mul(edL).enc())
			}
		}
		for _, A := range low {
			pub := A
			if kind == 2 {
				pub = edToMont(A)
				A = edOfMont(pub)
			}
			for sign := 0; sign < 2; sign++ {
				S := edLE(edModL(edInt(g.bytes(32))))
				if kind == 2 {
					A[31] = A[31]&0x7f | byte(sign)<<7
				}
				a, ok := edDecode(A)
				if !ok {
					break
				}
				for tries := 0; tries < 64; tries++ {
					msg := g.bytes(3)
					R := edB.mul(edInt(S)).add(a.mul(bi(int64(tries & 7))).neg()).enc()
					if h := edModL(edHash(R, A, msg)); new(big.Int).And(h, bi(7)).Int64() == int64(tries&7) {
						if kind == 2 {
							S[31] |= byte(sign) << 7
						}
						sig := append(R, S...)
						verify(pub, msg, sig)
						for j := 0; j < 64; j++ {
							m := append([]byte{}, sig...)
							m[j] ^= 1 << g.r.Intn(8)
							if j == 31 {
								m[j] = sig[j] ^ 0x80
							}
							if j%8 == 7 {
								verify(pub, msg, m)
							}
						}
						break
					}
				}
			}
		}
	}
}

func TestVerifG04(t *testing.T) {
	g := newGen(t)
	const sel = owcrypt.ECC_CURVE_ED25519
	var pts [][]byte
	for y := int64(0); y < 6; y++ {
		pts = append(pts, edLE(bi(y)), edLE(edSub(bi(-1), bi(y))))
	}
	pts = append(pts, edB.enc(), edB.neg().enc(), edZero().enc(), edLE(edP), edLE(new(big.Int).Add(edP, bi(1))))
	low, _ := edDecode(edLE(bi(3)))
	pts = append(pts, low.mul(edL).enc())
	for i := 0; i < 14; i++ {
		p := edB.mul(edModL(edInt(g.bytes(32))))
		pts = append(pts, p.enc(), p.neg().enc())
	}
	isZero := func(a ed4) bool { x, y := a.affine(); return x.Sign() == 0 && y.Cmp(bi(1)) == 0 }
	for i := 0; i < 900; i++ {
		p, q := g.spare(pts[g.r.Intn(len(pts))]), g.spare(pts[g.r.Intn(len(pts))])
		switch i % 100 {
		case 0:
			p = g.spare(g.lens(p)[g.r.Intn(7)])
		case 1:
			q = g.spare(g.lens(q)[g.r.Intn(7)])
		}
		var r []byte
		var ret uint16
		what := fmt.Sprintf("Point_add(%x, %x, Ed25519)", p, q)
		g.guard(what, func() { r, ret = owcrypt.Point_add(p, q, sel) }, p, q)
		var want []byte
		if len(p) == 32 && len(q) == 32 {
			a, ok1 := edDecode(p)
			b, ok2 := edDecode(q)
			if ok1 && ok2 {
				if s := a.add(b); !isZero(s) {
					want = s.enc()
				}
			}
		}
		if !bytes.Equal(r, want) || (ret == owcrypt.SUCCESS) != (want != nil) {
			g.fail("%s = %x, %#x, want %x", what, r, ret, want)
		}
	}
	keys := append(g.edKeys(60), g.lens(g.bytes(32))...)
	for i := 0; i < 8; i++ {
		keys = append(keys, edLE(edModL(edInt(g.bytes(32)))))
	}
	for _, k := range keys {
		k = g.spare(k)
		var r []byte
		what := fmt.Sprintf("Point_mulBaseG(%x, Ed25519)", k)
		g.guard(what, func() { r = owcrypt.Point_mulBaseG(k, sel) }, k)
		if want := edPub(1, k); !bytes.Equal(r, want) {
			g.fail("%s = %x, want %x", what, r, want)
		}
		for j := 0; j < 3; j++ {
			p := g.spare(pts[g.r.Intn(len(pts))])
			switch {
			case j == 1 && len(k) == 32:
				p = g.spare(edB.mul(edModL(edInt(k))).neg().enc())
			case j == 2 && g.r.Intn(10) == 0:
				p = g.spare(g.lens(p)[g.r.Intn(7)])
			}
			var inf bool
			what := fmt.Sprintf("Point_mulBaseG_add(%x, %x, Ed25519)", p, k)
			g.guard(what, func() { r, inf = owcrypt.Point_mulBaseG_add(p, k, sel) }, p, k)
			var want []byte
			winf := false
			if len(p) == 32 && len(k) == 32 {
				if a, ok := edDecode(p); ok {
					s := a.add(edB.mul(edModL(edInt(k))))
					if winf = isZero(s); !winf {
						want = s.enc()
					}
				}
			}
			if !bytes.Equal(r, want) || inf != winf {
				g.fail("%s = %x, %v, want %x, %v", what, r, inf, want, winf)
			}
		}
	}
}
