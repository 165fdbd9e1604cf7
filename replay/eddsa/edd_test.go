package eddsa

import (
	"math/big"
	mrand "math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/blocktree/go-owcrypt/eddsa/edwards25519"
)

var (
	vP    = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	vL, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	vD    = func() *big.Int {
		x := new(big.Int).ModInverse(big.NewInt(121666), vP)
		return x.Mul(x, big.NewInt(-121665)).Mod(x, vP)
	}()
)

type vgen struct {
	t *testing.T
	r *mrand.Rand
}

func newVgen(t *testing.T) *vgen {
	s, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return &vgen{t, mrand.New(mrand.NewSource(int64(s)))}
}
func (g *vgen) fail(f string, a ...interface{}) {
	g.t.Helper()
	g.t.Fatalf("FAILING-INPUT: "+f, a...)
}
func zv_rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}
func zv_leInt(b []byte) *big.Int        { return new(big.Int).SetBytes(zv_rev(b)) }
func zv_le(v *big.Int, n int) []byte    { return zv_rev(v.FillBytes(make([]byte, n))) }
func zv_le32(v *big.Int) (r [32]byte)   { copy(r[:], zv_le(v, 32)); return }
func zv_mod(v *big.Int) *big.Int        { return new(big.Int).Mod(v, vP) }
func zv_add(a, b *big.Int) *big.Int     { return zv_mod(new(big.Int).Add(a, b)) }
func zv_sub(a, b *big.Int) *big.Int     { return zv_mod(new(big.Int).Sub(a, b)) }
func zv_mul(a, b *big.Int) *big.Int     { return zv_mod(new(big.Int).Mul(a, b)) }
func zv_inv(a *big.Int) *big.Int        { return new(big.Int).Exp(a, new(big.Int).Sub(vP, big.NewInt(2)), vP) }

func (g *vgen) raws(n int) (r [][32]byte) {
	put := func(v *big.Int) {
		if v.Sign() >= 0 && v.BitLen() <= 256 {
			r = append(r, zv_le32(v))
		}
	}
	for _, b := range []*big.Int{new(big.Int), vP, new(big.Int).Lsh(big.NewInt(1), 252), new(big.Int).Lsh(big.NewInt(1), 255), new(big.Int).Lsh(vP, 1), new(big.Int).Lsh(big.NewInt(1), 256), vL, new(big.Int).Lsh(vL, 1), new(big.Int).Lsh(vL, 3)} {
		for i := int64(-21); i < 22; i++ {
			put(new(big.Int).Add(b, big.NewInt(i)))
		}
	}
	for i := 0; i < n; i++ {
		var b [32]byte
		g.r.Read(b[:])
		if i&3 == 0 {
			for j := range b {
				b[j] = []byte{0, 0xff, 0x80, 0x7f, 0x88, 0x08, 0xf8}[g.r.Intn(7)]
			}
		}
		r = append(r, b)
	}
	return
}

func TestVerifF03(t *testing.T) {
	g := newVgen(t)
	rs := g.raws(64)
	for i := 0; i < 6000; i++ {
		x := make([]byte, 64)
		switch i % 4 {
		case 0:
			g.r.Read(x)
		case 1:
			copy(x, rs[g.r.Intn(len(rs))][:])
			if i&4 == 4 {
				copy(x[32:], rs[g.r.Intn(len(rs))][:])
			}
		case 2: // next to a multiple of the order
			k := new(big.Int).Rand(g.r, new(big.Int).Lsh(big.NewInt(1), uint(1+g.r.Intn(259))))
			k.Mul(k, vL).Add(k, big.NewInt(int64(g.r.Intn(5)-2)))
			if k.Sign() >= 0 && k.BitLen() <= 512 {
				copy(x, zv_le(k, 64))
			}
		case 3:
			for j := range x {
				x[j] = []byte{0, 0xff, 0xff, 0x7f, 0x80}[g.r.Intn(5)]
			}
		}
		in := append([]byte(nil), x...)
		s := x25519_sc_reduce(x)
		if w := zv_le32(new(big.Int).Mod(zv_leInt(in), vL)); s != w {
			g.fail("x25519_sc_reduce(%x) = %x, want %x", in, s, w)
		}
		if zv_leInt(in).Cmp(zv_leInt(x)) != 0 {
			g.fail("x25519_sc_reduce(%x) changes its operand", in)
		}
	}
}

func TestVerifF02(t *testing.T) {
	g := newVgen(t)
	for _, s := range g.raws(100) {
		y := zv_leInt(s[:])
		y.SetBit(y, 255, 0)
		w := zv_mod(y)
		var f, h edwards25519.FieldElement
		edwards25519.FeFromBytes(&f, &s)
		in := f
		fePow22523(&h, &f)
		var b [32]byte
		edwards25519.FeToBytes(&b, &h)
		if x := zv_le32(new(big.Int).Exp(w, new(big.Int).Rsh(zv_sub(vP, big.NewInt(5)), 3), vP)); b != x || f != in {
			g.fail("eddsa.fePow22523(%x) = %x, want %x", s, b, x)
		}
		if feIsZero(f) != (w.Sign() == 0) || feIsOne(f) != (w.Cmp(big.NewInt(1)) == 0) {
			g.fail("feIsZero or feIsOne of %x", s)
		}
	}
}

func TestVerifD02(t *testing.T) {
	g := newVgen(t)
	one := big.NewInt(1)
	for _, s := range g.raws(400) {
		u := zv_leInt(s[:])
		ed, err := ConvertXToEd(s)
		if (err != nil) != (u.Cmp(vP) >= 0) {
			g.fail("ConvertXToEd(%x) error %v", s, err)
		}
		if err == nil {
			if w := zv_le32(zv_mul(zv_sub(u, one), zv_inv(zv_add(u, one)))); ed != w {
				g.fail("ConvertXToEd(%x) = %x, want %x", s, ed, w)
			}
			if b, err := ConvertEdToX(ed); err != nil || zv_add(u, one).Sign() != 0 && b != s {
				g.fail("ConvertEdToX(ConvertXToEd(%x)) = %x, %v", s, b, err)
			}
		}
		y := zv_leInt(s[:])
		y.SetBit(y, 255, 0)
		x, err := ConvertEdToX(s)
		if w := zv_le32(zv_mul(zv_add(one, y), zv_inv(zv_sub(one, y)))); err != nil || x != w {
			g.fail("ConvertEdToX(%x) = %x, %v, want %x", s, x, err, w)
		}
	}
}
