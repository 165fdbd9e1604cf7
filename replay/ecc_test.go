package owcrypt_test

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"os"
	"strconv"
	"sync"
	"testing"

	owcrypt "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/zzspec/eccs"
	"github.com/blocktree/go-owcrypt/zzspec/prims"
)

type esel struct {
	name string
	id   uint32
	c    *prims.Curve
}

var esels = []esel{{"secp256k1", owcrypt.ECC_CURVE_SECP256K1, prims.K1}, {"secp256r1", owcrypt.ECC_CURVE_SECP256R1, prims.R1}, {"sm2", owcrypt.ECC_CURVE_SM2_STANDARD, prims.SM2}}

type gen struct {
	t *testing.T
	r *mrand.Rand
}

func newGen(t *testing.T) *gen {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return &gen{t, mrand.New(mrand.NewSource(int64(seed)))}
}

// spare copies b into a slice with filled spare capacity.
func (g *gen) spare(b []byte) []byte {
	if b == nil {
		return nil
	}
	r := make([]byte, len(b)+g.r.Intn(40)+1)
	g.r.Read(r)
	copy(r, b)
	return r[:len(b)]
}
func (g *gen) bytes(n int) []byte {
	b := make([]byte, n)
	g.r.Read(b)
	return b
}
func (g *gen) fail(f string, a ...interface{}) {
	g.t.Helper()
	g.t.Fatalf("FAILING-INPUT: "+f, a...)
}

// guard runs f, reports a panic, and checks that the arguments (with their spare capacity) are unchanged.
func (g *gen) guard(what string, f func(), args ...[]byte) {
	g.t.Helper()
	var w [][]byte
	for _, a := range args {
		w = append(w, append([]byte{}, a[:cap(a)]...))
	}
	defer func() {
		g.t.Helper()
		if p := recover(); p != nil {
			g.fail("%s panics: %v", what, p)
		}
		for i, a := range args {
			if !bytes.Equal(a[:cap(a)], w[i]) {
				g.fail("%s modified its argument %d", what, i)
			}
		}
	}()
	f()
}

func be32(v *big.Int) []byte { return new(big.Int).And(v, max256).FillBytes(make([]byte, 32)) }

var max256 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))

func bi(n int64) *big.Int { return big.NewInt(n) }

// scalars: edge values for a modulus n, then k random ones (some short).
func (g *gen) scalars(n *big.Int, k int) (r []*big.Int) {
	for i := int64(0); i < 4; i++ {
		r = append(r, bi(i), new(big.Int).Sub(n, bi(i)), new(big.Int).Add(n, bi(i)), new(big.Int).Sub(max256, bi(i)))
	}
	h := new(big.Int).Rsh(n, 1)
	r = append(r, h, new(big.Int).Add(h, bi(1)))
	for i := 0; i < k; i++ {
		v := new(big.Int).SetBytes(g.bytes(32))
		switch g.r.Intn(4) {
		case 0:
			v.Rsh(v, uint(g.r.Intn(256)))
		case 1:
			v.Mod(v, n)
		}
		r = append(r, v)
	}
	return
}
func (g *gen) lens(base []byte) [][]byte {
	return [][]byte{nil, {}, base[:1], base[:len(base)-1], append(append([]byte{}, base...), 0), append([]byte{0}, base...), append(append([]byte{}, base...), base...)}
}

// shortKeys returns scalars whose public points have a coordinate with leading zero bytes.
func (g *gen) shortKeys(c *prims.Curve) (r []*big.Int) {
	// two leading zero bytes
	for _, d := range []int64{41192, 44629, 2376, 40393, 17883, 193197} {
		r = append(r, bi(d))
	}
	x, y := c.Gx, c.Gy
	nx, ny := 0, 0
	for d := int64(2); nx < 3 || ny < 3; d++ {
		x, y = prims.ECAdd(c, x, y, c.Gx, c.Gy)
		if x.BitLen() <= 248 && nx < 3 {
			nx++
			r = append(r, bi(d))
		}
		if y.BitLen() <= 248 && ny < 3 {
			ny++
			r = append(r, bi(d))
		}
	}
	return
}

// midPoints returns points whose abscissa lies between the order and the field prime.
func midPoints(c *prims.Curve) (r [][2]*big.Int) {
	for i := int64(0); len(r) < 3 && i < 200; i++ {
		x := new(big.Int).Add(c.N, bi(i))
		if x.Cmp(c.P) >= 0 {
			break
		}
		b := eccs.Decompress(c, append([]byte{2 + byte(i&1)}, be32(x)...))
		if b != nil {
			r = append(r, [2]*big.Int{x, new(big.Int).SetBytes(b[33:])})
		}
	}
	return
}

type fixedReader struct{}

func (fixedReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(i)*7 + 5
	}
	return len(p), nil
}

func TestVerifK01(t *testing.T) {
	g := newGen(t)
	for _, s := range esels {
		var ks [][]byte
		for _, v := range g.scalars(s.c.N, 60) {
			ks = append(ks, be32(v))
		}
		for _, v := range g.shortKeys(s.c) {
			ks = append(ks, be32(v))
		}
		ks = append(ks, g.lens(g.bytes(32))...)
		for _, k := range ks {
			k = g.spare(k)
			var p []byte
			var ret uint16
			what := fmt.Sprintf("GenPubkey(%x, %s)", k, s.name)
			g.guard(what, func() { p, ret = owcrypt.GenPubkey(k, s.id) }, k)
			wp, wr := eccs.GenPubkey(s.c, k)
			if ret != wr || !bytes.Equal(p, wp) {
				g.fail("%s = %x, %#x; want %x, %#x", what, p, ret, wp, wr)
			}
		}
	}
}

func TestVerifC01(t *testing.T) {
	g := newGen(t)
	for _, s := range esels {
		c := s.c
		var xs [][]byte
		for _, v := range g.scalars(c.P, 150) {
			xs = append(xs, be32(v))
		}
		// abscissas that have a point only when read modulo p
		for i := int64(0); i < 40; i++ {
			xs = append(xs, be32(new(big.Int).Add(c.P, bi(i))))
		}
		// abscissas with leading zeros
		for i := int64(0); i < 40; i++ {
			xs = append(xs, be32(bi(i)))
		}
		for _, x := range xs {
			for _, pre := range []byte{0, 1, 2, 3, 4, 6, byte(g.r.Intn(256))} {
				in := g.spare(append([]byte{pre}, x...))
				g.decompress(s, in)
			}
		}
		for _, in := range g.lens(append([]byte{2}, g.bytes(32)...)) {
			g.decompress(s, in)
		}
		for i := 0; i < 60; i++ {
			x, y := prims.ECBase(c, new(big.Int).SetBytes(g.bytes(32)))
			if i < 20 { // ordinates with leading zeros come from small multiples only by luck; take small abscissas too
				x, y = prims.ECBase(c, bi(int64(i+1)))
			}
			p := append(be32(x), be32(y)...)
			if i&1 == 1 {
				p = append([]byte{4}, p...)
			}
			p = g.spare(p)
			var q []byte
			what := fmt.Sprintf("PointCompress(%x, %s)", p, s.name)
			g.guard(what, func() { q = owcrypt.PointCompress(p, s.id) }, p)
			if !bytes.Equal(q, eccs.Compress(p)) {
				g.fail("%s = %x, want %x", what, q, eccs.Compress(p))
			}
			d := g.decompress(s, q)
			if !bytes.Equal(d[1:], p[len(p)-64:]) {
				g.fail("PointDecompress(%s) = %x", what, d)
			}
		}
		for _, n := range []int{0, 1, 31, 32, 33, 63, 64, 65, 66, 128, 129} {
			for i := 0; i < 4; i++ {
				p := g.bytes(n)
				if n == 65 && i > 0 {
					p[0] = byte(i + 1)
				}
				var q []byte
				what := fmt.Sprintf("PointCompress(%x, %s)", p, s.name)
				g.guard(what, func() { q = owcrypt.PointCompress(p, s.id) }, p)
				if !bytes.Equal(q, eccs.Compress(p)) {
					g.fail("%s = %x, want %x", what, q, eccs.Compress(p))
				}
			}
		}
	}
}

func (g *gen) decompress(s esel, in []byte) (out []byte) {
	g.t.Helper()
	what := fmt.Sprintf("PointDecompress(%x, %s)", in, s.name)
	g.guard(what, func() { out = owcrypt.PointDecompress(in, s.id) }, in)
	if want := eccs.Decompress(s.c, in); !bytes.Equal(out, want) {
		g.fail("%s = %x, want %x", what, out, want)
	}
	return
}

type constReader struct {
	b [][]byte
	i int
	g *gen
}

func (c *constReader) Read(p []byte) (int, error) {
	if c.i < len(c.b) && len(p) > 1 {
		n := copy(p, c.b[c.i])
		if n < len(p) {
			c.g.r.Read(p[n:])
		}
		c.i++
		return len(p), nil
	}
	return c.g.r.Read(p)
}

type failReader struct{ n int }

func (f *failReader) Read(p []byte) (int, error) {
	if f.n <= 0 {
		return 0, io.ErrUnexpectedEOF
	}
	f.n--
	for i := range p {
		p[i] = byte(i + 1)
	}
	return len(p), nil
}

func TestVerifE01(t *testing.T) {
	g := newGen(t)
	old := rand.Reader
	defer func() { rand.Reader = old }()
	for _, s := range esels[:2] {
		c := s.c
		half := new(big.Int).Rsh(c.N, 1)
		run := func(key, hash []byte, fails bool) {
			key, hash = g.spare(key), g.spare(hash)
			var sig []byte
			var v byte
			var ret uint16
			what := fmt.Sprintf("Signature(%x, nil, %x, %s)", key, hash, s.name)
			g.guard(what, func() { sig, v, ret = owcrypt.Signature(key, nil, hash, s.id) }, key, hash)
			d := new(big.Int).SetBytes(key)
			valid := len(key) == 32 && len(hash) == 32 && d.Sign() > 0 && d.Cmp(c.N) < 0
			if ret != owcrypt.SUCCESS {
				if len(sig) != 0 || valid && !fails {
					g.fail("%s = %x, %#x", what, sig, ret)
				}
				return
			}
			if !valid || len(sig) != 64 {
				g.fail("%s succeeds with %x", what, sig)
			}
			r, ss := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
			if r.Sign() == 0 || r.Cmp(c.N) >= 0 || ss.Sign() == 0 || ss.Cmp(half) > 0 {
				g.fail("%s = %x: r or s out of range", what, sig)
			}
			for i := 0; i < 64; i += 32 {
				if sig[i] >= 0x80 || sig[i] == 0 && sig[i+1] < 0x80 {
					g.fail("%s = %x: not 32 bytes in minimal positive DER form", what, sig)
				}
			}
			x, y := prims.ECBase(c, d)
			pub := append(be32(x), be32(y)...)
			if eccs.Verify(c, pub, hash, sig) != owcrypt.SUCCESS {
				g.fail("%s = %x does not verify", what, sig)
			}
			q, qr := eccs.Recover(c, append(append([]byte{}, sig...), v), hash)
			if qr != owcrypt.SUCCESS || !bytes.Equal(q, pub) {
				g.fail("%s = %x, v = %d: v does not lead to the signer's key", what, sig, v)
			}
		}
		for _, d := range g.scalars(c.N, 8) {
			run(be32(d), g.bytes(32), false)
		}
		for _, e := range g.scalars(c.N, 8) {
			run(be32(new(big.Int).Mod(new(big.Int).SetBytes(g.bytes(32)), c.N)), be32(e), false)
		}
		for i := 0; i < 60; i++ {
			run(be32(new(big.Int).Mod(new(big.Int).SetBytes(g.bytes(32)), c.N)), g.bytes(32), false)
		}
		// nonces chosen so that s is near n/2: k = (e + r d) / s
		for _, k := range g.scalars(c.N, 0) {
			rand.Reader = &constReader{b: [][]byte{be32(k), be32(k), be32(k)}, g: g}
			run(be32(bi(7)), g.bytes(32), false)
			rand.Reader = old
		}
		for n := 0; n < 5; n++ {
			rand.Reader = &failReader{n}
			run(be32(bi(7)), g.bytes(32), true)
			rand.Reader = old
		}
		for _, k := range g.lens(g.bytes(32)) {
			run(k, g.bytes(32), false)
			run(be32(bi(3)), k, false)
		}
		// many signatures with a fixed entropy source: rare nonces (short r, discarded attempts)
		rand.Reader = fixedReader{}
		type job struct {
			d    *big.Int
			hash []byte
			bad  string
		}
		jobs := make([]job, 2400)
		for i := range jobs {
			jobs[i] = job{d: new(big.Int).Add(new(big.Int).Mod(new(big.Int).SetBytes(g.bytes(32)), new(big.Int).Sub(c.N, bi(1))), bi(1)), hash: g.bytes(32)}
		}
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := w; i < len(jobs); i += 8 {
					j := &jobs[i]
					func() {
						defer func() {
							if p := recover(); p != nil {
								j.bad = fmt.Sprintf("panics: %v", p)
							}
						}()
						sig, v, ret := owcrypt.Signature(be32(j.d), nil, j.hash, s.id)
						if ret != owcrypt.SUCCESS || len(sig) != 64 {
							j.bad = fmt.Sprintf("= %x, %d, %#x", sig, v, ret)
							return
						}
						r, ss := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
						k := new(big.Int).Mul(r, j.d)
						k.Add(k, new(big.Int).SetBytes(j.hash)).Mod(k, c.N)
						inv := new(big.Int).ModInverse(ss, c.N)
						if inv == nil || ss.Cmp(half) > 0 {
							j.bad = fmt.Sprintf("= %x: s out of range", sig)
							return
						}
						k.Mul(k, inv).Mod(k, c.N)
						p, _ := owcrypt.GenPubkey(be32(k), s.id)
						if len(p) != 64 || new(big.Int).Mod(new(big.Int).SetBytes(p[:32]), c.N).Cmp(r) != 0 || p[63]&1 != v {
							j.bad = fmt.Sprintf("= %x, v = %d, but the nonce point is %x", sig, v, p)
						}
						for i := 0; i < 64; i += 32 {
							if sig[i] >= 0x80 || sig[i] == 0 && sig[i+1] < 0x80 {
								j.bad = fmt.Sprintf("= %x: not 32 bytes in minimal positive DER form", sig)
							}
						}
					}()
				}
			}(w)
		}
		wg.Wait()
		rand.Reader = old
		for _, j := range jobs {
			if j.bad != "" {
				g.fail("with crypto/rand.Reader giving bytes 7i+5, Signature(%x, nil, %x, %s) %s", be32(j.d), j.hash, s.name, j.bad)
			}
		}
	}
}

// ecdsa builds a signature for digest e under d with nonce k, s not normalised.
func ecdsa(c *prims.Curve, d, k, e *big.Int) (r, s *big.Int) {
	x, _ := prims.ECBase(c, k)
	r = x.Mod(x, c.N)
	s = new(big.Int).Mul(r, d)
	s.Add(s, e)
	s.Mul(s, new(big.Int).ModInverse(k, c.N))
	return r, s.Mod(s, c.N)
}

func TestVerifE02(t *testing.T) {
	g := newGen(t)
	for _, s := range esels[:2] {
		c := s.c
		run := func(key, hash, sig []byte) {
			key, hash, sig = g.spare(key), g.spare(hash), g.spare(sig)
			id := g.spare(g.bytes(g.r.Intn(3)))
			what := fmt.Sprintf("Verify(%x, %x, %x, %x, %s)", key, id, hash, sig, s.name)
			var ret uint16
			g.guard(what, func() { ret = owcrypt.Verify(key, id, hash, sig, s.id) }, key, id, hash, sig)
			if want := eccs.Verify(c, key, hash, sig); ret != want {
				g.fail("%s = %#x, want %#x", what, ret, want)
			}
		}
		rnd := func() *big.Int {
			v := new(big.Int).SetBytes(g.bytes(32))
			return v.Mod(v, c.N)
		}
		short := g.shortKeys(c)
		// nonce points with an abscissa of at least n: Q = (sR - eG)/r
		for _, R := range midPoints(c) {
			r, e, ss := new(big.Int).Sub(R[0], c.N), rnd(), rnd()
			if r.Sign() == 0 {
				continue
			}
			ax, ay := prims.ECMul(c, R[0], R[1], ss)
			bx, by := prims.ECBase(c, new(big.Int).Sub(c.N, e))
			ax, ay = prims.ECAdd(c, ax, ay, bx, by)
			ax, ay = prims.ECMul(c, ax, ay, new(big.Int).ModInverse(r, c.N))
			run(append(be32(ax), be32(ay)...), be32(e), append(be32(r), be32(ss)...))
			run(append(be32(ax), be32(ay)...), be32(e), append(be32(R[0]), be32(ss)...))
		}
		for i := 0; i < 30; i++ {
			d, k, e := rnd(), rnd(), new(big.Int).SetBytes(g.bytes(32))
			switch i {
			case 0:
				e = bi(0)
			case 1:
				e = c.N
			case 2:
				e = max256
			case 3:
				d = bi(1)
			case 4:
				d = new(big.Int).Sub(c.N, bi(1))
			case 5: // u1 G = u2 Q: addition of equal points
				e = new(big.Int).Mod(new(big.Int).Mul(first(ecdsa(c, d, k, e)), d), c.N)
			case 7, 8, 9, 10, 11, 12:
				d = short[i-7]
			case 13, 14, 15, 16, 17, 18:
				k = short[i-13]
			case 6: // u1 G = -u2 Q: infinity
				e = new(big.Int).Mod(new(big.Int).Neg(new(big.Int).Mul(first(ecdsa(c, d, k, e)), d)), c.N)
			}
			r, ss := ecdsa(c, d, k, e)
			if ss.Sign() == 0 {
				ss = bi(1)
			}
			x, y := prims.ECBase(c, d)
			key := append(be32(x), be32(y)...)
			sig := append(be32(r), be32(ss)...)
			run(key, be32(e), sig)
			run(key, be32(e), append(be32(r), be32(new(big.Int).Sub(c.N, ss))...))
			run(key, g.bytes(32), sig)
			for j := 0; j < 2; j++ {
				bad := append([]byte{}, sig...)
				bad[g.r.Intn(64)] ^= 1 << uint(g.r.Intn(8))
				run(key, be32(e), bad)
			}
			bk := append([]byte{}, key...)
			bk[g.r.Intn(64)] ^= 1
			run(bk, be32(e), sig)
			run(append(be32(new(big.Int).Add(x, c.P)), be32(y)...), be32(e), sig)
			run(append(be32(x), be32(new(big.Int).Sub(c.P, y))...), be32(e), sig)
			run(make([]byte, 64), be32(e), sig)
			if v := new(big.Int).Add(r, c.N); v.Cmp(max256) <= 0 {
				run(key, be32(e), append(be32(v), be32(ss)...))
			}
			if v := new(big.Int).Add(ss, c.N); v.Cmp(max256) <= 0 {
				run(key, be32(e), append(be32(r), be32(v)...))
			}
			if i < 3 {
				for _, v := range g.scalars(c.N, 0) {
					run(key, be32(e), append(be32(v), be32(ss)...))
					run(key, be32(e), append(be32(r), be32(v)...))
				}
				for _, l := range g.lens(key) {
					run(l, be32(e), sig)
				}
				for _, l := range g.lens(sig) {
					run(key, be32(e), l)
				}
				for _, l := range g.lens(be32(e)) {
					run(key, l, sig)
				}
			}
		}
		// signatures under small nonces and key coordinates that wrap: x + p fits 32 bytes
		for i, x := 0, bi(0); i < 6; x = new(big.Int).Add(x, bi(1)) {
			q := eccs.Decompress(c, append([]byte{2}, be32(x)...))
			if q == nil {
				continue
			}
			i++
			// R = uG + vQ; r = x(R), s = r/v, e = u s  verifies under Q
			u, v := rnd(), rnd()
			ux, uy := prims.ECBase(c, u)
			vx, vy := prims.ECMul(c, x, new(big.Int).SetBytes(q[33:]), v)
			rx, _ := prims.ECAdd(c, ux, uy, vx, vy)
			r := rx.Mod(rx, c.N)
			ss := new(big.Int).Mul(r, new(big.Int).ModInverse(v, c.N))
			ss.Mod(ss, c.N)
			e := new(big.Int).Mul(u, ss)
			e.Mod(e, c.N)
			run(q[1:], be32(e), append(be32(r), be32(ss)...))
			if w := new(big.Int).Add(x, c.P); w.Cmp(max256) <= 0 {
				run(append(be32(w), q[33:]...), be32(e), append(be32(r), be32(ss)...))
			}
		}
	}
}

func first(a, b *big.Int) *big.Int { return a }

func TestVerifE03(t *testing.T) {
	g := newGen(t)
	for _, s := range esels[:2] {
		c := s.c
		run := func(sig, hash []byte) {
			sig, hash = g.spare(sig), g.spare(hash)
			what := fmt.Sprintf("RecoverPubkey(%x, %x, %s)", sig, hash, s.name)
			var ret uint16
			var key []byte
			g.guard(what, func() { key, ret = owcrypt.RecoverPubkey(sig, hash, s.id) }, sig, hash)
			wk, wr := eccs.Recover(c, sig, hash)
			if (ret == owcrypt.SUCCESS) != (wr == owcrypt.SUCCESS) || !bytes.Equal(key, wk) {
				g.fail("%s = %x, %#x; want %x, %#x", what, key, ret, wk, wr)
			}
			if ret == owcrypt.SUCCESS && eccs.Verify(c, key, hash, sig[:64]) != owcrypt.SUCCESS {
				g.fail("%s = %x, under which the signature does not verify", what, key)
			}
		}
		rnd := func() *big.Int {
			v := new(big.Int).SetBytes(g.bytes(32))
			return v.Mod(v, c.N)
		}
		short := g.shortKeys(c)
		for i := 0; i < 40; i++ {
			d, k, e := rnd(), rnd(), new(big.Int).SetBytes(g.bytes(32))
			switch i {
			case 0:
				e = bi(0)
			case 1:
				e = c.N
			case 2:
				e = max256
			case 5, 6, 7, 8, 9, 10:
				d = short[i-5]
			case 11, 12, 13, 14, 15, 16:
				k = short[i-11]
			case 3: // infinity: e = s k with d = 0
				d = bi(0)
			case 4: // sR = -eG: addition of equal points
				e = new(big.Int).Mod(new(big.Int).Neg(new(big.Int).Mul(first(ecdsa(c, d, k, e)), d)), c.N)
				e.Mul(e, new(big.Int).ModInverse(bi(2), c.N)).Mod(e, c.N)
			}
			r, ss := ecdsa(c, d, k, e)
			sig := append(be32(r), be32(ss)...)
			for _, v := range []byte{0, 1, 2, 3, 27, 28, 128, 255} {
				run(append(append([]byte{}, sig...), v), be32(e))
			}
			run(append(append([]byte{}, sig...), byte(i&1)), g.bytes(32))
			run(append(append(be32(r), be32(new(big.Int).Sub(c.N, ss))...), byte(i&1)), be32(e))
			run(append(g.bytes(64), byte(i&1)), g.bytes(32))
			if i < 2 {
				for _, w := range g.scalars(c.N, 0) {
					for v := byte(0); v < 2; v++ {
						run(append(append(be32(w), be32(ss)...), v), be32(e))
						run(append(append(be32(r), be32(w)...), v), be32(e))
					}
				}
				sig := append(sig, byte(i&1))
				for _, l := range g.lens(sig) {
					run(l, be32(e))
				}
				for _, l := range g.lens(be32(e)) {
					run(sig, l)
				}
			}
		}
	}
}
