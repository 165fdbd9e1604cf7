package owcrypt_test

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"testing"

	owcrypt "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/zzspec/eccs"
	"github.com/blocktree/go-owcrypt/zzspec/prims"
)

func TestVerifG01(t *testing.T) { pointOps(newGen(t), esels[0], "secp256k1") }
func TestVerifG02(t *testing.T) { pointOps(newGen(t), esels[2], "sm2_std") }

func pointOps(g *gen, s esel, name string) {
	c := s.c
	raw := func(x, y *big.Int) []byte { return append(be32(x), be32(y)...) }
	inf := make([]byte, 64)
	mult := func(k *big.Int) []byte {
		x, y := prims.ECBase(c, k)
		return raw(x, y)
	}
	neg := func(p []byte) []byte {
		y := new(big.Int).SetBytes(p[32:])
		if y.Sign() == 0 {
			return p
		}
		return append(append([]byte{}, p[:32]...), be32(y.Sub(c.P, y))...)
	}
	// points: small multiples of G and their opposites, points with short coordinates, abscissas beyond n, random ones
	var pts [][]byte
	for i := int64(1); i <= 20; i++ {
		pts = append(pts, mult(bi(i)))
	}
	for _, k := range g.shortKeys(c) {
		pts = append(pts, mult(k))
	}
	for _, m := range midPoints(c) {
		pts = append(pts, raw(m[0], m[1]))
	}
	for i := 0; i < 12; i++ {
		pts = append(pts, mult(new(big.Int).SetBytes(g.bytes(32))))
	}
	if name == "sm2_std" { // coordinates whose field representation meets the largest carries
		for _, h := range []string{
			"5dbffffeb46000015cbfffff1a4000006ddfffff33600001c27ffffeac400001b22fb78aaf61055071c0048c5c7b6cc04047bce482d5f4b16aa09debf36344e6",
			"a20000014bfffffd23000001e5fffffe920000004cfffffdbd00000353fffffdba72fa0293a8d73ff2c90a453f18ab355c9d40cd64ae4b60e1018eb9e6390cb4",
			"55fcf31bc4047555d0fcf31c22030ce465fe978dbf04b5562ef9e237bc030ce37c3b41c7a5bc2d71655fd752cea4284b5e546ca99c6fa51087cefc3bf313ecd5",
			"2241ffed8b9c0023a343ffdd85be0011d221ffee8c9c00239d83ffdbb3bc00235f453ac6298035fbc2ff724f26fcd2c97d6df66a81b31b2481bf735e167a142e",
		} {
			b, err := hex.DecodeString(h)
			if err != nil {
				g.t.Fatal(err)
			}
			pts = append(pts, b)
		}
	}
	for i := int64(0); i < 60 && len(pts) < 60; i++ { // small abscissas
		if d := eccs.Decompress(c, append([]byte{2 + byte(i&1)}, be32(bi(i))...)); d != nil {
			pts = append(pts, d[1:])
		}
	}
	n := len(pts)
	for i := 0; i < n; i++ {
		pts = append(pts, neg(pts[i]))
	}
	forms := func(p []byte) [][]byte {
		r := [][]byte{p, append([]byte{4}, p...)}
		if !bytes.Equal(p, inf) {
			r = append(r, append([]byte{2 + p[63]&1}, p[:32]...))
		}
		return r
	}
	form := func(p []byte) []byte {
		if len(p) != 64 {
			return p
		}
		f := forms(p)
		return f[g.r.Intn(len(f))]
	}
	// operands that are no points
	bad := append([][]byte{}, g.lens(pts[0])...)
	bad = append(bad, inf[:33], append([]byte{4}, inf...), append([]byte{9}, pts[1]...), append([]byte{2}, be32(new(big.Int).Add(c.P, bi(3)))...))
	for i := 0; i < 6; i++ {
		b := append([]byte{}, pts[g.r.Intn(n)]...)
		b[g.r.Intn(64)] ^= 1 << uint(g.r.Intn(8))
		bad = append(bad, b, g.bytes(64), g.bytes(65), g.bytes(33))
	}
	x := new(big.Int).SetBytes(pts[0][:32])
	y := new(big.Int).SetBytes(pts[0][32:])
	if v := new(big.Int).Add(x, c.P); v.BitLen() <= 256 {
		bad = append(bad, raw(v, y))
	}
	bad = append(bad, raw(c.P, y), raw(x, max256), raw(bi(0), bi(1)), raw(bi(1), bi(0)), raw(c.P, c.P))

	add := func(p, q []byte) {
		p, q = g.spare(p), g.spare(q)
		var r []byte
		var ret uint16
		what := fmt.Sprintf("Point_add(%x, %x, %s)", p, q, s.name)
		g.guard(what, func() { r, ret = owcrypt.Point_add(p, q, s.id) }, p, q)
		wr, wret := eccs.PointAdd(c, p, q)
		if ret != wret || !bytes.Equal(r, wr) {
			g.fail("%s = %x, %#x; want %x, %#x", what, r, ret, wr, wret)
		}
		if len(p) != 64 || len(q) != 64 {
			return
		}
		what = fmt.Sprintf("Add(%x, %x, %s)", p, q, name)
		var in bool
		g.guard(what, func() { r, in = owcrypt.Add(p, q, name) }, p, q)
		wr, win := eccs.Add(c, p, q)
		if in != win || !bytes.Equal(r, wr) {
			g.fail("%s = %x, %v; want %x, %v", what, r, in, wr, win)
		}
	}
	mul := func(p, k []byte) {
		p, k = g.spare(p), g.spare(k)
		var r []byte
		var ret uint16
		what := fmt.Sprintf("Point_mul(%x, %x, %s)", p, k, s.name)
		g.guard(what, func() { r, ret = owcrypt.Point_mul(p, k, s.id) }, p, k)
		wr, wret := eccs.PointMul(c, p, k)
		if ret != wret || !bytes.Equal(r, wr) {
			g.fail("%s = %x, %#x; want %x, %#x", what, r, ret, wr, wret)
		}
		what = fmt.Sprintf("Point_mulBaseG_add(%x, %x, %s)", p, k, s.name)
		var in bool
		g.guard(what, func() { r, in = owcrypt.Point_mulBaseG_add(p, k, s.id) }, p, k)
		wr, win := eccs.PointMulBaseGAdd(c, p, k)
		if in != win || !bytes.Equal(r, wr) {
			g.fail("%s = %x, %v; want %x, %v", what, r, in, wr, win)
		}
	}
	base := func(k []byte) {
		k = g.spare(k)
		var r []byte
		what := fmt.Sprintf("Point_mulBaseG(%x, %s)", k, s.name)
		g.guard(what, func() { r = owcrypt.Point_mulBaseG(k, s.id) }, k)
		if w := eccs.MulBaseG(c, k); !bytes.Equal(r, w) {
			g.fail("%s = %x; want %x", what, r, w)
		}
	}

	// every pair of small multiples and their opposites, with infinity
	small := append([][]byte{inf}, pts[:9]...)
	for _, p := range pts[:9] {
		small = append(small, neg(p))
	}
	for _, p := range small {
		for _, q := range small {
			add(form(p), form(q))
		}
	}
	for _, p := range pts {
		for _, q := range [][]byte{p, neg(p), inf, pts[g.r.Intn(len(pts))]} {
			add(p, q)
			add(form(q), form(p))
		}
	}
	for _, b := range bad {
		add(b, pts[3])
		add(pts[3], b)
		mul(b, be32(bi(5)))
	}
	// scalars: edges, powers of two and windows, runs of zero and one bits
	ks := g.scalars(c.N, 40)
	for i := uint(0); i < 256; i++ {
		ks = append(ks, new(big.Int).Lsh(bi(1), i))
		if i%5 == 0 {
			v := new(big.Int).Sub(new(big.Int).Lsh(bi(1), i), bi(1))
			ks = append(ks, v, new(big.Int).Xor(v, max256), new(big.Int).Sub(c.N, v))
		}
	}
	for d := int64(1); d < 256; d += 7 {
		ks = append(ks, new(big.Int).Lsh(bi(d), uint(g.r.Intn(249))))
	}
	for i := 0; i < 64; i++ { // one digit of four or five bits
		ks = append(ks, new(big.Int).Lsh(bi(int64(1+g.r.Intn(31))), uint(4*i)))
	}
	for _, k := range ks {
		kb := be32(k)
		base(kb)
		mul(form(pts[g.r.Intn(len(pts))]), kb)
	}
	for _, k := range g.scalars(c.N, 3) {
		for _, p := range [][]byte{inf, pts[0], neg(pts[0]), pts[1], mult(k), neg(mult(k))} {
			mul(p, be32(k))
		}
	}
	for _, k := range g.lens(g.bytes(32)) {
		base(k)
		mul(pts[2], k)
	}
}
