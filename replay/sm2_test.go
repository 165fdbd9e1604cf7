package owcrypt_test

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"math/big"
	"testing"

	owcrypt "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/zzspec/eccs"
	"github.com/blocktree/go-owcrypt/zzspec/prims"
)

const sm2id = owcrypt.ECC_CURVE_SM2_STANDARD

func (g *gen) key(n *big.Int) []byte {
	for {
		v := new(big.Int).SetBytes(g.bytes(32))
		if g.r.Intn(8) == 0 {
			v.Rsh(v, uint(g.r.Intn(250)))
		}
		if v.Sign() > 0 && v.Cmp(n) < 0 {
			return be32(v)
		}
	}
}

func TestVerifS01(t *testing.T) {
	g := newGen(t)
	c := prims.SM2
	old := rand.Reader
	defer func() { rand.Reader = old }()
	ver := func(key, id, msg, sig []byte) {
		key, id, msg, sig = g.spare(key), g.spare(id), g.spare(msg), g.spare(sig)
		what := fmt.Sprintf("Verify(%x, %x, %x, %x, sm2)", key, id, msg, sig)
		var ret uint16
		g.guard(what, func() { ret = owcrypt.Verify(key, id, msg, sig, sm2id) }, key, id, msg, sig)
		if want := eccs.SM2Verify(key, id, msg, sig); ret != want {
			g.fail("%s = %#x, want %#x", what, ret, want)
		}
	}
	ids := [][]byte{nil, {}, []byte("1234567812345678"), {0}, g.bytes(31), g.bytes(32), g.bytes(255), g.bytes(8191), g.bytes(8192), g.bytes(9000), g.bytes(65536 / 8 * 2)}
	sign := func(key, id, msg []byte, fails bool) []byte {
		key, id, msg = g.spare(key), g.spare(id), g.spare(msg)
		what := fmt.Sprintf("Signature(%x, %x, %x, sm2)", key, id, msg)
		var sig []byte
		var v byte
		var ret uint16
		g.guard(what, func() { sig, v, ret = owcrypt.Signature(key, id, msg, sm2id) }, key, id, msg)
		d := new(big.Int).SetBytes(key)
		valid := len(key) == 32 && len(msg) == 32 && d.Sign() > 0 && new(big.Int).Add(d, bi(1)).Cmp(c.N) < 0 && len(id) < 8192
		if ret != owcrypt.SUCCESS {
			if len(sig) != 0 || valid && !fails {
				g.fail("%s = %x, %#x", what, sig, ret)
			}
			return nil
		}
		if !valid || len(sig) != 64 {
			g.fail("%s succeeds with %x", what, sig)
		}
		p, _ := eccs.GenPubkey(c, key)
		if eccs.SM2Verify(p, id, msg, sig) != owcrypt.SUCCESS {
			g.fail("%s = %x does not verify under %x", what, sig, p)
		}
		// the nonce point: k = s(1+d) + rd
		r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
		k := new(big.Int).Mul(s, new(big.Int).Add(d, bi(1)))
		k.Add(k, new(big.Int).Mul(r, d)).Mod(k, c.N)
		_, y := prims.ECBase(c, k)
		if byte(y.Bit(0)) != v {
			g.fail("%s = %x: v = %d is not the parity of the nonce point", what, sig, v)
		}
		if k.Add(k, r).Mod(k, c.N).Sign() == 0 {
			g.fail("%s = %x: r + k = n", what, sig)
		}
		return sig
	}
	short := g.shortKeys(c)
	for i := 0; i < 25; i++ {
		key, id, msg := g.key(c.N), ids[i%len(ids)], g.bytes(32)
		switch i {
		case 15, 16, 17, 18, 19, 20:
			key = be32(short[i-15])
		case 11:
			key = be32(new(big.Int).Sub(c.N, bi(2)))
		case 12:
			key = be32(bi(1))
		case 13:
			msg = make([]byte, 32)
		case 14:
			msg = be32(max256)
		}
		sig := sign(key, id, msg, false)
		if sig == nil {
			continue
		}
		p, _ := eccs.GenPubkey(c, key)
		ver(p, id, msg, sig)
		ver(p, ids[(i+1)%len(ids)], msg, sig)
		ver(p, id, g.bytes(32), sig)
		for j := 0; j < 3; j++ {
			b := append([]byte{}, sig...)
			b[g.r.Intn(64)] ^= 1 << uint(g.r.Intn(8))
			ver(p, id, msg, b)
		}
		q := append([]byte{}, p...)
		q[g.r.Intn(64)] ^= 1
		ver(q, id, msg, sig)
		if i < 3 {
			for _, v := range g.scalars(c.N, 0) {
				ver(p, id, msg, append(be32(v), sig[32:]...))
				ver(p, id, msg, append(append([]byte{}, sig[:32]...), be32(v)...))
			}
			for _, l := range g.lens(p) {
				ver(l, id, msg, sig)
			}
			for _, l := range g.lens(sig) {
				ver(p, id, msg, l)
			}
			for _, l := range g.lens(msg) {
				ver(p, id, l, sig)
			}
		}
	}
	// constructed: digest given directly; s = -r (t = 0), infinity, x + e that wraps, r + n
	for i := 0; i < 40; i++ {
		d := new(big.Int).SetBytes(g.key(c.N))
		p := append(be32(first(prims.ECBase(c, d))), be32(second(prims.ECBase(c, d)))...)
		s, r := new(big.Int).SetBytes(g.key(c.N)), new(big.Int).SetBytes(g.key(c.N))
		switch i % 5 {
		case 0: // t = 0
			s = new(big.Int).Sub(c.N, r)
		case 1: // s + t d = 0: infinity; e = r would make it pass if x = 0 were used
			t := new(big.Int).Mul(s, new(big.Int).ModInverse(d, c.N))
			t.Neg(t).Mod(t, c.N)
			r.Sub(t, s).Mod(r, c.N)
		case 2: // s = t d: equal points are added
			t := new(big.Int).Mul(s, new(big.Int).ModInverse(d, c.N))
			t.Mod(t, c.N)
			r.Sub(t, s).Mod(r, c.N)
		}
		tt := new(big.Int).Add(r, s)
		tt.Mod(tt, c.N)
		ux, uy := prims.ECBase(c, s)
		px, py := prims.ECBase(c, d)
		vx, vy := prims.ECMul(c, px, py, tt)
		x, _ := prims.ECAdd(c, ux, uy, vx, vy)
		e := new(big.Int).Sub(r, x)
		e.Mod(e, c.N)
		ver(p, nil, be32(e), append(be32(r), be32(s)...))
		ver(p, nil, be32(new(big.Int).Add(e, c.N)), append(be32(r), be32(s)...))
		ver(p, nil, be32(e), append(be32(new(big.Int).Add(r, c.N)), be32(s)...))
		ver(p, nil, be32(e), append(be32(r), be32(new(big.Int).Add(s, c.N))...))
		ver(append(be32(new(big.Int).Add(px, c.P)), p[32:]...), nil, be32(e), append(be32(r), be32(s)...))
	}
	// a key with a small abscissa, also written as x + p
	for x, n := bi(0), 0; n < 6; x = new(big.Int).Add(x, bi(1)) {
		q := eccs.Decompress(c, append([]byte{2}, be32(x)...))
		if q == nil {
			continue
		}
		n++
		s, tt := new(big.Int).SetBytes(g.key(c.N)), new(big.Int).SetBytes(g.key(c.N))
		r := new(big.Int).Sub(tt, s)
		r.Mod(r, c.N)
		ux, uy := prims.ECBase(c, s)
		vx, vy := prims.ECMul(c, x, new(big.Int).SetBytes(q[33:]), tt)
		px, _ := prims.ECAdd(c, ux, uy, vx, vy)
		e := new(big.Int).Sub(r, px)
		e.Mod(e, c.N)
		ver(q[1:], nil, be32(e), append(be32(r), be32(s)...))
		ver(append(be32(new(big.Int).Add(x, c.P)), q[33:]...), nil, be32(e), append(be32(r), be32(s)...))
	}
	for _, v := range g.scalars(c.N, 0) {
		sign(be32(v), nil, g.bytes(32), false)
	}
	for _, k := range g.lens(g.bytes(32)) {
		sign(k, nil, g.bytes(32), false)
		sign(be32(bi(3)), []byte{1}, k, false)
		sign(be32(bi(3)), nil, k, false)
	}
	for n := 0; n < 5; n++ {
		rand.Reader = &failReader{n}
		sign(be32(bi(7)), nil, g.bytes(32), true)
		rand.Reader = old
	}
	ver(make([]byte, 64), nil, make([]byte, 32), append(be32(bi(1)), be32(bi(1))...))
}

func second(a, b *big.Int) *big.Int { return b }

func TestVerifS02(t *testing.T) {
	g := newGen(t)
	c := prims.SM2
	old := rand.Reader
	defer func() { rand.Reader = old }()
	dec := func(key, ct []byte) []byte {
		key, ct = g.spare(key), g.spare(ct)
		what := fmt.Sprintf("Decryption(%x, %x)", key, ct)
		var m []byte
		var ret uint16
		g.guard(what, func() { m, ret = owcrypt.Decryption(key, ct, sm2id) }, key, ct)
		wm, wr := eccs.SM2Decrypt(key, ct)
		if ret != wr || !bytes.Equal(m, wm) {
			g.fail("%s = %x, %#x; want %x, %#x", what, m, ret, wm, wr)
		}
		return m
	}
	enc := func(p, m []byte, fails bool) []byte {
		p, m = g.spare(p), g.spare(m)
		what := fmt.Sprintf("Encryption(%x, %x)", p, m)
		var ct []byte
		var ret uint16
		g.guard(what, func() { ct, ret = owcrypt.Encryption(p, m, sm2id) }, p, m)
		valid := len(p) == 64 && len(m) > 0 && prims.ECOn(c, new(big.Int).SetBytes(p[:32]), new(big.Int).SetBytes(p[32:]))
		if (ret == owcrypt.SUCCESS) != valid && !fails || ret != owcrypt.SUCCESS && ct != nil {
			g.fail("%s = %x, %#x", what, ct, ret)
		}
		return ct
	}
	var lens []int
	for n := 1; n < 70; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 95, 96, 97, 127, 128, 129, 255, 256, 257, 1000, 8191, 8192, 8193, 8224, 70000)
	for i, n := range lens {
		key, m := g.key(c.N), g.bytes(n)
		if i%9 == 0 {
			m = make([]byte, n)
		}
		p, _ := eccs.GenPubkey(c, key)
		ct := enc(p, m, false)
		if len(ct) != n+97 {
			g.fail("Encryption(%x, %x) = %x", p, m, ct)
		}
		if got := dec(key, ct); !bytes.Equal(got, m) {
			g.fail("Encryption(%x, %x) = %x decrypts to %x under %x", p, m, ct, got, key)
		}
		for j := 0; j < 3; j++ {
			b := append([]byte{}, ct...)
			b[g.r.Intn(len(b))] ^= 1 << uint(g.r.Intn(8))
			dec(key, b)
		}
		b := append([]byte{}, ct...)
		b[len(b)-1] ^= 1
		dec(key, b)
		b = append([]byte{}, ct...)
		b[65+g.r.Intn(32)] ^= 1
		dec(key, b)
		b = append([]byte{}, ct...)
		b[96] ^= 0x80
		dec(key, b)
		if n < 40 {
			dec(key, ct[:n*2])
			dec(key, append(append([]byte{}, ct...), 0))
			dec(key, ct[:len(ct)-1])
			dec(be32(c.N), ct)
			dec(be32(bi(0)), ct)
			dec(key[1:], ct)
			dec(key, append([]byte{byte(n)}, ct[1:]...))
			// C1 at infinity or off the curve
			b = append([]byte{}, ct...)
			copy(b[1:65], make([]byte, 64))
			dec(key, b)
			b = append([]byte{}, ct...)
			b[64] ^= 1
			dec(key, b)
			q := append([]byte{}, p...)
			q[63] ^= 1
			enc(q, m, false)
		}
	}
	for n := 0; n <= 100; n++ {
		ct := g.bytes(n)
		if n > 0 {
			ct[0] = 4
		}
		if n >= 65 { // a valid C1
			x, y := prims.ECBase(c, bi(int64(n)))
			copy(ct[1:], append(be32(x), be32(y)...))
		}
		dec(g.key(c.N), ct)
	}
	// a one-byte message whose mask is zero must not be decrypted to anything, and encryption must take another nonce
	key := be32(bi(5))
	p, _ := eccs.GenPubkey(c, key)
	for k := int64(1); k < 2000; k++ {
		s := prims.Cat()
		x, y := prims.ECMul(c, new(big.Int).SetBytes(p[:32]), new(big.Int).SetBytes(p[32:]), bi(k))
		s = append(be32(x), be32(y)...)
		if eccs.SM2KDF(s, 1)[0] != 0 {
			continue
		}
		c1x, c1y := prims.ECBase(c, bi(k))
		h := prims.Digest("sm3", prims.Cat(s[:32], []byte{7}, s[32:]))
		dec(key, prims.Cat([]byte{4}, be32(c1x), be32(c1y), h, []byte{7}))
		// nonces are 40 bytes reduced mod n-1, plus 1
		rand.Reader = &constReader{b: [][]byte{new(big.Int).SetInt64(k - 1).FillBytes(make([]byte, 40))}, g: g}
		ct := enc(p, []byte{7}, false)
		rand.Reader = old
		if m := dec(key, ct); !bytes.Equal(m, []byte{7}) {
			g.fail("nonce %d for the key %x: ciphertext %x decrypts to %x", k, p, ct, m)
		}
		break
	}
	for n := 0; n < 4; n++ {
		rand.Reader = &failReader{n}
		enc(p, []byte{1, 2}, true)
		rand.Reader = old
	}
	for _, l := range g.lens(p) {
		enc(l, []byte{1}, false)
	}
	enc(make([]byte, 64), []byte{1}, false)
	enc(p, nil, false)
	enc(p, []byte{}, false)
	for _, l := range g.lens(key) {
		dec(l, g.bytes(120))
	}
	dec(key, nil)
	dec(key, []byte{})
}

func TestVerifS03(t *testing.T) {
	g := newGen(t)
	c := prims.SM2
	type A = [][]byte
	show := func(a A) string {
		s := ""
		for _, x := range a {
			s += fmt.Sprintf("%x ", x)
		}
		return s
	}
	cp := func(a A) A {
		r := make(A, len(a))
		for i := range a {
			r[i] = g.spare(a[i])
		}
		return r
	}
	ini := func(a A, n uint16) (k, s []byte, ret uint16) {
		a = cp(a)
		what := fmt.Sprintf("KeyAgreement_initiator_step2(%s, %d)", show(a), n)
		g.guard(what, func() {
			k, s, ret = owcrypt.KeyAgreement_initiator_step2(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], n, sm2id)
		}, a...)
		wk, ws, wr := eccs.KAInitiator(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], n)
		if ret != wr || !bytes.Equal(k, wk) || ret == owcrypt.SUCCESS && !bytes.Equal(s, ws) {
			g.fail("%s = %x %x %#x, want %x %x %#x", what, k, s, ret, wk, ws, wr)
		}
		return
	}
	res := func(a A, n uint16) (k, R, s1, s2 []byte, ret uint16) {
		a = cp(a)
		what := fmt.Sprintf("KeyAgreement_responder_ElGamal_step1(%s, %d)", show(a), n)
		g.guard(what, func() {
			k, R, s1, s2, ret = owcrypt.KeyAgreement_responder_ElGamal_step1(a[0], a[1], a[2], a[3], a[4], a[5], n, a[6], sm2id)
		}, a...)
		wk, wR, w1, w2, wr := eccs.KAResponder(a[0], a[1], a[2], a[3], a[4], a[5], n, a[6])
		if ret != wr || !bytes.Equal(k, wk) || ret == owcrypt.SUCCESS && !(bytes.Equal(R, wR) && bytes.Equal(s1, w1) && bytes.Equal(s2, w2)) {
			g.fail("%s = %x %x %x %x %#x, want %x %x %x %x %#x", what, k, R, s1, s2, ret, wk, wR, w1, w2, wr)
		}
		return
	}
	step2 := func(a, b []byte) uint16 {
		a, b = g.spare(a), g.spare(b)
		var ret uint16
		what := fmt.Sprintf("KeyAgreement_responder_step2(%x, %x)", a, b)
		g.guard(what, func() { ret = owcrypt.KeyAgreement_responder_step2(a, b, sm2id) }, a, b)
		if want := eccs.KACheck(a, b); ret != want {
			g.fail("%s = %#x, want %#x", what, ret, want)
		}
		return ret
	}
	var lens []int
	for n := 0; n < 70; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 95, 96, 97, 127, 128, 129, 255, 256, 257, 8160, 8191, 8192, 8193, 8224, 65535, 65534, 65504)
	pk := func(k []byte) []byte { p, _ := eccs.GenPubkey(c, k); return p }
	for i, n := range lens {
		da, db, rb := g.key(c.N), g.key(c.N), g.key(c.N)
		ida, idb := g.bytes(1+g.r.Intn(40)), g.bytes(1+g.r.Intn(40))
		if i == 3 {
			ida = g.bytes(8191)
		}
		var ra, Ra []byte
		if p := func() (p interface{}) {
			defer func() { p = recover() }()
			ra, Ra = owcrypt.KeyAgreement_initiator_step1(sm2id)
			return
		}(); p != nil || len(ra) != 32 || !bytes.Equal(Ra, pk(ra)) {
			g.fail("KeyAgreement_initiator_step1() = %x, %x (%v)", ra, Ra, p)
		}
		if i%7 == 1 { // short ephemeral keys
			ra = be32(bi(int64(i)))
			Ra = pk(ra)
			rb = be32(bi(int64(2 * i)))
		}
		ka, kb := []byte(nil), []byte(nil)
		rargs := A{ida, idb, db, pk(db), pk(da), Ra, rb}
		kb, Rb, s1, s2, r1 := res(rargs, uint16(n))
		if i%5 == 0 { // ephemeral key drawn inside
			a := cp(rargs)
			g.guard("KeyAgreement_responder_step1", func() {
				kb, Rb, s1, s2, r1 = owcrypt.KeyAgreement_responder_step1(a[0], a[1], a[2], a[3], a[4], a[5], uint16(n), sm2id)
			}, a...)
			if r1 != owcrypt.SUCCESS || len(Rb) != 64 {
				g.fail("KeyAgreement_responder_step1(%s, %d) = %#x", show(a), n, r1)
			}
		}
		args := A{ida, idb, da, pk(da), pk(db), ra, Ra, Rb, s2}
		ka, sa, r2 := ini(args, uint16(n))
		if r1 != owcrypt.SUCCESS || r2 != owcrypt.SUCCESS || !bytes.Equal(ka, kb) || len(ka) != n || step2(s1, sa) != owcrypt.SUCCESS {
			g.fail("key agreement with keys %x %x, ephemeral %x %x, identifiers %x %x, length %d: keys %x %x, codes %#x %#x", da, db, ra, rb, ida, idb, n, ka, kb, r1, r2)
		}
		for j := 0; j < 3; j++ {
			b := append([]byte{}, s2...)
			b[g.r.Intn(32)] ^= 1 << uint(g.r.Intn(8))
			args[8] = b
			ini(args, uint16(n))
			b = append([]byte{}, sa...)
			b[g.r.Intn(32)] ^= 1 << uint(g.r.Intn(8))
			step2(s1, b)
			step2(b, s1)
		}
		args[8] = s2
		if i < 12 {
			// every argument malformed in turn
			for k := range args {
				for _, l := range append(g.lens(args[k]), make([]byte, len(args[k]))) {
					b := append(A{}, args...)
					b[k] = l
					if k == 8 || k == 3 && len(l) == 64 {
						ini(b, 32)
						continue
					}
					ini(b, 32)
				}
				if len(args[k]) == 64 {
					b := append(A{}, args...)
					b[k] = append([]byte{}, args[k]...)
					b[k][g.r.Intn(64)] ^= 1
					ini(b, 32)
				}
			}
			for k := range rargs {
				for _, l := range append(g.lens(rargs[k]), make([]byte, len(rargs[k]))) {
					if k == 6 && l == nil {
						continue
					}
					b := append(A{}, rargs...)
					b[k] = l
					res(b, 32)
				}
				if len(rargs[k]) == 64 {
					b := append(A{}, rargs...)
					b[k] = append([]byte{}, rargs[k]...)
					b[k][g.r.Intn(64)] ^= 1
					res(b, 32)
				}
			}
			for _, l := range g.lens(s1) {
				step2(l, s1)
				step2(s1, l)
				step2(l, l)
			}
			big := g.bytes(8192)
			b := append(A{}, args...)
			b[0] = big
			ini(b, 16)
			b = append(A{}, rargs...)
			b[1] = big
			res(b, 16)
			// U at infinity: t = 0
			x := new(big_).SetBytes(Ra[16:32])
			x.SetBit(x, 127, 1)
			x.Mul(x, new(big_).SetBytes(ra)).Neg(x).Mod(x, c.N)
			b = append(A{}, args...)
			b[2] = be32(x)
			ini(b, 16)
		}
	}
	for _, v := range g.scalars(c.N, 0) {
		res(A{[]byte{1}, []byte{2}, g.key(c.N), pk(g.key(c.N)), pk(g.key(c.N)), pk(g.key(c.N)), be32(v)}, 33)
	}
}

type big_ = big.Int
