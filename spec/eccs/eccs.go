// Package eccs states the public elliptic-curve functions of owcrypt on secp256k1, secp256r1 and SM2.
package eccs

import (
	"math/big"

	owcrypt "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/zzspec/prims"
)

func num(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

func pub(x, y *big.Int) []byte {
	r := make([]byte, 64)
	x.FillBytes(r[:32])
	y.FillBytes(r[32:])
	return r
}

func inRange(v, n *big.Int) bool { return v.Sign() > 0 && v.Cmp(n) < 0 }

// GenPubkey (K01): X || Y of d*G for d in [1, n-1].
func GenPubkey(c *prims.Curve, priv []byte) ([]byte, uint16) {
	if len(priv) != 32 || !inRange(num(priv), c.N) {
		return nil, owcrypt.ECC_PRIKEY_ILLEGAL
	}
	return pub(prims.ECBase(c, num(priv))), owcrypt.SUCCESS
}

// Verify (E02): ECDSA verification.
func Verify(c *prims.Curve, key, hash, sig []byte) uint16 {
	if len(key) != 64 || len(hash) != 32 || len(sig) != 64 {
		return owcrypt.FAILURE
	}
	r, s := num(sig[:32]), num(sig[32:])
	if !inRange(r, c.N) || !inRange(s, c.N) {
		return owcrypt.FAILURE
	}
	x, y := num(key[:32]), num(key[32:])
	if !prims.ECOn(c, x, y) {
		return owcrypt.FAILURE
	}
	w := new(big.Int).ModInverse(s, c.N)
	ux, uy := prims.ECBase(c, new(big.Int).Mul(num(hash), w))
	vx, vy := prims.ECMul(c, x, y, new(big.Int).Mul(r, w))
	rx, ry := prims.ECAdd(c, ux, uy, vx, vy)
	if rx.Sign() == 0 && ry.Sign() == 0 {
		return owcrypt.FAILURE
	}
	if rx.Mod(rx, c.N).Cmp(r) != 0 {
		return owcrypt.FAILURE
	}
	return owcrypt.SUCCESS
}

// Decompress (C01): 0x04 || X || Y for 02/03 || X.
func Decompress(c *prims.Curve, in []byte) []byte {
	if len(in) != 33 || in[0] != 2 && in[0] != 3 {
		return nil
	}
	x := num(in[1:])
	if x.Cmp(c.P) >= 0 {
		return nil
	}
	t := new(big.Int).Mul(x, x)
	t.Add(t, c.A)
	t.Mul(t, x)
	t.Add(t, c.B)
	t.Mod(t, c.P)
	y := new(big.Int).ModSqrt(t, c.P)
	if y == nil {
		return nil
	}
	if byte(y.Bit(0)) != in[0]&1 {
		y.Sub(c.P, y)
	}
	r := make([]byte, 65)
	r[0] = 4
	copy(r[1:], in[1:])
	y.FillBytes(r[33:])
	return r
}

// Compress (C01): 02/03 || X of X || Y or 04 || X || Y.
func Compress(p []byte) []byte {
	if len(p) == 65 && p[0] == 4 {
		p = p[1:]
	}
	if len(p) != 64 {
		return nil
	}
	return append([]byte{2 + p[63]&1}, p[:32]...)
}

// Recover (E03): the key Q = r^-1 (sR - eG) for the point R of abscissa r and parity v. Where that is infinity and
// v = 1 the answer is the key for -R, under which the signature verifies as well.
func Recover(c *prims.Curve, sig, hash []byte) ([]byte, uint16) {
	if len(sig) != 65 || len(hash) != 32 || sig[64] > 1 {
		return nil, owcrypt.FAILURE
	}
	r, s := num(sig[:32]), num(sig[32:64])
	if !inRange(r, c.N) || !inRange(s, c.N) {
		return nil, owcrypt.FAILURE
	}
	in := append([]byte{2 + sig[64]}, sig[:32]...)
	R := Decompress(c, in)
	if R == nil {
		return nil, owcrypt.FAILURE
	}
	w := new(big.Int).ModInverse(r, c.N)
	bx, by := prims.ECBase(c, new(big.Int).Mul(new(big.Int).Neg(num(hash)), w))
	for _, k := range []*big.Int{s, new(big.Int).Neg(s)} {
		ax, ay := prims.ECMul(c, num(R[1:33]), num(R[33:]), new(big.Int).Mul(k, w))
		x, y := prims.ECAdd(c, ax, ay, bx, by)
		if x.Sign() != 0 || y.Sign() != 0 {
			return pub(x, y), owcrypt.SUCCESS
		}
		if sig[64] == 0 {
			break
		}
	}
	return nil, owcrypt.FAILURE
}

// SM2Digest is e of GB/T 32918.2: the 32-byte digest itself where no identifier is given, else the hash of Z || message.
func SM2Digest(key, id, msg []byte) *big.Int {
	if id == nil {
		return num(msg)
	}
	z := SM2Z(key, id)
	if z == nil {
		return nil
	}
	return num(prims.Digest("sm3", prims.Cat(z, msg)))
}

// SM2Z is the identifier hash Z of GB/T 32918.2, 5.5.
func SM2Z(key, id []byte) []byte {
	if len(id) >= 8192 {
		return nil
	}
	c := prims.SM2
	n := 8 * len(id)
	a := new(big.Int).Add(c.P, c.A)
	m := prims.Cat([]byte{byte(n >> 8), byte(n)}, id, pub(a, c.B), pub(c.Gx, c.Gy), key)
	return prims.Digest("sm3", m)
}

// SM2Verify is the verification of GB/T 32918.2, 7.1.
func SM2Verify(key, id, msg, sig []byte) uint16 {
	c := prims.SM2
	if len(key) != 64 || len(msg) != 32 || len(sig) != 64 {
		return owcrypt.FAILURE
	}
	r, s := num(sig[:32]), num(sig[32:])
	if !inRange(r, c.N) || !inRange(s, c.N) {
		return owcrypt.FAILURE
	}
	t := new(big.Int).Add(r, s)
	if t.Mod(t, c.N).Sign() == 0 {
		return owcrypt.FAILURE
	}
	x, y := num(key[:32]), num(key[32:])
	if !prims.ECOn(c, x, y) {
		return owcrypt.FAILURE
	}
	e := SM2Digest(key, id, msg)
	if e == nil {
		return owcrypt.FAILURE
	}
	ux, uy := prims.ECBase(c, s)
	vx, vy := prims.ECMul(c, x, y, t)
	px, py := prims.ECAdd(c, ux, uy, vx, vy)
	if px.Sign() == 0 && py.Sign() == 0 {
		return owcrypt.FAILURE
	}
	px.Add(px, e)
	if px.Mod(px, c.N).Cmp(r) != 0 {
		return owcrypt.FAILURE
	}
	return owcrypt.SUCCESS
}

// SM2KDF is the key derivation function of GB/T 32918.4, 5.4.3: n bytes.
func SM2KDF(z []byte, n int) []byte {
	var r []byte
	for ct := uint32(1); len(r) < n; ct++ {
		r = prims.Cat(r, prims.Digest("sm3", prims.Cat(z, []byte{byte(ct >> 24), byte(ct >> 16), byte(ct >> 8), byte(ct)})))
	}
	return r[:n]
}

func xor(a, b []byte) []byte {
	r := make([]byte, len(a))
	for i := range a {
		r[i] = a[i] ^ b[i]
	}
	return r
}

func zero(b []byte) bool {
	var o byte
	for _, v := range b {
		o |= v
	}
	return o == 0
}

// SM2Encrypt is GB/T 32918.4, 6.1 for the nonce k: 04 || C1 || C3 || C2, or nil where the mask is zero and another nonce must be taken.
func SM2Encrypt(key, msg []byte, k *big.Int) []byte {
	c := prims.SM2
	c1 := pub(prims.ECBase(c, k))
	s := pub(prims.ECMul(c, num(key[:32]), num(key[32:]), k))
	t := SM2KDF(s, len(msg))
	if zero(t) {
		return nil
	}
	return prims.Cat([]byte{4}, c1, prims.Digest("sm3", prims.Cat(s[:32], msg, s[32:])), xor(msg, t))
}

// SM2Decrypt is GB/T 32918.4, 7.1 on 04 || C1 || C3 || C2.
func SM2Decrypt(key, ct []byte) ([]byte, uint16) {
	c := prims.SM2
	if len(key) != 32 {
		return nil, owcrypt.ECC_PRIKEY_ILLEGAL
	}
	if len(ct) == 0 {
		return nil, owcrypt.MESSAGE_ILLEGAL
	}
	d := num(key)
	if !inRange(d, c.N) {
		return nil, owcrypt.ECC_PRIKEY_ILLEGAL
	}
	if len(ct) < 98 || ct[0] != 4 {
		return nil, owcrypt.FAILURE
	}
	x, y := num(ct[1:33]), num(ct[33:65])
	if !prims.ECOn(c, x, y) {
		return nil, owcrypt.FAILURE
	}
	s := pub(prims.ECMul(c, x, y, d))
	t := SM2KDF(s, len(ct)-97)
	if zero(t) {
		return nil, owcrypt.FAILURE
	}
	m := xor(ct[97:], t)
	u := prims.Digest("sm3", prims.Cat(s[:32], m, s[32:]))
	if string(u) != string(ct[65:97]) {
		return nil, owcrypt.FAILURE
	}
	return m, owcrypt.SUCCESS
}

// SM2RoundTrip decrypts what was encrypted: the result is the message wherever the nonce was usable.
func SM2RoundTrip(key, msg []byte, k *big.Int) ([]byte, uint16, bool) {
	p, _ := GenPubkey(prims.SM2, key)
	ct := SM2Encrypt(p, msg, k)
	if ct == nil {
		return nil, 0, false
	}
	m, r := SM2Decrypt(key, ct)
	return m, r, true
}

func half(x []byte) *big.Int {
	b := append([]byte{}, x[16:32]...)
	b[0] |= 0x80
	return num(b)
}

func isPoint(c *prims.Curve, p []byte) bool {
	return len(p) == 64 && prims.ECOn(c, num(p[:32]), num(p[32:]))
}

func idOK(id []byte) bool { return len(id) > 0 && len(id) < 8192 }

// kaPoint is U (or V) of GB/T 32918.3: [d + x~ r](P' + [x'~] R').
func kaPoint(d, r, R, peer, peerR []byte) []byte {
	c := prims.SM2
	t := new(big.Int).Mul(half(R), num(r))
	t.Add(t, num(d))
	t.Mod(t, c.N)
	x, y := prims.ECMul(c, num(peerR[:32]), num(peerR[32:]), half(peerR))
	x, y = prims.ECAdd(c, num(peer[:32]), num(peer[32:]), x, y)
	x, y = prims.ECMul(c, x, y, t)
	if x.Sign() == 0 && y.Sign() == 0 {
		return nil
	}
	return pub(x, y)
}

func kaConfirm(tag byte, u, za, zb, ra, rb []byte) []byte {
	h := prims.Digest("sm3", prims.Cat(u[:32], za, zb, ra, rb))
	return prims.Digest("sm3", prims.Cat([]byte{tag}, u[32:], h))
}

// KAInitiator is GB/T 32918.3, 6.1, steps A4 to A10.
func KAInitiator(ida, idb, da, pa, pb, ra, Ra, Rb, sin []byte, n uint16) (key, sout []byte, ret uint16) {
	c := prims.SM2
	if !isPoint(c, Rb) || len(Ra) != 64 || len(ra) != 32 || len(da) != 32 || !isPoint(c, pb) || len(pa) != 64 || !idOK(ida) || !idOK(idb) {
		return nil, nil, owcrypt.FAILURE
	}
	u := kaPoint(da, ra, Ra, pb, Rb)
	if u == nil {
		return nil, nil, owcrypt.FAILURE
	}
	za, zb := SM2Z(pa, ida), SM2Z(pb, idb)
	if len(sin) != 32 || string(sin) != string(kaConfirm(2, u, za, zb, Ra, Rb)) {
		return nil, nil, owcrypt.FAILURE
	}
	return SM2KDF(prims.Cat(u, za, zb), int(n)), kaConfirm(3, u, za, zb, Ra, Rb), owcrypt.SUCCESS
}

// KAResponder is GB/T 32918.3, 6.1, steps B2 to B9, for the given ephemeral key.
func KAResponder(ida, idb, db, pb, pa, Ra []byte, n uint16, rb []byte) (key, Rb, s1, s2 []byte, ret uint16) {
	c := prims.SM2
	if !isPoint(c, Ra) || len(rb) != 32 || !inRange(num(rb), c.N) || len(db) != 32 || !isPoint(c, pa) || len(pb) != 64 || !idOK(ida) || !idOK(idb) {
		return nil, nil, nil, nil, owcrypt.FAILURE
	}
	Rb, _ = GenPubkey(c, rb)
	u := kaPoint(db, rb, Rb, pa, Ra)
	if u == nil {
		return nil, nil, nil, nil, owcrypt.FAILURE
	}
	za, zb := SM2Z(pa, ida), SM2Z(pb, idb)
	return SM2KDF(prims.Cat(u, za, zb), int(n)), Rb, kaConfirm(3, u, za, zb, Ra, Rb), kaConfirm(2, u, za, zb, Ra, Rb), owcrypt.SUCCESS
}

// KACheck is step B10.
func KACheck(sa, s2 []byte) uint16 {
	if len(sa) != 32 || len(s2) != 32 || string(sa) != string(s2) {
		return owcrypt.FAILURE
	}
	return owcrypt.SUCCESS
}

// KARun is an honest run of both parties; it answers whether both hold the same key and accept each other.
func KARun(ida, idb, da, db, ra, rb []byte, n uint16) bool {
	c := prims.SM2
	pa, r1 := GenPubkey(c, da)
	pb, r2 := GenPubkey(c, db)
	Ra, r3 := GenPubkey(c, ra)
	if r1 != owcrypt.SUCCESS || r2 != owcrypt.SUCCESS || r3 != owcrypt.SUCCESS || !inRange(num(rb), c.N) || !idOK(ida) || !idOK(idb) {
		return true
	}
	kb, Rb, s1, s2, r4 := KAResponder(ida, idb, db, pb, pa, Ra, n, rb)
	if r4 != owcrypt.SUCCESS {
		return true // U is the point at infinity: the standard aborts the run
	}
	ka, sa, r5 := KAInitiator(ida, idb, da, pa, pb, ra, Ra, Rb, s2, n)
	return r5 == owcrypt.SUCCESS && string(ka) == string(kb) && len(ka) == int(n) && KACheck(s1, sa) == owcrypt.SUCCESS
}

// operand (G01, G02): X || Y of a point, 64 zero bytes are infinity.
func operand(c *prims.Curve, p []byte) (x, y *big.Int, ok bool) {
	if len(p) != 64 {
		return nil, nil, false
	}
	x, y = num(p[:32]), num(p[32:])
	return x, y, x.Sign() == 0 && y.Sign() == 0 || prims.ECOn(c, x, y)
}

func finite(x, y *big.Int) (p []byte, infinity bool) {
	if x.Sign() == 0 && y.Sign() == 0 {
		return nil, true
	}
	return pub(x, y), false
}

// Add, Mul, MulBaseGAdd (G01, G02): P + Q, kP and kG + P, and whether that is infinity; no result for other operands.
func Add(c *prims.Curve, p, q []byte) ([]byte, bool) {
	x1, y1, ok1 := operand(c, p)
	if !ok1 {
		return nil, false
	}
	x2, y2, ok2 := operand(c, q)
	if !ok2 {
		return nil, false
	}
	return finite(prims.ECAdd(c, x1, y1, x2, y2))
}

func Mul(c *prims.Curve, p, k []byte) ([]byte, bool) {
	x, y, ok := operand(c, p)
	if !ok {
		return nil, false
	}
	return finite(prims.ECMul(c, x, y, num(k)))
}

func MulBaseGAdd(c *prims.Curve, p, k []byte) ([]byte, bool) {
	x, y, ok := operand(c, p)
	if !ok {
		return nil, false
	}
	gx, gy := prims.ECBase(c, num(k))
	return finite(prims.ECAdd(c, gx, gy, x, y))
}

// The exported functions: operands are also accepted as 02/03 || X and ?? || X || Y, scalars have 32 bytes.
func xy(c *prims.Curve, p []byte) []byte {
	if len(p) == 33 {
		p = Decompress(c, p)
	}
	if len(p) == 65 {
		p = p[1:]
	}
	if len(p) != 64 {
		return nil
	}
	return p
}

func code(p []byte) ([]byte, uint16) {
	if p == nil {
		return nil, owcrypt.FAILURE
	}
	return p, owcrypt.SUCCESS
}

func PointAdd(c *prims.Curve, p, q []byte) ([]byte, uint16) {
	if p = xy(c, p); p == nil {
		return nil, owcrypt.FAILURE
	}
	if q = xy(c, q); q == nil {
		return nil, owcrypt.FAILURE
	}
	r, _ := Add(c, p, q)
	return code(r)
}

func PointMul(c *prims.Curve, p, k []byte) ([]byte, uint16) {
	if p = xy(c, p); p == nil || len(k) != 32 {
		return nil, owcrypt.FAILURE
	}
	r, _ := Mul(c, p, k)
	return code(r)
}

// MulBaseG: the compressed kG for k in [1, n-1].
func MulBaseG(c *prims.Curve, k []byte) []byte {
	p, ret := GenPubkey(c, k)
	if ret != owcrypt.SUCCESS {
		return nil
	}
	return Compress(p)
}

func PointMulBaseGAdd(c *prims.Curve, p, k []byte) ([]byte, bool) {
	if len(k) != 32 {
		return nil, false
	}
	return MulBaseGAdd(c, p, k)
}
