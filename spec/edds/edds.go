// Package edds states the public functions of owcrypt/eddsa.
package edds

import (
	owcrypt "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/eddsa"
	"github.com/blocktree/go-owcrypt/zzspec/prims"
)

func arr(b []byte) (r [32]byte) { copy(r[:], b); return }

func sha512(parts ...[]byte) (r [64]byte) {
	copy(r[:], prims.Digest("sha512", prims.Cat(parts...)))
	return
}

// rfcKey expands a private key as RFC 8032 does: the clamped scalar and the nonce prefix.
func rfcKey(key []byte) (k, prefix [32]byte) {
	d := sha512(key)
	copy(k[:], d[:32])
	copy(prefix[:], d[32:])
	k[0] &= 0xf8
	k[31] = k[31]&0x7f | 0x40
	return
}

// GenPub is the public key of a private key: RFC 8032, raw scalar, raw scalar as Montgomery abscissa.
func GenPub(kind int, key []byte) ([]byte, bool) {
	if len(key) != 32 {
		return nil, false
	}
	var p [32]byte
	switch kind {
	case 0:
		k, _ := rfcKey(key)
		p = prims.EdBase(k)
	case 1:
		p = prims.EdBase(arr(key))
	case 2:
		p = prims.EdToMont(prims.EdBase(arr(key)))
	}
	return p[:], true
}

func GenPubkey(kind int, key []byte) ([]byte, uint16) {
	p, ok := GenPub(kind, key)
	if !ok {
		return nil, owcrypt.FAILURE
	}
	return p, owcrypt.SUCCESS
}

// sign is the Schnorr signature for the scalar k with nonce digest d under the Edwards key p.
func sign(k, p [32]byte, d [64]byte, msg []byte) []byte {
	r := prims.EdReduce(d)
	R := prims.EdBase(r)
	s := prims.EdMulAdd(prims.EdReduce(sha512(R[:], p[:], msg)), k, r)
	return append(append([]byte{}, R[:]...), s[:]...)
}

// Sign is the signature on msg, with the last drawn random bytes as nonce seed.
func Sign(kind int, key, msg []byte) ([]byte, bool) {
	if len(key) != 32 {
		return nil, false
	}
	switch kind {
	case 0:
		k, prefix := rfcKey(key)
		return sign(k, prims.EdBase(k), sha512(prefix[:], msg), msg), true
	case 1:
		var rnd [32]byte
		prims.LastRandom(rnd[:])
		k := arr(key)
		return sign(k, prims.EdBase(k), sha512(rnd[:], msg), msg), true
	}
	var rnd [64]byte
	var pre [32]byte
	prims.LastRandom(rnd[:])
	for i := range pre {
		pre[i] = 0xff
	}
	pre[0] = 0xfe
	k := arr(key)
	p := prims.EdBase(k)
	s := sign(k, p, sha512(pre[:], key, msg, rnd[:]), msg)
	s[63] |= p[31] & 0x80
	return s, true
}

// Verify is the verdict on a signature.
func Verify(kind int, pub, msg, sig []byte) bool {
	if len(pub) != 32 || len(sig) != 64 {
		return false
	}
	p := arr(pub)
	R, s := arr(sig[:32]), arr(sig[32:])
	if kind == 2 {
		p = prims.EdOfMont(p)
		p[31] |= s[31] & 0x80
		s[31] &= 0x7f
	}
	if s[31]&0xe0 != 0 || !prims.EdOn(p) {
		return false
	}
	return prims.EdSub(prims.EdReduce(sha512(R[:], p[:], msg)), p, s) == R
}

func VerifyCode(kind int, pub, msg, sig []byte) uint16 {
	if Verify(kind, pub, msg, sig) {
		return owcrypt.SUCCESS
	}
	return owcrypt.FAILURE
}

// RoundTrip: signatures verify under the matching public key.
func RoundTrip(kind int, key, msg []byte) bool {
	var pub, sig []byte
	var e1, e2 error
	switch kind {
	case 0:
		pub, e1 = eddsa.CURVE25519_genPub(key)
		sig, e2 = eddsa.CURVE25519_sign(key, msg)
		return e1 == nil && e2 == nil && eddsa.CURVE25519_verify(pub, msg, sig)
	case 1:
		pub, e1 = eddsa.ED25519_genPub(key)
		sig, e2 = eddsa.ED25519_sign(key, msg)
		return e1 == nil && e2 == nil && eddsa.ED25519_verify(pub, msg, sig)
	}
	prims.EdNotNeutral(prims.EdBase(arr(key)))
	pub, e1 = eddsa.X25519_genPub(key)
	sig, e2 = eddsa.X25519_sign(key, msg)
	return e1 == nil && e2 == nil && eddsa.X25519_verify(pub, msg, sig)
}

// ConvertXToEd and ConvertEdToX are the birational maps.
func ConvertXToEd(u [32]byte) ([32]byte, bool) {
	if !prims.EdCanonical(u) {
		return [32]byte{}, false
	}
	return prims.EdOfMont(u), true
}
func ConvertEdToX(p [32]byte) ([32]byte, bool) { return prims.EdToMont(p), true }

func PubXToEd(x []byte) ([]byte, bool) {
	if len(x) != 32 || !prims.EdCanonical(arr(x)) {
		return nil, false
	}
	r := prims.EdOfMont(arr(x))
	return r[:], true
}
func PubEdToX(x []byte) ([]byte, bool) {
	if len(x) != 32 {
		return nil, false
	}
	r := prims.EdToMont(arr(x))
	return r[:], true
}

// MulBaseG, Add and MulBaseGAdd are the point operations.
func MulBaseG(k []byte) []byte {
	if len(k) != 32 {
		return nil
	}
	p := prims.EdBase(arr(k))
	return p[:]
}
func Add(p, q []byte) ([]byte, uint16) {
	if len(p) != 32 || len(q) != 32 || !prims.EdOn(arr(p)) || !prims.EdOn(arr(q)) {
		return nil, owcrypt.FAILURE
	}
	r, inf := prims.EdAdd(arr(p), arr(q))
	if inf {
		return nil, owcrypt.FAILURE
	}
	return r[:], owcrypt.SUCCESS
}
func MulBaseGAdd(p, k []byte) ([]byte, bool) {
	if len(k) != 32 || len(p) != 32 || !prims.EdOn(arr(p)) {
		return nil, false
	}
	r, inf := prims.EdAdd(arr(p), prims.EdBase(arr(k)))
	if inf {
		return nil, true
	}
	return r[:], false
}

// SignCode is owcrypt.Signature.
func SignCode(kind int, key, msg []byte) ([]byte, byte, uint16) {
	s, ok := Sign(kind, key, msg)
	if !ok {
		return nil, 0, owcrypt.FAILURE
	}
	return s, 0, owcrypt.SUCCESS
}
