// Package prims holds the primitives the specifications are written in. Each has an executable body
// (used by the harnesses in /verif/replay); in proofs the body is replaced by the abstract function it names.
package prims

import (
	"crypto/hmac"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"
	"strings"

	"github.com/blocktree/go-owcrypt/zzspec/blake2ss"
	"github.com/blocktree/go-owcrypt/zzspec/blakes"
	"github.com/blocktree/go-owcrypt/zzspec/keccaks"
	"github.com/blocktree/go-owcrypt/zzspec/sm3s"
	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/md4"
	"golang.org/x/crypto/ripemd160"
)

func via(h hash.Hash, m []byte) []byte {
	h.Write(m)
	return h.Sum(nil)
}

// Digest is the named hash of m.
func Digest(alg string, m []byte) []byte {
	switch alg {
	case "md4":
		return via(md4.New(), m)
	case "md5":
		return via(md5.New(), m)
	case "sha1":
		return via(sha1.New(), m)
	case "ripemd160":
		return via(ripemd160.New(), m)
	case "sha256":
		return via(sha256.New(), m)
	case "sha512":
		return via(sha512.New(), m)
	case "sm3":
		return sm3s.Sum(m)
	case "keccak256":
		return keccaks.Sum(m, 136, 1, 32)
	case "keccak512":
		return keccaks.Sum(m, 72, 1, 64)
	case "sha3-256":
		return keccaks.Sum(m, 136, 6, 32)
	case "sha3-512":
		return keccaks.Sum(m, 72, 6, 64)
	case "blake256":
		return blakes.Sum256(m, nil, 32)
	case "blake512":
		return blakes.Sum512(m, nil, 64)
	}
	var n int
	if k, _ := fmt.Sscanf(alg, "blake2b:%d", &n); k == 1 {
		h, err := blake2b.New(n, nil)
		if err != nil {
			panic(err)
		}
		return via(h, m)
	}
	if k, _ := fmt.Sscanf(alg, "blake2s:%d", &n); k == 1 {
		return blake2ss.Sum(m, nil, blake2ss.Params{Size: uint8(n), Fanout: 1, Depth: 1}, false)
	}
	panic("unknown algorithm " + alg)
}

// DigestN is the named hash with an n-byte digest.
func DigestN(alg string, n int, m []byte) []byte { return Digest(fmt.Sprintf("%s:%d", alg, n), m) }

type sm3obj struct{ b []byte }

func (h *sm3obj) Write(p []byte) (int, error) { h.b = append(h.b, p...); return len(p), nil }
func (h *sm3obj) Sum(in []byte) []byte        { return append(in, sm3s.Sum(h.b)...) }
func (h *sm3obj) Reset()                      { h.b = nil }
func (h *sm3obj) Size() int                   { return 32 }
func (h *sm3obj) BlockSize() int              { return 64 }

// HMAC is RFC 2104 HMAC over the named hash.
func HMAC(alg string, key, m []byte) []byte {
	var f func() hash.Hash
	switch strings.TrimSpace(alg) {
	case "sha256":
		f = sha256.New
	case "sha512":
		f = sha512.New
	case "sm3":
		f = func() hash.Hash { return &sm3obj{} }
	}
	h := hmac.New(f, key)
	return via(h, m)
}

// Cat is the concatenation of its arguments in fresh memory.
func Cat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}
