// Package hsel states what each selector of owcrypt.Hash and owcrypt.Hmac means.
package hsel

import (
	owcrypt "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/zzspec/prims"
)

func Hash(data []byte, n uint16, sel uint32) []byte {
	switch sel {
	case owcrypt.HASH_ALG_MD4:
		return prims.Digest("md4", data)
	case owcrypt.HASH_ALG_MD5:
		return prims.Digest("md5", data)
	case owcrypt.HASH_ALG_SHA1:
		return prims.Digest("sha1", data)
	case owcrypt.HASH_ALG_SHA256:
		return prims.Digest("sha256", data)
	case owcrypt.HASH_ALG_SHA512:
		return prims.Digest("sha512", data)
	case owcrypt.HASH_ALG_RIPEMD160:
		return prims.Digest("ripemd160", data)
	case owcrypt.HASH_ALG_SM3:
		return prims.Digest("sm3", data)
	case owcrypt.HASH_ALG_SHA3_256:
		return prims.Digest("sha3-256", data)
	case owcrypt.HASH_ALG_SHA3_512:
		return prims.Digest("sha3-512", data)
	case owcrypt.HASH_ALG_KECCAK256:
		return prims.Digest("keccak256", data)
	case owcrypt.HASH_ALG_KECCAK512:
		return prims.Digest("keccak512", data)
	case owcrypt.HASH_ALG_BLAKE256:
		return prims.Digest("blake256", data)
	case owcrypt.HASH_ALG_BLAKE512:
		return prims.Digest("blake512", data)
	case owcrypt.HASH_ALG_DOUBLE_SHA256:
		return prims.Digest("sha256", prims.Digest("sha256", data))
	case owcrypt.HASH_ALG_HASH160:
		return prims.Digest("ripemd160", prims.Digest("sha256", data))
	case owcrypt.HASH_ALG_KECCAK256_RIPEMD160:
		return prims.Digest("ripemd160", prims.Digest("keccak256", data))
	case owcrypt.HASH_ALG_SHA3_256_RIPEMD160:
		return prims.Digest("ripemd160", prims.Digest("sha3-256", data))
	case owcrypt.HASH_ALG_BLAKE2B:
		if n < 1 || n > 64 {
			return nil
		}
		return prims.DigestN("blake2b", int(n), data)
	case owcrypt.HASH_ALG_BLAKE2S:
		if n == 0 { // the default length
			n = 32
		}
		if n > 32 {
			return nil
		}
		return prims.DigestN("blake2s", int(n), data)
	}
	return nil
}

func Hmac(key, data []byte, sel uint32) []byte {
	switch sel {
	case owcrypt.HMAC_SHA256_ALG:
		return prims.HMAC("sha256", key, data)
	case owcrypt.HMAC_SHA512_ALG:
		return prims.HMAC("sha512", key, data)
	case owcrypt.HMAC_SM3_ALG:
		return prims.HMAC("sm3", key, data)
	}
	return nil
}
