package blake512

import (
	"hash"
	"testing"

	"github.com/blocktree/go-owcrypt/zzspec/blakes"
	"github.com/blocktree/go-owcrypt/zzspec/drives"
)

func TestVerifH02(t *testing.T) {
	salt := make([]byte, 32)
	drives.Rand().Read(salt)
	salt[32-1] |= 1
	for _, c := range []struct {
		n    string
		mk   func() hash.Hash
		salt []byte
		size int
	}{{"New", New, nil, 512 / 8}, {"New384", New384, nil, 384 / 8},
		{"NewSalt", func() hash.Hash { return NewSalt(salt) }, salt, 512 / 8},
		{"New384Salt", func() hash.Hash { return New384Salt(salt) }, salt, 384 / 8}} {
		c := c
		if s := drives.Hash("blake512."+c.n, c.mk, func(m []byte) []byte { return blakes.Sum512(m, c.salt, c.size) }, 128, c.size, 4000); s != "" {
			t.Fatal(s)
		}
	}
}
