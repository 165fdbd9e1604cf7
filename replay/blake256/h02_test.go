package blake256

import (
	"hash"
	"testing"

	"github.com/blocktree/go-owcrypt/zzspec/blakes"
	"github.com/blocktree/go-owcrypt/zzspec/drives"
)

func TestVerifH02(t *testing.T) {
	salt := make([]byte, 16)
	drives.Rand().Read(salt)
	salt[16-1] |= 1
	for _, c := range []struct {
		n    string
		mk   func() hash.Hash
		salt []byte
		size int
	}{{"New", New, nil, 256 / 8}, {"New224", New224, nil, 224 / 8},
		{"NewSalt", func() hash.Hash { return NewSalt(salt) }, salt, 256 / 8},
		{"New224Salt", func() hash.Hash { return New224Salt(salt) }, salt, 224 / 8}} {
		c := c
		if s := drives.Hash("blake256."+c.n, c.mk, func(m []byte) []byte { return blakes.Sum256(m, c.salt, c.size) }, 64, c.size, 4000); s != "" {
			t.Fatal(s)
		}
	}
}
