package sha3

import (
	"bytes"
	"hash"
	"testing"

	"github.com/blocktree/go-owcrypt/zzspec/drives"
	"github.com/blocktree/go-owcrypt/zzspec/keccaks"
)

func TestVerifH04(t *testing.T) {
	r := drives.Rand()
	for _, c := range []struct {
		n          string
		mk         func() hash.Hash
		rate, size int
		ds         byte
		sum        func(m []byte) []byte
	}{{"NewKeccak256", NewKeccak256, 136, 32, 1, nil}, {"NewKeccak512", NewKeccak512, 72, 64, 1, nil},
		{"New224", New224, 144, 28, 6, func(m []byte) []byte { x := Sum224(m); return x[:] }}, {"New256", New256, 136, 32, 6, func(m []byte) []byte { x := Sum256(m); return x[:] }},
		{"New384", New384, 104, 48, 6, func(m []byte) []byte { x := Sum384(m); return x[:] }}, {"New512", New512, 72, 64, 6, func(m []byte) []byte { x := Sum512(m); return x[:] }}} {
		c := c
		ref := func(m []byte) []byte { return keccaks.Sum(m, c.rate, c.ds, c.size) }
		if s := drives.Hash("sha3."+c.n, c.mk, ref, c.rate, c.size, 1500); s != "" {
			t.Fatal(s)
		}
		buf := make([]byte, 700)
		r.Read(buf)
		for n := 0; c.sum != nil && n < 700; n++ {
			if got, want := c.sum(buf[:n]), ref(buf[:n]); !bytes.Equal(got, want) {
				t.Fatalf("FAILING-INPUT: one-shot digest %s of %x = %x, want %x", c.n, buf[:n], got, want)
			}
		}
	}
	buf := make([]byte, 2000)
	r.Read(buf)
	for _, c := range []struct {
		n    string
		mk   func() ShakeHash
		rate int
		sum  func(h, d []byte)
	}{{"SHAKE128", NewShake128, 168, ShakeSum128}, {"SHAKE256", NewShake256, 136, ShakeSum256}} {
		for i := 0; i < 3000; i++ {
			m := buf[:r.Intn(600)]
			out := r.Intn(900)
			want := keccaks.Sum(m, c.rate, 0x1f, out)
			one := make([]byte, out)
			c.sum(one, m)
			if !bytes.Equal(one, want) {
				t.Fatalf("FAILING-INPUT: %s of %x, %d bytes = %x, want %x", c.n, m, out, one, want)
			}
			h := c.mk()
			if r.Intn(4) == 0 {
				h.Write(buf[:r.Intn(400)])
				if r.Intn(2) == 0 {
					h.Read(make([]byte, r.Intn(400)))
				}
				h.Reset()
			}
			k := 0
			for k < len(m) {
				n := 1 + r.Intn(len(m)-k)
				h.Write(m[k : k+n])
				k += n
			}
			var got []byte
			hist := ""
			for len(got) < out {
				n := r.Intn(out - len(got) + 1)
				if r.Intn(3) == 0 && out-len(got) >= c.rate {
					n = c.rate
				}
				hist += " read"
				b := make([]byte, n)
				if r.Intn(5) == 0 {
					hist += " clone"
					o := h
					h = h.Clone()
					o.Read(make([]byte, r.Intn(300)))
				}
				if w, err := h.Read(b); w != n || err != nil {
					t.Fatalf("FAILING-INPUT: %s Read of %d bytes returned %d, %v", c.n, n, w, err)
				}
				got = append(got, b...)
			}
			if !bytes.Equal(got, want) {
				t.Fatalf("FAILING-INPUT: %s of %x read in pieces (%s) = %x, want %x", c.n, m, hist, got, want)
			}
		}
	}
}
