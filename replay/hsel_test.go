package owcrypt_test

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	owcrypt "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/zzspec/hsel"
)

func TestVerifH05(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	buf := make([]byte, 4096)
	r.Read(buf)
	sels := []uint32{0, 1, 0x9fffffff, 0xffffffff}
	for i := uint32(0); i < 64; i++ {
		sels = append(sels, 0xA0000000+i, 0x50000000+i, 0x90000000+i)
	}
	sels = append(sels, owcrypt.HMAC_SHA256_ALG, owcrypt.HMAC_SHA512_ALG, owcrypt.HMAC_SM3_ALG)
	call := func(what string, f func() []byte) (out []byte) {
		defer func() {
			if p := recover(); p != nil {
				t.Fatalf("FAILING-INPUT: %s panics: %v", what, p)
			}
		}()
		return f()
	}
	spare := func(n, k int) []byte {
		b := make([]byte, n, n+k)
		copy(b, buf[r.Intn(1000):])
		return b
	}
	one := func(n int, dl uint16, sel uint32) {
		d := spare(n, r.Intn(80))
		w := append([]byte{}, d[:cap(d)]...)
		what := fmt.Sprintf("Hash(%x, %d, %#x)", d, dl, sel)
		got := call(what, func() []byte { return owcrypt.Hash(d, dl, sel) })
		if !bytes.Equal(d[:cap(d)], w) {
			t.Fatalf("FAILING-INPUT: %s modified its argument", what)
		}
		if want := hsel.Hash(d, dl, sel); !bytes.Equal(got, want) {
			t.Fatalf("FAILING-INPUT: %s = %x, want %x", what, got, want)
		}
	}
	for _, sel := range sels {
		for n := 0; n < 300; n += 1 + n/20 {
			one(n, uint16(r.Intn(66)), sel)
		}
		one(3, uint16(r.Intn(65536)), sel)
		if got := call(fmt.Sprintf("Hash(nil, 32, %#x)", sel), func() []byte { return owcrypt.Hash(nil, 32, sel) }); !bytes.Equal(got, hsel.Hash(nil, 32, sel)) {
			t.Fatalf("FAILING-INPUT: Hash(nil, 32, %#x) = %x", sel, got)
		}
	}
	for dl := 0; dl < 1100; dl++ {
		one(r.Intn(200), uint16(dl), owcrypt.HASH_ALG_BLAKE2B)
		one(r.Intn(200), uint16(dl), owcrypt.HASH_ALG_BLAKE2S)
	}
	for i := 0; i < 4000; i++ {
		sel := sels[r.Intn(len(sels))]
		if i%2 == 0 {
			sel = sels[len(sels)-1-r.Intn(3)]
		}
		k, d := spare(r.Intn(200), r.Intn(70)), spare(r.Intn(200), r.Intn(70))
		k0, d0 := append([]byte{}, k[:cap(k)]...), append([]byte{}, d[:cap(d)]...)
		what := fmt.Sprintf("Hmac(%x, %x, %#x)", k, d, sel)
		got := call(what, func() []byte { return owcrypt.Hmac(k, d, sel) })
		if want := hsel.Hmac(k, d, sel); !bytes.Equal(got, want) {
			t.Fatalf("FAILING-INPUT: %s = %x, want %x", what, got, want)
		}
		if !bytes.Equal(k[:cap(k)], k0) || !bytes.Equal(d[:cap(d)], d0) {
			t.Fatalf("FAILING-INPUT: %s modified its arguments", what)
		}
	}
}
