package sm3

import (
	"bytes"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/blocktree/go-owcrypt/zzspec/sm3s"
)

func TestVerifH01(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	buf := make([]byte, 1<<16)
	r.Read(buf)
	for n := 0; n < 700; n++ {
		in := append([]byte{}, buf[:n]...)
		if got, want := Sm3Sum(in), sm3s.Sum(buf[:n]); !bytes.Equal(got, want) {
			t.Fatalf("FAILING-INPUT: Sm3Sum of %x (%d bytes) = %x, GB/T 32905 gives %x", buf[:n], n, got, want)
		}
		if !bytes.Equal(in, buf[:n]) {
			t.Fatalf("FAILING-INPUT: Sm3Sum of %d bytes modified its argument", n)
		}
	}
	for i := 0; i < 20000; i++ {
		h := New()
		if r.Intn(3) == 0 {
			h.Write(buf[:r.Intn(300)])
			if r.Intn(2) == 0 {
				h.Sum(nil)
			}
			h.Reset()
		}
		var m []byte
		for k := r.Intn(6); k >= 0; k-- {
			n := r.Intn(140)
			switch r.Intn(6) {
			case 0:
				n = 64 * r.Intn(5)
			case 1:
				n = 64 - len(m)%64
			case 2:
				n = r.Intn(4)
			}
			o := r.Intn(1000)
			c := append([]byte{}, buf[o:o+n]...)
			if w, err := h.Write(c); w != n || err != nil {
				t.Fatalf("FAILING-INPUT: Write of %d bytes returned %d, %v", n, w, err)
			}
			for j := range c {
				c[j] ^= 0xff
			}
			m = append(m, buf[o:o+n]...)
			if r.Intn(4) == 0 {
				pre := make([]byte, r.Intn(5), 64)
				got := h.Sum(pre)
				if !bytes.Equal(got, append(append([]byte{}, pre...), sm3s.Sum(m)...)) {
					t.Fatalf("FAILING-INPUT: Sum(%x) after %x = %x, want digest %x appended", pre, m, got, sm3s.Sum(m))
				}
			}
		}
		if got := h.Sum(nil); !bytes.Equal(got, sm3s.Sum(m)) {
			t.Fatalf("FAILING-INPUT: chunked digest of %x = %x, want %x", m, got, sm3s.Sum(m))
		}
	}
	big := make([]byte, 1<<29+77)
	h := New()
	h.Write(big[:1<<29])
	h.Write(big[1<<29:])
	if got := h.Sum(nil); !bytes.Equal(got, sm3s.Sum(big)) {
		t.Fatalf("FAILING-INPUT: digest of %d zero bytes = %x, want %x", len(big), got, sm3s.Sum(big))
	}
}
