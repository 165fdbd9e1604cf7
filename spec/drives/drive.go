// Package drives drives streaming hashes of the code under test against a specification function.
package drives

import (
	"bytes"
	"fmt"
	"hash"
	"math/rand"
	"os"
	"strconv"
)

func Rand() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed)))
}

// Hash returns a description of a failing input, or "".
func Hash(name string, mk func() hash.Hash, ref func(m []byte) []byte, rate, size, iters int) (bad string) {
	r := Rand()
	buf := make([]byte, 1<<15)
	r.Read(buf)
	last := ""
	defer func() {
		if e := recover(); e != nil {
			bad = fmt.Sprintf("FAILING-INPUT: %s: panic %v after %s", name, e, last)
		}
	}()
	if n := mk().Size(); n != size {
		return fmt.Sprintf("FAILING-INPUT: %s: Size() = %d, want %d", name, n, size)
	}
	if n := mk().BlockSize(); n != rate {
		return fmt.Sprintf("FAILING-INPUT: %s: BlockSize() = %d, want %d", name, n, rate)
	}
	for n := 0; n < 6*rate; n++ {
		last = fmt.Sprintf("one-shot of %d bytes", n)
		h := mk()
		h.Write(buf[:n])
		if got, want := h.Sum(nil), ref(buf[:n]); !bytes.Equal(got, want) {
			return fmt.Sprintf("FAILING-INPUT: %s of %x (%d bytes) = %x, want %x", name, buf[:n], n, got, want)
		}
	}
	for i := 0; i < iters; i++ {
		h := mk()
		hist := ""
		if r.Intn(3) == 0 {
			n := r.Intn(5 * rate)
			h.Write(buf[:n])
			if r.Intn(2) == 0 {
				h.Sum(nil)
			}
			h.Reset()
			hist = fmt.Sprintf("write(%d) reset ", n)
		}
		var m []byte
		for k := r.Intn(6); k >= 0; k-- {
			n := r.Intn(2*rate + 12)
			switch r.Intn(8) {
			case 0, 1:
				n = rate * r.Intn(5)
			case 2, 3:
				n = rate - len(m)%rate
			case 4:
				n = r.Intn(4)
			}
			o := r.Intn(1000)
			c := append([]byte{}, buf[o:o+n]...)
			hist += fmt.Sprintf("write(%d) ", n)
			last = hist
			w, err := h.Write(c)
			if w != n || err != nil {
				return fmt.Sprintf("FAILING-INPUT: %s: %s returned %d, %v", name, hist, w, err)
			}
			if !bytes.Equal(c, buf[o:o+n]) {
				return fmt.Sprintf("FAILING-INPUT: %s: %s modified its argument", name, hist)
			}
			for j := range c {
				c[j] ^= 0xff
			}
			m = append(m, buf[o:o+n]...)
			if r.Intn(4) == 0 {
				pre := make([]byte, r.Intn(5), 80)
				got := h.Sum(pre)
				hist += "sum "
				if !bytes.Equal(got, append(append([]byte{}, pre...), ref(m)...)) {
					return fmt.Sprintf("FAILING-INPUT: %s: %s on %x: Sum(%x) = %x, want %x appended", name, hist, m, pre, got, ref(m))
				}
			}
		}
		if got := h.Sum(nil); !bytes.Equal(got, ref(m)) {
			return fmt.Sprintf("FAILING-INPUT: %s: %s digest of %x = %x, want %x", name, hist, m, got, ref(m))
		}
	}
	return ""
}
