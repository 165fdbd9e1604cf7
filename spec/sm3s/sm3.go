// Package sm3s is the specification of SM3, written from GB/T 32905-2016.
package sm3s

const BlockSize = 64

var IV = [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}

func rotl(x uint32, n int) uint32 {
	n = n % 32
	return x<<uint(n) | x>>uint(32-n)
}

// Compress is CF(V, B) of section 5.3.
func Compress(v [8]uint32, b [64]byte) [8]uint32 {
	var w [68]uint32
	for j := 0; j < 16; j++ {
		w[j] = uint32(b[4*j])<<24 | uint32(b[4*j+1])<<16 | uint32(b[4*j+2])<<8 | uint32(b[4*j+3])
	}
	for j := 16; j < 68; j++ {
		x := w[j-16] ^ w[j-9] ^ rotl(w[j-3], 15)
		w[j] = x ^ rotl(x, 15) ^ rotl(x, 23) ^ rotl(w[j-13], 7) ^ w[j-6]
	}
	A, B, C, D, E, F, G, H := v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]
	for j := 0; j < 64; j++ {
		t := uint32(0x79cc4519)
		if j >= 16 {
			t = 0x7a879d8a
		}
		ss1 := rotl(rotl(A, 12)+E+rotl(t, j), 7)
		ss2 := ss1 ^ rotl(A, 12)
		var ff, gg uint32
		if j < 16 {
			ff = A ^ B ^ C
			gg = E ^ F ^ G
		} else {
			ff = (A & B) | (A & C) | (B & C)
			gg = (E & F) | (^E & G)
		}
		tt1 := ff + D + ss2 + (w[j] ^ w[j+4])
		tt2 := gg + H + ss1 + w[j]
		D = C
		C = rotl(B, 9)
		B = A
		A = tt1
		H = G
		G = rotl(F, 19)
		F = E
		E = tt2 ^ rotl(tt2, 9) ^ rotl(tt2, 17)
	}
	return [8]uint32{v[0] ^ A, v[1] ^ B, v[2] ^ C, v[3] ^ D, v[4] ^ E, v[5] ^ F, v[6] ^ G, v[7] ^ H}
}

// Finish pads the last partial block of a message of total bytes and returns the digest.
func Finish(v [8]uint32, tail []byte, total uint64) []byte {
	buf := make([]byte, 0, 128)
	buf = append(buf, tail...)
	buf = append(buf, 0x80)
	for len(buf)%64 != 56 {
		buf = append(buf, 0)
	}
	bitLen := total * 8
	for i := 7; i >= 0; i-- {
		buf = append(buf, byte(bitLen>>uint(8*i)))
	}
	for i := 0; i < len(buf); i += 64 {
		var b [64]byte
		copy(b[:], buf[i:i+64])
		v = Compress(v, b)
	}
	out := make([]byte, 32)
	for i := 0; i < 8; i++ {
		out[4*i] = byte(v[i] >> 24)
		out[4*i+1] = byte(v[i] >> 16)
		out[4*i+2] = byte(v[i] >> 8)
		out[4*i+3] = byte(v[i])
	}
	return out
}

// Sum is the whole function.
func Sum(m []byte) []byte {
	v := IV
	n := len(m)
	for len(m) >= 64 {
		var b [64]byte
		copy(b[:], m[:64])
		v = Compress(v, b)
		m = m[64:]
	}
	return Finish(v, m, uint64(n))
}
