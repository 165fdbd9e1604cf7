// Package blakes is the specification of BLAKE-224/256/384/512 (final SHA-3 round submission, 14/16 rounds).
package blakes

var sigma = [10][16]int{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
}

var c32 = [16]uint32{
	0x243F6A88, 0x85A308D3, 0x13198A2E, 0x03707344, 0xA4093822, 0x299F31D0, 0x082EFA98, 0xEC4E6C89,
	0x452821E6, 0x38D01377, 0xBE5466CF, 0x34E90C6C, 0xC0AC29B7, 0xC97C50DD, 0x3F84D5B5, 0xB5470917,
}
var c64 = [16]uint64{
	0x243F6A8885A308D3, 0x13198A2E03707344, 0xA4093822299F31D0, 0x082EFA98EC4E6C89,
	0x452821E638D01377, 0xBE5466CF34E90C6C, 0xC0AC29B7C97C50DD, 0x3F84D5B5B5470917,
	0x9216D5D98979FB1B, 0xD1310BA698DFB5AC, 0x2FFD72DBD01ADFB7, 0xB8E1AFED6A267E96,
	0xBA7C9045F12C7F99, 0x24A19947B3916CF7, 0x0801F2E2858EFC16, 0x636920D871574E69,
}

var IV256 = [8]uint32{0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19}
var IV224 = [8]uint32{0xC1059ED8, 0x367CD507, 0x3070DD17, 0xF70E5939, 0xFFC00B31, 0x68581511, 0x64F98FA7, 0xBEFA4FA4}
var IV512 = [8]uint64{0x6A09E667F3BCC908, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1,
	0x510E527FADE682D1, 0x9B05688C2B3E6C1F, 0x1F83D9ABFB41BD6B, 0x5BE0CD19137E2179}
var IV384 = [8]uint64{0xCBBB9D5DC1059ED8, 0x629A292A367CD507, 0x9159015A3070DD17, 0x152FECD8F70E5939,
	0x67332667FFC00B31, 0x8EB44A8768581511, 0xDB0C2E0D64F98FA7, 0x47B5481DBEFA4FA4}

func r32(x uint32, n uint) uint32 { return x>>n | x<<(32-n) }
func r64(x uint64, n uint) uint64 { return x>>n | x<<(64-n) }

func g32(v *[16]uint32, m *[16]uint32, r, i, a, b, c, d int) {
	s := sigma[r%10]
	v[a] = v[a] + v[b] + (m[s[2*i]] ^ c32[s[2*i+1]])
	v[d] = r32(v[d]^v[a], 16)
	v[c] = v[c] + v[d]
	v[b] = r32(v[b]^v[c], 12)
	v[a] = v[a] + v[b] + (m[s[2*i+1]] ^ c32[s[2*i]])
	v[d] = r32(v[d]^v[a], 8)
	v[c] = v[c] + v[d]
	v[b] = r32(v[b]^v[c], 7)
}

// Compress256 is compress(h, m, s, t); t0,t1 are the counter words (zero for a block without message bits).
func Compress256(h [8]uint32, blk [64]byte, s [4]uint32, t0, t1 uint32) [8]uint32 {
	var m, v [16]uint32
	for i := range m {
		m[i] = uint32(blk[4*i])<<24 | uint32(blk[4*i+1])<<16 | uint32(blk[4*i+2])<<8 | uint32(blk[4*i+3])
	}
	for i := 0; i < 8; i++ {
		v[i] = h[i]
	}
	for i := 0; i < 4; i++ {
		v[8+i] = s[i] ^ c32[i]
	}
	v[12] = t0 ^ c32[4]
	v[13] = t0 ^ c32[5]
	v[14] = t1 ^ c32[6]
	v[15] = t1 ^ c32[7]
	for r := 0; r < 14; r++ {
		g32(&v, &m, r, 0, 0, 4, 8, 12)
		g32(&v, &m, r, 1, 1, 5, 9, 13)
		g32(&v, &m, r, 2, 2, 6, 10, 14)
		g32(&v, &m, r, 3, 3, 7, 11, 15)
		g32(&v, &m, r, 4, 0, 5, 10, 15)
		g32(&v, &m, r, 5, 1, 6, 11, 12)
		g32(&v, &m, r, 6, 2, 7, 8, 13)
		g32(&v, &m, r, 7, 3, 4, 9, 14)
	}
	for i := 0; i < 8; i++ {
		h[i] = h[i] ^ s[i%4] ^ v[i] ^ v[i+8]
	}
	return h
}

func g64(v *[16]uint64, m *[16]uint64, r, i, a, b, c, d int) {
	s := sigma[r%10]
	v[a] = v[a] + v[b] + (m[s[2*i]] ^ c64[s[2*i+1]])
	v[d] = r64(v[d]^v[a], 32)
	v[c] = v[c] + v[d]
	v[b] = r64(v[b]^v[c], 25)
	v[a] = v[a] + v[b] + (m[s[2*i+1]] ^ c64[s[2*i]])
	v[d] = r64(v[d]^v[a], 16)
	v[c] = v[c] + v[d]
	v[b] = r64(v[b]^v[c], 11)
}

// Compress512: the counter is taken below 2^64 bits, so its high word is zero.
func Compress512(h [8]uint64, blk [128]byte, s [4]uint64, t0 uint64) [8]uint64 {
	var m, v [16]uint64
	for i := range m {
		for k := 0; k < 8; k++ {
			m[i] = m[i]<<8 | uint64(blk[8*i+k])
		}
	}
	for i := 0; i < 8; i++ {
		v[i] = h[i]
	}
	for i := 0; i < 4; i++ {
		v[8+i] = s[i] ^ c64[i]
	}
	v[12] = t0 ^ c64[4]
	v[13] = t0 ^ c64[5]
	v[14] = c64[6]
	v[15] = c64[7]
	for r := 0; r < 16; r++ {
		g64(&v, &m, r, 0, 0, 4, 8, 12)
		g64(&v, &m, r, 1, 1, 5, 9, 13)
		g64(&v, &m, r, 2, 2, 6, 10, 14)
		g64(&v, &m, r, 3, 3, 7, 11, 15)
		g64(&v, &m, r, 4, 0, 5, 10, 15)
		g64(&v, &m, r, 5, 1, 6, 11, 12)
		g64(&v, &m, r, 6, 2, 7, 8, 13)
		g64(&v, &m, r, 7, 3, 4, 9, 14)
	}
	for i := 0; i < 8; i++ {
		h[i] = h[i] ^ s[i%4] ^ v[i] ^ v[i+8]
	}
	return h
}

// Step256 is one block of the iterated hash: t is the number of message bits hashed up to and
// including this block, or null when the block carries none.
func Step256(h [8]uint32, blk [64]byte, s [4]uint32, t uint64, null bool) [8]uint32 {
	if null {
		t = 0
	}
	return Compress256(h, blk, s, uint32(t), uint32(t>>32))
}
func Step512(h [8]uint64, blk [128]byte, s [4]uint64, t uint64, null bool) [8]uint64 {
	if null {
		t = 0
	}
	return Compress512(h, blk, s, t)
}

// Finish256 pads and returns the digest of size bytes (28 or 32); h has absorbed total-len(tail) bytes.
func Finish256(h [8]uint32, tail []byte, total uint64, s [4]uint32, size int) []byte {
	buf := append(make([]byte, 0, 128), tail...)
	last := byte(0)
	if size == 32 {
		last = 1
	}
	buf = append(buf, 0x80)
	for len(buf)%64 != 56 {
		buf = append(buf, 0)
	}
	buf[len(buf)-1] |= last
	bits := total * 8
	for i := 7; i >= 0; i-- {
		buf = append(buf, byte(bits>>uint(8*i)))
	}
	if len(buf) == 64 {
		var b [64]byte
		copy(b[:], buf)
		// the only block: it carries message bits unless the tail is empty
		h = Step256(h, b, s, bits, len(tail) == 0)
	} else {
		var b [64]byte
		copy(b[:], buf[:64])
		h = Step256(h, b, s, bits, false)
		copy(b[:], buf[64:])
		h = Step256(h, b, s, 0, true)
	}
	out := make([]byte, size)
	for i := range out {
		out[i] = byte(h[i/4] >> uint(24-8*(i%4)))
	}
	return out
}

func Finish512(h [8]uint64, tail []byte, total uint64, s [4]uint64, size int) []byte {
	buf := append(make([]byte, 0, 256), tail...)
	last := byte(0)
	if size == 64 {
		last = 1
	}
	buf = append(buf, 0x80)
	for len(buf)%128 != 112 {
		buf = append(buf, 0)
	}
	buf[len(buf)-1] |= last
	bits := total * 8
	for i := 0; i < 8; i++ {
		buf = append(buf, 0)
	}
	for i := 7; i >= 0; i-- {
		buf = append(buf, byte(bits>>uint(8*i)))
	}
	if len(buf) == 128 {
		var b [128]byte
		copy(b[:], buf)
		h = Step512(h, b, s, bits, len(tail) == 0)
	} else {
		var b [128]byte
		copy(b[:], buf[:128])
		h = Step512(h, b, s, bits, false)
		copy(b[:], buf[128:])
		h = Step512(h, b, s, 0, true)
	}
	out := make([]byte, size)
	for i := range out {
		out[i] = byte(h[i/8] >> uint(56-8*(i%8)))
	}
	return out
}

func salt32(salt []byte) (s [4]uint32) {
	for i := range salt {
		s[i/4] = s[i/4]<<8 | uint32(salt[i])
	}
	return
}
func salt64(salt []byte) (s [4]uint64) {
	for i := range salt {
		s[i/8] = s[i/8]<<8 | uint64(salt[i])
	}
	return
}

// Salt32 and Salt64 read a salt (16 or 32 bytes, or empty) as four big-endian words.
func Salt32(salt []byte) [4]uint32 { return salt32(salt) }
func Salt64(salt []byte) [4]uint64 { return salt64(salt) }

func Sum256(m, salt []byte, size int) []byte {
	h := IV256
	if size == 28 {
		h = IV224
	}
	s := salt32(salt)
	n := uint64(len(m))
	var t uint64
	for len(m) >= 64 {
		var b [64]byte
		copy(b[:], m[:64])
		t += 512
		h = Step256(h, b, s, t, false)
		m = m[64:]
	}
	return Finish256(h, m, n, s, size)
}
func Sum512(m, salt []byte, size int) []byte {
	h := IV512
	if size == 48 {
		h = IV384
	}
	s := salt64(salt)
	n := uint64(len(m))
	var t uint64
	for len(m) >= 128 {
		var b [128]byte
		copy(b[:], m[:128])
		t += 1024
		h = Step512(h, b, s, t, false)
		m = m[128:]
	}
	return Finish512(h, m, n, s, size)
}
