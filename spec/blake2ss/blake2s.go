// Package blake2ss is the specification of BLAKE2s (RFC 7693, and the BLAKE2 parameter block).
package blake2ss

var IV = [8]uint32{0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19}

var sigma = [10][16]int{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
}

func rr(x uint32, n uint) uint32 { return x>>n | x<<(32-n) }

func g(v *[16]uint32, a, b, c, d int, x, y uint32) {
	v[a] = v[a] + v[b] + x
	v[d] = rr(v[d]^v[a], 16)
	v[c] = v[c] + v[d]
	v[b] = rr(v[b]^v[c], 12)
	v[a] = v[a] + v[b] + y
	v[d] = rr(v[d]^v[a], 8)
	v[c] = v[c] + v[d]
	v[b] = rr(v[b]^v[c], 7)
}

// Compress is F(h, m, t, f) with both finalisation words explicit.
func Compress(h [8]uint32, blk [64]byte, t uint64, f0, f1 uint32) [8]uint32 {
	var v, m [16]uint32
	for i := range m {
		m[i] = uint32(blk[4*i]) | uint32(blk[4*i+1])<<8 | uint32(blk[4*i+2])<<16 | uint32(blk[4*i+3])<<24
	}
	for i := 0; i < 8; i++ {
		v[i] = h[i]
		v[i+8] = IV[i]
	}
	v[12] ^= uint32(t)
	v[13] ^= uint32(t >> 32)
	v[14] ^= f0
	v[15] ^= f1
	for r := 0; r < 10; r++ {
		s := sigma[r]
		g(&v, 0, 4, 8, 12, m[s[0]], m[s[1]])
		g(&v, 1, 5, 9, 13, m[s[2]], m[s[3]])
		g(&v, 2, 6, 10, 14, m[s[4]], m[s[5]])
		g(&v, 3, 7, 11, 15, m[s[6]], m[s[7]])
		g(&v, 0, 5, 10, 15, m[s[8]], m[s[9]])
		g(&v, 1, 6, 11, 12, m[s[10]], m[s[11]])
		g(&v, 2, 7, 8, 13, m[s[12]], m[s[13]])
		g(&v, 3, 4, 9, 14, m[s[14]], m[s[15]])
	}
	for i := 0; i < 8; i++ {
		h[i] ^= v[i] ^ v[i+8]
	}
	return h
}

// Finish hashes the last block (0..64 bytes of data); h has absorbed total-len(tail) bytes.
func Finish(h [8]uint32, tail []byte, total uint64, lastNode bool, size int) []byte {
	var b [64]byte
	copy(b[:], tail)
	f1 := uint32(0)
	if lastNode {
		f1 = 0xffffffff
	}
	h = Compress(h, b, total, 0xffffffff, f1)
	out := make([]byte, size)
	for i := range out {
		out[i] = byte(h[i/4] >> uint(8*(i%4)))
	}
	return out
}

// Params is the BLAKE2s parameter block.
type Params struct {
	Size, KeyLen, Fanout, Depth uint8
	LeafLen                     uint32
	NodeOffset                  uint64 // 48 bits
	NodeDepth, InnerLen         uint8
	Salt, Person                [8]byte
}

func (p Params) Init() [8]uint32 {
	var b [32]byte
	b[0], b[1], b[2], b[3] = p.Size, p.KeyLen, p.Fanout, p.Depth
	for i := 0; i < 4; i++ {
		b[4+i] = byte(p.LeafLen >> uint(8*i))
	}
	for i := 0; i < 6; i++ {
		b[8+i] = byte(p.NodeOffset >> uint(8*i))
	}
	b[14], b[15] = p.NodeDepth, p.InnerLen
	for i := 0; i < 8; i++ {
		b[16+i] = p.Salt[i]
		b[24+i] = p.Person[i]
	}
	h := IV
	for i := 0; i < 8; i++ {
		h[i] ^= uint32(b[4*i]) | uint32(b[4*i+1])<<8 | uint32(b[4*i+2])<<16 | uint32(b[4*i+3])<<24
	}
	return h
}

// Sum hashes m with a key under the parameters (KeyLen = len(key)).
func Sum(m, key []byte, p Params, lastNode bool) []byte {
	h := p.Init()
	var d []byte
	if len(key) > 0 {
		var kb [64]byte
		copy(kb[:], key)
		d = append(d, kb[:]...)
	}
	d = append(d, m...)
	n := uint64(len(d))
	var t uint64
	for len(d) > 64 {
		var b [64]byte
		copy(b[:], d[:64])
		t += 64
		h = Compress(h, b, t, 0, 0)
		d = d[64:]
	}
	return Finish(h, d, n, lastNode, int(p.Size))
}
