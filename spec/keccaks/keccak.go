// Package keccaks is the specification of Keccak-f[1600] and the sponge, written from FIPS 202.
package keccaks

func rotl(x uint64, n uint) uint64 {
	if n == 0 {
		return x
	}
	return x<<n | x>>(64-n)
}

// rc computes bit t of the round constant LFSR (algorithm 5 of FIPS 202).
func rc(t int) uint64 {
	t = t % 255
	r := uint16(1)
	for i := 0; i < t; i++ {
		r <<= 1
		if r&0x100 != 0 {
			r ^= 0x171
		}
	}
	return uint64(r & 1)
}

func roundConstant(ir int) uint64 {
	var k uint64
	for j := 0; j <= 6; j++ {
		k |= rc(j+7*ir) << (uint(1)<<uint(j) - 1)
	}
	return k
}

// rho offsets, from the walk of algorithm 2.
func offsets() (o [25]uint) {
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		o[x+5*y] = uint((t+1)*(t+2)/2) % 64
		x, y = y, (2*x+3*y)%5
	}
	return
}

// F1600 is Keccak-f[1600]; lane (x,y) is a[x+5*y].
func F1600(a [25]uint64) [25]uint64 {
	o := offsets()
	for ir := 0; ir < 24; ir++ {
		// theta
		var c, d [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d[x] = c[(x+4)%5] ^ rotl(c[(x+1)%5], 1)
		}
		for i := 0; i < 25; i++ {
			a[i] ^= d[i%5]
		}
		// rho and pi
		var b [25]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				b[y+5*((2*x+3*y)%5)] = rotl(a[x+5*y], o[x+5*y])
			}
		}
		// chi
		for y := 0; y < 5; y++ {
			for x := 0; x < 5; x++ {
				a[x+5*y] = b[x+5*y] ^ (^b[(x+1)%5+5*y] & b[(x+2)%5+5*y])
			}
		}
		// iota
		a[0] ^= roundConstant(ir)
	}
	return a
}

// Absorb xors one rate-sized block into the state and permutes.
func Absorb(a [25]uint64, blk []byte) [25]uint64 {
	for i := 0; i < len(blk); i++ {
		a[i/8] ^= uint64(blk[i]) << uint(8*(i%8))
	}
	return F1600(a)
}

// Pad absorbs the last partial block: domain bits ds (with the first padding bit), then 10*1.
func Pad(a [25]uint64, tail []byte, rate int, ds byte) [25]uint64 {
	b := make([]byte, rate)
	copy(b, tail)
	b[len(tail)] ^= ds
	b[rate-1] ^= 0x80
	return Absorb(a, b)
}

// Byte i of the state as squeezed.
func Byte(a [25]uint64, i int) byte { return byte(a[i/8] >> uint(8*(i%8))) }

// Sum is the sponge with output length n.
func Sum(m []byte, rate int, ds byte, n int) []byte {
	var a [25]uint64
	for len(m) >= rate {
		a = Absorb(a, m[:rate])
		m = m[rate:]
	}
	a = Pad(a, m, rate, ds)
	var out []byte
	for {
		for i := 0; i < rate; i++ {
			if len(out) == n {
				return out
			}
			out = append(out, Byte(a, i))
		}
		a = F1600(a)
	}
}
