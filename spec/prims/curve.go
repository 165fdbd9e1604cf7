package prims

import "math/big"

// Curve is a short Weierstrass curve y^2 = x^3 + ax + b of prime order over a prime field.
type Curve struct {
	Name               string
	P, N, A, B, Gx, Gy *big.Int
}

func num(s string) *big.Int {
	v, _ := new(big.Int).SetString(s, 16)
	return v
}

var (
	K1  = &Curve{"secp256k1", num("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"), num("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"), num("0"), num("7"), num("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), num("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")}
	R1  = &Curve{"secp256r1", num("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"), num("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"), num("-3"), num("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"), num("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"), num("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")}
	SM2 = &Curve{"sm2", num("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF"), num("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123"), num("-3"), num("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93"), num("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7"), num("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0")}
)

// The group operations. (0,0) stands for the identity. In proofs they are the group law itself.

func ECAdd(c *Curve, x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	if x1.Sign() == 0 && y1.Sign() == 0 {
		return x2, y2
	}
	if x2.Sign() == 0 && y2.Sign() == 0 {
		return x1, y1
	}
	l, d := new(big.Int), new(big.Int)
	if x1.Cmp(x2) == 0 {
		if new(big.Int).Mod(new(big.Int).Add(y1, y2), c.P).Sign() == 0 {
			return new(big.Int), new(big.Int)
		}
		l.Mul(x1, x1)
		l.Mul(l, big.NewInt(3))
		l.Add(l, c.A)
		d.Lsh(y1, 1)
	} else {
		l.Sub(y2, y1)
		d.Sub(x2, x1)
	}
	d.Mod(d, c.P)
	l.Mul(l, d.ModInverse(d, c.P))
	x := new(big.Int).Mul(l, l)
	x.Sub(x, x1)
	x.Sub(x, x2)
	x.Mod(x, c.P)
	y := new(big.Int).Sub(x1, x)
	y.Mul(y, l)
	y.Sub(y, y1)
	y.Mod(y, c.P)
	return x, y
}

func ECMul(c *Curve, x, y, k *big.Int) (*big.Int, *big.Int) {
	k = new(big.Int).Mod(k, c.N)
	rx, ry := new(big.Int), new(big.Int)
	for i := k.BitLen() - 1; i >= 0; i-- {
		rx, ry = ECAdd(c, rx, ry, rx, ry)
		if k.Bit(i) == 1 {
			rx, ry = ECAdd(c, rx, ry, x, y)
		}
	}
	return rx, ry
}

func ECBase(c *Curve, k *big.Int) (*big.Int, *big.Int) { return ECMul(c, c.Gx, c.Gy, k) }

// ECOn reports whether (x,y) are the canonical coordinates of a finite point.
func ECOn(c *Curve, x, y *big.Int) bool {
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(c.P) >= 0 || y.Cmp(c.P) >= 0 {
		return false
	}
	r := new(big.Int).Mul(x, x)
	r.Add(r, c.A)
	r.Mul(r, x)
	r.Add(r, c.B)
	r.Sub(r, new(big.Int).Mul(y, y))
	return r.Mod(r, c.P).Sign() == 0
}
