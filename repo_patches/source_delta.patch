From a7b5ebdd934c103e32752396ae45a0af903c27dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 01/30] fix: sm3 Sum appends the digest to its argument and
 keeps the hash state

---
 sm3/sm3.go | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 997f47a..7fd5fd3 100755
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -158,25 +158,20 @@ func (sm3 *SM3) Write(p []byte) (int, error) {
 	return toWrite, nil
 }
 
+// Sum appends the current hash to in and returns the resulting slice.
+// It does not change the underlying hash state.
 func (sm3 *SM3) Sum(in []byte) []byte {
-	sm3.Write(in)
-	msg := sm3.pad()
+	d := *sm3
+	d.unhandleMsg = append([]byte{}, sm3.unhandleMsg...)
+	msg := d.pad()
 
-	sm3.update(msg, len(msg)/sm3.BlockSize())
-
-	needed := sm3.Size()
-	if cap(in)-len(in) < needed {
-		newIn := make([]byte, len(in), len(in)+needed)
-		copy(newIn, in)
-		in = newIn
-	}
-	out := in[len(in) : len(in)+needed]
+	d.update(msg, len(msg)/d.BlockSize())
 
+	out := make([]byte, d.Size())
 	for i := 0; i < 8; i++ {
-		binary.BigEndian.PutUint32(out[i*4:], sm3.digest[i])
+		binary.BigEndian.PutUint32(out[i*4:], d.digest[i])
 	}
-	return out
-
+	return append(in, out...)
 }
 
 func Sm3Sum(data []byte) []byte {
-- 
2.43.0


From 37907b6c13b55fb9eba9addaa0a01031064cc699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 02/30] fix: sha3 clone of a squeezing sponge no longer assumes
 the buffer fills its storage

---
 sha3/sha3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sha3/sha3.go b/sha3/sha3.go
index 65b5031..2d82e1b 100755
--- a/sha3/sha3.go
+++ b/sha3/sha3.go
@@ -69,7 +69,7 @@ func (d *state) clone() *state {
 	if ret.state == spongeAbsorbing {
 		ret.buf = ret.storage[:len(ret.buf)]
 	} else {
-		ret.buf = ret.storage[d.rate-cap(d.buf) : d.rate]
+		ret.buf = ret.storage[d.rate-len(d.buf) : d.rate]
 	}
 
 	return &ret
-- 
2.43.0


From aba0e00c2fee1d10741994df083ad12c152a3e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:11 +0000
Subject: [PATCH 03/30] fix: Hash with HASH_ALG_BLAKE2S returns nil for digest
 lengths above 32 instead of panicking or truncating

---
 hashset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashset.go b/hashset.go
index 12890fe..6d8547a 100644
--- a/hashset.go
+++ b/hashset.go
@@ -224,6 +224,9 @@ func Hash(data []byte, digestLen uint16, typeChoose uint32) []byte {
 		break
 
 	case HASH_ALG_BLAKE2S:
+		if digestLen > blake2s.Size {
+			return nil
+		}
 		h := blake2s.NewMAC(uint8(digestLen), nil)
 
 		_, err := h.Write(data)
-- 
2.43.0


From 885d4ec88ca7c5cd8113a098572c309bfbe32723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 04/30] fix: point decompression rejects abscissas that are not
 canonical coordinates of a curve point

---
 secp256k1.go | 7 ++++++-
 secp256r1.go | 7 ++++++-
 sm2_std.go   | 7 ++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/secp256k1.go b/secp256k1.go
index b8a0149..a9e3c8a 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -259,7 +259,9 @@ func secp256k1_decompress(in []byte) ([]byte, error) {
 	x3b.Mul(&x3b, x)
 	x3b.Add(&x3b, c.B)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if x.Cmp(c.P) >= 0 || y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("not the encoding of a point")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
@@ -322,6 +324,9 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 		}
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SECP256K1)
+		if buf1 == nil {
+			return nil, errors.New("invalid data")
+		}
 
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
diff --git a/secp256r1.go b/secp256r1.go
index c3aba71..649fac9 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -56,7 +56,9 @@ func secp256r1_decompress(in []byte) ([]byte, error) {
 	x3b.Add(&x3b, c.B)
 	x3b.Add(&x3b, &xa)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if x.Cmp(c.P) >= 0 || y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("not the encoding of a point")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
@@ -118,6 +120,9 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 		}
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SECP256R1)
+		if buf1 == nil {
+			return nil, errors.New("invalid data")
+		}
 
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
diff --git a/sm2_std.go b/sm2_std.go
index 8e719cf..c9e55c2 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1627,7 +1627,9 @@ func sm2_std_decompress(in []byte) ([]byte, error){
 	x3b.Add(&x3b, c.B)
 	x3b.Add(&x3b, &xa)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if x.Cmp(c.P) >= 0 || y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("not the encoding of a point")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
@@ -1691,6 +1693,9 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 		}
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SM2_STANDARD)
+		if buf1 == nil {
+			return nil, errors.New("invalid data")
+		}
 
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
-- 
2.43.0


From 3a3cf649dba880723f090e33e07d9408521cd328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 05/30] fix: ECDSA verification rejects public keys that are
 not points of the curve

---
 utils.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/utils.go b/utils.go
index a28b04e..71b1583 100644
--- a/utils.go
+++ b/utils.go
@@ -182,6 +182,12 @@ const (
 	aesIV = "IV for ECDSA CTR"
 )
 
+// isValidPoint reports whether (x, y) are the canonical coordinates of a finite point of the curve.
+func isValidPoint(c elliptic.Curve, x, y *big.Int) bool {
+	P := c.Params().P
+	return x.Cmp(P) < 0 && y.Cmp(P) < 0 && c.IsOnCurve(x, y)
+}
+
 func verifyesdsa(pub *ecdsa.PublicKey, hash []byte, r, s *big.Int) bool {
 	// See [NSA] 3.4.2
 	c := pub.Curve
@@ -193,6 +199,9 @@ func verifyesdsa(pub *ecdsa.PublicKey, hash []byte, r, s *big.Int) bool {
 	if r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
 		return false
 	}
+	if !isValidPoint(c, pub.X, pub.Y) {
+		return false
+	}
 	e := hashToInt(hash, c)
 	return verifyGeneric(pub, c, e, r, s)
 }
-- 
2.43.0


From 99ce14ba8d839155fa1e7785680939ee03a155be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:10 +0000
Subject: [PATCH 06/30] fix: public key recovery neither panics nor uses (0, P)
 as the point at infinity

---
 secp256k1.go | 4 ++++
 secp256r1.go | 4 ++++
 sm2_std.go   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/secp256k1.go b/secp256k1.go
index a9e3c8a..2ee3ad7 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -297,6 +297,9 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 	curve := secp256k1
 
 	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
+	if r_inv == nil || new(big.Int).SetBytes(sig[32:64]).Cmp(curve.N) >= 0 {
+		return nil, errors.New("invalid data")
+	}
 
 	G.Curve = curve
 	G.X = curve.Gx
@@ -341,6 +344,7 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
 
 		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		point2.Y.Mod(point2.Y, curve.P) // stays 0 for the point at infinity
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
diff --git a/secp256r1.go b/secp256r1.go
index 649fac9..4600987 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -94,6 +94,9 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 	curve := secp256r1
 
 	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
+	if r_inv == nil || new(big.Int).SetBytes(sig[32:64]).Cmp(curve.N) >= 0 {
+		return nil, errors.New("invalid data")
+	}
 	G.Curve = curve
 	G.X = curve.Gx
 	G.Y = curve.Gy
@@ -135,6 +138,7 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.Curve = curve
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
 		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		point2.Y.Mod(point2.Y, curve.P) // stays 0 for the point at infinity
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
diff --git a/sm2_std.go b/sm2_std.go
index c9e55c2..55c0858 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1667,6 +1667,9 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 	curve := sm2_std
 
 	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
+	if r_inv == nil || new(big.Int).SetBytes(sig[32:64]).Cmp(curve.N) >= 0 {
+		return nil, errors.New("invalid data")
+	}
 	G.Curve = curve
 	G.X = curve.Gx
 	G.Y = curve.Gy
@@ -1710,6 +1713,7 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
 
 		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		point2.Y.Mod(point2.Y, curve.P) // stays 0 for the point at infinity
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
-- 
2.43.0


From e98a2c2ada8a0384ca7fd2191d0fb9e06b799509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:29 +0000
Subject: [PATCH 07/30] fix: point operations report malformed or off-curve
 operands instead of panicking

---
 eccset.go | 27 ++++++++++++++++++---------
 ecdsa.go  | 31 ++++++++++++++++++++++++++++++-
 2 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/eccset.go b/eccset.go
index ea7ea3e..dfe9743 100644
--- a/eccset.go
+++ b/eccset.go
@@ -431,7 +431,10 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		}
 	} else {
 		if len(point1) == 33 {
-			point1 = PointDecompress(point1, typeChoose)[1:]
+			if point1 = PointDecompress(point1, typeChoose); point1 == nil {
+				return nil, FAILURE
+			}
+			point1 = point1[1:]
 		} else if len(point1) == 65 {
 			point1 = point1[1:]
 		} else if len(point1) != 64 {
@@ -439,7 +442,10 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		}
 
 		if len(point2) == 33 {
-			point2 = PointDecompress(point2, typeChoose)[1:]
+			if point2 = PointDecompress(point2, typeChoose); point2 == nil {
+				return nil, FAILURE
+			}
+			point2 = point2[1:]
 		} else if len(point2) == 65 {
 			point2 = point2[1:]
 		} else if len(point2) != 64 {
@@ -449,21 +455,21 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 	switch typeChoose {
 	case ECC_CURVE_SECP256K1:
 		point, is_infinity := Add(point1, point2, "secp256k1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SECP256R1:
 		point, is_infinity := Add(point1, point2, "secp256r1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SM2_STANDARD:
 		point, is_infinity := Add(point1, point2, "sm2_std")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
@@ -495,7 +501,10 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 		}
 	} else {
 		if len(pointin) == 33 {
-			pointin = PointDecompress(pointin, typeChoose)[1:]
+			if pointin = PointDecompress(pointin, typeChoose); pointin == nil {
+				return nil, FAILURE
+			}
+			pointin = pointin[1:]
 		} else if len(pointin) == 65 {
 			pointin = pointin[1:]
 		} else if len(pointin) != 64 {
@@ -509,21 +518,21 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 	switch typeChoose {
 	case ECC_CURVE_SECP256K1:
 		point, is_infinity := Mul(pointin, scalar, "secp256k1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SECP256R1:
 		point, is_infinity := Mul(pointin, scalar, "secp256r1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SM2_STANDARD:
 		point, is_infinity := Mul(pointin, scalar, "sm2_std")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
diff --git a/ecdsa.go b/ecdsa.go
index 6f5ef48..b8cbc64 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -286,7 +286,30 @@ func decrypt(prikey, cipher []byte, name string) ([]byte, error) {
 	return sm2_std_decrypt(priv, cipher)
 }
 
+// isOperand reports whether point is X || Y of a point of the curve, or 64 zero bytes for infinity.
+func isOperand(point []byte, name string) bool {
+	var curve elliptic.Curve
+	switch name {
+	case "secp256k1":
+		curve = secp256k1
+	case "secp256r1":
+		curve = secp256r1
+	case "sm2_std":
+		curve = sm2_std
+	default:
+		return false
+	}
+	if len(point) != 64 {
+		return false
+	}
+	x, y := new(big.Int).SetBytes(point[:32]), new(big.Int).SetBytes(point[32:])
+	return x.Sign() == 0 && y.Sign() == 0 || isValidPoint(curve, x, y)
+}
+
 func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity bool) {
+	if !isOperand(pointin, name) {
+		return nil, false
+	}
 
 	var curve *curveParam
 	var k1curve *secp256k1Curve
@@ -353,6 +376,9 @@ func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity
 }
 
 func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
+	if !isOperand(point1, name) || !isOperand(point2, name) {
+		return nil, false
+	}
 	var curve *curveParam
 	var k1curve *secp256k1Curve
 	var sm2Curve *sm2_stdCurve
@@ -380,7 +406,7 @@ func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
 		return nil, false
 	}
 
-	if x_big.Cmp(big.NewInt(0)) == 0 && x_big.Cmp(big.NewInt(0)) == 0 {
+	if x_big.Cmp(big.NewInt(0)) == 0 && y_big.Cmp(big.NewInt(0)) == 0 {
 		return nil, true
 	}
 
@@ -399,6 +425,9 @@ func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
 }
 
 func Mul(pointin, scalar []byte, name string) (point []byte, isinfinity bool) {
+	if !isOperand(pointin, name) {
+		return nil, false
+	}
 
 	var curve *curveParam
 	var k1curve *secp256k1Curve
-- 
2.43.0


From e28c1ddd323a477cc1ba0abd05a4b47ab77c3c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:29 +0000
Subject: [PATCH 08/30] fix: SM2 point addition of equal points returns the
 double

---
 sm2_std.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm2_std.go b/sm2_std.go
index 55c0858..c209790 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -472,7 +472,8 @@ func sm2_stdPointAdd(x1, y1, z1, x2, y2, z2, x3, y3, z3 *sm2_stdFieldElement) {
 
 	if sm2_stdToBig(&u1).Cmp(sm2_stdToBig(&u2)) == 0 &&
 		sm2_stdToBig(&s1).Cmp(sm2_stdToBig(&s2)) == 0 {
-		sm2_stdPointDouble(x1, y1, z1, x1, y1, z1)
+		sm2_stdPointDouble(x3, y3, z3, x1, y1, z1)
+		return
 	}
 
 	sm2_stdSub(&h, &u2, &u1)
-- 
2.43.0


From 963a5e9b55273a92975634c83dd04fc391cb1469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:29 +0000
Subject: [PATCH 09/30] fix: SM2 signing retries when r+k = n and rejects the
 private key n-1 instead of panicking

---
 ecdsa.go   | 3 ++-
 sm2_std.go | 5 +----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/ecdsa.go b/ecdsa.go
index b8cbc64..dba9987 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -151,7 +151,8 @@ func sign(privateKey, ID, hash []byte, name string) ([]byte, byte, error) {
 	} else if name == "sm2_std" {
 		sm2Curve = sm2_std
 
-		if privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
+		// signing needs the inverse of 1 + d, so d = n-1 is excluded
+		if new(big.Int).Add(privateKeyBig, big.NewInt(1)).Cmp(sm2Curve.Params().N) >= 0 {
 			return nil, 0, ErrPrivateKeyIllegal
 		}
 
diff --git a/sm2_std.go b/sm2_std.go
index c209790..91aeb8a 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1083,10 +1083,7 @@ func sm2_std_sign(priv *ecdsa.PrivateKey, hash, uid []byte) (r, s *big.Int, v by
 				v = 0x00
 			}
 
-			if r.Sign() != 0 {
-				break
-			}
-			if t := new(big.Int).Add(r, k); t.Cmp(N) == 0 {
+			if t := new(big.Int).Add(r, k); r.Sign() != 0 && t.Cmp(N) != 0 {
 				break
 			}
 		}
-- 
2.43.0


From 0c3f9d4bed3921545476c7e4cdbc02b5602a4c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:29 +0000
Subject: [PATCH 10/30] fix: SM2 verification rejects public keys off the curve
 and the point at infinity

---
 sm2_std.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 91aeb8a..808e60a 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1136,10 +1136,16 @@ func sm2_std_verify(pub *ecdsa.PublicKey, hash, uid []byte, r, s *big.Int) bool
 		return false
 	}
 
-	var x *big.Int
+	if !isValidPoint(c, pub.X, pub.Y) {
+		return false
+	}
+
 	x1, y1 := c.ScalarBaseMult(s.Bytes())
 	x2, y2 := c.ScalarMult(pub.X, pub.Y, t.Bytes())
-	x, _ = c.Add(x1, y1, x2, y2)
+	x, y := c.Add(x1, y1, x2, y2)
+	if x.Sign() == 0 && y.Sign() == 0 {
+		return false
+	}
 
 	x.Add(x, e)
 	x.Mod(x, N)
-- 
2.43.0


From b8413b0e5623ec1bb46b5153d4f59fd9c730768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:29 +0000
Subject: [PATCH 11/30] fix: SM2 decryption reports corrupted, short or
 off-curve ciphertexts as failures without plaintext

---
 eccset.go  | 8 ++++++++
 ecdsa.go   | 5 ++++-
 sm2_std.go | 8 +++++++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/eccset.go b/eccset.go
index dfe9743..54bdb82 100644
--- a/eccset.go
+++ b/eccset.go
@@ -217,6 +217,10 @@ func Encryption(pubkey []byte, plain []byte, typeChoose uint32) (cipher []byte,
 	case ErrUnknownCurve:
 		return nil, ECC_WRONG_TYPE
 		break
+	case nil:
+		break
+	default:
+		return nil, FAILURE
 	}
 
 	ret = SUCCESS
@@ -244,6 +248,10 @@ func Decryption(prikey []byte, cipher []byte, typeChoose uint32) (plain []byte,
 	case ErrUnknownCurve:
 		return nil, ECC_WRONG_TYPE
 		break
+	case nil:
+		break
+	default:
+		return nil, FAILURE
 	}
 
 	ret = SUCCESS
diff --git a/ecdsa.go b/ecdsa.go
index dba9987..d5e0c8c 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -251,6 +251,9 @@ func encrypt(pubkey []byte, plain []byte, name string) ([]byte, error) {
 	pubk.Curve = sm2_std
 	pubk.X = new(big.Int).SetBytes(pubkey[:32])
 	pubk.Y = new(big.Int).SetBytes(pubkey[32:])
+	if !isValidPoint(pubk.Curve, pubk.X, pubk.Y) {
+		return nil, ErrPublicKeyIllegal
+	}
 
 	return sm2_std_encrypt(pubk, plain)
 }
@@ -276,7 +279,7 @@ func decrypt(prikey, cipher []byte, name string) ([]byte, error) {
 	priv.D = privateKeyBig
 	sm2Curve = sm2_std
 
-	if privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
+	if privateKeyBig.Sign() == 0 || privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
 		return nil, ErrPrivateKeyIllegal
 	}
 
diff --git a/sm2_std.go b/sm2_std.go
index 808e60a..46fd930 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1232,11 +1232,17 @@ func sm2_std_encrypt(pub *ecdsa.PublicKey, data []byte) ([]byte, error) {
 }
 
 func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
+	if len(data) <= 97 || data[0] != 0x04 {
+		return nil, errors.New("Decrypt: invalid ciphertext")
+	}
 	data = data[1:]
 	length := len(data) - 96
 	curve := priv.Curve
 	x := new(big.Int).SetBytes(data[:32])
 	y := new(big.Int).SetBytes(data[32:64])
+	if !isValidPoint(curve, x, y) {
+		return nil, errors.New("Decrypt: invalid ciphertext")
+	}
 	x2, y2 := curve.ScalarMult(x, y, priv.D.Bytes())
 
 	x2Buf := make([]byte, 32)
@@ -1260,7 +1266,7 @@ func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
 	tm = append(tm, y2Buf...)
 	h := sm3.Sm3Sum(tm)
 	if bytes.Compare(h, data[64:96]) != 0 {
-		return c, errors.New("Decrypt: failed to decrypt")
+		return nil, errors.New("Decrypt: failed to decrypt")
 	}
 	return c, nil
 }
-- 
2.43.0


From 0d2cc1d2ec677592e3d43b383307ac9b9d0e29d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 12/30] fix: SM2 key agreement derives keys of 8192 bytes and
 more in full

---
 sm2_std.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 46fd930..1c84b73 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1271,7 +1271,7 @@ func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
 	return c, nil
 }
 
-func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit uint16) (key []byte) {
+func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit uint32) (key []byte) {
 
 	x := make([]byte, 32)
 	y := make([]byte, 32)
@@ -1452,7 +1452,7 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 		return nil, nil, err
 	}
 
-	key = ka_kdf(point1, Zinitiator, Zresponder, keylen * 8)
+	key = ka_kdf(point1, Zinitiator, Zresponder, uint32(keylen) * 8)
 
 	s_check := ka_check(0x02, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
 
@@ -1583,7 +1583,7 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 		return
 	}
 
-	key = ka_kdf(point1, Zinitiator, Zresponder, keylen * 8)
+	key = ka_kdf(point1, Zinitiator, Zresponder, uint32(keylen) * 8)
 
 	Sinner = ka_check(0x03, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
 	Souter = ka_check(0x02, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
-- 
2.43.0


From b2da6be480caaf0ddb5efa617cd2a3a0eea20e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:01 +0000
Subject: [PATCH 13/30] fix: SM2 key agreement rejects missing or off-curve
 public keys and returns no key when confirmation fails

---
 sm2_std.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 1c84b73..485a586 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1377,7 +1377,7 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 	x.SetBytes(tmpPubkeyResponder[:32])
 	y.SetBytes(tmpPubkeyResponder[32:])
 
-	if !sm2_std.IsOnCurve(&x, &y) {
+	if !isValidPoint(sm2_std, &x, &y) {
 		err = errors.New("invalid responder's tmp public key")
 		return
 	}
@@ -1414,11 +1414,20 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 
 	point2 := new(ecdsa.PublicKey)
 	point2.Curve = sm2_std
+	if len(pubkeyResponder) != 64 {
+		return nil, nil, errors.New("invalid responder public key")
+	}
 	point2.X = new(big.Int).SetBytes(pubkeyResponder[:32])
 	point2.Y = new(big.Int).SetBytes(pubkeyResponder[32:])
+	if !isValidPoint(sm2_std, point2.X, point2.Y) {
+		return nil, nil, errors.New("invalid responder public key")
+	}
 
 	point1.X, point1.Y = sm2_std.Add(point1.X, point1.Y, point2.X, point2.Y)
 	point1.X, point1.Y = sm2_std.ScalarMult(point1.X, point1.Y, tmp1.Bytes())
+	if point1.X.Sign() == 0 && point1.Y.Sign() == 0 {
+		return nil, nil, errors.New("the shared point is at infinity")
+	}
 
 	if pubkeyInitiator == nil || len(pubkeyInitiator) != 64 {
 		err = errors.New("invalid initiator public key")
@@ -1457,14 +1466,12 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 	s_check := ka_check(0x02, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
 
 	if Sin == nil || len(Sin) != 32 || len(Sin) != len(s_check) {
-		err = errors.New("check failed")
-		return
+		return nil, nil, errors.New("check failed")
 	}
 
 	for i := 0; i < 32; i ++ {
 		if s_check[i] != Sin[i] {
-			err = errors.New("check failed")
-			return
+			return nil, nil, errors.New("check failed")
 		}
 	}
 
@@ -1490,7 +1497,7 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 	x.SetBytes(tmpPubkeyInitiator[:32])
 	y.SetBytes(tmpPubkeyInitiator[32:])
 
-	if !sm2_std.IsOnCurve(&x, &y) {
+	if !isValidPoint(sm2_std, &x, &y) {
 		err = errors.New("invalid initiator's tmp public key")
 		return
 	}
@@ -1545,11 +1552,20 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 
 	point2 := new(ecdsa.PublicKey)
 	point2.Curve = sm2_std
+	if len(pubkeyInitiator) != 64 {
+		return nil, nil, nil, nil, errors.New("invalid initiator public key")
+	}
 	point2.X = new(big.Int).SetBytes(pubkeyInitiator[:32])
 	point2.Y = new(big.Int).SetBytes(pubkeyInitiator[32:])
+	if !isValidPoint(sm2_std, point2.X, point2.Y) {
+		return nil, nil, nil, nil, errors.New("invalid initiator public key")
+	}
 
 	point1.X, point1.Y = sm2_std.Add(point1.X, point1.Y, point2.X, point2.Y)
 	point1.X, point1.Y = sm2_std.ScalarMult(point1.X, point1.Y, tmp1.Bytes())
+	if point1.X.Sign() == 0 && point1.Y.Sign() == 0 {
+		return nil, nil, nil, nil, errors.New("the shared point is at infinity")
+	}
 
 	if pubkeyInitiator == nil || len(pubkeyInitiator) != 64 {
 		err = errors.New("invalid initiator public key")
-- 
2.43.0


From afe094b11706225e6617865ee51e2d541d809671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 14/30] fix: Pallas point negation negates the ordinate

---
 pasta/crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index d955aca..60f99fb 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -502,7 +502,7 @@ func GroupScalarMul(r *Group, k Scalar, p Group) {
 
 func GroupNegate(q *Group, p Group) {
 	FieldCopy(&q.X, p.X)
-	FieldCopy(&q.Y, p.Y)
+	FieldNegate(&q.Y, p.Y)
 	FieldCopy(&q.Z, p.Z)
 }
 
-- 
2.43.0


From 9bf405a39a2ae3edaa72f01904ca3970ca77d44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 15/30] fix: Pallas addition doubles equal points whatever
 their projective representation

---
 pasta/crypto.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index 60f99fb..426dc70 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -423,11 +423,6 @@ func GroupAdd(r *Group, p, q Group) {
 		return
 	}
 
-	if FieldEq(p.X, q.X) == 1 && FieldEq(p.Y, q.Y) == 1 && FieldEq(p.Z, q.Z) == 1 {
-		GroupDbl(r, p)
-		return
-	}
-
 	var z1z1, z2z2 Field
 	FieldSq(&z1z1, p.Z)
 	FieldSq(&z2z2, q.Z)
@@ -440,6 +435,11 @@ func GroupAdd(r *Group, p, q Group) {
 	FieldMul(&r.Y, p.Z, z1z1)
 	FieldMul(&s2, q.Y, r.Y)
 
+	if FieldEq(u1, u2) == 1 && FieldEq(s1, s2) == 1 {
+		GroupDbl(r, p)
+		return
+	}
+
 	var h, i, j, w, v Field
 	FieldSub(&h, u2, u1)
 	FieldAdd(&r.Z, h, h)
-- 
2.43.0


From 529db7769baf4a67c9acc0d5815f67b294fdaa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 16/30] fix: Pallas points in 65-byte form are decoded instead
 of read as zero

---
 pasta/crypto.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index 426dc70..e893d85 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -89,12 +89,11 @@ func (a *Affine) FromBigEndianBytes(p []byte) error {
 				return errors.New("invalid input data p, first byte is not 0x04")
 			}
 			p = p[1:]
-		} else {
-			copy(tmp[:], reverseBytes(p[:32]))
-			FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
-			copy(tmp[:], reverseBytes(p[32:]))
-			FiatPastaFpToMontgomery(&y_mont, BytesArrayToU64Array(tmp))
 		}
+		copy(tmp[:], reverseBytes(p[:32]))
+		FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
+		copy(tmp[:], reverseBytes(p[32:]))
+		FiatPastaFpToMontgomery(&y_mont, BytesArrayToU64Array(tmp))
 		a.X.Set(x_mont)
 		a.Y.Set(y_mont)
 	}
-- 
2.43.0


From d6855850210ac9cc75c2c90602f3e1800682b38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:51 +0000
Subject: [PATCH 17/30] fix: compressed Pallas encodings with a bad prefix or a
 non-point abscissa are rejected

---
 pasta/crypto.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index e893d85..60f465b 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -1,6 +1,7 @@
 package pasta
 
 import (
+	"bytes"
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
@@ -80,7 +81,9 @@ func (a *Affine) FromBigEndianBytes(p []byte) error {
 		if err != nil {
 			return err
 		}
-		Decompress(a, compressed)
+		if !Decompress(a, compressed) {
+			return errors.New("invalid input data p, not a point of the curve")
+		}
 	} else {
 		var x_mont, y_mont [4]uint64
 		var tmp [32]byte
@@ -132,13 +135,16 @@ func (c *Compressed) FromBigEndianBytes(p []byte) error {
 	} else if p[0] == 0x03 {
 		c.IsOdd = true
 	} else {
-		errors.New("invalid input data p, first byte is not 0x02 or 0x03")
+		return errors.New("invalid input data p, first byte is not 0x02 or 0x03")
 	}
 
 	var tmp [32]byte
 	copy(tmp[:], reverseBytes(p[1:]))
 	var x_mont [4]uint64
 	FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
+	if !bytes.Equal(FpMontgomeryArrayToBigEndianBytes(x_mont), p[1:]) {
+		return errors.New("invalid input data p, abscissa is not a canonical field element")
+	}
 	c.X.Set(x_mont)
 	return nil
 }
-- 
2.43.0


From 4bc1c8cccf59b2b065feb8e55f17c1145ecd88d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:51 +0000
Subject: [PATCH 18/30] fix: Point_add and Point_mul report malformed Pallas
 operands as failures

---
 eccset.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/eccset.go b/eccset.go
index 54bdb82..a472971 100644
--- a/eccset.go
+++ b/eccset.go
@@ -493,7 +493,10 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		return P[:], SUCCESS
 		break
 	case ECC_CURVE_PASTA:
-		pout, _ := pasta.PointAdd(point1, point2)
+		pout, err := pasta.PointAdd(point1, point2)
+		if err != nil {
+			return nil, FAILURE
+		}
 		return pout, SUCCESS
 		break
 	default:
@@ -556,7 +559,10 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 	//	return P[:], SUCCESS
 	//	break
 	case ECC_CURVE_PASTA:
-		pout, _ := pasta.PointMul(pointin, scalar)
+		pout, err := pasta.PointMul(pointin, scalar)
+		if err != nil {
+			return nil, FAILURE
+		}
 		return pout, SUCCESS
 		break
 	default:
-- 
2.43.0


From 792d7bfdbe7bd779f89de58b2b0ff623a32f3a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 19/30] fix: Pasta byte, selection and one conversions write
 their result to the caller

---
 pasta/pasta_fp.go | 6 +++---
 pasta/pasta_fq.go | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pasta/pasta_fp.go b/pasta/pasta_fp.go
index cc89fc4..cbd6b53 100644
--- a/pasta/pasta_fp.go
+++ b/pasta/pasta_fp.go
@@ -1170,7 +1170,7 @@ func FiatPastaFpNonZero(out1 *uint64, arg1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFpSelectZnz(out1 [4]uint64, arg1 FiatPastaFpUint1, arg2, arg3 [4]uint64) {
+func FiatPastaFpSelectZnz(out1 *[4]uint64, arg1 FiatPastaFpUint1, arg2, arg3 [4]uint64) {
 	var x1, x2, x3, x4 uint64
 	FiatPastaFpCmovznzU64(&x1, arg1, arg2[0], arg3[0])
 	FiatPastaFpCmovznzU64(&x2, arg1, arg2[1], arg3[1])
@@ -1195,7 +1195,7 @@ func FiatPastaFpSelectZnz(out1 [4]uint64, arg1 FiatPastaFpUint1, arg2, arg3 [4]u
  * Output Bounds:
  *   out1: [[0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0x7f]]
  */
-func FiatPastaFpToBytes(out1 [32]uint8, arg1 [4]uint64) {
+func FiatPastaFpToBytes(out1 *[32]uint8, arg1 [4]uint64) {
 	var x1, x2, x3, x4 uint64
 	var x5 uint8
 	var x6 uint64
@@ -1354,7 +1354,7 @@ func FiatPastaFpToBytes(out1 [32]uint8, arg1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0x7fffffffffffffff]]
  */
-func FiatPastaFpFromBytes(out1 [4]uint64, arg1 [32]uint8) {
+func FiatPastaFpFromBytes(out1 *[4]uint64, arg1 [32]uint8) {
 	var x1, x2, x3, x4, x5, x6, x7 uint64
 	var x8 uint8
 	var x9, x10, x11, x12, x13, x14, x15 uint64
diff --git a/pasta/pasta_fq.go b/pasta/pasta_fq.go
index 04c0a57..3bb4108 100644
--- a/pasta/pasta_fq.go
+++ b/pasta/pasta_fq.go
@@ -1166,7 +1166,7 @@ func FiatPastaFqNonZero(out1 *uint64, arg1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFqSelectZnz(out1 [4]uint64, arg1 FiatPastaFqUint1, arg2, arg3 [4]uint64) {
+func FiatPastaFqSelectZnz(out1 *[4]uint64, arg1 FiatPastaFqUint1, arg2, arg3 [4]uint64) {
 	var x1, x2, x3, x4 uint64
 	FiatPastaFqCmovznzU64(&x1, arg1, arg2[0], arg3[0])
 	FiatPastaFqCmovznzU64(&x2, arg1, arg2[1], arg3[1])
@@ -1191,7 +1191,7 @@ func FiatPastaFqSelectZnz(out1 [4]uint64, arg1 FiatPastaFqUint1, arg2, arg3 [4]u
  * Output Bounds:
  *   out1: [[0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0x7f]]
  */
-func FiatPastaFqToBytes(out1 [32]uint8, arg1 [4]uint64) {
+func FiatPastaFqToBytes(out1 *[32]uint8, arg1 [4]uint64) {
 	var x1, x2, x3, x4 uint64
 	var x5 uint8
 	var x6 uint64
@@ -1350,7 +1350,7 @@ func FiatPastaFqToBytes(out1 [32]uint8, arg1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0x7fffffffffffffff]]
  */
-func FiatPastaFqFromBytes(out1 [4]uint64, arg1 [32]uint8) {
+func FiatPastaFqFromBytes(out1 *[4]uint64, arg1 [32]uint8) {
 	var x1, x2, x3, x4, x5, x6, x7 uint64
 	var x8 uint8
 	var x9, x10, x11, x12, x13, x14, x15 uint64
@@ -1436,7 +1436,7 @@ func FiatPastaFqFromBytes(out1 [4]uint64, arg1 [32]uint8) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFqSetOne(out1 [4]uint64) {
+func FiatPastaFqSetOne(out1 *[4]uint64) {
 	out1[0] = uint64(0x5b2b3e9cfffffffd)
 	out1[1] = uint64(0x992c350be3420567)
 	out1[2] = uint64(0xffffffffffffffff)
-- 
2.43.0


From d2d38b46ed07c0a8325cb7f00cfe8706a6af906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 20/30] fix: Mina verification rejects non-canonical signatures
 and public keys that are not finite curve points

---
 pasta/crypto.go | 3 +++
 pasta/pasta.go  | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index 60f465b..be67dac 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -97,6 +97,9 @@ func (a *Affine) FromBigEndianBytes(p []byte) error {
 		FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
 		copy(tmp[:], reverseBytes(p[32:]))
 		FiatPastaFpToMontgomery(&y_mont, BytesArrayToU64Array(tmp))
+		if !bytes.Equal(FpMontgomeryArrayToBigEndianBytes(x_mont), p[:32]) || !bytes.Equal(FpMontgomeryArrayToBigEndianBytes(y_mont), p[32:]) {
+			return errors.New("invalid input data p, coordinates are not canonical field elements")
+		}
 		a.X.Set(x_mont)
 		a.Y.Set(y_mont)
 	}
diff --git a/pasta/pasta.go b/pasta/pasta.go
index 1c77dcb..cfadadd 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -1,6 +1,7 @@
 package pasta
 
 import (
+	"bytes"
 	"crypto/rand"
 	"errors"
 )
@@ -73,7 +74,7 @@ func Verify(publicKey, msg, sig []byte) bool {
 	}
 	var pub Affine
 	err := pub.FromBigEndianBytes(publicKey)
-	if err != nil {
+	if err != nil || AffineIsZero(pub) == 1 || !AffineIsOnCurve(pub) {
 		return false
 	}
 
@@ -85,6 +86,9 @@ func Verify(publicKey, msg, sig []byte) bool {
 	if err != nil {
 		return false
 	}
+	if !bytes.Equal(FpMontgomeryArrayToBigEndianBytes(r_mont), sig[:32]) || !bytes.Equal(FqMontgomeryArrayToBigEndianBytes(s_mont), sig[32:]) {
+		return false
+	}
 	hash := MessageHash(publicKey, r_mont, *mm)
 	var e Scalar
 
-- 
2.43.0


From fbf1c550702fab22f448da032aa40b125dfa8e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:06 +0000
Subject: [PATCH 21/30] fix: the Pallas private key zero is rejected

---
 pasta/pasta.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasta/pasta.go b/pasta/pasta.go
index cfadadd..fede2fe 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -10,7 +10,7 @@ import (
 // publicKey  : big endian X || Y
 // all data is in big int field
 func GenPublicKey(privateKey []byte) ([]byte, error) {
-	if privateKey == nil || len(privateKey) != 32 || privateKey[0]&0xC0 != 0 {
+	if privateKey == nil || len(privateKey) != 32 || privateKey[0]&0xC0 != 0 || bytes.Equal(privateKey, make([]byte, 32)) {
 		return nil, errors.New("invalid private key")
 	}
 
-- 
2.43.0


From ec93b035585ba82fcee8a334c09f01cf3ee642b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 22/30] fix: sign with the scalar the raw Ed25519 public key is
 derived from

---
 eddsa/ed25519.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 1a81267..d1ff79b 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -57,9 +57,6 @@ func ED25519_sign(prikey, message []byte) ([]byte, error) {
 	var messageDigest, hramDigest [64]byte
 
 	copy(expandedSecretKey[:], prikey[:])
-	expandedSecretKey[0] &= 248
-	expandedSecretKey[31] &= 63
-	expandedSecretKey[31] |= 64
 	rand.Read(digest1[:])
 	h := sha512.New()
 	h.Write(digest1[:])
-- 
2.43.0


From b7dd33a94014feede635a0a4f3b829d756a8dc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 23/30] fix: reduce raw scalars before the Edwards
 multiplications, which need them below 2^255

---
 eddsa/ed25519.go | 10 ++++++++--
 eddsa/x25519.go  |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index d1ff79b..ba8d7c1 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -32,8 +32,10 @@ func ED25519_genPub(prikey []byte) ([]byte, error) {
 	}
 
 	var A edwards25519.ExtendedGroupElement
+	var wide [64]byte
 	var hBytes [32]byte
-	copy(hBytes[:], prikey[:])
+	copy(wide[:], prikey[:])
+	edwards25519.ScReduce(&hBytes, &wide)
 	edwards25519.GeScalarMultBase(&A, &hBytes)
 
 	var publicKeyBytes [32]byte
@@ -161,10 +163,14 @@ func ScalarMultBaseAdd(point1, scalar, point2 *[32]byte) bool {
 		x     edwards25519.FieldElement
 		y     edwards25519.FieldElement
 		one   [32]byte
+		s     [32]byte
+		wide  [64]byte
 	)
 	P1.FromBytes(point1)
 	one[0] = 1
-	edwards25519.GeDoubleScalarMultVartime(&R, &one, &P1, scalar)
+	copy(wide[:], scalar[:])
+	edwards25519.ScReduce(&s, &wide)
+	edwards25519.GeDoubleScalarMultVartime(&R, &one, &P1, &s)
 
 	edwards25519.FeInvert(&recip, &R.Z)
 	edwards25519.FeMul(&x, &R.X, &recip)
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index 8129c64..c0ca8e0 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -27,8 +27,10 @@ func X25519_genPub(prikey []byte) ([]byte, error) {
 	}
 
 	var A edwards25519.ExtendedGroupElement
+	var wide [64]byte
 	var hBytes [32]byte
-	copy(hBytes[:], prikey[:])
+	copy(wide[:], prikey[:])
+	edwards25519.ScReduce(&hBytes, &wide)
 	edwards25519.GeScalarMultBase(&A, &hBytes)
 
 	var publicKeyBytes [32]byte
-- 
2.43.0


From b565e5cfdd3c419f40f36a76bc6d47b8044482bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 24/30] fix: verify X25519 and Curve25519-SHA256 signatures of
 the empty message

---
 eddsa/curve25519_sha256.go | 2 +-
 eddsa/x25519.go            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index 96d94ef..db06c60 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -67,7 +67,7 @@ func CURVE25519_sha256_sign(prikey, message []byte) ([]byte, error) {
 }
 
 func CURVE25519_sha256_verify(pubkey, message,signature []byte) bool {
-	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 || message == nil || len(message) == 0 {
+	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 {
 		return false
 	}
 
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index c0ca8e0..e33d7c6 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -607,7 +607,7 @@ func verify_modify(message, sm, pubkey []byte) bool {
 
 func X25519_verify(pubkey, message,signature []byte) bool {
 
-	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 || message == nil || len(message) == 0 {
+	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 {
 		return false
 	}
 
-- 
2.43.0


From 628b856eb3c882896d316bfe2a059261ffd623fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 25/30] fix: do not clamp the caller buffer holding a
 Curve25519-SHA256 private key

---
 eddsa/curve25519_sha256.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index db06c60..dc9ffb2 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -24,7 +24,10 @@ func CURVE25519_sha256_genPub(prikey []byte) ([]byte, error) {
 
 	pubkey := make([]byte, 32)
 
-	Keygen(pubkey, nil, prikey)
+	key := make([]byte, 32)
+	copy(key, prikey)
+
+	Keygen(pubkey, nil, key)
 
 	return pubkey, nil
 }
@@ -37,7 +40,10 @@ func CURVE25519_sha256_sign(prikey, message []byte) ([]byte, error) {
 	pubkey := make([]byte, 32)
 	s := make([]byte, 32)
 
-	Keygen(pubkey, s, prikey)
+	key := make([]byte, 32)
+	copy(key, prikey)
+
+	Keygen(pubkey, s, key)
 
 	digest := sha256.New()
 	digest.Write(message)
-- 
2.43.0


From 72e7746a27b14f07521e7ff1826ab89ed79eb1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 26/30] fix: report undecodable Edwards points instead of
 adding to them

---
 eccset.go        | 5 +++++
 eddsa/ed25519.go | 5 +++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/eccset.go b/eccset.go
index a472971..e18f3cc 100644
--- a/eccset.go
+++ b/eccset.go
@@ -19,6 +19,7 @@ import (
 	"errors"
 	"github.com/blocktree/go-owcrypt/bls12_381"
 	"github.com/blocktree/go-owcrypt/eddsa"
+	"github.com/blocktree/go-owcrypt/eddsa/edwards25519"
 	"github.com/blocktree/go-owcrypt/pasta"
 )
 
@@ -412,8 +413,12 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 		break
 	case ECC_CURVE_ED25519:
 		var point1, s, point2 [32]byte
+		var P edwards25519.ExtendedGroupElement
 		copy(point1[:], pointin)
 		copy(s[:], scalar)
+		if len(pointin) != 32 || !P.FromBytes(&point1) {
+			return nil, false
+		}
 		infinity := eddsa.ScalarMultBaseAdd(&point1, &s, &point2)
 		if infinity {
 			return nil, true
diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index ba8d7c1..3a9a0fd 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -194,8 +194,9 @@ func Point_add(point1, point2, point *[32]byte) bool {
 	)
 
 	one[0] = 1
-	P1.FromBytes(point1)
-	P2.FromBytes(point2)
+	if !P1.FromBytes(point1) || !P2.FromBytes(point2) {
+		return true
+	}
 
 	edwards25519.GePointAddVarTime(&R, &one, &P1, &one, &P2)
 	edwards25519.FeInvert(&recip, &R.Z)
-- 
2.43.0


From 2a5db402047319995273e5aa160d079370e89042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:15 +0000
Subject: [PATCH 27/30] fix: do not borrow from a zero limb in the SM2 field
 reduction

---
 sm2_std.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 485a586..582fb3e 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -823,7 +823,7 @@ func sm2_stdReduceDegree(a *sm2_stdFieldElement, b *sm2_stdLargeFieldElement) {
 				tmp[i+7] -= set7
 				tmp[i+7] -= (x << 24) & bottom28Bits
 				tmp[i+8] += (x << 28) & bottom29Bits
-				if tmp[i+8] < 0x20000000 {
+				if tmp[i+8] <= x>>4 {
 					tmp[i+8] += 0x20000000 & xMask
 					tmp[i+8] -= 1
 					tmp[i+8] -= x >> 4
@@ -837,7 +837,7 @@ func sm2_stdReduceDegree(a *sm2_stdFieldElement, b *sm2_stdLargeFieldElement) {
 				tmp[i+7] -= set7
 				tmp[i+7] -= (x << 24) & bottom28Bits
 				tmp[i+8] += (x << 28) & bottom29Bits
-				if tmp[i+8] < 0x20000000 {
+				if tmp[i+8] < x>>4 {
 					tmp[i+8] += 0x20000000 & xMask
 					tmp[i+8] -= x >> 4
 					tmp[i+9] += ((x >> 1) - 1) & xMask
-- 
2.43.0


From d567ffedcdba1df403c914991efe8dfa9e0835aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:29 +0000
Subject: [PATCH 28/30] fix: accept SM2 scalars with leading zero bytes beyond
 32 bytes

---
 sm2_std.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 582fb3e..b1c66ac 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -198,10 +198,8 @@ func sm2_stdGetScalar(b *[32]byte, a []byte) {
 	n := new(big.Int).SetBytes(a)
 	if n.Cmp(sm2_std.N) >= 0 {
 		n.Mod(n, sm2_std.N)
-		scalarBytes = n.Bytes()
-	} else {
-		scalarBytes = a
 	}
+	scalarBytes = n.Bytes()
 	for i, v := range scalarBytes {
 		b[len(scalarBytes)-(1+i)] = v
 	}
-- 
2.43.0


From a8b1257772f73f64f35098609d89cebf00502dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:20 +0000
Subject: [PATCH 29/30] fix: BLS12-381 multiplication without ADX lost the
 carry of the first word of each reduction step

---
 bls12_381/bls/arithmetic_x86.s | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bls12_381/bls/arithmetic_x86.s b/bls12_381/bls/arithmetic_x86.s
index fc8660b..5ac4477 100644
--- a/bls12_381/bls/arithmetic_x86.s
+++ b/bls12_381/bls/arithmetic_x86.s
@@ -952,6 +952,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, SI
 	ADCQ DX, R13
 	// | SI is idle now
 
@@ -1017,6 +1018,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, DI
 	ADCQ DX, R13
 	// | DI is idle now
 
@@ -1084,6 +1086,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, CX
 	ADCQ DX, R13
 	// CX is idle now
 
@@ -1148,6 +1151,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R14
 	ADCQ DX, R13
 	// R14 is idle now
 
@@ -1212,6 +1216,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R15
 	ADCQ DX, R13
 	// R15 is idle now
 
@@ -1284,6 +1289,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R8
 	ADCQ DX, R13
 	// R8 is idle now
 
@@ -1807,6 +1813,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, SI
 	ADCQ DX, R13
 	// | SI is idle now
 
@@ -1872,6 +1879,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, DI
 	ADCQ DX, R13
 	// | DI is idle now
 
@@ -1939,6 +1947,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, CX
 	ADCQ DX, R13
 	// CX is idle now
 
@@ -2003,6 +2012,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R14
 	ADCQ DX, R13
 	// R14 is idle now
 
@@ -2067,6 +2077,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R15
 	ADCQ DX, R13
 	// R15 is idle now
 
@@ -2139,6 +2150,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R8
 	ADCQ DX, R13
 	// R8 is idle now
 
-- 
2.43.0


From bdf366917427ded7cba84a4c985febe3730ad5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:46 +0000
Subject: [PATCH 30/30] fix: BLS12-381 sextic Frobenius map of power 3
 overwrote its operand and returned a wrong value

---
 bls12_381/bls/fp6.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bls12_381/bls/fp6.go b/bls12_381/bls/fp6.go
index e1b1414..90e8885 100644
--- a/bls12_381/bls/fp6.go
+++ b/bls12_381/bls/fp6.go
@@ -348,9 +348,11 @@ func (e *fp6) frobeniusMap(c, a *fe6, power uint) {
 	case 0:
 		return
 	case 3:
-		neg(&c[0][0], &a[1][1])
-		c[1][1].Set(&a[1][0])
-		fp2.neg(&a[2], &a[2])
+		t := e.t
+		neg(&t[0][0], &c[1][1])
+		c[1][1].Set(&c[1][0])
+		c[1][0].Set(&t[0][0])
+		fp2.neg(&c[2], &c[2])
 	default:
 		fp2.mul(&c[1], &c[1], &frobeniusCoeffs61[power%6])
 		fp2.mul(&c[2], &c[2], &frobeniusCoeffs62[power%6])
-- 
2.43.0

