package prims

// The Edwards25519 primitives have no executable body here: the harnesses use their own reference.
// In proofs they are the abstract functions of gocv/units_edx.go.

const abstract = "abstract primitive"

// EdBase is the encoding of k*B.
func EdBase(k [32]byte) [32]byte { panic(abstract) }

// EdReduce is the canonical encoding of w modulo the group order.
func EdReduce(w [64]byte) [32]byte { panic(abstract) }

// EdMulAdd is the canonical encoding of a*b+c modulo the group order.
func EdMulAdd(a, b, c [32]byte) [32]byte { panic(abstract) }

// EdOn reports whether p decodes to a point.
func EdOn(p [32]byte) bool { panic(abstract) }

// EdSub is the encoding of s*B - h*A for the point A that a encodes.
func EdSub(h, a, s [32]byte) [32]byte { panic(abstract) }

// EdAdd is the encoding of the sum of two encoded points, and whether that is the neutral element.
func EdAdd(p, q [32]byte) ([32]byte, bool) { panic(abstract) }

// EdNotNeutral restricts attention to encodings of points other than the neutral element.
func EdNotNeutral(p [32]byte) { panic(abstract) }

// EdToMont is (1+y)/(1-y), and EdOfMont (u-1)/(u+1), with x/0 = 0, of the value of the low 255 bits.
func EdToMont(p [32]byte) [32]byte { panic(abstract) }
func EdOfMont(u [32]byte) [32]byte { panic(abstract) }

// EdCanonical reports whether b is the canonical encoding of a field element.
func EdCanonical(b [32]byte) bool { panic(abstract) }

// LastRandom yields the bytes most recently drawn from the random source.
func LastRandom(b []byte) { panic(abstract) }
