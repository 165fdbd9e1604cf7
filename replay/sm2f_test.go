package owcrypt

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"testing"
)

func zv_exp(i int) uint { return uint(29*((i+1)/2) + 28*(i/2)) }

func zv_val(a *sm2_stdFieldElement) *big.Int {
	r := new(big.Int)
	for i := range a {
		t := new(big.Int).SetUint64(uint64(a[i]))
		r.Add(r, t.Lsh(t, zv_exp(i)))
	}
	return r
}

// the largest limbs a field operation may leave
var zv_max = [9]uint32{1<<29 - 1 + 14, 1<<28 - 1, 1<<29 - 1 + 0x1FFFFF00, 1<<28 - 1 + 0x37FF, 1<<29 - 1, 1<<28 - 1, 1<<29 - 1, 1<<28 - 1 + 0xE000000, 1<<29 - 1}

type zv_gen struct {
	*rand.Rand
	P *big.Int
}

func (r zv_gen) elem() (e sm2_stdFieldElement) {
	switch r.Intn(6) {
	case 0: // sparse
		for n := 1 + r.Intn(3); n > 0; n-- {
			i := r.Intn(9)
			e[i] = uint32(r.Int63n(int64(zv_max[i]) + 1))
			if r.Intn(2) == 0 {
				e[i] = 1 << uint(r.Intn(28))
			}
		}
	case 1: // extremes
		for i := range e {
			switch r.Intn(6) {
			case 0, 1:
			case 2:
				e[i] = 1
			case 3:
				e[i] = zv_max[i]
			case 4:
				e[i] = 1<<uint(29-i%2) - 1
			default:
				e[i] = 1<<uint(29-i%2) - 1 - 1<<uint(r.Intn(28))
			}
		}
	case 2:
		for i := range e {
			e[i] = uint32(r.Int63n(int64(zv_max[i]) + 1))
		}
	case 3: // small integer
		sm2_stdFromBig(&e, big.NewInt(r.Int63()>>uint(r.Intn(63))))
	case 4: // limbs of p and of its neighbours
		v := new(big.Int).Mul(r.P, big.NewInt(int64(r.Intn(2))))
		v.Add(v, big.NewInt(int64(r.Intn(5))))
		for i := range e {
			e[i] = uint32(new(big.Int).Rsh(v, zv_exp(i)).Uint64() & (1<<uint(29-i%2) - 1))
		}
	default:
		for i := range e {
			e[i] = r.Uint32() & (1<<uint(29-i%2) - 1)
		}
	}
	return
}

func TestVerifF04(t *testing.T) {
	P, _ := new(big.Int).SetString("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF", 16)
	initsm2_stdParamOnce()
	seed := int64(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	r := zv_gen{rand.New(rand.NewSource(seed)), P}
	R := new(big.Int).Lsh(big.NewInt(1), 257)
	Ri := new(big.Int).ModInverse(R, P)
	n := 150000
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 4000000
	}
	bad := 0
	fail := func(f string, a ...interface{}) {
		bad++
		t.Fail()
		if bad < 4 {
			fmt.Printf("FAILING-INPUT: "+f+"\n", a...)
		}
	}
	dec := func(e *sm2_stdFieldElement) *big.Int {
		v := zv_val(e)
		return v.Mod(v.Mul(v, Ri), P)
	}
	check := func(name string, a, b, c *sm2_stdFieldElement, w *big.Int) {
		w.Mod(w, P)
		if g := dec(c); g.Cmp(w) != 0 {
			fail("%s of limbs %x and %x gives limbs %x", name, *a, *b, *c)
			return
		}
		for i, x := range c {
			if x > zv_max[i] {
				fail("%s of limbs %x and %x leaves limb %d at %x", name, *a, *b, i, x)
			}
		}
	}
	guard := func(what string, a, b *sm2_stdFieldElement, f func()) {
		defer func() {
			if e := recover(); e != nil {
				fail("%s of limbs %x and %x panics: %v", what, *a, *b, e)
			}
		}()
		f()
	}
	for k := 0; k < n && bad < 4; k++ {
		a, b := r.elem(), r.elem()
		if r.Intn(20) == 0 {
			b = a
		}
		a0, b0 := a, b
		A, B := dec(&a), dec(&b)
		var c sm2_stdFieldElement
		guard("product", &a0, &b0, func() {
			sm2_stdMul(&c, &a, &b)
			check("product", &a0, &b0, &c, new(big.Int).Mul(A, B))
		})
		guard("square", &a0, &a0, func() {
			sm2_stdSquare(&c, &a)
			check("square", &a0, &a0, &c, new(big.Int).Mul(A, A))
		})
		guard("sum", &a0, &b0, func() {
			sm2_stdAdd(&c, &a, &b)
			check("sum", &a0, &b0, &c, new(big.Int).Add(A, B))
		})
		guard("difference", &a0, &b0, func() {
			sm2_stdSub(&c, &a, &b)
			check("difference", &a0, &b0, &c, new(big.Int).Sub(A, B))
		})
		if a != a0 || b != b0 {
			fail("operands %x and %x are changed to %x and %x", a0, b0, a, b)
		}
		switch k % 8 {
		case 0:
			c = a
			sm2_stdMul(&c, &c, &b)
			check("product in place", &a0, &b0, &c, new(big.Int).Mul(A, B))
		case 1:
			c = b
			sm2_stdSub(&c, &a, &c)
			check("difference in place", &a0, &b0, &c, new(big.Int).Sub(A, B))
		case 2:
			c = a
			sm2_stdAdd(&c, &c, &c)
			check("double in place", &a0, &a0, &c, new(big.Int).Lsh(A, 1))
		case 3:
			c = a
			sm2_stdSquare(&c, &c)
			check("square in place", &a0, &a0, &c, new(big.Int).Mul(A, A))
		case 4:
			f := r.Intn(9)
			c = a
			sm2_stdScalar(&c, f)
			check(fmt.Sprintf("%d-fold", f), &a0, &a0, &c, new(big.Int).Mul(A, big.NewInt(int64(f))))
		case 5:
			if g := sm2_stdToBig(&a); g.Cmp(A) != 0 {
				fail("limbs %x are converted to %x instead of %x", a0, g, A)
			}
			v := new(big.Int).Rand(r.Rand, P)
			if r.Intn(2) == 0 {
				v.SetInt64(int64(r.Intn(3)))
				if r.Intn(2) == 0 {
					v.Sub(P, v)
				}
			}
			w := new(big.Int).Set(v)
			sm2_stdFromBig(&c, v)
			if g := dec(&c); g.Cmp(new(big.Int).Mod(w, P)) != 0 || v.Cmp(w) != 0 {
				fail("integer %x is converted to limbs %x", w, c)
			}
			for i, x := range c {
				if x >= 1<<uint(29-i%2) {
					fail("integer %x is converted to limbs %x", w, c)
				}
			}
		case 6:
			if A.Sign() == 0 {
				break
			}
			var x, y sm2_stdFieldElement
			sm2_stdPointToAffine(&x, &y, &b, &b, &a)
			zi := new(big.Int).ModInverse(A, P)
			zz := new(big.Int).Mul(zi, zi)
			check("quotient by the square of the second", &b0, &a0, &x, new(big.Int).Mul(B, zz))
			check("quotient by the cube of the second", &b0, &a0, &y, new(big.Int).Mul(zz.Mul(zz, zi), B))
		case 7:
			c = b
			m := uint32(r.Intn(2)) * 0xffffffff
			sm2_stdCopyConditional(&c, &a, m)
			if m == 0 && c != b || m != 0 && c != a {
				fail("conditional copy of %x over %x under %x gives %x", a, b, m, c)
			}
			var d sm2_stdFieldElement
			sm2_stdDup(&d, &a)
			if d != a {
				fail("copy of %x is %x", a, d)
			}
		}
	}
	for x := range sm2_stdFactor {
		if dec(&sm2_stdFactor[x]).Cmp(big.NewInt(int64(x))) != 0 {
			fail("factor %d is %x", x, sm2_stdFactor[x])
		}
	}
	if bad == 0 {
		fmt.Println("explored:", n, "pairs of limb vectors")
	}
}

func initsm2_stdParamOnce() {
	if sm2_std == nil || sm2_std.P == nil {
		initsm2_stdParam()
	}
}
