package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- Curve25519 field elements of ten signed limbs (radix 2^25.5) ----
//
// Level b: |even limb| <= b*1.01*2^25, |odd limb| <= b*1.01*2^24. Products need level 3 at most and return level 1.

var p25519 = new(big.Int).Sub(p2(255), big.NewInt(19))
var l25519, _ = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)

func edExp(i int) int { return (51*i + 1) / 2 }
func edBound(i, b int) *big.Int {
	v := new(big.Int).Mul(p2(25-i%2), big.NewInt(int64(101*b)))
	return v.Div(v, big.NewInt(100))
}

// edNum binds ten limbs at level b and returns the number they stand for.
func edNum(d *LDom, name string, ts []*Term, b int) *LP {
	r := LI(0)
	for i, t := range ts {
		B := edBound(i, b)
		p := d.Bind(t, fmt.Sprintf("%s%d", name, i), new(big.Int).Neg(B), B)
		r.addMul(p, p2(edExp(i)))
	}
	return r
}
func edSum(d *LDom, ts []*Term) *LP {
	r := LI(0)
	for i, t := range ts {
		r.addMul(d.signedOf(t), p2(edExp(i)))
	}
	return r
}

// edLimbs proves out = spec modulo p at level lout for operands at the given levels.
func edLimbs(c *Ctx, fname string, alias map[int]int, lin []int, lout int, spec func(in []*LP) *LP) {
	fn := c.P.Fn("eddsa/edwards25519", fname)
	if fn == nil {
		c.Ob("function under contract exists", "edwards25519."+fname, false, "none", "missing")
		return
	}
	nm := shortFn(fn)
	lab := ""
	if alias != nil {
		lab = fmt.Sprintf(" (operands coincide %v)", alias)
	}
	c.guard("exact result"+lab, nm, func() {
		ex := c.Exec()
		ex.MustInit(c.P, fn.Pkg.Pkg.Path())
		r := c.lcall(ex, fn, alias, nil)
		d := NewLDom()
		var in []*LP
		seen := map[*Term]*LP{}
		for i, b := range lin {
			k := i + 1
			if p := seen[r.in[k][0]]; p != nil {
				in = append(in, p)
				continue
			}
			p := edNum(d, fmt.Sprintf("a%d_", k), r.in[k], b)
			seen[r.in[k][0]] = p
			in = append(in, p)
		}
		d.Cases(func() {
			out := r.after(0)
			V := edSum(d, out)
			eq := LSub(V, spec(in))
			c.Ob("exact result"+lab, nm, lzeroMod(eq, p25519), "polynomial identity modulo p", "residue "+d.showMod(eq, p25519))
			bad := ""
			for i, t := range out {
				lo, hi := d.rng(d.signedOf(t))
				B := edBound(i, lout)
				if lo.CmpAbs(B) > 0 || hi.CmpAbs(B) > 0 {
					bad += fmt.Sprintf(" limb %d in [%s, %s] beyond %s", i, lo, hi, B)
				}
			}
			c.Ob("limbs within the bound of the result"+lab, nm, bad == "", "interval arithmetic", bad)
		})
		for i := 1; i < len(r.args); i++ {
			if _, ptr := r.args[i].(Ptr); ptr && alias[i] == 0 && (alias == nil || !aliased0(alias, i)) {
				same := true
				for j, t := range r.after(i) {
					same = same && t == r.in[i][j]
				}
				c.Ob("operands unchanged"+lab, nm, same, "normal form", "")
			}
		}
	})
}
func aliased0(alias map[int]int, i int) bool { j, ok := alias[i]; return ok && j == 0 }

// byteNum binds bytes as a little-endian number.
func byteNum(d *LDom, name string, ts []*Term) *LP {
	r := LI(0)
	for i, t := range ts {
		p := d.Bind(t, fmt.Sprintf("%s%d", name, i), new(big.Int), big.NewInt(255))
		r.addMul(p, p2(8*i))
	}
	return r
}

func init() {
	unit("f02", []string{modPath + "/eddsa/edwards25519", modPath + "/eddsa"}, 1, func(c *Ctx) {
		id := func(a []*LP) *LP { return a[0] }
		mul := func(a []*LP) *LP { return LMul(a[0], a[1]) }
		sq := func(a []*LP) *LP { return LMul(a[0], a[0]) }
		for _, al := range []map[int]int{nil, {1: 0}, {2: 0}, {2: 1}} {
			edLimbs(c, "FeMul", al, []int{3, 3}, 1, mul)
			edLimbs(c, "FeAdd", al, []int{3, 3}, 6, func(a []*LP) *LP { return LAdd(a[0], a[1]) })
			edLimbs(c, "FeSub", al, []int{3, 3}, 6, func(a []*LP) *LP { return LSub(a[0], a[1]) })
		}
		for _, al := range []map[int]int{nil, {1: 0}} {
			edLimbs(c, "FeSquare", al, []int{3}, 1, sq)
			edLimbs(c, "FeSquare2", al, []int{3}, 1, func(a []*LP) *LP { return LScale(LMul(a[0], a[0]), big.NewInt(2)) })
			edLimbs(c, "FeNeg", al, []int{6}, 6, func(a []*LP) *LP { return LScale(a[0], big.NewInt(-1)) })
			edLimbs(c, "FeCopy", al, []int{6}, 6, id)
		}
		for a := 1; a <= 3; a++ {
			for b := 1; b <= 3; b++ {
				edLimbs(c, "FeAdd", nil, []int{a, b}, a+b, func(a []*LP) *LP { return LAdd(a[0], a[1]) })
				edLimbs(c, "FeSub", nil, []int{a, b}, a+b, func(a []*LP) *LP { return LSub(a[0], a[1]) })
			}
		}
		for a := 1; a < 6; a++ {
			edLimbs(c, "FeNeg", nil, []int{a}, a, func(a []*LP) *LP { return LScale(a[0], big.NewInt(-1)) })
		}
		edBytes(c)
		edMisc(c)
	})
}

func edBytes(c *Ctx) {
	pk := "eddsa/edwards25519"
	run := func(name string, g func(ex *Exec, r *lcallRes, fn string)) {
		fn := c.P.Fn(pk, name)
		if fn == nil {
			c.Ob("function under contract exists", pk+"."+name, false, "none", "missing")
			return
		}
		c.guard("exact result", shortFn(fn), func() {
			ex := c.Exec()
			ex.MustInit(c.P, fn.Pkg.Pkg.Path())
			g(ex, c.lcall(ex, fn, nil, nil), shortFn(fn))
		})
	}
	run("FeFromBytes", func(ex *Exec, r *lcallRes, fn string) {
		d := NewLDom()
		A := byteNum(d, "s", r.in[1])
		d.Cases(func() {
			V := edSum(d, r.after(0))
			low := d.low(A, 255)
			eq := d.unify(LSub(V, low))
			c.Ob("value of the low 255 bits", fn, lzeroMod(eq, p25519), "polynomial identity modulo p", "residue "+d.showMod(eq, p25519))
			for i, t := range r.after(0) {
				lo, hi := d.rng(d.signedOf(t))
				B := edBound(i, 1)
				c.Ob("limbs within the bound of the result", fn, lo.CmpAbs(B) <= 0 && hi.CmpAbs(B) <= 0, "interval arithmetic", fmt.Sprintf("limb %d in [%s, %s]", i, lo, hi))
			}
		})
	})
	run("FeToBytes", func(ex *Exec, r *lcallRes, fn string) {
		d := NewLDom()
		A := edNum(d, "h", r.in[1], 6)
		d.Cases(func() {
			var V = LI(0)
			for i, t := range r.after(0) {
				V.addMul(d.unsignedOf(t), p2(8*i))
			}
			V = d.unify(V)
			eq := d.unify(LSub(V, A))
			c.Ob("value of the encoding", fn, lzeroMod(eq, p25519), "polynomial identity modulo p", "residue "+d.showMod(eq, p25519))
			lo, hi := d.rng(V)
			c.Ob("encoding is the canonical representative", fn, lo.Sign() >= 0 && hi.Cmp(p25519) < 0, "interval arithmetic", fmt.Sprintf("in [%x, %x]", lo, hi))
			W := d.unify(edSum(d, r.after(1)))
			c.Ob("the element keeps its value", fn, lzeroMod(d.unify(LSub(W, A)), p25519), "polynomial identity modulo p", d.showMod(LSub(W, A), p25519))
			for i, t := range r.after(1) {
				lo, hi := d.rng(d.signedOf(t))
				B := edBound(i, 2)
				c.Ob("limbs within the bound of the result", fn, lo.CmpAbs(B) <= 0 && hi.CmpAbs(B) <= 0, "interval arithmetic", fmt.Sprintf("limb %d in [%s, %s]", i, lo, hi))
			}
		})
	})
	_ = strings.Join
	_ = types.Typ
	_ = (*ssa.Function)(nil)
}

// splitSmall runs g with every quotient of p that has two or three possible values fixed in turn.
func (d *LDom) splitSmall(p *LP, depth int, g func(sub func(*LP) *LP)) {
	var best *latom
	for _, m := range p.m {
		if len(m.a) == 1 {
			if a := d.atoms[m.a[0]]; a.R != nil {
				w := new(big.Int).Sub(a.hi, a.lo)
				if w.Sign() > 0 && w.Cmp(big.NewInt(2)) <= 0 && (best == nil || a.id > best.id) {
					best = a
				}
			}
		}
	}
	if best == nil || depth == 0 {
		g(func(q *LP) *LP { return q })
		return
	}
	nf := len(d.facts)
	for v := new(big.Int).Set(best.lo); v.Cmp(best.hi) <= 0; v = new(big.Int).Add(v, big1) {
		v := v
		if d.fact(d.poly(best), v, v) {
			q := substAtom(p, best.id, LC(v))
			d.splitSmall(q, depth-1, func(sub func(*LP) *LP) {
				g(func(x *LP) *LP { return sub(substAtom(x, best.id, LC(v))) })
			})
		}
		d.facts = d.facts[:nf]
	}
}

// edScalar proves that a function returns the canonical encoding of spec modulo the group order.
func edScalar(c *Ctx, pkg, fname string, out func(r *lcallRes) []*Term, ins []int, given func(ex *Exec) map[int]Value, inT func(r *lcallRes, ex *Exec, i int) []*Term, spec func(in []*LP) *LP) {
	fn := c.P.Fn(pkg, fname)
	if fn == nil {
		c.Ob("function under contract exists", pkg+"."+fname, false, "none", "missing")
		return
	}
	nm := shortFn(fn)
	c.guard("canonical value modulo the group order", nm, func() {
		ex := c.Exec()
		ex.MustInit(c.P, fn.Pkg.Pkg.Path())
		ex.Lets = newLets()
		var gv map[int]Value
		if given != nil {
			gv = given(ex)
		}
		r := c.lcall(ex, fn, nil, gv)
		d := NewLDom()
		d.lim = 1
		d.lets = ex.Lets
		var in []*LP
		for _, i := range ins {
			t := r.in[i]
			if inT != nil {
				t = inT(r, ex, i)
			}
			in = append(in, byteNum(d, fmt.Sprintf("a%d_", i), t))
		}
		d.Cases(func() {
			V := LI(0)
			for i, t := range out(r) {
				V.addMul(d.unsignedOf(t), p2(8*i))
			}
			// the bytes are the residue modulo 2^256 of any W congruent to them; when W is in [0, order), it is their value
			W := LI(0)
			for k, m := range V.m {
				if k == "" || new(big.Int).Mod(m.c, p2(8*len(out(r)))).Sign() != 0 {
					W.m[k] = m
				}
			}
			eq := d.expand(LSub(W, spec(in)))
			c.Ob("value modulo the group order", nm, lzeroMod(eq, l25519), "polynomial identity modulo the order", "residue "+d.showMod(eq, l25519))
			best := "unknown"
			ok := false
			for i := len(d.names); i >= 0 && !ok && i > len(d.names)-60; i-- {
				if i < len(d.names) {
					W = substAtom(W, d.names[i].a, d.names[i].p)
				}
				if dbgL {
					fmt.Println("W =", d.show(W))
				}
				all := true
				d.splitSmall(W, 2, func(sub func(*LP) *LP) {
					lo, hi := d.rng(sub(W))
					if lo.Sign() < 0 || hi.Cmp(l25519) >= 0 {
						all = false
						best = fmt.Sprintf("in [%x, %x]", lo, hi)
					}
				})
				ok = all
			}
			c.Ob("encoding is canonical", nm, ok, "interval arithmetic", best)
		})
	})
}

func init() {
	unit("f03", []string{modPath + "/eddsa/edwards25519", modPath + "/eddsa"}, 1, func(c *Ctx) {
		a0 := func(r *lcallRes) []*Term { return r.after(0) }
		edScalar(c, "eddsa/edwards25519", "ScMulAdd", a0, []int{1, 2, 3}, nil, nil, func(in []*LP) *LP { return LAdd(LMul(in[0], in[1]), in[2]) })
		edScalar(c, "eddsa/edwards25519", "ScReduce", a0, []int{1}, nil, nil, func(in []*LP) *LP { return in[0] })
		var bs Value
		edScalar(c, "eddsa", "x25519_sc_reduce", func(r *lcallRes) []*Term { return leafTerms(r.ret[0]) }, []int{0}, func(ex *Exec) map[int]Value {
			at := types.NewArray(types.Typ[types.Byte], 64)
			bs = ex.symVal(at, "s")
			id := ex.Alloc(ex.Base, "s", at, bs)
			return map[int]Value{0: Slice{Obj: id, Off: I64(0), Len: I64(64), Cap: I64(64)}}
		}, func(r *lcallRes, ex *Exec, i int) []*Term { return leafTerms(bs) }, func(in []*LP) *LP { return in[0] })
	})
}
