package main

import (
	"fmt"
	"go/types"
	"math/big"
)

// ---- contracts of the Curve25519 field (proved by unit f02), for the layers above ----

const edPkg = modPath + "/eddsa/edwards25519"

func edDec(ts []uint64) (*LP, bool) {
	v := new(big.Int)
	for i, t := range ts {
		v.Add(v, new(big.Int).Mul(big.NewInt(int64(int32(uint32(t)))), p2(edExp(i))))
	}
	return LC(v.Mod(v, p25519)), true
}
func edLevel(ts []uint64) int {
	for b := 1; b <= 6; b++ {
		ok := true
		for i, t := range ts {
			ok = ok && big.NewInt(int64(int32(uint32(t)))).CmpAbs(edBound(i, b)) <= 0
		}
		if ok {
			return b
		}
	}
	return 99
}

func newEdField() *FDom {
	f := NewFDom("ed", p25519, 32, 10)
	f.dec = edDec
	f.lev = edLevel
	return f
}

// canonical bytes of a field value
func (f *FDom) edWords(p *LP) []*Term {
	p = f.red(p)
	r := make([]*Term, 32)
	if v, ok := p.isConst(); ok {
		for i := range r {
			r[i] = Const(8, new(big.Int).Rsh(v, uint(8*i)).Uint64()&255)
		}
		return r
	}
	i := f.id(p, 0)
	for j := range r {
		if j == 31 {
			r[j] = Zext(UF(7, "wb."+f.name, Const(32, uint64(i)), Const(8, uint64(j))), 8)
			continue
		}
		r[j] = UF(8, "wb."+f.name, Const(32, uint64(i)), Const(8, uint64(j)))
	}
	return r
}

// value of the low 255 bits of bytes
func (f *FDom) edOfBytes(b []*Term) *LP {
	low := Extract(b[31], 0, 7)
	if t := b[0]; t.Op == OUF && t.Name == "wb."+f.name {
		id := t.Args[0].C
		w := f.edWords(f.vals[id].p)
		same := Extract(w[31], 0, 7) == low
		for j := 0; j < 31; j++ {
			same = same && w[j] == b[j]
		}
		if same {
			return f.vals[id].p
		}
	}
	v, allc := new(big.Int), low.IsConst()
	k := "int"
	for j, t := range b {
		if j == 31 {
			t = low
		}
		if t.IsConst() {
			v.Add(v, new(big.Int).Lsh(new(big.Int).SetUint64(t.C), uint(8*j)))
		} else {
			allc = false
		}
		k += fmt.Sprintf(":%d", t.ID)
	}
	if allc {
		return LC(v.Mod(v, f.P))
	}
	return f.named(k)
}

func edNeeds(ex *Exec, fn string, v fval, max int) {
	if v.b > max {
		ex.PreFail = append(ex.PreFail, fmt.Sprintf("%s: an operand of level %d, beyond the level %d its contract admits", fn, v.b, max))
	}
}

func edContracts(ex *Exec, f *FDom) {
	pre := edPkg + "."
	bin := func(n string, max int, g func(a, b fval) fval) {
		ex.Contracts[pre+n] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
			a, b := f.arg(ex, st, c.Args[1]), f.arg(ex, st, c.Args[2])
			edNeeds(ex, n, a, max)
			edNeeds(ex, n, b, max)
			r := g(a, b)
			f.put(ex, st, c.Args[0], r.p, r.b)
			return ret(st)
		}
	}
	un := func(n string, max int, g func(st *State, a fval) fval) {
		ex.Contracts[pre+n] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
			a := f.arg(ex, st, c.Args[1])
			edNeeds(ex, n, a, max)
			r := g(st, a)
			f.put(ex, st, c.Args[0], r.p, r.b)
			return ret(st)
		}
	}
	bin("FeAdd", 3, func(a, b fval) fval { return fval{LAdd(a.p, b.p), a.b + b.b} })
	bin("FeSub", 3, func(a, b fval) fval { return fval{LSub(a.p, b.p), a.b + b.b} })
	bin("FeMul", 3, func(a, b fval) fval { return fval{LMul(a.p, b.p), 1} })
	un("FeSquare", 3, func(st *State, a fval) fval { return fval{LMul(a.p, a.p), 1} })
	un("FeSquare2", 3, func(st *State, a fval) fval { return fval{LScale(LMul(a.p, a.p), big.NewInt(2)), 1} })
	un("FeNeg", 6, func(st *State, a fval) fval { return fval{LScale(a.p, big.NewInt(-1)), a.b} })
	un("FeCopy", 6, func(st *State, a fval) fval { return a })
	un("FeInvert", 3, func(st *State, a fval) fval { return fval{f.Inv(st, a.p), 1} })
	un("fePow22523", 3, func(st *State, a fval) fval { return fval{f.named("pow22523:" + f.red(a.p).key()), 1} })
	ex.Contracts[modPath+"/eddsa.fePow22523"] = ex.Contracts[pre+"fePow22523"]
	cst := func(n string, v int64) {
		ex.Contracts[pre+n] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
			f.put(ex, st, c.Args[0], LI(v), 1)
			return ret(st)
		}
	}
	cst("FeZero", 0)
	cst("FeOne", 1)
	ex.Contracts[pre+"FeCMove"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		k := T(c.Args[2])
		if !ex.must(st, Ule(k, Const(32, 1))) {
			ex.PreFail = append(ex.PreFail, "FeCMove: selector is not 0 or 1")
		}
		a, b := f.arg(ex, st, c.Args[0]), f.arg(ex, st, c.Args[1])
		x, y := f.mk(a.p, a.b), f.mk(b.p, b.b)
		bit := Extract(k, 0, 1)
		for i := range x {
			x[i] = Ite(bit, y[i], x[i])
		}
		putLimbs(ex, st, c.Args[0], x)
		return ret(st)
	}
	ex.Contracts[pre+"FeToBytes"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		a := f.arg(ex, st, c.Args[1])
		edNeeds(ex, "FeToBytes", a, 6)
		f.put(ex, st, c.Args[1], a.p, 2)
		putLimbs(ex, st, c.Args[0], f.edWords(a.p))
		return ret(st)
	}
	ex.Contracts[pre+"FeFromBytes"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		f.put(ex, st, c.Args[0], f.edOfBytes(leafTerms(ex.Load(st, c.Args[1].(Ptr)))), 1)
		return ret(st)
	}
	ex.Contracts[pre+"FeIsNegative"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		a := f.arg(ex, st, c.Args[0])
		edNeeds(ex, "FeIsNegative", a, 6)
		f.put(ex, st, c.Args[0], a.p, 2)
		return ret(st, Zext(Extract(f.edWords(a.p)[0], 0, 1), 8))
	}
	ex.Contracts[pre+"FeIsNonZero"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		a := f.arg(ex, st, c.Args[0])
		edNeeds(ex, "FeIsNonZero", a, 6)
		f.put(ex, st, c.Args[0], a.p, 2)
		return ret(st, Zext(Not(f.Zero(a.p)), 32))
	}
	for n, v := range map[string]int64{"feIsZero": 0, "feIsOne": 1} {
		n, v := n, v
		ex.Contracts[modPath+"/eddsa."+n] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
			a := f.arg(ex, st, c.Args[0])
			edNeeds(ex, n, a, 6)
			return ret(st, f.Zero(LSub(a.p, LI(v))))
		}
	}
}

// edMisc proves the field functions built from the limb-level ones.
func edMisc(c *Ctx) {
	feT := c.typeOf("eddsa/edwards25519", "FieldElement")
	bytesT := types.NewArray(types.Typ[types.Byte], 32)
	tokV := func(f *FDom, p *LP, b int) Value {
		a := &Agg{}
		for _, t := range f.mk(p, b) {
			a.E = append(a.E, t)
		}
		return a
	}
	// constants and the conditional move, on machine words
	for _, k := range []struct {
		n string
		v int64
	}{{"FeZero", 0}, {"FeOne", 1}} {
		k := k
		fn := c.P.Fn("eddsa/edwards25519", k.n)
		c.guard("constant", "edwards25519."+k.n, func() {
			ex := c.Exec()
			ex.MustInit(c.P, edPkg)
			r := c.lcall(ex, fn, nil, nil)
			var cs []uint64
			for _, t := range r.after(0) {
				if !t.IsConst() {
					unsup("not a constant")
				}
				cs = append(cs, t.C)
			}
			v, _ := edDec(cs)
			x, _ := v.isConst()
			c.Ob("exact constant", shortFn(fn), x.Cmp(big.NewInt(k.v)) == 0 && edLevel(cs) == 1, "evaluation", x.String())
		})
	}
	for _, alias := range []map[int]int{nil, {1: 0}} {
		alias := alias
		fn := c.P.Fn("eddsa/edwards25519", "FeCMove")
		c.guard("conditional move", "edwards25519.FeCMove", func() {
			ex := c.Exec()
			ex.MustInit(c.P, edPkg)
			for v := uint64(0); v < 2; v++ {
				r := c.lcall(ex, fn, alias, map[int]Value{2: Const(32, v)})
				ok := true
				for i, t := range r.after(0) {
					w := r.in[0][i]
					if v == 1 {
						w = r.in[1][i]
					}
					ok = ok && ex.must(r.st, Eq(t, w))
				}
				c.Ob(fmt.Sprintf("selector %d", v), shortFn(fn), ok, "z3", "")
			}
		})
	}
	// tests on the canonical encoding
	for _, n := range []string{"FeIsNegative", "FeIsNonZero", "feIsZero", "feIsOne"} {
		n := n
		pkg := "eddsa/edwards25519"
		if n[0] == 'f' {
			pkg = "eddsa"
		}
		fn := c.P.Fn(pkg, n)
		c.guard("test of the canonical encoding", pkg+"."+n, func() {
			ex := c.Exec()
			f := newEdField()
			edContracts(ex, f)
			delete(ex.Contracts, modPath+"/"+pkg+"."+n)
			ex.MustInit(c.P, modPath+"/"+pkg)
			x := f.Atom("x")
			st := ex.Base.clone()
			var arg Value = tokV(f, x, 6)
			var p Ptr
			if pkg != "eddsa" {
				p = Ptr{Obj: ex.Alloc(st, "x", feT, arg)}
				arg = p
			}
			w := f.edWords(x)
			all := Const(1, 1)
			for i, b := range w {
				k := uint64(0)
				if n == "feIsOne" && i == 0 {
					k = 1
				}
				all = And(all, Eq(b, Const(8, k)))
			}
			c.fcall(ex, n, pkg, n, []Value{arg}, st, func(o Outcome) {
				r := T(o.Ret[0])
				switch n {
				case "FeIsNegative":
					c.Ob("parity of the canonical integer", shortFn(fn), ex.must(o.St, Eq(r, Zext(Extract(w[0], 0, 1), 8))), "z3", Show(r, 4))
				case "FeIsNonZero":
					c.Ob("zero exactly for the zero encoding", shortFn(fn), ex.must(o.St, Eq(r, Zext(Not(all), 32))), "z3", Show(r, 4))
				default:
					c.Ob("compares the canonical encoding", shortFn(fn), ex.must(o.St, Eq(r, all)), "z3", Show(r, 4))
				}
				if pkg != "eddsa" {
					v := f.arg(ex, o.St, p)
					c.fz(f, "the element keeps its value", shortFn(fn), LSub(v.p, x))
				}
			})
		})
	}
	// powers: the ghost value of an element is its exponent
	pw := func(pkg, n string, want *big.Int, alias bool) {
		fn := c.P.Fn(pkg, n)
		if fn == nil {
			c.Ob("function under contract exists", pkg+"."+n, false, "none", "missing")
			return
		}
		lab := ""
		if alias {
			lab = " (operands coincide)"
		}
		c.guard("exact exponent"+lab, shortFn(fn), func() {
			ex := c.Exec()
			f := NewFDom("e", new(big.Int).Sub(p25519, big1), 32, 10)
			f.dec = func(ts []uint64) (*LP, bool) {
				v, _ := edDec(ts)
				x, _ := v.isConst()
				return LI(0), x.Cmp(big1) == 0 && edLevel(ts) == 1
			}
			lv := func(n string, a fval) {
				edNeeds(ex, n, a, 3)
			}
			ex.Contracts[edPkg+".FeMul"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
				a, b := f.arg(ex, st, cc.Args[1]), f.arg(ex, st, cc.Args[2])
				lv("FeMul", a)
				lv("FeMul", b)
				f.put(ex, st, cc.Args[0], LAdd(a.p, b.p), 1)
				return ret(st)
			}
			ex.Contracts[edPkg+".FeSquare"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
				a := f.arg(ex, st, cc.Args[1])
				lv("FeSquare", a)
				f.put(ex, st, cc.Args[0], LScale(a.p, big.NewInt(2)), 1)
				return ret(st)
			}
			ex.Contracts[edPkg+".FeCopy"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
				a := f.arg(ex, st, cc.Args[1])
				f.put(ex, st, cc.Args[0], a.p, a.b)
				return ret(st)
			}
			ex.MustInit(c.P, modPath+"/"+pkg)
			st := ex.Base.clone()
			z := Ptr{Obj: ex.Alloc(st, "z", feT, tokV(f, LI(1), 3))}
			out := z
			if !alias {
				out = Ptr{Obj: ex.Alloc(st, "out", feT, ex.Zero(feT))}
			}
			c.fcall(ex, n, pkg, n, []Value{out, z}, st, func(o Outcome) {
				v := f.arg(ex, o.St, out)
				c.fz(f, "exact exponent"+lab, shortFn(fn), LSub(v.p, LC(want)))
				c.Ob("limbs within the bound of the result"+lab, shortFn(fn), v.b == 1, "levels", "")
				if !alias {
					c.fz(f, "operand unchanged", shortFn(fn), LSub(f.arg(ex, o.St, z).p, LI(1)))
				}
			})
		})
	}
	inv := new(big.Int).Sub(p25519, big.NewInt(2))
	pp := new(big.Int).Rsh(new(big.Int).Sub(p25519, big.NewInt(5)), 3)
	for _, al := range []bool{false, true} {
		pw("eddsa/edwards25519", "FeInvert", inv, al)
		pw("eddsa/edwards25519", "fePow22523", pp, al)
		if c.P.Fn("eddsa", "fePow22523") != nil {
			pw("eddsa", "fePow22523", pp, al)
		}
	}
	_ = bytesT
}
