package main

import (
	"fmt"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"math/big"
	"sort"
	"strings"
)

func cutDot(s string) (string, string) {
	i := strings.LastIndex(s, ".")
	return s[:i], s[i+1:]
}

// fiatPrims installs the contracts of the word primitives of the generated field code.
func fiatPrims(ex *Exec, pre string) {
	st64 := func(ex *Exec, st *State, p Value, v Value) { ex.Store(st, p.(Ptr), v) }
	bit := func(v Value) *Term { return Extract(v.(*Term), 0, 1) }
	is01 := func(ex *Exec, st *State, what string, v Value) {
		if !ex.must(st, Eq(LshrC(v.(*Term), 1), Const(v.(*Term).W, 0))) {
			ex.PreFail = append(ex.PreFail, what+": carry argument is not 0 or 1")
		}
	}
	ex.Contracts[pre+"AddCarryXU64"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		is01(ex, st, pre+"AddCarryXU64", c.Args[2])
		x, y, k := T(c.Args[3]), T(c.Args[4]), bit(c.Args[2])
		st64(ex, st, c.Args[0], lAddW(x, y, k))
		st64(ex, st, c.Args[1], Zext(AddCarry(x, y, k), 8))
		return ret(st)
	}
	ex.Contracts[pre+"SubBorrowXU64"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		is01(ex, st, pre+"SubBorrowXU64", c.Args[2])
		x, y, k := T(c.Args[3]), T(c.Args[4]), bit(c.Args[2])
		st64(ex, st, c.Args[0], lSubW(x, y, k))
		st64(ex, st, c.Args[1], Zext(intern(&Term{Op: OSubB, W: 1, Args: []*Term{x, y, k}}), 8))
		return ret(st)
	}
	ex.Contracts[pre+"MulXU64"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		x, y := T(c.Args[2]), T(c.Args[3])
		st64(ex, st, c.Args[0], lMulW(x, y))
		st64(ex, st, c.Args[1], MulHi(x, y))
		return ret(st)
	}
	ex.Contracts[pre+"CmovznzU64"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		is01(ex, st, pre+"CmovznzU64", c.Args[1])
		st64(ex, st, c.Args[0], Ite(bit(c.Args[1]), T(c.Args[3]), T(c.Args[2])))
		return ret(st)
	}
}

// fiatPrimsHold proves those contracts.
func fiatPrimsHold(c *Ctx, pkg, pre string) {
	for _, n := range []string{"AddCarryXU64", "SubBorrowXU64", "CmovznzU64", "MulXU64"} {
		fn := c.P.Fn(pkg, pre+n)
		if fn == nil {
			c.Ob("function under contract exists", pkg+"."+pre+n, false, "none", "missing")
			continue
		}
		name := shortFn(fn)
		c.guard("exact result", name, func() {
			ex := c.Exec()
			r := c.lcall(ex, fn, nil, nil)
			switch n {
			case "MulXU64":
				a, b := r.in[2][0], r.in[3][0]
				d := NewLDom()
				z, m := new(big.Int), new(big.Int).Sub(p2(32), big1)
				spl := func(t *Term, s string) *LP {
					l := d.poly(d.atom(s+"lo", z, m))
					h := d.poly(d.atom(s+"hi", z, m))
					p := LAdd(l, LScale(h, p2(32)))
					d.vars[t] = p
					d.vars[Extract(t, 0, 32)] = l
					d.vars[Extract(t, 32, 32)] = h
					return p
				}
				A, B := spl(a, "a"), spl(b, "b")
				hi := d.unsignedOf(r.after(1)[0])
				rem := LSub(LMul(A, B), LScale(hi, p2(64)))
				l, h := d.rng(rem)
				c.Ob("exact result", name, l.Sign() >= 0 && h.Cmp(p2(64)) < 0, "linear integer arithmetic", fmt.Sprintf("a*b - 2^64*hi in [%s, %s]", l, h))
				c.Ob("low word", name, r.after(0)[0] == Mul(a, b), "normal form", "low word differs")
			default:
				k := map[string]int{"AddCarryXU64": 2, "SubBorrowXU64": 2, "CmovznzU64": 1}[n]
				kt := r.in[k][0]
				pre := Ule(kt, Const(kt.W, 1))
				kb := Extract(kt, 0, 1)
				var want []*Term
				switch n {
				case "AddCarryXU64":
					x, y := r.in[3][0], r.in[4][0]
					want = []*Term{Add(Add(x, y), Zext(kb, 64)), Zext(intern(&Term{Op: OAddC, W: 1, Args: []*Term{x, y, kb}}), 8)}
				case "SubBorrowXU64":
					x, y := r.in[3][0], r.in[4][0]
					want = []*Term{Sub(Sub(x, y), Zext(kb, 64)), Zext(intern(&Term{Op: OSubB, W: 1, Args: []*Term{x, y, kb}}), 8)}
				case "CmovznzU64":
					want = []*Term{Ite(kb, r.in[3][0], r.in[2][0])}
				}
				for i, w := range want {
					s := r.st.clone()
					s.assume(pre)
					c.Ob("exact result", name, ex.must(s, Eq(r.after(i)[0], w)), "z3", fmt.Sprintf("output %d differs", i))
				}
			}
		})
	}
}

// montField describes a prime field in Montgomery form over 64-bit words.
type montField struct {
	pkg, pre string
	P        *big.Int
	n        int
	prims    func(ex *Exec)
}

func (f *montField) R() *big.Int { return p2(64 * f.n) }

// check proves out = spec (a polynomial times a power of R) for canonical operands, and that out is canonical.
//
//	spec(A, B) is congruent to R^e * out modulo P
func (f *montField) check(c *Ctx, name string, alias map[int]int, e int, spec func(in []*LP) *LP) {
	f.checkMax(c, name, "exact result for canonical operands", new(big.Int).Sub(f.P, big1), alias, e, spec)
}
func (f *montField) checkMax(c *Ctx, name, title string, max *big.Int, alias map[int]int, e int, spec func(in []*LP) *LP) {
	fn := c.P.Fn(f.pkg, f.pre+name)
	if fn == nil {
		c.Ob("function under contract exists", f.pkg+"."+f.pre+name, false, "none", "missing")
		return
	}
	nm := shortFn(fn)
	lab := ""
	if alias != nil {
		lab = fmt.Sprintf(" (operands coincide %v)", alias)
	}
	c.guard(title+lab, nm, func() {
		ex := c.Exec()
		f.prims(ex)
		ex.MustInit(c.P, fn.Pkg.Pkg.Path())
		r := c.lcall(ex, fn, alias, nil)
		c.Ob("preconditions of callees hold", nm, len(ex.PreFail) == 0, "z3", strings.Join(ex.PreFail, "; "))
		d := NewLDom()
		var in []*LP
		seen := map[*Term]*LP{}
		for i := 1; i < len(r.in); i++ {
			if p := seen[r.in[i][0]]; p != nil {
				in = append(in, p)
				continue
			}
			p := d.Number(fmt.Sprintf("a%d_", i), r.in[i], 64, max)
			seen[r.in[i][0]] = p
			in = append(in, p)
		}
		if _, ok := alias[1]; ok { // destination is an operand
			_ = ok
		}
		cases := 0
		d.Cases(func() {
			V := d.Sum(r.after(0), 64)
			cases++
			eq := LSub(LScale(V, new(big.Int).Exp(f.R(), big.NewInt(int64(e)), nil)), spec(in))
			ok := lzeroMod(eq, f.P)
			if !ok && dbgL {
				d.dump()
			}
			c.Ob(title+lab, nm, ok, "polynomial identity modulo p", "residue "+d.showMod(eq, f.P))
			lo, hi := d.rng(V)
			lo2, hi2 := d.rng(LSub(V, LC(f.P)))
			c.Ob(title+": result is canonical"+lab, nm, lo.Sign() >= 0 && (hi.Cmp(f.P) < 0 || hi2.Sign() < 0), "interval arithmetic", fmt.Sprintf("result in [%x, %x], minus p in [%x, %x]", lo, hi, lo2, hi2))
		})
		c.Ob("some case reachable"+lab, nm, cases > 0, "vc", "")
		for i := 1; i < len(r.args); i++ {
			if _, ptr := r.args[i].(Ptr); ptr && alias[i] != 0 {
				_ = ptr
			}
		}
	})
}

func (d *LDom) showMod(p *LP, m *big.Int) string {
	q := LI(0)
	for s, x := range p.m {
		if r := new(big.Int).Mod(x.c, m); r.Sign() != 0 {
			q.m[s] = &lmon{x.a, r}
		}
	}
	return d.show(q)
}

var (
	pallasP = hexBig("40000000000000000000000000000000224698fc094cf91b992d30ed00000001")
	pallasQ = hexBig("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001")
)

func init() {
	unit("f01", []string{modPath + "/pasta"}, 2, func(c *Ctx) {
		for i, m := range []*montField{{pkg: "pasta", pre: "FiatPastaFp", P: pallasP, n: 4}, {pkg: "pasta", pre: "FiatPastaFq", P: pallasQ, n: 4}} {
			if i%c.NShard != c.Shard {
				continue
			}
			pre := modPath + "/pasta." + m.pre
			m.prims = func(ex *Exec) { fiatPrims(ex, pre) }
			fiatPrimsHold(c, "pasta", m.pre)
			m.check(c, "Add", nil, 0, func(a []*LP) *LP { return LAdd(a[0], a[1]) })
			m.check(c, "Sub", nil, 0, func(a []*LP) *LP { return LSub(a[0], a[1]) })
			m.check(c, "Opp", nil, 0, func(a []*LP) *LP { return LScale(a[0], big.NewInt(-1)) })
			m.check(c, "Mul", nil, 1, func(a []*LP) *LP { return LMul(a[0], a[1]) })
			m.check(c, "Square", nil, 1, func(a []*LP) *LP { return LMul(a[0], a[0]) })
			m.check(c, "FromMontgomery", nil, 1, func(a []*LP) *LP { return a[0] })
			R2 := new(big.Int).Mod(new(big.Int).Mul(m.R(), m.R()), m.P)
			m.check(c, "ToMontgomery", nil, 1, func(a []*LP) *LP { return LScale(a[0], R2) })
			any := new(big.Int).Sub(m.R(), big1)
			m.checkMax(c, "ToMontgomery", "exact result for every 256-bit word vector", any, nil, 1, func(a []*LP) *LP { return LScale(a[0], R2) })
			m.checkMax(c, "FromMontgomery", "exact result for every 256-bit word vector", any, nil, 1, func(a []*LP) *LP { return a[0] })
			pastaMisc(c, m)
			if m.pre == "FiatPastaFp" {
				sqrtInvariant(c, m)
			}
		}
	})
}

// pastaMisc proves the remaining word-level functions and everything built from the exact operations.
func pastaMisc(c *Ctx, m *montField) {
	pk := modPath + "/pasta"
	w4 := func(r *lcallRes, i int) []*Term { return r.in[i] }
	run := func(name string, g func(ex *Exec, r *lcallRes, fn string)) {
		fn := c.P.Fn("pasta", m.pre+name)
		if fn == nil {
			c.Ob("function under contract exists", "pasta."+m.pre+name, false, "none", "missing")
			return
		}
		c.guard("exact result", shortFn(fn), func() {
			ex := c.Exec()
			m.prims(ex)
			ex.MustInit(c.P, pk)
			g(ex, c.lcall(ex, fn, nil, nil), shortFn(fn))
		})
	}
	run("NonZero", func(ex *Exec, r *lcallRes, fn string) {
		z := Const(1, 1)
		for _, t := range w4(r, 1) {
			z = And(z, Eq(t, Const(64, 0)))
		}
		c.Ob("zero exactly for the zero vector", fn, ex.must(r.st, Eq(Eq(r.after(0)[0], Const(64, 0)), z)), "z3", "")
	})
	run("Copy", func(ex *Exec, r *lcallRes, fn string) {
		for i, t := range w4(r, 1) {
			c.Ob("copies the words", fn, r.after(0)[i] == t, "normal form", "")
		}
	})
	run("SelectZnz", func(ex *Exec, r *lcallRes, fn string) {
		k := Extract(r.in[1][0], 0, 1)
		for i := range w4(r, 2) {
			s := r.st.clone()
			s.assume(Ule(r.in[1][0], Const(r.in[1][0].W, 1)))
			c.Ob("selects the operand", fn, ex.must(s, Eq(r.after(0)[i], Ite(k, r.in[3][i], r.in[2][i]))), "z3", "")
		}
	})
	run("SetOne", func(ex *Exec, r *lcallRes, fn string) {
		v := new(big.Int)
		for i := 3; i >= 0; i-- {
			t := r.after(0)[i]
			if !t.IsConst() {
				unsup("not a constant")
			}
			v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(t.C))
		}
		c.Ob("is R mod p", fn, v.Cmp(new(big.Int).Mod(m.R(), m.P)) == 0, "evaluation", v.String())
	})
	run("ToBytes", func(ex *Exec, r *lcallRes, fn string) {
		for i := 0; i < 32; i++ {
			want := Extract(r.in[1][i/8], i%8*8, 8)
			c.Ob("little-endian bytes of the words", fn, ex.must(r.st, Eq(r.after(0)[i], want)), "z3", Show(r.after(0)[i], 4))
		}
	})
	run("FromBytes", func(ex *Exec, r *lcallRes, fn string) {
		s := r.st.clone()
		for i := 0; i < 4; i++ {
			var bs []*Term
			for j := 7; j >= 0; j-- {
				bs = append(bs, r.in[1][i*8+j])
			}
			c.Ob("words of the little-endian bytes", fn, ex.must(s, Eq(r.after(0)[i], Concat(bs...))), "z3", Show(r.after(0)[i], 4))
		}
	})
	// comparisons from subtraction and the zero test
	for _, n := range []string{"Equals", "EqualsZero", "EqualsOne"} {
		n := n
		if c.P.Fn("pasta", m.pre+n) == nil {
			continue
		}
		c.guard("decides equality", "pasta."+m.pre+n, func() {
			ex := c.Exec()
			d := newPasta(ex)
			f := d.fp
			if m.pre == "FiatPastaFq" {
				f = d.fq
			}
			delete(ex.Contracts, pk+"."+m.pre+n)
			ex.MustInit(c.P, pk)
			x, y := f.Atom("x"), f.Atom("y")
			args, want := []Value{limbsV(f, x), limbsV(f, y)}, LSub(x, y)
			switch n {
			case "EqualsZero":
				args, want = args[:1], x
			case "EqualsOne":
				args, want = args[:1], LSub(x, LI(1))
			}
			c.fcall(ex, n, "pasta", m.pre+n, args, ex.Base.clone(), func(o Outcome) {
				c.Ob("decides equality", "pasta."+m.pre+n, ex.must(o.St, Eq(T(o.Ret[0]), f.Zero(want))), "normal form", Show(T(o.Ret[0]), 4))
			})
		})
	}
	// exponentiation: words stand for powers of the operand, the ghost value being the exponent
	pw := func(name, fn string, args func(ex *Exec, f *FDom, x *LP, out Value) []Value, want func(f *FDom) *LP) {
		c.guard("exact exponent: "+name, "pasta."+fn, func() {
			ex := c.Exec()
			f := NewFDom("e", new(big.Int).Sub(m.P, big1), 64, 4)
			one := new(big.Int).Mod(m.R(), m.P)
			f.dec = func(ts []uint64) (*LP, bool) {
				for i, t := range ts {
					if t != new(big.Int).And(new(big.Int).Rsh(one, uint(64*i)), new(big.Int).SetUint64(^uint64(0))).Uint64() {
						return nil, false
					}
				}
				return LI(0), true
			}
			f.op(ex, pk+"."+m.pre+"Mul", 0, []int{1, 2}, func(a []*LP) *LP { return LAdd(a[0], a[1]) })
			f.op(ex, pk+"."+m.pre+"Square", 0, []int{1}, func(a []*LP) *LP { return LScale(a[0], big.NewInt(2)) })
			ex.MustInit(c.P, pk)
			x := LI(1) // the operand itself
			st := ex.Base.clone()
			at := types.NewArray(types.Typ[types.Uint64], 4)
			out := Ptr{Obj: ex.Alloc(st, "out", at, ex.Zero(at))}
			a := args(ex, f, x, out)
			c.fcall(ex, name, "pasta", fn, a, st, func(o Outcome) {
				got := f.get(o.St, leafTerms(ex.Load(o.St, out))).p
				c.fz(f, "exact exponent: "+name, "pasta."+fn, LSub(got, want(f)))
			})
		})
	}
	if m.pre == "FiatPastaFp" {
		pw("inverse is the power p-2", m.pre+"Inv", func(ex *Exec, f *FDom, x *LP, out Value) []Value { return []Value{out, limbsV(f, x)} },
			func(f *FDom) *LP { return LC(new(big.Int).Sub(m.P, big.NewInt(2))) })
		n := 9
		if c.Thorough {
			n = 40
		}
		for k := 0; k <= n; k++ {
			bt := types.NewArray(types.Typ[types.Bool], int64(k))
			var bs []*Term
			pw(fmt.Sprintf("%d exponent bits", k), m.pre+"Pow", func(ex *Exec, f *FDom, x *LP, out Value) []Value {
				a := &Agg{}
				bs = nil
				for i := 0; i < k; i++ {
					b := Var(1, fmt.Sprintf("bit%d", i))
					bs = append(bs, b)
					a.E = append(a.E, b)
				}
				id := ex.Alloc(ex.Base, "bits", bt, a)
				return []Value{out, limbsV(f, x), Slice{Obj: id, Off: I64(0), Len: I64(int64(k)), Cap: I64(int64(k))}, I64(int64(k))}
			}, func(f *FDom) *LP {
				e := LI(0)
				for i, b := range bs {
					e.addMul(f.boolAtom(b), p2(k-1-i))
				}
				return e
			})
		}
		c.Bounded(fmt.Sprintf("pasta.FiatPastaFpPow with a symbolic bit string is decided for up to %d bits; the exponents the package uses are decided in full", n))
	}
	// the Field and Scalar layer
	pair := map[string]string{"FiatPastaFp": "Field", "FiatPastaFq": "Scalar"}[m.pre]
	two := big.NewInt(-1)
	for _, s := range []struct {
		n string
		k int
		g func(a []*LP) *LP
	}{
		{"Add", 2, func(a []*LP) *LP { return LAdd(a[0], a[1]) }},
		{"Sub", 2, func(a []*LP) *LP { return LSub(a[0], a[1]) }},
		{"Mul", 2, func(a []*LP) *LP { return LMul(a[0], a[1]) }},
		{"Sq", 1, func(a []*LP) *LP { return LMul(a[0], a[0]) }},
		{"Negate", 1, func(a []*LP) *LP { return LScale(a[0], two) }},
		{"Copy", 1, func(a []*LP) *LP { return a[0] }},
		{"Eq", 2, nil},
	} {
		s := s
		fn := pair + s.n
		c.guard("wrapper is exact", "pasta."+fn, func() {
			for alias := 0; alias < 3; alias++ { // distinct, destination holds the first operand, both operands equal
				ex := c.Exec()
				d := newPasta(ex)
				f := d.fp
				if pair == "Scalar" {
					f = d.fq
				}
				ex.MustInit(c.P, pk)
				st := ex.Base.clone()
				x, y := f.Atom("x"), f.Atom("y")
				if alias == 2 {
					y = x
				}
				T1 := c.typeOf("pasta", pair)
				out := Ptr{Obj: ex.Alloc(st, "out", T1, limbsV(f, x))}
				if alias == 0 {
					out = Ptr{Obj: ex.Alloc(st, "out2", T1, ex.Zero(T1))}
				}
				var args []Value
				if s.g != nil {
					args = []Value{out}
				}
				args = append(args, limbsV(f, x))
				if s.k == 2 {
					args = append(args, limbsV(f, y))
				}
				c.fcall(ex, s.n, "pasta", fn, args, st, func(o Outcome) {
					if s.g == nil {
						r := T(o.Ret[0])
						w := f.Zero(LSub(x, y))
						if r.W > 1 {
							w = Zext(w, r.W)
						}
						c.Ob("wrapper is exact", "pasta."+fn, ex.must(o.St, Eq(r, w)), "normal form", Show(r, 4))
						return
					}
					c.fz(f, "wrapper is exact", "pasta."+fn, LSub(f.get(o.St, leafTerms(ex.Load(o.St, out))).p, s.g([]*LP{x, y})))
				})
			}
		})
	}
	if pair == "Field" {
		c.guard("wrapper is exact", "pasta.FieldPow", func() {
			T1 := c.typeOf("pasta", "Field")
			for b := 0; b < 256; b++ {
				ex := c.Exec()
				// exponents as ghost values keep every case linear
				f := NewFDom("e", new(big.Int).Sub(m.P, big1), 64, 4)
				base := newPasta(ex)
				f.dec = func(ts []uint64) (*LP, bool) {
					v, ok := base.fp.dec(ts)
					if !ok {
						return nil, false
					}
					k, c := v.isConst()
					return LI(0), c && k.Cmp(big1) == 0
				}
				f.op(ex, pk+"."+m.pre+"Mul", 0, []int{1, 2}, func(a []*LP) *LP { return LAdd(a[0], a[1]) })
				f.op(ex, pk+"."+m.pre+"Square", 0, []int{1}, func(a []*LP) *LP { return LScale(a[0], big.NewInt(2)) })
				ex.MustInit(c.P, pk)
				st := ex.Base.clone()
				out := Ptr{Obj: ex.Alloc(st, "out", T1, ex.Zero(T1))}
				c.fcall(ex, "all exponents", "pasta", "FieldPow", []Value{out, limbsV(f, LI(1)), Const(8, uint64(b))}, st, func(o Outcome) {
					c.fz(f, "exact power for every exponent", "pasta.FieldPow", LSub(f.get(o.St, leafTerms(ex.Load(o.St, out))).p, LI(int64(b))))
				})
			}
		})
		c.guard("wrapper is exact", "pasta.FieldIsOdd", func() {
			ex := c.Exec()
			d := newPasta(ex)
			ex.MustInit(c.P, pk)
			x := d.fp.Atom("x")
			c.fcall(ex, "parity", "pasta", "FieldIsOdd", []Value{limbsV(d.fp, x)}, ex.Base.clone(), func(o Outcome) {
				c.Ob("parity of the canonical integer", "pasta.FieldIsOdd", ex.must(o.St, Eq(T(o.Ret[0]), Extract(d.fp.words(x)[0], 0, 1))), "z3", "")
			})
		})
	}
	// big-endian bytes
	sh := map[string]string{"FiatPastaFp": "Fp", "FiatPastaFq": "Fq"}[m.pre]
	c.guard("byte conversions", "pasta.BigEndianBytesTo"+sh+"MontgomeryArray", func() {
		fn := "BigEndianBytesTo" + sh + "MontgomeryArray"
		ex := c.Exec()
		d := newPasta(ex)
		f := d.fp
		if sh == "Fq" {
			f = d.fq
		}
		ex.MustInit(c.P, pk)
		st := ex.Base.clone()
		bt := types.NewArray(types.Typ[types.Uint8], 32)
		a := &Agg{}
		for i := 0; i < 32; i++ {
			a.E = append(a.E, Var(8, fmt.Sprintf("in%d", i)))
		}
		id := ex.Alloc(st, "in", bt, a)
		sl := Slice{Obj: id, Off: I64(0), Len: I64(32), Cap: I64(32)}
		want := f.ofWords(beWords(leafTerms(a)))
		c.fcall(ex, "bytes", "pasta", fn, []Value{sl}, st, func(o Outcome) {
			c.fz(f, "the big-endian integer modulo p", "pasta."+fn, LSub(f.get(o.St, leafTerms(o.Ret[0])).p, want))
			for i, t := range leafTerms(o.St.Heap[id].V) {
				c.Ob("argument unchanged", "pasta."+fn, t == a.E[i], "normal form", "")
			}
		})
		fn2 := sh + "MontgomeryArrayToBigEndianBytes"
		x := f.Atom("x")
		c.fcall(ex, "bytes", "pasta", fn2, []Value{limbsV(f, x)}, ex.Base.clone(), func(o Outcome) {
			cells := ex.SliceCells(o.St, o.Ret[0].(Slice))
			ok := len(cells) == 32
			w := f.words(x)
			for i := 0; ok && i < 32; i++ {
				ok = ex.must(o.St, Eq(T(cells[i]), Extract(w[3-i/8], 56-i%8*8, 8)))
			}
			c.Ob("big-endian bytes of the canonical integer", "pasta."+fn2, ok, "normal form", "")
		})
	})
}

// limbsV is an element as an argument value.
func limbsV(f *FDom, p *LP) Value {
	a := &Agg{}
	for _, t := range f.mk(p, 0) {
		a.E = append(a.E, t)
	}
	return a
}

// beWords reads big-endian bytes as little-endian 64-bit words.
func beWords(b []*Term) (r []*Term) {
	for i := len(b); i >= 8; i -= 8 {
		r = append(r, Concat(b[i-8:i]...))
	}
	return
}

// sqrtInvariant proves that FiatPastaFpSqrt returns a root whenever it returns true, for every operand: the
// invariant x^2 = b*v is found among the pairs of elements the loop changes.
func sqrtInvariant(c *Ctx, m *montField) {
	fn := c.P.Fn("pasta", m.pre+"Sqrt")
	if fn == nil {
		c.Ob("function under contract exists", "pasta."+m.pre+"Sqrt", false, "none", "missing")
		return
	}
	nm := shortFn(fn)
	pk := modPath + "/pasta"
	c.guard("root", nm, func() {
		ex := c.Exec()
		ex.NoMerge = true
		d := newPasta(ex)
		f := d.fp
		v := f.Unit(f.Atom("v"))
		at := types.NewArray(types.Typ[types.Uint64], 4)
		pows := map[string]int{}
		half := new(big.Int).Rsh(new(big.Int).Sub(m.P, big1), 1)
		ex.Contracts[pk+"."+m.pre+"Pow"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
			e := new(big.Int)
			n := T(cc.Args[3])
			bits := ex.SliceCells(st, cc.Args[2].(Slice))
			if !n.IsConst() || int(n.C) > len(bits) {
				unsup("symbolic exponent")
			}
			for _, b := range bits[:n.C] {
				if !T2(b).IsConst() {
					unsup("symbolic exponent")
				}
				e.Lsh(e, 1).Or(e, big.NewInt(int64(T2(b).C)))
			}
			a := f.arg(ex, st, cc.Args[1]).p
			k := "pow:" + e.String() + ":" + a.key()
			pows[k] = 1
			f.put(ex, st, cc.Args[0], f.named(k), 0)
			return ret(st)
		}
		ex.MustInit(c.P, pk)
		st := ex.Base.clone()
		out := Ptr{Obj: ex.Alloc(st, "x", at, ex.Zero(at))}
		elem := func(st *State, id int) *LP {
			o := st.Heap[id]
			if o == nil {
				return nil
			}
			a, ok := o.V.(*Agg)
			if !ok || len(a.E) != 4 {
				return nil
			}
			if t, ok := a.E[0].(*Term); !ok || t.W != 64 {
				return nil
			}
			return f.get(st, leafTerms(a)).p
		}
		type pair struct{ a, b int }
		cand := map[pair]bool{}
		pairs := func() []pair { // in a fixed order
			var ps []pair
			for p := range cand {
				ps = append(ps, p)
			}
			sort.Slice(ps, func(i, j int) bool { return ps[i].a < ps[j].a || ps[i].a == ps[j].a && ps[i].b < ps[j].b })
			return ps
		}
		n := 0
		rel := func(st *State, p pair) *LP { return LSub(LMul(elem(st, p.a), elem(st, p.a)), LMul(elem(st, p.b), v)) }
		run := func(check bool) {
			ex.Cut = map[*ssa.Function]*CutSpec{fn: {
				Havoc: func(st *State, v Value) Value {
					if a, ok := v.(*Agg); ok && len(a.E) == 4 {
						if t, ok := a.E[0].(*Term); ok && t.W == 64 {
							n++
							return limbsV(f, f.Atom(fmt.Sprintf("any%d", n)))
						}
					}
					return nil
				},
				Inv: func(phase int, st *State, objs []int) {
					switch phase {
					case 0:
						if check {
							for _, p := range pairs() {
								f.under(st, func() { c.fz(f, "invariant holds on entry", nm, rel(st, p)) })
							}
							return
						}
						for _, a := range objs {
							for _, b := range objs {
								if a != b && elem(st, a) != nil && elem(st, b) != nil && len(f.red(rel(st, pair{a, b})).m) == 0 {
									cand[pair{a, b}] = true
								}
							}
						}
					case 1:
						for _, p := range pairs() {
							r := f.red(rel(st, p))
							sq := f.red(LMul(elem(st, p.a), elem(st, p.a)))
							if len(sq.m) != 1 || len(r.m) == 0 {
								f.Rule(r)
								continue
							}
							for k, m := range sq.m { // the square is rewritten, whatever the order of the atoms
								if r.m[k] == nil {
									f.Rule(r)
								} else {
									f.RuleLead(m.a, r)
								}
							}
						}
					case 2:
						for _, p := range pairs() {
							if check {
								f.under(st, func() { c.fz(f, "invariant is kept by every iteration", nm, rel(st, p)) })
							} else if len(f.red(rel(st, p)).m) != 0 {
								delete(cand, p)
							}
						}
					}
				},
			}}
			roots, nons := 0, 0
			for _, o := range ex.Call(fn, []Value{out, limbsV(f, v)}, st.clone(), "f", 0) {
				if o.Panic != "" {
					c.Ob("no panic", nm, false, "vc", o.Panic+" at "+o.Pos)
					continue
				}
				if !check {
					continue
				}
				f.under(o.St, func() {
					if T(o.Ret[0]).IsTrue() {
						roots++
						x := f.get(o.St, leafTerms(ex.Load(o.St, out))).p
						c.fz(f, "the result is a square root", nm, LSub(LMul(x, x), v))
						return
					}
					nons++
					// Euler: v^((p-1)/2) differs from one
					e := LSub(f.named("pow:"+half.String()+":"+f.red(v).key()), LI(1))
					c.Ob("failure only for non-squares", nm, T(o.Ret[0]).IsFalse() && o.St.decide(f.Zero(e)) == 0, "normal form", "")
				})
			}
			if check {
				c.Ob("both answers are reachable", nm, roots > 0 && nons > 0, "vc", "")
			}
		}
		rules := len(f.rules)
		for i := 0; i < 4; i++ {
			k := len(cand)
			run(false)
			f.rules = f.rules[:rules]
			if i > 0 && len(cand) == k {
				break
			}
		}
		run(true)
		// the root of zero is zero
		ex.Cut = nil
		c.fcall(ex, "zero", "pasta", m.pre+"Sqrt", []Value{out, limbsV(f, LI(0))}, st.clone(), func(o Outcome) {
			c.fz(f, "the root of zero is zero", nm, f.get(o.St, leafTerms(ex.Load(o.St, out))).p)
			c.Ob("zero is a square", nm, T(o.Ret[0]).IsTrue(), "vc", "")
		})
	})
}
