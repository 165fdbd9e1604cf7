package main

import (
	"fmt"
	"math/big"
	"strings"
)

// ---- BLS12-381: extension tower over the contracts of the base field ----

// blsField installs the contracts of the base field proved by unit f05asm. An element is canonical (level 0) or, after an
// addition without reduction, at most 2p-2 (level 1); only multiplication accepts level 1.
func blsField(ex *Exec) *FDom {
	f := NewFDom("fp", blsP, 64, 6)
	f.dec = montDec(blsP, 64, 6)
	pre := blsPkg + "."
	arg := func(ex *Exec, st *State, c *CallCtx, i, max int, fn string) *LP {
		v := f.arg(ex, st, c.Args[i])
		if v.b > max {
			ex.PreFail = append(ex.PreFail, fmt.Sprintf("operand %d of bls.%s is not reduced", i, fn))
		}
		return v.p
	}
	op := func(fn string, dst int, src []int, max, b int, g func(in []*LP) *LP) {
		ex.Contracts[pre+fn] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
			var in []*LP
			for _, i := range src {
				in = append(in, arg(ex, st, c, i, max, fn))
			}
			f.put(ex, st, c.Args[dst], g(in), b)
			return ret(st)
		}
	}
	add := func(a []*LP) *LP { return LAdd(a[0], a[1]) }
	sub := func(a []*LP) *LP { return LSub(a[0], a[1]) }
	mul := func(a []*LP) *LP { return LMul(a[0], a[1]) }
	dbl := func(a []*LP) *LP { return LScale(a[0], big.NewInt(2)) }
	neg := func(a []*LP) *LP { return LScale(a[0], big.NewInt(-1)) }
	op("add", 0, []int{1, 2}, 0, 0, add)
	op("addAssign", 0, []int{0, 1}, 0, 0, add)
	op("ladd", 0, []int{1, 2}, 0, 1, add)
	op("laddAssign", 0, []int{0, 1}, 0, 1, add)
	op("sub", 0, []int{1, 2}, 0, 0, sub)
	op("subAssign", 0, []int{0, 1}, 0, 0, sub)
	op("double", 0, []int{1}, 0, 0, dbl)
	op("doubleAssign", 0, []int{0}, 0, 0, dbl)
	op("ldouble", 0, []int{1}, 0, 1, dbl)
	op("neg", 0, []int{1}, 0, 0, neg)
	op("square", 0, []int{1}, 1, 0, func(a []*LP) *LP { return LMul(a[0], a[0]) })
	for _, n := range []string{"mulADX", "mulNoADX", "mul"} {
		op(n, 0, []int{1, 2}, 1, 0, mul)
	}
	for _, n := range []string{"mulAssignADX", "mulAssignNoADX", "mulAssign"} {
		op(n, 0, []int{0, 1}, 1, 0, mul)
	}
	ex.Contracts[pre+"inverse"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		f.put(ex, st, c.Args[0], f.Inv(st, arg(ex, st, c, 1, 0, "inverse")), 0)
		return ret(st)
	}
	fe := "(*" + pre + "fe)."
	for _, n := range []string{"IsZero", "isZero"} {
		n := n
		ex.Contracts[fe+n] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
			return ret(st, f.Zero(arg(ex, st, c, 0, 0, n)))
		}
	}
	for _, n := range []string{"Equals", "equal"} {
		n := n
		ex.Contracts[fe+n] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
			return ret(st, f.Zero(LSub(arg(ex, st, c, 0, 0, n), arg(ex, st, c, 1, 0, n))))
		}
	}
	return f
}

// ext is an element of the tower: 1, 2, 6 or 12 coordinates over the base field.
type ext []*LP

func (a ext) add(b ext, k int64) ext {
	r := ext{}
	for i := range a {
		r = append(r, LAdd(a[i], LScale(b[i], big.NewInt(k))))
	}
	return r
}

// nr multiplies by the element whose root generates the next level: -1, 1+u, v.
func (a ext) nr() ext {
	switch len(a) {
	case 1:
		return ext{LScale(a[0], big.NewInt(-1))}
	case 2:
		return ext{LSub(a[0], a[1]), LAdd(a[0], a[1])}
	case 6:
		return append(append(ext{}, a[4:6].nr()...), a[0:4]...)
	}
	panic("nr")
}

func (a ext) mul(b ext) ext {
	switch len(a) {
	case 1:
		return ext{LMul(a[0], b[0])}
	case 6:
		c := func(i int) ext { return a[2*i : 2*i+2] }
		d := func(i int) ext { return b[2*i : 2*i+2] }
		r0 := c(0).mul(d(0)).add(c(1).mul(d(2)).add(c(2).mul(d(1)), 1).nr(), 1)
		r1 := c(0).mul(d(1)).add(c(1).mul(d(0)), 1).add(c(2).mul(d(2)).nr(), 1)
		r2 := c(0).mul(d(2)).add(c(1).mul(d(1)), 1).add(c(2).mul(d(0)), 1)
		return append(append(append(ext{}, r0...), r1...), r2...)
	}
	h := len(a) / 2
	r0 := a[:h].mul(b[:h]).add(a[h:].mul(b[h:]).nr(), 1)
	r1 := a[:h].mul(b[h:]).add(a[h:].mul(b[:h]), 1)
	return append(append(ext{}, r0...), r1...)
}

func (a ext) scale(k int64) ext {
	r := ext{}
	for _, x := range a {
		r = append(r, LScale(x, big.NewInt(k)))
	}
	return r
}

// conj is the p-power map of the quadratic extension.
func (a ext) conj() ext { return ext{a[0], LScale(a[1], big.NewInt(-1))} }

// extZero is the zero element of n coordinates, at puts a coefficient of half or third of the size at position i.
func at(n int, i int, x ext) ext {
	r := ext{}
	for len(r) < i*len(x) {
		r = append(r, LI(0))
	}
	r = append(r, x...)
	for len(r) < n {
		r = append(r, LI(0))
	}
	return r
}

// pow2 is a constant of the quadratic extension raised to a power.
func pow2(a ext, e *big.Int) ext {
	red := func(x ext) ext {
		for i := range x {
			v, _ := x[i].isConst()
			x[i] = LC(new(big.Int).Mod(v, blsP))
		}
		return x
	}
	r := ext{LI(1), LI(0)}
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = red(r.mul(r))
		if e.Bit(i) == 1 {
			r = red(r.mul(a))
		}
	}
	return r
}

// frob is the p^k power map: coordinate at v^i w^j is conjugated k times and multiplied by (1+u)^((2i+j)(p^k-1)/6).
func (a ext) frob(k int) ext {
	e := new(big.Int).Exp(blsP, big.NewInt(int64(k)), nil)
	e.Sub(e, big1).Div(e, big.NewInt(6))
	var r ext
	for n := 0; n < len(a)/2; n++ {
		x := a[2*n : 2*n+2]
		if k%2 == 1 {
			x = x.conj()
		}
		t := 2 * n
		if n >= 3 {
			t = 2*(n-3) + 1
		}
		r = append(r, x.mul(pow2(ext{LI(1), LI(1)}, new(big.Int).Mul(e, big.NewInt(int64(t)))))...)
	}
	return r
}

type blsTower struct {
	fn   string
	args string // one letter per argument after the receiver: c destination, a operand, A both; k small constant
	deg  []int  // coordinates of the arguments
	k    int
	inv  bool
	spec func(in []ext) ext
	cyc  bool
	two  func(in []ext) []ext // two destinations
}

func blsTowers() (r []blsTower) {
	add := func(n string, args string, deg []int, spec func(in []ext) ext) {
		r = append(r, blsTower{fn: n, args: args, deg: deg, spec: spec})
	}
	sum := func(in []ext) ext { return in[0].add(in[1], 1) }
	dif := func(in []ext) ext { return in[0].add(in[1], -1) }
	mul := func(in []ext) ext { return in[0].mul(in[1]) }
	sqr := func(in []ext) ext { return in[0].mul(in[0]) }
	dbl := func(in []ext) ext { return in[0].scale(2) }
	neg := func(in []ext) ext { return in[0].scale(-1) }
	cpy := func(in []ext) ext { return in[0] }
	nr := func(in []ext) ext { return in[0].nr() }
	for _, t := range []struct {
		t string
		n int
	}{{"fp2", 2}, {"fp6", 6}, {"fp12", 12}} {
		p := "*" + t.t + "."
		n := t.n
		add(p+"copy", "ca", []int{n, n}, cpy)
		add(p+"add", "cab", []int{n, n, n}, sum)
		add(p+"double", "ca", []int{n, n}, dbl)
		add(p+"sub", "cab", []int{n, n, n}, dif)
		add(p+"neg", "ca", []int{n, n}, neg)
		add(p+"mul", "cab", []int{n, n, n}, mul)
		add(p+"mulAssign", "Ab", []int{n, n}, mul)
		add(p+"square", "ca", []int{n, n}, sqr)
		r = append(r, blsTower{fn: p + "inverse", args: "ca", deg: []int{n, n}, inv: true})
		if n < 12 {
			add(p+"addAssign", "Ab", []int{n, n}, sum)
			add(p+"subAssign", "Ab", []int{n, n}, dif)
			add(p+"doubleAssign", "A", []int{n}, dbl)
			add(p+"mulByNonResidue", "ca", []int{n, n}, nr)
		}
		if n == 12 {
			add(p+"conjugate", "ca", []int{n, n}, func(in []ext) ext { return append(append(ext{}, in[0][:6]...), in[0][6:].scale(-1)...) })
		}
	}
	add("*fp2.squareAssign", "A", []int{2}, sqr)
	add("*fp2.conjugate", "ca", []int{2, 2}, func(in []ext) ext { return in[0].conj() })
	add("*fp2.mulByB", "ca", []int{2, 2}, func(in []ext) ext { return in[0].nr().scale(4) })
	add("*fp2.mulByFq", "cab", []int{2, 2, 1}, func(in []ext) ext { return append(in[0][:1].mul(in[1]), in[0][1:].mul(in[1])...) })
	b01 := func(in []ext) ext { return in[0].mul(append(append(append(ext{}, in[1]...), in[2]...), LI(0), LI(0))) }
	add("*fp6.mulBy01Assign", "Abd", []int{6, 2, 2}, b01)
	add("*fp6.mulBy01", "cabd", []int{6, 6, 2, 2}, b01)
	add("*fp6.mulBy1", "cab", []int{6, 6, 2}, func(in []ext) ext { return in[0].mul(at(6, 1, in[1])) })
	add("*fp6.mulByBaseField", "cab", []int{6, 6, 2}, func(in []ext) ext { return in[0].mul(at(6, 0, in[1])) })
	add("*fp12.mulBy014Assign", "Abde", []int{12, 2, 2, 2}, func(in []ext) ext {
		z := append(append(append(ext{}, in[1]...), in[2]...), LI(0), LI(0), LI(0), LI(0))
		return in[0].mul(append(append(z, in[3]...), LI(0), LI(0)))
	})
	// (a0 + a1 s)^2 with s^2 = 1+u
	r = append(r, blsTower{fn: "*fp12.fp4Square", args: "ccab", deg: []int{2, 2, 2, 2}, two: func(in []ext) []ext {
		return []ext{in[0].mul(in[0]).add(in[1].mul(in[1]).nr(), 1), in[0].mul(in[1]).scale(2)}
	}})
	for k := 0; k < 4; k++ {
		k := k
		fr := func(in []ext) ext { return in[0].frob(k) }
		if k < 2 {
			r = append(r, blsTower{fn: "*fp2.frobeniousMap", args: "cak", deg: []int{2, 2}, k: k, spec: fr})
			r = append(r, blsTower{fn: "*fp2.frobeniousMapAssign", args: "Ak", deg: []int{2}, k: k, spec: fr})
		}
	}
	for k := 0; k < 12; k++ {
		k := k
		fr := func(in []ext) ext { return in[0].frob(k) }
		if k < 6 {
			r = append(r, blsTower{fn: "*fp6.frobeniusMap", args: "cak", deg: []int{6, 6}, k: k, spec: fr})
			r = append(r, blsTower{fn: "*fp6.frobeniusMapAssign", args: "Ak", deg: []int{6}, k: k, spec: fr})
		}
		r = append(r, blsTower{fn: "*fp12.frobeniusMap", args: "cak", deg: []int{12, 12}, k: k, spec: fr})
		r = append(r, blsTower{fn: "*fp12.frobeniusMapAssign", args: "Ak", deg: []int{12}, k: k, spec: fr})
	}
	return
}

// towerArg builds an element with the given coordinates.
func towerVal(f *FDom, ps ext) Value {
	if len(ps) == 1 {
		return f.agg(ps[0]).(*Agg).E[0]
	}
	n := map[int]int{2: 1, 6: 2, 12: 6}[len(ps)]
	a := &Agg{}
	for i := 0; i < len(ps); i += n {
		a.E = append(a.E, towerVal(f, ps[i:i+n]))
	}
	return a
}

func towerGet(f *FDom, st *State, v Value) (r ext, lev int) {
	ts := leafTerms(v)
	for i := 0; i < len(ts); i += 6 {
		x := f.get(st, ts[i:i+6])
		r = append(r, x.p)
		if x.b > lev {
			lev = x.b
		}
	}
	return
}

func (c *Ctx) checkTower(t blsTower) {
	pk := "bls12_381/bls"
	fn := c.P.Fn(pk, t.fn)
	if fn == nil {
		c.Ob("function under contract exists", "bls."+t.fn, false, "none", "missing")
		return
	}
	nm := shortFn(fn)
	n := len(t.deg)
	var parts [][]int
	var rec func(p []int, k int)
	rec = func(p []int, k int) {
		if len(p) == n {
			parts = append(parts, append([]int{}, p...))
			return
		}
		for o := 1; o <= k+1; o++ {
			if o <= k {
				// same object: same size, and not two destinations
				ok := true
				for i, q := range p {
					if q == o && (t.deg[i] != t.deg[len(p)] || t.args[i] == 'c' && t.args[len(p)] == 'c') {
						ok = false
					}
				}
				if t.args[0] == 'A' && o == 1 && strings.Contains("Abde", string(t.args[len(p)])) && n > 2 {
					ok = false
				}
				if ok {
					rec(append(p, o), k)
				}
				continue
			}
			rec(append(p, o), k+1)
		}
	}
	rec(nil, 0)
	if t.two != nil {
		parts = [][]int{{1, 2, 3, 4}}
	}
	for _, part := range parts {
		lab := ""
		for i, o := range part {
			if o != i+1 {
				lab = fmt.Sprintf(" (operands coincide %v)", part)
			}
		}
		if strings.Contains(t.args, "k") {
			lab += fmt.Sprintf(" (power %d)", t.k)
		}
		c.guard("exact result"+lab, nm, func() {
			ex := blsExec(c)
			f := blsField(ex)
			st := ex.Base.clone()
			rf := c.P.Fn(pk, map[string]string{"*fp2": "newFp2", "*fp6": "newFp6", "*fp12": "newFp12"}[t.fn[:strings.Index(t.fn, ".")]])
			var ra []Value
			for range rf.Params {
				ra = append(ra, Ptr{})
			}
			os := ex.Call(rf, ra, st, "r", 0)
			if len(os) != 1 || os[0].Panic != "" {
				unsup("constructor %s", rf.Name())
			}
			st = os[0].St
			args := []Value{os[0].Ret[0]}
			obj := map[int]Ptr{}
			val := map[int]ext{}
			for i, o := range part {
				if _, ok := obj[o]; !ok {
					var ps ext
					for j := 0; j < t.deg[i]; j++ {
						ps = append(ps, f.Atom(fmt.Sprintf("x%d_%d", o, j)))
					}
					obj[o] = Ptr{Obj: ex.Alloc(st, "x", c.typeOf(pk, map[int]string{1: "fe", 2: "fe2", 6: "fe6", 12: "fe12"}[len(ps)]), towerVal(f, ps))}
					val[o] = ps
				}
				args = append(args, obj[o])
			}
			if strings.Contains(t.args, "k") {
				args = append(args, Const(64, uint64(t.k)))
			}
			var in []ext
			dst := map[int]bool{}
			for i, o := range part {
				if t.args[i] != 'c' {
					in = append(in, val[o])
				}
				if t.args[i] == 'c' || t.args[i] == 'A' {
					dst[o] = true
				}
			}
			var iarg, ires ext
			if t.inv && len(in[0]) == 12 { // the inverse in the sextic extension is proved above
				ex.Contracts["(*"+blsPkg+".fp6).inverse"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
					x, lev := towerGet(f, st, ex.Load(st, cc.Args[2].(Ptr)))
					if lev != 0 {
						ex.PreFail = append(ex.PreFail, "operand of fp6.inverse is not reduced")
					}
					if iarg != nil {
						unsup("two inversions")
					}
					iarg, ires = x, ext{}
					for j := 0; j < 6; j++ {
						ires = append(ires, f.Atom(fmt.Sprintf("i%d", j)))
					}
					ex.Store(st, cc.Args[1].(Ptr), towerVal(f, ires))
					return ret(st)
				}
			}
			if t.inv && len(in[0]) < 12 { // the norm of a nonzero element does not vanish
				x := in[0]
				if len(x) == 6 {
					a, b, d := x[0:2], x[2:4], x[4:6]
					A := a.mul(a).add(b.mul(d).nr(), -1)
					B := d.mul(d).nr().add(a.mul(b), -1)
					C := b.mul(b).add(a.mul(d), -1)
					x = d.mul(B).add(b.mul(C), 1).nr().add(a.mul(A), 1)
				}
				f.Unit(LAdd(LMul(x[0], x[0]), LMul(x[1], x[1])))
			}
			c.fcall(ex, "exact result"+lab, pk, t.fn, args, st, func(o Outcome) {
				for i, q := range part {
					v, lev := towerGet(f, o.St, ex.Load(o.St, obj[q]))
					if !dst[q] {
						for j := range v {
							c.fz(f, "operand unchanged"+lab, nm, LSub(v[j], val[q][j]))
						}
						continue
					}
					if t.args[i] != 'c' && t.args[i] != 'A' {
						continue
					}
					c.Ob("result is canonical"+lab, nm, lev == 0, "interval arithmetic", "not reduced")
					var want ext
					switch {
					case t.two != nil:
						want = t.two(in)[i]
					case t.inv:
						want = at(len(v), 0, ext{LI(1)})
						v = v.mul(in[0])
						if len(v) == 12 {
							if iarg == nil {
								unsup("no inversion")
							}
							for j, w := range in[0][:6].mul(in[0][:6]).add(in[0][6:].mul(in[0][6:]).nr(), -1) {
								c.fz(f, "inverted value is the norm"+lab, nm, LSub(iarg[j], w))
							}
							want = at(12, 0, iarg.mul(ires)) // is one
						}
					default:
						want = t.spec(in)
					}
					for j := range v {
						c.fz(f, "exact result"+lab, nm, LSub(v[j], want[j]))
					}
				}
			})
			c.Ob("preconditions of callees hold"+lab, nm, len(ex.PreFail) == 0, "vc", strings.Join(ex.PreFail, "; "))
		})
	}
	c.Func(nm)
}

func init() {
	unit("f05tower", []string{blsPkg}, 6, func(c *Ctx) {
		for i, t := range blsTowers() {
			if i%c.NShard == c.Shard {
				c.checkTower(t)
			}
		}
	})
}
