package main

import (
	"fmt"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// ---- math/big integers standing for residues modulo a prime ----
//
// For the projective formulas over *big.Int: an integer is known by its residue (a ghost polynomial) and by bounds, so
// the result of Sign is exact where the integer lies strictly between -P and P and arbitrary (within the bounds) elsewhere.

type fint struct {
	p      *LP
	lo, hi *big.Int // nil: unbounded
	gv     *LP      // set for a coordinate of a ghost group element: its value, and which coordinate
	part   int
}

func fiConst(f *FDom, v *big.Int) *fint { return &fint{p: LC(new(big.Int).Mod(v, f.P)), lo: v, hi: v} }

func (a *fint) konst() (*big.Int, bool) {
	if a.lo != nil && a.hi != nil && a.lo.Cmp(a.hi) == 0 {
		return a.lo, true
	}
	return nil, false
}

func (f *FDom) getInt(ex *Exec, st *State, v Value) *fint {
	p, ok := v.(Ptr)
	if !ok || p.Obj == 0 {
		panic(zNil{})
	}
	switch o := ex.Load(st, p).(type) {
	case *Opaque:
		switch x := o.X.(type) {
		case *fint:
			return x
		case *Z:
			if c, ok := x.isConst(); ok {
				return fiConst(f, c)
			}
		}
	}
	unsup("big.Int holds %s", showVal(ex.Load(st, p)))
	return nil
}

func (f *FDom) putInt(ex *Exec, st *State, v Value, x *fint) {
	p, ok := v.(Ptr)
	if !ok || p.Obj == 0 {
		panic(zNil{})
	}
	if c, ok := x.konst(); ok && x.gv == nil {
		ex.Store(st, p, &Opaque{Kind: "Z", X: ZC(c)})
		return
	}
	ex.Store(st, p, &Opaque{Kind: "Z", X: x})
}

func (f *FDom) newInt(ex *Exec, st *State, name string, x *fint) Ptr {
	p := Ptr{Obj: ex.Alloc(st, name, bigIntType(ex), &Opaque{Kind: "Z", X: ZI(0)})}
	f.putInt(ex, st, p, x)
	return p
}

// canon is a canonical representative of a residue.
func (f *FDom) canon(p *LP) *fint {
	p = f.red(p)
	if v, ok := p.isConst(); ok {
		return fiConst(f, v)
	}
	return &fint{p: p, lo: new(big.Int), hi: new(big.Int).Sub(f.P, big1)}
}

// useBigF replaces the arithmetic of useZ by arithmetic on residues.
func useBigF(ex *Exec, f *FDom) {
	def := func(name string, g func(st *State, c *CallCtx) []Outcome) {
		old := ex.Natives["(*math/big.Int)."+name]
		ex.Natives["(*math/big.Int)."+name] = func(ex *Exec, st *State, c *CallCtx) (outs []Outcome) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(zNil); ok {
						outs = []Outcome{{St: st, Panic: "nil pointer dereference (nil *big.Int in " + name + ")"}}
						return
					}
					panic(r)
				}
			}()
			// constants keep their exact meaning
			ghost := false
			for _, a := range c.Args {
				if p, ok := a.(Ptr); ok && p.Obj != 0 {
					if o, ok := ex.Load(st, p).(*Opaque); ok {
						if _, ok := o.X.(*fint); ok {
							ghost = true
						}
					}
				}
			}
			if !ghost && old != nil {
				return old(ex, st, c)
			}
			return g(st, c)
		}
	}
	num := func(st *State, v Value) *fint {
		x := f.getInt(ex, st, v)
		if x.gv != nil {
			unsup("arithmetic on the coordinates of a ghost point")
		}
		return x
	}
	add := func(a, b *big.Int) *big.Int {
		if a == nil || b == nil {
			return nil
		}
		return new(big.Int).Add(a, b)
	}
	neg := func(a *big.Int) *big.Int {
		if a == nil {
			return nil
		}
		return new(big.Int).Neg(a)
	}
	mulR := func(x, y *fint, same bool) (lo, hi *big.Int) {
		if x.lo == nil || x.hi == nil || y.lo == nil || y.hi == nil {
			if same {
				return new(big.Int), nil
			}
			return nil, nil
		}
		for _, a := range []*big.Int{x.lo, x.hi} {
			for _, b := range []*big.Int{y.lo, y.hi} {
				v := new(big.Int).Mul(a, b)
				if lo == nil || v.Cmp(lo) < 0 {
					lo = v
				}
				if hi == nil || v.Cmp(hi) > 0 {
					hi = v
				}
			}
		}
		if same && lo.Sign() < 0 {
			lo = new(big.Int)
		}
		return
	}
	op := func(name string, g func(st *State, x, y *fint) *fint) {
		def(name, func(st *State, c *CallCtx) []Outcome {
			x := num(st, c.Args[1])
			y := x
			if len(c.Args) > 2 {
				y = num(st, c.Args[2])
			}
			f.putInt(ex, st, c.Args[0], g(st, x, y))
			return ret(st, c.Args[0])
		})
	}
	def("Set", func(st *State, c *CallCtx) []Outcome {
		f.putInt(ex, st, c.Args[0], f.getInt(ex, st, c.Args[1]))
		return ret(st, c.Args[0])
	})
	sub := func(x, y *fint) *fint {
		return &fint{p: f.red(LSub(x.p, y.p)), lo: add(x.lo, neg(y.hi)), hi: add(x.hi, neg(y.lo))}
	}
	op("Add", func(st *State, x, y *fint) *fint {
		return &fint{p: f.red(LAdd(x.p, y.p)), lo: add(x.lo, y.lo), hi: add(x.hi, y.hi)}
	})
	op("Sub", func(st *State, x, y *fint) *fint { return sub(x, y) })
	op("Neg", func(st *State, x, y *fint) *fint {
		return &fint{p: f.red(LScale(x.p, big.NewInt(-1))), lo: neg(x.hi), hi: neg(x.lo)}
	})
	op("Mul", func(st *State, x, y *fint) *fint {
		lo, hi := mulR(x, y, x == y)
		return &fint{p: f.red(LMul(x.p, y.p)), lo: lo, hi: hi}
	})
	def("Lsh", func(st *State, c *CallCtx) []Outcome {
		n := T(c.Args[2])
		if !n.IsConst() {
			unsup("Lsh by a symbolic amount")
		}
		x := num(st, c.Args[1])
		k := new(big.Int).Lsh(big1, uint(n.C))
		lo, hi := mulR(x, fiConst(f, k), false)
		f.putInt(ex, st, c.Args[0], &fint{p: f.red(LScale(x.p, k)), lo: lo, hi: hi})
		return ret(st, c.Args[0])
	})
	modulus := func(st *State, v Value, what string) {
		if n, ok := num(st, v).konst(); !ok || n.Cmp(f.P) != 0 {
			unsup("%s by something else than the field prime", what)
		}
	}
	def("Mod", func(st *State, c *CallCtx) []Outcome {
		x := num(st, c.Args[1])
		modulus(st, c.Args[2], "Mod")
		f.putInt(ex, st, c.Args[0], f.canon(x.p))
		return ret(st, c.Args[0])
	})
	def("ModInverse", func(st *State, c *CallCtx) []Outcome {
		x := num(st, c.Args[1])
		modulus(st, c.Args[2], "ModInverse")
		var outs []Outcome
		fork2(ex, st, f.Zero(x.p), func(s *State) { outs = append(outs, Outcome{St: s, Ret: Tuple{Ptr{}}}) }, func(s *State) {
			f.putInt(ex, s, c.Args[0], f.canon(f.Inv(s, x.p)))
			outs = append(outs, Outcome{St: s, Ret: Tuple{c.Args[0]}})
		})
		return outs
	})
	sign := func(st *State, x *fint, key string) *Term {
		zero, ng := (*Term)(nil), (*Term)(nil)
		mp := new(big.Int).Neg(f.P)
		switch {
		case x.lo != nil && x.lo.Sign() > 0 || x.hi != nil && x.hi.Sign() < 0:
			zero = False()
		case x.lo != nil && x.hi != nil && x.lo.Cmp(mp) > 0 && x.hi.Cmp(f.P) < 0:
			zero = f.Zero(x.p)
		default:
			zero = Fresh(1, "iszero")
		}
		switch {
		case x.lo != nil && x.lo.Sign() >= 0:
			ng = False()
		case x.hi != nil && x.hi.Sign() < 0:
			ng = True()
		default:
			ng = UF(1, "negative:"+key)
		}
		return Ite(zero, I64(0), Ite(ng, Const(64, ^uint64(0)), I64(1)))
	}
	b := func(v *big.Int) string {
		if v == nil {
			return "?"
		}
		return v.Text(16)
	}
	def("Sign", func(st *State, c *CallCtx) []Outcome {
		x := f.getInt(ex, st, c.Args[0])
		if x.gv != nil {
			if x.part == 2 {
				return ret(st, Ite(f.gzero(x.gv), I64(0), I64(1)))
			}
			unsup("sign of a coordinate of a ghost point")
		}
		return ret(st, sign(st, x, x.p.key()+b(x.lo)+b(x.hi)+c.Path))
	})
	def("Cmp", func(st *State, c *CallCtx) []Outcome {
		x := sub(num(st, c.Args[0]), num(st, c.Args[1]))
		return ret(st, sign(st, x, x.p.key()+b(x.lo)+b(x.hi)+c.Path))
	})
}

func (f *FDom) gzero(p *LP) *Term { return UF(1, "ginf:"+p.key()) }

// bigCurve proves the group law of a Weierstrass curve implemented on *big.Int in Jacobian coordinates.
type bigCurve struct {
	c    *Ctx
	cv   *ECurve
	recv string // pkg-relative receiver, e.g. *secp256k1Curve
	glob string
	k    Slice
}

func (b *bigCurve) fn(m string) *ssa.Function { return b.c.P.Fn(".", b.recv+"."+m) }

func (b *bigCurve) setup() (*Exec, *FDom, Value) {
	ex := b.c.Exec()
	useZ(ex)
	ex.NoMerge = true
	ex.MustInit(b.c.P, modPath)
	f := NewFDom(b.cv.Name, b.cv.P, 64, 4)
	useBigF(ex, f)
	g := b.c.P.Pkgs[modPath].Var(b.glob)
	return ex, f, ex.Load(ex.Base, Ptr{Obj: ex.globalObj(g, ex.Base)})
}

// run calls a method and checks that the operands keep their values.
func (b *bigCurve) run(ex *Exec, f *FDom, cv Value, what, m string, args []*fint, g func(st *State, nm string, r []*fint)) {
	c := b.c
	fn := b.fn(m)
	if fn == nil {
		c.Ob("function under contract exists", b.recv+"."+m, false, "none", "missing")
		return
	}
	nm := shortFn(fn)
	c.guard("exact group law", nm+" ("+what+")", func() {
		st := ex.Base.clone()
		var as []Value
		var keep []Value
		for i, a := range args {
			p := f.newInt(ex, st, fmt.Sprintf("arg%d", i), a)
			as = append(as, p)
			keep = append(keep, ex.Load(st, p))
		}
		n := 0
		ex.splitFn = fn
		for _, o := range ex.Call(fn, append([]Value{cv}, as...), st, "f", 0) {
			if o.Panic != "" {
				c.Ob("no panic", nm, false, "vc", o.Panic+" at "+o.Pos)
				continue
			}
			f.under(o.St, func() {
				n++
				var r []*fint
				for _, v := range o.Ret {
					p, ok := v.(Ptr)
					c.Ob("returns fresh integers", nm, ok && p.Obj != 0, "vc", showVal(v))
					if !ok || p.Obj == 0 {
						return
					}
					for _, a := range as {
						c.Ob("returns fresh integers", nm, p.Obj != a.(Ptr).Obj, "vc", "an operand")
					}
					r = append(r, f.getInt(ex, o.St, v))
				}
				for i, a := range as {
					c.Ob("operands keep their values", nm, ex.Load(o.St, a.(Ptr)) == keep[i], "frame", fmt.Sprintf("operand %d", i))
				}
				g(o.St, nm, r)
			})
		}
		c.Ob("returns: "+what, nm, n > 0, "vc", "no returning path")
	})
}

// isCanon: the integer is the canonical representative.
func (b *bigCurve) isCanon(nm string, x *fint) {
	b.c.Ob("coordinates are canonical", nm, x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 && x.hi.Cmp(b.cv.P) < 0, "interval arithmetic", fmt.Sprint(x.lo, x.hi))
}

func (b *bigCurve) law() {
	c := b.c
	type sum struct{ nx, ny, m *LP } // (nx/m^2, ny/m^3); m nil: infinity
	for _, k := range []string{"P infinite", "Q infinite", "both infinite", "distinct abscissas", "equal points", "opposite points", "doubling", "doubling infinity"} {
		for _, affine := range []bool{false, true} {
			ex, f, cv := b.setup()
			A := LC(new(big.Int).Mod(b.cv.A, f.P))
			x1, y1, z1 := f.Atom("x1"), f.Atom("y1"), f.Unit(f.Atom("z1"))
			x2, y2, z2 := f.Atom("x2"), f.Atom("y2"), f.Unit(f.Atom("z2"))
			one := LI(1)
			jac := func(x, y, z *LP) []*fint { // any representative of the first two coordinates, the canonical one of the third
				if affine {
					return []*fint{f.canon(x), f.canon(y)}
				}
				return []*fint{{p: LMul(x, fPow(z, 2))}, {p: LMul(y, fPow(z, 3))}, f.canon(z)}
			}
			inf := func(n string) []*fint {
				if affine {
					return []*fint{fiConst(f, new(big.Int)), fiConst(f, new(big.Int))}
				}
				return []*fint{{p: f.Atom(n + ".X")}, {p: f.Atom(n + ".Y")}, fiConst(f, new(big.Int))}
			}
			check := func(want sum) func(st *State, nm string, r []*fint) {
				return func(st *State, nm string, r []*fint) {
					if affine {
						b.isCanon(nm, r[0])
						b.isCanon(nm, r[1])
						if want.m == nil {
							c.fz(f, k+": infinity is (0,0)", nm, r[0].p)
							c.fz(f, k+": infinity is (0,0)", nm, r[1].p)
							return
						}
						c.fz(f, k+": abscissa", nm, LSub(LMul(r[0].p, fPow(want.m, 2)), want.nx))
						c.fz(f, k+": ordinate", nm, LSub(LMul(r[1].p, fPow(want.m, 3)), want.ny))
						return
					}
					X, Y, Z := r[0].p, r[1].p, r[2].p
					b.isCanon(nm, r[2])
					if want.m == nil {
						c.fz(f, k+": infinity", nm, Z)
						return
					}
					c.fnz(f, k+": not infinity", nm, Z)
					c.fz(f, k+": abscissa", nm, LSub(LMul(X, fPow(want.m, 2)), LMul(want.nx, fPow(Z, 2))))
					c.fz(f, k+": ordinate", nm, LSub(LMul(Y, fPow(want.m, 3)), LMul(want.ny, fPow(Z, 3))))
				}
			}
			add, dbl := "addJacobian", "doubleJacobian"
			if affine {
				add, dbl = "Add", "Double"
			}
			two := func() sum {
				m := LScale(y1, big.NewInt(2))
				l := LAdd(LScale(LMul(x1, x1), big.NewInt(3)), A)
				nx := LSub(LMul(l, l), LScale(fMul(x1, m, m), big.NewInt(2)))
				return sum{nx, LSub(LMul(l, LSub(fMul(x1, m, m), nx)), fMul(y1, m, m, m)), m}
			}
			p, q := jac(x1, y1, z1), jac(x2, y2, z2)
			cat := func(a, b []*fint) []*fint { return append(append([]*fint{}, a...), b...) }
			switch k {
			case "P infinite":
				f.Unit(y2)
				b.run(ex, f, cv, k, add, cat(inf("p"), q), check(sum{x2, y2, one}))
			case "Q infinite":
				f.Unit(y1)
				b.run(ex, f, cv, k, add, cat(p, inf("q")), check(sum{x1, y1, one}))
			case "both infinite":
				b.run(ex, f, cv, k, add, cat(inf("p"), inf("q")), check(sum{}))
			case "distinct abscissas":
				f.Unit(y1)
				f.Unit(y2)
				m := f.Unit(LSub(x2, x1))
				l := LSub(y2, y1)
				nx := LSub(LMul(l, l), fMul(LAdd(x1, x2), m, m))
				b.run(ex, f, cv, k, add, cat(p, q), check(sum{nx, LSub(LMul(l, LSub(fMul(x1, m, m), nx)), fMul(y1, m, m, m)), m}))
			case "equal points":
				f.Unit(y1)
				b.run(ex, f, cv, k, add, cat(p, jac(x1, y1, z2)), check(two()))
			case "opposite points":
				f.Unit(y1)
				b.run(ex, f, cv, k, add, cat(p, jac(x1, LScale(y1, big.NewInt(-1)), z2)), check(sum{}))
			case "doubling":
				f.Unit(y1)
				b.run(ex, f, cv, k, dbl, p, check(two()))
			case "doubling infinity":
				b.run(ex, f, cv, k, dbl, inf("p"), check(sum{}))
			}
		}
	}
	// affine conversion
	ex, f, cv := b.setup()
	x1, y1, z1 := f.Atom("x1"), f.Atom("y1"), f.Unit(f.Atom("z1"))
	b.run(ex, f, cv, "finite", "affineFromJacobian", []*fint{{p: LMul(x1, fPow(z1, 2))}, {p: LMul(y1, fPow(z1, 3))}, f.canon(z1)}, func(st *State, nm string, r []*fint) {
		b.isCanon(nm, r[0])
		b.isCanon(nm, r[1])
		c.fz(f, "affine abscissa", nm, LSub(r[0].p, x1))
		c.fz(f, "affine ordinate", nm, LSub(r[1].p, y1))
	})
	b.run(ex, f, cv, "infinity", "affineFromJacobian", []*fint{{p: x1}, {p: y1}, fiConst(f, new(big.Int))}, func(st *State, nm string, r []*fint) {
		for _, x := range r {
			v, ok := x.konst()
			c.Ob("infinity is (0,0)", nm, ok && v.Sign() == 0, "vc", "")
		}
	})
}

// rest proves the curve equation, and that the pair (0,0), which stands for infinity and enters ScalarMult with z = 1,
// only ever meets the accumulators infinity and itself.
func (b *bigCurve) rest() {
	c := b.c
	ex, f, cv := b.setup()
	zero, one := func() *fint { return fiConst(f, new(big.Int)) }, fiConst(f, big1)
	isInf := func(st *State, nm string, r []*fint) {
		c.fz(f, "(0,0) is multiplied as infinity", nm, r[2].p)
		b.isCanon(nm, r[2])
	}
	b.run(ex, f, cv, "(0,0)", "doubleJacobian", []*fint{zero(), zero(), one}, isInf)
	b.run(ex, f, cv, "(0,0)", "addJacobian", []*fint{zero(), zero(), one, {p: f.Atom("X")}, {p: f.Atom("Y")}, zero()}, func(st *State, nm string, r []*fint) {
		for i, x := range r {
			v, ok := x.konst()
			c.Ob("(0,0) is multiplied as infinity", nm, ok && v.Cmp([]*big.Int{new(big.Int), new(big.Int), big1}[i]) == 0, "vc", "")
		}
	})
	b.run(ex, f, cv, "(0,0)", "affineFromJacobian", []*fint{zero(), zero(), one}, func(st *State, nm string, r []*fint) {
		for _, x := range r {
			v, ok := x.konst()
			c.Ob("(0,0) is multiplied as infinity", nm, ok && v.Sign() == 0, "vc", "")
		}
	})
	fn := b.fn("IsOnCurve")
	if fn == nil {
		c.Ob("function under contract exists", b.recv+".IsOnCurve", false, "none", "missing")
		return
	}
	nm := shortFn(fn)
	c.guard("curve equation", nm, func() {
		st := ex.Base.clone()
		x, y := f.Atom("x"), f.Atom("y")
		px, py := f.newInt(ex, st, "x", f.canon(x)), f.newInt(ex, st, "y", f.canon(y))
		kx, ky := ex.Load(st, px), ex.Load(st, py)
		eq := f.Zero(LSub(LMul(y, y), LAdd(LMul(LAdd(LMul(x, x), LC(new(big.Int).Mod(b.cv.A, f.P))), x), LC(b.cv.B))))
		n := 0
		for _, o := range ex.Call(fn, []Value{cv, px, py}, st, "f", 0) {
			n++
			if o.Panic != "" {
				c.Ob("no panic", nm, false, "vc", o.Panic+" at "+o.Pos)
				continue
			}
			c.Ob("true exactly for the points of the curve", nm, ex.must(o.St, Eq(T(o.Ret[0]), eq)), "z3", Show(T(o.Ret[0]), 6))
			c.Ob("operands keep their values", nm, ex.Load(o.St, px) == kx && ex.Load(o.St, py) == ky, "frame", "")
		}
		c.Ob("true exactly for the points of the curve", nm, n > 0, "vc", "no returning path")
	})
}

// mult proves ScalarMult over ghost group elements: one iteration of the outer loop takes an accumulator A to
// 256 A + k[i] B, so that the result is the multiple by the number k spells.
func (b *bigCurve) mult() {
	c := b.c
	ex, f, cv := b.setup()
	fn := b.fn("ScalarMult")
	if fn == nil {
		c.Ob("function under contract exists", b.recv+".ScalarMult", false, "none", "missing")
		return
	}
	nm := shortFn(fn)
	g := NewFDom("multiples of P", b.cv.N, 64, 4)
	P, A := g.Atom("P"), g.Atom("A")
	point := func(st *State, vs []Value) *LP {
		x, y, z := f.getInt(ex, st, vs[0]), f.getInt(ex, st, vs[1]), f.getInt(ex, st, vs[2])
		k, ok := z.konst()
		switch {
		case ok && k.Sign() == 0:
			return LI(0)
		case ok && k.Cmp(big1) == 0 && x.gv != nil && y.gv != nil && x.part == 10 && y.part == 11 && x.gv.key() == y.gv.key():
			return x.gv
		case x.gv != nil && y.gv != nil && z.gv != nil && x.part == 0 && y.part == 1 && z.part == 2 && x.gv.key() == y.gv.key() && x.gv.key() == z.gv.key():
			return x.gv
		}
		unsup("the coordinates are not those of one ghost point")
		return nil
	}
	give := func(st *State, p *LP, first, n int) []Outcome {
		var r []Value
		for i := 0; i < n; i++ {
			r = append(r, f.newInt(ex, st, "pt", &fint{gv: g.red(p), part: first + i}))
		}
		return ret(st, r...)
	}
	ex.Contracts[b.fn("doubleJacobian").String()] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
		return give(st, LScale(point(st, cc.Args[1:4]), big.NewInt(2)), 0, 3)
	}
	ex.Contracts[b.fn("addJacobian").String()] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
		return give(st, LAdd(point(st, cc.Args[1:4]), point(st, cc.Args[4:7])), 0, 3)
	}
	ex.Contracts[b.fn("affineFromJacobian").String()] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
		return give(st, point(st, cc.Args[1:4]), 10, 2)
	}
	iters := 0
	var acc []int // parts of the accumulator that were replaced by arbitrary values
	var idx, from *Term
	spec := &CutSpec{
		Loops: func(H *loopInfo) bool { return H.parent == nil },
		Phi: func(st *State, ph *ssa.Phi, v, seen Value) Value {
			if t, ok := v.(*Term); ok && t.W == 64 && t.IsConst() { // counts the iterations
				h := Fresh(64, "n")
				idx, from = Sub(h, t), t
				st.assume(Sle(I64(0), idx))
				st.assume(Sle(idx, b.k.Len))
				return h
			}
			if _, ok := v.(Ptr); !ok {
				return nil
			}
			o, _ := seen.(*Opaque)
			if o == nil {
				return nil
			}
			x, ok := o.X.(*fint)
			if !ok || x.gv == nil {
				return nil
			}
			// the invariant on entry: the accumulator is the multiple by the empty prefix
			e := f.getInt(ex, st, v)
			z, ok := e.konst()
			c.Ob("the accumulator starts at infinity", nm, ok && (x.part != 2 || z.Sign() == 0), "vc", "")
			acc = append(acc, x.part)
			return f.newInt(ex, st, "acc", &fint{gv: A, part: x.part})
		},
		Back: func(e *entry, fr *frame, H *loopInfo) {
			iters++
			var vs [3]Value
			var byteT *Term
			for _, in := range H.header.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				v := e.env[fr.fi.idx[ph]]
				if t, ok := v.(*Term); ok && t.W == 64 && idx != nil {
					n := Sub(t, from)
					c.Ob("one iteration per byte", nm, ex.must(e.st, And(Eq(n, Add(idx, I64(1))), Sle(n, b.k.Len))), "z3", "")
				}
				if p, ok := v.(Ptr); ok && p.Obj != 0 {
					if o, ok := e.st.Heap[p.Obj].V.(*Opaque); ok {
						if x, ok := o.X.(*fint); ok && x.gv != nil && x.part < 3 {
							vs[x.part] = v
						}
					}
				}
			}
			if vs[0] == nil || vs[1] == nil || vs[2] == nil || idx == nil {
				c.Ob("one iteration of the loop over the scalar", nm, false, "vc", "the accumulator is not carried by three loop variables")
				return
			}
			got := g.red(point(e.st, vs[:]))
			// the byte of this iteration: its bits are decided on the path
			byteT = T(ex.Load(e.st, ex.elemPtr(b.k, idx).(Ptr)))
			want := LScale(A, big.NewInt(256))
			for i := 0; i < 8; i++ {
				switch e.st.decide(Extract(byteT, i, 1)) {
				case 1:
					want.addMul(P, p2(i))
				case 0:
				default:
					want = nil
				}
				if want == nil {
					break
				}
			}
			if want == nil {
				c.Ob("one iteration: 256 times the accumulator plus the byte times the point", nm, false, "polynomial identity", "a bit of the scalar is not looked at")
				return
			}
			c.Ob("one iteration: 256 times the accumulator plus the byte times the point", nm, len(g.red(LSub(got, want)).m) == 0, "polynomial identity", g.show(got))
		},
	}
	c.guard("exact multiple for every scalar", nm, func() {
		ex.Cut = map[*ssa.Function]*CutSpec{fn: spec}
		st := ex.Base.clone()
		x, y := f.newInt(ex, st, "Bx", &fint{gv: P, part: 10}), f.newInt(ex, st, "By", &fint{gv: P, part: 11})
		k := ex.anyBytes(st, "k", 0, symMax)
		b.k = k
		var n int
		for _, o := range ex.Call(fn, []Value{cv, x, y, k}, st, "f", 0) {
			if o.Panic != "" {
				c.Ob("no panic", nm, false, "vc", o.Panic+" at "+o.Pos)
				continue
			}
			n++
			rx, ry := f.getInt(ex, o.St, o.Ret[0]), f.getInt(ex, o.St, o.Ret[1])
			ok := rx.gv != nil && ry.gv != nil && rx.part == 10 && ry.part == 11 && rx.gv.key() == ry.gv.key()
			c.Ob("the loop ends after the last byte", nm, idx != nil && ex.must(o.St, Eq(idx, k.Len)), "z3", "")
			c.Ob("the result is the accumulator after the last byte", nm, ok && rx.gv.key() == g.red(A).key(), "polynomial identity", "")
			c.Ob("operands keep their values", nm, f.getInt(ex, o.St, x).gv == P && f.getInt(ex, o.St, y).gv == P, "frame", "")
		}
		c.Ob("every combination of bits was followed", nm, iters == 256 && n > 0 && len(acc) > 0, "vc", fmt.Sprint(iters, n, acc))
	})
	base := b.fn("ScalarBaseMult")
	c.guard("the generator's multiple", b.recv+".ScalarBaseMult", func() {
		ex, f, cv := b.setup()
		st := ex.Base.clone()
		k := ex.anyBytes(st, "k", 0, symMax)
		ok := false
		ex.Contracts[fn.String()] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
			x, y := f.getInt(ex, st, cc.Args[1]), f.getInt(ex, st, cc.Args[2])
			xv, ok1 := x.konst()
			yv, ok2 := y.konst()
			ok = ok1 && ok2 && xv.Cmp(b.cv.Gx) == 0 && yv.Cmp(b.cv.Gy) == 0 && sameVal(cc.Args[3], k)
			return give(st, P, 10, 2)
		}
		for _, o := range ex.Call(base, []Value{cv, k}, st, "f", 0) {
			c.Ob("multiplies the generator by the scalar", b.recv+".ScalarBaseMult", o.Panic == "" && ok && f.getInt(ex, o.St, o.Ret[0]).part == 10 && f.getInt(ex, o.St, o.Ret[1]).part == 11, "vc", "")
		}
	})
}

func init() {
	unit("g01", []string{"."}, 1, func(c *Ctx) {
		b := &bigCurve{c: c, cv: ecs["secp256k1"], recv: "*secp256k1Curve", glob: "secp256k1"}
		b.law()
		b.rest()
		b.mult()
	})
}
