package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// ---- edwards25519 points ----

var edD = func() *big.Int {
	d := new(big.Int).ModInverse(big.NewInt(121666), p25519)
	d.Mul(d, big.NewInt(-121665))
	return d.Mod(d, p25519)
}()

const edShort = "eddsa/edwards25519"

// value of a struct of field elements with the given values and levels
func (f *FDom) aggL(ps []*LP, bs []int) Value {
	a := &Agg{}
	for i, p := range ps {
		e := &Agg{}
		for _, t := range f.mk(p, bs[i]) {
			e.E = append(e.E, t)
		}
		a.E = append(a.E, e)
	}
	return a
}
func (f *FDom) coordV(st *State, v Value, i int) fval { return f.get(st, leafTerms(v.(*Agg).E[i])) }

// bounds of the limbs of each kind of point
var edKind = map[string][]int{
	"ExtendedGroupElement":    {2, 1, 1, 1},
	"ProjectiveGroupElement":  {2, 1, 1},
	"CompletedGroupElement":   {3, 3, 3, 3},
	"CachedGroupElement":      {3, 3, 1, 1},
	"PreComputedGroupElement": {2, 2, 1},
}

func edLevels(c *Ctx, f *FDom, st *State, v Value, kind, name, fn string) {
	for i, b := range edKind[kind] {
		g := f.coordV(st, v, i)
		c.Ob(name+": limbs within the bound of the result", fn, g.b <= b, "levels", fmt.Sprintf("coordinate %d has level %d", i, g.b))
	}
}

type edPt struct{ x, y *LP }

func (f *FDom) edOn(n string) edPt {
	x, y := f.Atom("x"+n), f.Atom("y"+n)
	d := LC(edD)
	f.RuleLead(LMul(LMul(x, x), LMul(y, y)).leadMon().a, LSub(LAdd(LI(1), fMul(d, x, x, y, y)), LSub(LMul(y, y), LMul(x, x))))
	return edPt{x, y}
}
func (f *FDom) edExt(p edPt, z *LP) Value {
	return f.aggL([]*LP{LMul(p.x, z), LMul(p.y, z), z, fMul(p.x, p.y, z)}, edKind["ExtendedGroupElement"])
}

func init() {
	unit("g04", []string{edPkg, modPath + "/eddsa"}, 1, func(c *Ctx) {
		// completeness of the addition law: d is not a square, -1 is
		exp := func(a *big.Int) int { return big.Jacobi(new(big.Int).Mod(a, p25519), p25519) }
		c.Ob("the addition law is complete: d is not a square and -1 is", "edwards25519", exp(edD) == -1 && exp(big.NewInt(-1)) == 1, "evaluation", "")
		obj := func(ex *Exec, st *State, kind string, v Value) Ptr {
			T := c.typeOf(edShort, kind)
			if v == nil {
				v = ex.Zero(T)
			}
			return Ptr{Obj: ex.Alloc(st, kind, T, v)}
		}
		setup := func() (*Exec, *FDom) {
			ex := c.Exec()
			ex.NoMerge = true
			f := newEdField()
			edContracts(ex, f)
			ex.MustInit(c.P, edPkg)
			return ex, f
		}
		// completed r denotes (nx/dx, ny/dy)
		completed := func(f *FDom, st *State, name, fn string, v Value, nx, dx, ny, dy *LP) {
			X, Y, Z, W := f.coord(st, v, 0), f.coord(st, v, 1), f.coord(st, v, 2), f.coord(st, v, 3)
			c.fnz(f, name+": defined", fn, Z)
			c.fnz(f, name+": defined", fn, W)
			c.fz(f, name+": abscissa", fn, LSub(LMul(X, dx), LMul(nx, Z)))
			c.fz(f, name+": ordinate", fn, LSub(LMul(Y, dy), LMul(ny, W)))
			edLevels(c, f, st, v, "CompletedGroupElement", name, fn)
		}
		for _, k := range []struct {
			fn     string
			cached bool
			sgn    int64
		}{{"geAdd", true, 1}, {"geSub", true, -1}, {"geMixedAdd", false, 1}, {"geMixedSub", false, -1}} {
			k := k
			c.guard("group law", "edwards25519."+k.fn, func() {
				ex, f := setup()
				p, q := f.edOn("1"), f.edOn("2")
				z1, z2 := f.Unit(f.Atom("z1")), f.Unit(f.Atom("z2"))
				D := fMul(LC(edD), p.x, q.x, p.y, q.y)
				f.Unit(LAdd(LI(1), D))
				f.Unit(LSub(LI(1), D))
				st := ex.Base.clone()
				r := obj(ex, st, "CompletedGroupElement", nil)
				pp := obj(ex, st, "ExtendedGroupElement", f.edExt(p, z1))
				kind := "PreComputedGroupElement"
				if k.cached {
					kind = "CachedGroupElement"
				} else {
					z2 = LI(1)
				}
				xy := fMul(LC(edD), LI(2), q.x, q.y, z2)
				cs := []*LP{LMul(LAdd(q.y, q.x), z2), LMul(LSub(q.y, q.x), z2), z2, xy}
				if !k.cached {
					cs = []*LP{cs[0], cs[1], xy}
				}
				qv := obj(ex, st, kind, f.aggL(cs, edKind[kind]))
				sx := LScale(q.x, big.NewInt(k.sgn))
				D = LScale(D, big.NewInt(k.sgn))
				c.fcall(ex, k.fn, edShort, k.fn, []Value{r, pp, qv}, st, func(o Outcome) {
					completed(f, o.St, k.fn, "edwards25519."+k.fn, ex.Load(o.St, r),
						LAdd(LMul(p.x, q.y), LMul(p.y, sx)), LAdd(LI(1), D), LAdd(LMul(p.y, q.y), LMul(p.x, sx)), LSub(LI(1), D))
				})
			})
		}
		for _, kind := range []string{"ProjectiveGroupElement", "ExtendedGroupElement"} {
			kind := kind
			for _, m := range []string{"Double", "ToBytes", "Zero", "ToCached", "ToProjective"} {
				m := m
				if kind[0] == 'P' && m[:2] == "To" && m != "ToBytes" {
					continue
				}
				nm := "edwards25519." + kind + "." + m
				c.guard("group law", nm, func() {
					ex, f := setup()
					p := f.edOn("1")
					z := f.Unit(f.Atom("z1"))
					D := fMul(LC(edD), p.x, p.x, p.y, p.y)
					f.Unit(LAdd(LI(1), D))
					f.Unit(LSub(LI(1), D))
					st := ex.Base.clone()
					cs := []*LP{LMul(p.x, z), LMul(p.y, z), z, fMul(p.x, p.y, z)}
					pp := obj(ex, st, kind, f.aggL(cs[:len(edKind[kind])], edKind[kind]))
					fn := "*" + kind + "." + m
					same := func(o Outcome) {
						v := ex.Load(o.St, pp)
						for i := range edKind[kind] {
							c.fz(f, m+": operand unchanged", nm, LSub(f.coord(o.St, v, i), cs[i]))
						}
						edLevels(c, f, o.St, v, kind, m, nm)
					}
					switch m {
					case "Double":
						r := obj(ex, st, "CompletedGroupElement", nil)
						c.fcall(ex, m, edShort, fn, []Value{pp, r}, st, func(o Outcome) {
							completed(f, o.St, m, nm, ex.Load(o.St, r), fMul(LI(2), p.x, p.y), LAdd(LI(1), D), LAdd(LMul(p.y, p.y), LMul(p.x, p.x)), LSub(LI(1), D))
							same(o)
						})
					case "ToBytes":
						s := Ptr{Obj: ex.Alloc(st, "s", types.NewArray(types.Typ[types.Byte], 32), ex.Zero(types.NewArray(types.Typ[types.Byte], 32)))}
						c.fcall(ex, m, edShort, fn, []Value{pp, s}, st, func(o Outcome) {
							b := leafTerms(ex.Load(o.St, s))
							wx, wy := f.edWords(p.x), f.edWords(p.y)
							ok := true
							for i := range b {
								w := wy[i]
								if i == 31 {
									w = Concat(Extract(wx[0], 0, 1), Extract(wy[31], 0, 7))
								}
								ok = ok && ex.must(o.St, Eq(b[i], w))
							}
							c.Ob("canonical ordinate with the parity of the abscissa", nm, ok, "z3", "")
							same(o)
						})
					case "Zero":
						c.fcall(ex, m, edShort, fn, []Value{pp}, st, func(o Outcome) {
							v := ex.Load(o.St, pp)
							for i := range edKind[kind] {
								w := []int64{0, 1, 1, 0}[i]
								c.fz(f, m+": the neutral element", nm, LSub(f.coord(o.St, v, i), LI(w)))
							}
							edLevels(c, f, o.St, v, kind, m, nm)
						})
					case "ToCached":
						r := obj(ex, st, "CachedGroupElement", nil)
						c.fcall(ex, m, edShort, fn, []Value{pp, r}, st, func(o Outcome) {
							v := ex.Load(o.St, r)
							Z := f.coord(o.St, v, 2)
							c.fnz(f, m+": defined", nm, Z)
							for i, w := range []*LP{LAdd(p.y, p.x), LSub(p.y, p.x), LI(1), fMul(LC(edD), LI(2), p.x, p.y)} {
								c.fz(f, m+": same point", nm, LSub(f.coord(o.St, v, i), LMul(w, Z)))
							}
							edLevels(c, f, o.St, v, "CachedGroupElement", m, nm)
							same(o)
						})
					case "ToProjective":
						r := obj(ex, st, "ProjectiveGroupElement", nil)
						c.fcall(ex, m, edShort, fn, []Value{pp, r}, st, func(o Outcome) {
							v := ex.Load(o.St, r)
							Z := f.coord(o.St, v, 2)
							c.fnz(f, m+": defined", nm, Z)
							for i, w := range []*LP{p.x, p.y} {
								c.fz(f, m+": same point", nm, LSub(f.coord(o.St, v, i), LMul(w, Z)))
							}
							edLevels(c, f, o.St, v, "ProjectiveGroupElement", m, nm)
							same(o)
						})
					}
				})
			}
		}
		for _, m := range []string{"ToExtended", "ToProjective"} {
			m := m
			nm := "edwards25519.CompletedGroupElement." + m
			c.guard("same point", nm, func() {
				ex, f := setup()
				p := f.edOn("1")
				z, w := f.Unit(f.Atom("z")), f.Unit(f.Atom("w"))
				st := ex.Base.clone()
				pp := obj(ex, st, "CompletedGroupElement", f.aggL([]*LP{LMul(p.x, z), LMul(p.y, w), z, w}, edKind["CompletedGroupElement"]))
				kind := m[2:] + "GroupElement"
				r := obj(ex, st, kind, nil)
				c.fcall(ex, m, edShort, "*CompletedGroupElement."+m, []Value{pp, r}, st, func(o Outcome) {
					v := ex.Load(o.St, r)
					Z := f.coord(o.St, v, 2)
					c.fnz(f, m+": defined", nm, Z)
					c.fz(f, m+": abscissa", nm, LSub(f.coord(o.St, v, 0), LMul(p.x, Z)))
					c.fz(f, m+": ordinate", nm, LSub(f.coord(o.St, v, 1), LMul(p.y, Z)))
					if m == "ToExtended" {
						c.fz(f, m+": product", nm, LSub(f.coord(o.St, v, 3), fMul(p.x, p.y, Z)))
					}
					edLevels(c, f, o.St, v, kind, m, nm)
				})
			})
		}
		c.guard("neutral element", "edwards25519.PreComputedGroupElement.Zero", func() {
			ex, f := setup()
			st := ex.Base.clone()
			pp := obj(ex, st, "PreComputedGroupElement", nil)
			c.fcall(ex, "Zero", edShort, "*PreComputedGroupElement.Zero", []Value{pp}, st, func(o Outcome) {
				v := ex.Load(o.St, pp)
				for i, w := range []int64{1, 1, 0} {
					c.fz(f, "the neutral element", "edwards25519.PreComputedGroupElement.Zero", LSub(f.coord(o.St, v, i), LI(w)))
				}
			})
		})
		edDecompress(c, edShort, "*ExtendedGroupElement.FromBytes", false)
		edDecompress(c, "eddsa", "geFromBytesNegateVartime", true)
	})
}

// edDecompress proves that decompression returns the point with the encoded ordinate and parity, or fails when there is
// none. With u = y^2-1, v = d*y^2+1 (v is never zero), w = u*v^7 and q = w^((p-1)/4), a square root of u/v exists
// exactly when w is zero or q is 1 or -1; the four values of q and w = 0 are the cases. neg: the negated point is built.
func edDecompress(c *Ctx, pkg, fname string, neg bool) {
	fn := c.P.Fn(pkg, fname)
	if fn == nil {
		c.Ob("function under contract exists", pkg+"."+fname, false, "none", "missing")
		return
	}
	nm := shortFn(fn)
	i4 := new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(new(big.Int).Sub(p25519, big1), 2), p25519)
	m1 := big.NewInt(-1)
	bt := types.NewArray(types.Typ[types.Byte], 32)
	for _, k := range []struct {
		n    string
		q    *big.Int
		y    int64
		root bool
	}{{"square, first root", big1, 0, true}, {"square, other root", m1, 0, true}, {"non-square", i4, 0, false}, {"non-square, opposite", new(big.Int).Neg(i4), 0, false}, {"ordinate 1", nil, 1, true}, {"ordinate -1", nil, -1, true}} {
		k := k
		c.guard("decompression: "+k.n, nm, func() {
			ex := c.Exec()
			ex.NoMerge = true
			f := newEdField()
			edContracts(ex, f)
			sb := ex.symVal(bt, "s")
			b := leafTerms(sb)
			y := f.edOfBytes(b)
			if k.y != 0 {
				f.Rule(LSub(y, LI(k.y)))
			}
			u := LSub(LMul(y, y), LI(1))
			v := LAdd(LMul(LC(edD), LMul(y, y)), LI(1))
			f.Unit(v)
			if k.y == 0 {
				f.Unit(u)
			}
			pow := func(ex *Exec, st *State, cc *CallCtx) []Outcome {
				a := f.arg(ex, st, cc.Args[1])
				edNeeds(ex, "fePow22523", a, 3)
				p := f.red(a.p)
				if len(p.m) == 0 {
					f.put(ex, st, cc.Args[0], LI(0), 1)
					return ret(st)
				}
				// the case distinction is about the operand u*v^7 (up to fourth powers of v)
				ok := false
				for n := 3; n <= 11; n += 4 {
					ok = ok || len(f.red(LSub(p, LMul(u, fPow(v, n)))).m) == 0
				}
				if !ok {
					unsup("the power is not taken of u*v^7")
				}
				e := f.named("pow22523:" + p.key())
				r := LSub(fMul(e, e, p), LC(k.q))
				f.RuleLead(r.leadMon().a, r)
				f.put(ex, st, cc.Args[0], e, 1)
				return ret(st)
			}
			ex.Contracts[edPkg+".fePow22523"] = pow
			ex.Contracts[modPath+"/eddsa.fePow22523"] = pow
			ex.MustInit(c.P, modPath+"/"+pkg)
			st := ex.Base.clone()
			E := c.typeOf(edShort, "ExtendedGroupElement")
			pp := Ptr{Obj: ex.Alloc(st, "p", E, ex.Zero(E))}
			s := Ptr{Obj: ex.Alloc(st, "s", bt, sb)}
			acc := 0
			c.fcall(ex, k.n, pkg, fname, []Value{pp, s}, st, func(o Outcome) {
				for i, t := range leafTerms(ex.Load(o.St, s)) {
					c.Ob("argument unchanged", nm, t == b[i], "normal form", "")
				}
				r := T(o.Ret[0])
				if !c.Ob(k.n+": accepted exactly when a point has this ordinate", nm, r.IsTrue() == k.root && r.IsConst(), "normal form", Show(r, 3)) || !k.root {
					return
				}
				acc++
				pt := ex.Load(o.St, pp)
				X, Y, Z := f.coord(o.St, pt, 0), f.coord(o.St, pt, 1), f.coord(o.St, pt, 2)
				c.fz(f, k.n+": ordinate", nm, LSub(Y, y))
				c.fz(f, k.n+": unit denominator", nm, LSub(Z, LI(1)))
				c.fz(f, k.n+": on the curve", nm, LSub(fMul(X, X, v), u))
				c.fz(f, k.n+": product", nm, LSub(f.coord(o.St, pt, 3), LMul(X, Y)))
				edLevels(c, f, o.St, pt, "ExtendedGroupElement", k.n, nm)
				sx := X
				if neg {
					sx = LScale(X, m1)
				}
				sx = f.red(sx)
				if len(sx.m) > 0 {
					bit := Extract(b[31], 7, 1)
					par := func(p *LP) *Term { return Extract(f.edWords(p)[0], 0, 1) }
					// the parities of x and -x differ for x != 0
					same := ex.must(o.St, Eq(par(sx), bit)) || ex.must(o.St, Not(Eq(par(LScale(sx, m1)), bit)))
					c.Ob(k.n+": parity of the abscissa", nm, same, "z3", "")
				}
			})
			if k.root {
				c.Ob(k.n+": some path", nm, acc > 0, "vc", "")
			}
		})
	}
}

// ---- ghost points: the value of a point is an integer combination of base points ----

type edGrp struct {
	E, P, C, K, M *FDom
	B             *LP // the base point
	tab           map[string]*big.Int
}

var p521 = new(big.Int).Sub(p2(521), big1)

func newEdGrp() *edGrp {
	g := &edGrp{E: NewFDom("gE", p521, 32, 40), P: NewFDom("gP", p521, 32, 30), C: NewFDom("gC", p521, 32, 40), K: NewFDom("gK", p521, 32, 40), M: NewFDom("gM", p521, 32, 30)}
	for _, f := range []*FDom{g.P, g.C, g.K, g.M} {
		f.d, f.bools, f.boolT = g.E.d, g.E.bools, g.E.boolT
	}
	g.B = g.E.named("B")
	// known multiples of the base point, as affine coordinates
	g.tab = map[string]*big.Int{}
	mul := edBaseMultiples()
	for k, v := range mul {
		g.tab[v] = k
	}
	neutral := func(n int) func(ts []uint64) (*LP, bool) {
		return func(ts []uint64) (*LP, bool) {
			for i, t := range ts {
				w := uint64(0)
				if i == 10 || i == 20 {
					w = 1
				}
				if t != w {
					return nil, false
				}
			}
			return LI(0), true
		}
	}
	g.E.dec, g.P.dec = neutral(4), neutral(3)
	g.M.dec = func(ts []uint64) (*LP, bool) {
		k := g.decPre(ts)
		if k == nil {
			return nil, false
		}
		return LMul(LC(k), g.B), true
	}
	return g
}

// decPre recognises (y+x, y-x, 2dxy) of a known multiple of the base point.
func (g *edGrp) decPre(ts []uint64) *big.Int {
	v := func(i int) *big.Int { p, _ := edDec(ts[10*i : 10*i+10]); x, _ := p.isConst(); return x }
	for i := 0; i < 3; i++ {
		if edLevel(ts[10*i:10*i+10]) > edKind["PreComputedGroupElement"][i] {
			return nil
		}
	}
	p := p25519
	half := new(big.Int).ModInverse(big.NewInt(2), p)
	y := new(big.Int).Mul(new(big.Int).Add(v(0), v(1)), half)
	y.Mod(y, p)
	x := new(big.Int).Mul(new(big.Int).Sub(v(0), v(1)), half)
	x.Mod(x, p)
	t := new(big.Int).Mul(big.NewInt(2), edD)
	t.Mul(t, x).Mul(t, y).Sub(t, v(2))
	if t.Mod(t, p).Sign() != 0 {
		return nil
	}
	return g.tab[x.String()+","+y.String()]
}

func edAddAff(a, b [2]*big.Int) [2]*big.Int {
	p := p25519
	m := func(x ...*big.Int) *big.Int {
		r := big.NewInt(1)
		for _, y := range x {
			r.Mul(r, y).Mod(r, p)
		}
		return r
	}
	t := m(edD, a[0], b[0], a[1], b[1])
	ix := new(big.Int).ModInverse(new(big.Int).Mod(new(big.Int).Add(big1, t), p), p)
	iy := new(big.Int).ModInverse(new(big.Int).Mod(new(big.Int).Sub(big1, t), p), p)
	x := new(big.Int).Add(m(a[0], b[1]), m(a[1], b[0]))
	y := new(big.Int).Add(m(a[1], b[1]), m(a[0], b[0]))
	return [2]*big.Int{m(x, ix), m(y, iy)}
}

func edBasePoint() [2]*big.Int {
	y := new(big.Int).Mul(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), p25519))
	y.Mod(y, p25519)
	yy := new(big.Int).Mul(y, y)
	v := new(big.Int).Add(new(big.Int).Mul(edD, yy), big1)
	x := new(big.Int).Mul(new(big.Int).Sub(yy, big1), new(big.Int).ModInverse(v.Mod(v, p25519), p25519))
	x.ModSqrt(x.Mod(x, p25519), p25519)
	if x.Bit(0) == 1 {
		x.Sub(p25519, x)
	}
	return [2]*big.Int{x, y}
}

// edBaseMultiples lists k*B for the k the tables hold, both signs, and the neutral element.
func edBaseMultiples() map[*big.Int]string {
	r := map[*big.Int]string{}
	put := func(k *big.Int, P [2]*big.Int) {
		r[k] = P[0].String() + "," + P[1].String()
		if k.Sign() != 0 {
			n := new(big.Int).Sub(p25519, P[0])
			r[new(big.Int).Neg(k)] = n.String() + "," + P[1].String()
		}
	}
	put(new(big.Int), [2]*big.Int{new(big.Int), big.NewInt(1)})
	B := edBasePoint()
	P := B
	k := big.NewInt(1)
	for i := 0; i < 32; i++ {
		Q := P
		for j := int64(1); j <= 15; j++ {
			if j <= 8 || i == 0 && j%2 == 1 {
				put(new(big.Int).Mul(k, big.NewInt(j)), Q)
			}
			Q = edAddAff(Q, P)
		}
		for j := 0; j < 8; j++ {
			P = edAddAff(P, P)
		}
		k = new(big.Int).Mul(k, big.NewInt(256))
	}
	return r
}

func edMeth(kind, m string) string { return "(*" + edPkg + "." + kind + ")." + m }

// install replaces the point formulas by their contracts.
func (g *edGrp) install(ex *Exec) {
	bin := func(n string, q *FDom, s int64) {
		ex.Contracts[edPkg+"."+n] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
			a, b := g.E.arg(ex, st, c.Args[1]), q.arg(ex, st, c.Args[2])
			g.C.put(ex, st, c.Args[0], LAdd(a.p, LScale(b.p, big.NewInt(s))), 0)
			return ret(st)
		}
	}
	bin("geAdd", g.K, 1)
	bin("geSub", g.K, -1)
	bin("geMixedAdd", g.M, 1)
	bin("geMixedSub", g.M, -1)
	un := func(kind, m string, src, dst *FDom, k int64) {
		ex.Contracts[edMeth(kind, m)] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
			a := src.arg(ex, st, c.Args[0])
			dst.put(ex, st, c.Args[1], LScale(a.p, big.NewInt(k)), 0)
			return ret(st)
		}
	}
	un("ProjectiveGroupElement", "Double", g.P, g.C, 2)
	un("ExtendedGroupElement", "Double", g.E, g.C, 2)
	un("ExtendedGroupElement", "ToCached", g.E, g.K, 1)
	un("ExtendedGroupElement", "ToProjective", g.E, g.P, 1)
	un("CompletedGroupElement", "ToExtended", g.C, g.E, 1)
	un("CompletedGroupElement", "ToProjective", g.C, g.P, 1)
	zero := func(kind string, f *FDom) {
		ex.Contracts[edMeth(kind, "Zero")] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
			f.put(ex, st, c.Args[0], LI(0), 0)
			return ret(st)
		}
	}
	zero("ProjectiveGroupElement", g.P)
	zero("ExtendedGroupElement", g.E)
	zero("PreComputedGroupElement", g.M)
}

// digit is the ghost integer of a machine term.
func (g *edGrp) digit(t *Term) *LP {
	if t.IsConst() {
		return LI(signed64(t))
	}
	return g.E.named(fmt.Sprintf("digit:%d", t.ID))
}

func init() {
	unit("g04m", []string{edPkg}, 7, func(c *Ctx) {
		switch c.Shard {
		case 0:
			edTables(c)
			edBaseMult(c)
		case 1, 2:
			edSlide(c, 2)
		case 3, 4:
			edDouble(c, "GeDoubleScalarMultVartime", false)
		case 5, 6:
			edDouble(c, "GePointAddVarTime", true)
		}
	})
}

func edTables(c *Ctx) {
	c.guard("precomputed tables", "edwards25519", func() {
		ex := c.Exec()
		ex.MustInit(c.P, edPkg)
		g := newEdGrp()
		tab := func(n string) *Agg {
			v := c.P.Pkgs[edPkg].Var(n)
			if v == nil {
				unsup("no table %s", n)
			}
			return ex.Load(ex.Base, Ptr{Obj: ex.globalObj(v, ex.Base)}).(*Agg)
		}
		entry := func(v Value) *big.Int {
			var cs []uint64
			for _, t := range leafTerms(v) {
				if !t.IsConst() {
					unsup("table entry is not constant")
				}
				cs = append(cs, t.C)
			}
			return g.decPre(cs)
		}
		for i, row := range tab("base").E {
			for j, e := range row.(*Agg).E {
				k := entry(e)
				w := new(big.Int).Mul(big.NewInt(int64(j+1)), p2(8*i))
				c.Ob(fmt.Sprintf("base[%d][%d] is that multiple of the base point", i, j), "edwards25519.base", k != nil && k.Cmp(w) == 0, "evaluation", "")
			}
		}
		for i, e := range tab("bi").E {
			k := entry(e)
			c.Ob(fmt.Sprintf("bi[%d] is that multiple of the base point", i), "edwards25519.bi", k != nil && k.Cmp(big.NewInt(int64(2*i+1))) == 0, "evaluation", "")
		}
	})
	c.guard("constant-time lookup", "edwards25519.selectPoint", func() {
		ex := c.Exec()
		ex.MustInit(c.P, edPkg)
		g := newEdGrp()
		T := c.typeOf(edShort, "PreComputedGroupElement")
		for pos := int64(0); pos < 32; pos++ {
			for b := int64(-8); b <= 8; b++ {
				st := ex.Base.clone()
				t := Ptr{Obj: ex.Alloc(st, "t", T, ex.Zero(T))}
				c.fcall(ex, "selectPoint", edShort, "selectPoint", []Value{t, Const(32, uint64(pos)), Const(32, uint64(uint32(int32(b))))}, st, func(o Outcome) {
					v := g.M.arg(ex, o.St, t).p
					c.fz(g.M, fmt.Sprintf("entry of position %d digit %d", pos, b), "edwards25519.selectPoint", LSub(v, LMul(LC(new(big.Int).Mul(big.NewInt(b), p2(int(8*pos)))), g.B)))
				})
			}
		}
	})
}

func edBaseMult(c *Ctx) {
	nm := "edwards25519.GeScalarMultBase"
	c.guard("exact multiple", nm, func() {
		ex := c.Exec()
		ex.MustInit(c.P, edPkg)
		g := newEdGrp()
		g.install(ex)
		var digits []*Term
		at := map[*Term]*LP{}
		ex.Contracts[edPkg+".selectPoint"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
			pos, b := T(cc.Args[1]), T(cc.Args[2])
			if !pos.IsConst() || pos.C > 31 {
				unsup("selectPoint: position")
			}
			digits = append(digits, b)
			at[b] = g.digit(b)
			g.M.put(ex, st, cc.Args[0], LMul(LScale(at[b], p2(int(8*pos.C))), g.B), 0)
			return ret(st)
		}
		T1 := c.typeOf(edShort, "ExtendedGroupElement")
		bt := types.NewArray(types.Typ[types.Byte], 32)
		st := ex.Base.clone()
		h := Ptr{Obj: ex.Alloc(st, "h", T1, ex.Zero(T1))}
		av := ex.symVal(bt, "a")
		a := Ptr{Obj: ex.Alloc(st, "a", bt, av)}
		ab := leafTerms(av)
		st.assume(Ult(ab[31], Const(8, 128)))
		c.fcall(ex, "all scalars below 2^255", edShort, "GeScalarMultBase", []Value{h, a}, st, func(o Outcome) {
			got := g.E.arg(ex, o.St, h).p
			d := NewLDom()
			A := LI(0)
			for i, t := range ab {
				m := int64(255)
				if i == 31 {
					m = 127
				}
				A.addMul(d.Bind(t, fmt.Sprintf("a%d", i), new(big.Int), big.NewInt(m)), p2(8*i))
			}
			d.Cases(func() {
				// replace the ghost digits by their integers
				sum := LI(0)
				red := g.E.red(got)
				for _, k := range red.keys() {
					m := red.m[k]
					var dg *Term
					for t, p := range at {
						for _, x := range m.a {
							if len(p.m) == 1 && p.leadMon() != nil && len(p.leadMon().a) == 1 && p.leadMon().a[0] == x {
								dg = t
							}
						}
					}
					if len(m.a) != 2 || dg == nil {
						unsup("unexpected combination %s", g.E.show(got))
					}
					sum.addMul(d.signedOf(dg), m.c)
				}
				c.Ob("the digits sum to the scalar", nm, len(d.unify(LSub(sum, A)).m) == 0, "polynomial identity", "residue "+d.show(LSub(sum, A)))
				for _, t := range digits {
					lo, hi := d.rng(d.signedOf(t))
					c.Ob("digit within the table", nm, lo.CmpAbs(big.NewInt(8)) <= 0 && hi.CmpAbs(big.NewInt(8)) <= 0, "interval arithmetic", fmt.Sprintf("[%s, %s]", lo, hi))
				}
			})
			for i, t := range leafTerms(ex.Load(o.St, a)) {
				c.Ob("argument unchanged", nm, t == ab[i], "normal form", "")
			}
		})
	})
}

// edSlide proves that the signed recoding keeps the value: at the head of iteration i the entries from i on are bits of
// a number at most 2^(255-i), and the iteration turns entry i into zero or an odd digit of absolute value at most 15
// without changing the sum.
func edSlide(c *Ctx, shards int) {
	nm := "edwards25519.slide"
	c.guard("recoding", nm, func() {
		ex := c.Exec()
		ex.MustInit(c.P, edPkg)
		fn := c.P.Fn(edShort, "slide")
		rt, bt := types.NewArray(types.Typ[types.Int8], 256), types.NewArray(types.Typ[types.Byte], 32)
		st := ex.Base.clone()
		r := Ptr{Obj: ex.Alloc(st, "r", rt, ex.symVal(rt, "r0"))}
		av := ex.symVal(bt, "a")
		a := Ptr{Obj: ex.Alloc(st, "a", bt, av)}
		ab := leafTerms(av)
		st.assume(Ult(ab[31], Const(8, 128)))
		var bits, below []*Term
		bad := 0
		ob := func(name string, ok bool, det string) bool {
			if !ok {
				bad++
			}
			return c.Ob(name, nm, ok, "z3", det)
		}
		// check relates the array after iteration i to the bits at its head
		check := func(st *State, now []*Term, i int) string {
			for j := 0; j < i; j++ {
				if now[j] != below[j] {
					return fmt.Sprintf("digit %d changes", j)
				}
			}
			known := func(t *Term) *Term {
				if b := Extract(t, 0, 1); !t.IsConst() && t == Zext(b, 8) && st.decide(b) >= 0 {
					return Const(8, uint64(st.decide(b)))
				}
				return t
			}
			diff := new(big.Int) // sum before minus sum after
			ones := 0
			for j := i; j < 256; j++ {
				x, y := known(bits[j]), known(now[j])
				if x == y && j > i {
					if y.IsConst() && y.C == 1 {
						ones++
					} else if !y.IsConst() {
						ones = 1000
					}
					continue
				}
				if !x.IsConst() || !y.IsConst() {
					return fmt.Sprintf("entry %d becomes %s", j, Show(y, 3))
				}
				v := signed64(y)
				if j > i && v != 0 && v != 1 {
					return fmt.Sprintf("entry %d becomes %d", j, v)
				}
				if j == i && v != 0 && (v&1 == 0 || v > 15 || v < -15) {
					return fmt.Sprintf("digit %d", v)
				}
				if j > i && v == 1 {
					ones++
				}
				diff.Add(diff, new(big.Int).Mul(big.NewInt(int64(x.C)-v), p2(j)))
			}
			if diff.Sign() != 0 {
				return "the sum changes by " + diff.String()
			}
			if i < 255 {
				if t := known(now[255]); !t.IsConst() || t.C == 1 && ones != 1 {
					return "the sum exceeds its bound"
				}
			}
			return ""
		}
		// the loop that recodes is the last outermost one
		fi := ex.info(fn)
		var main *loopInfo
		for _, L := range fi.loops {
			if L.parent == nil && (main == nil || L.header.Index > main.header.Index) {
				main = L
			}
		}
		if main == nil {
			unsup("no loop")
		}
		ex.NoFeas, ex.NoMerge = true, true
		var iphi []*ssa.Phi
		for _, in := range main.header.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				iphi = append(iphi, p)
			}
		}
		if len(iphi) != 1 {
			unsup("the recoding loop has %d variables", len(iphi))
		}
		started := false
		var last []*Term
		ex.AtHeader = func(fr *frame, e *entry) []*entry {
			if fr.fn != fn || fr.fi.loops[e.blk] != main || fr.stop != nil {
				return nil
			}
			if started {
				unsup("the recoding loop is entered twice")
			}
			started = true
			now := leafTerms(ex.Load(e.st, r))
			for j := range now {
				if !ex.must(e.st, Eq(now[j], Zext(Extract(ab[j/8], j%8, 1), 8))) {
					ob("starts from the bits of the scalar", false, fmt.Sprint(j))
				}
			}
			ob("starts below 2^255", ex.must(e.st, Eq(now[255], Const(8, 0))), "")
			first := fr.get(e, iphi[0]).(*Term)
			// arbitrary digits below i, the next seven bits and the topmost one given, arbitrary bits between
			head := func(i, low int, top uint64) *entry {
				g := e.fork()
				g.st.resetPC()
				g.env[fr.fi.idx[iphi[0]]] = Add(first, Const(first.W, uint64(i)))
				n := &Agg{}
				bits, below = nil, nil
				for j := 0; j < 256; j++ {
					var t *Term
					switch {
					case j < i:
						t = Var(8, fmt.Sprintf("digit%d", j))
					case j == 255:
						t = Const(8, top)
					case j < i+7:
						t = Const(8, uint64(low>>(j-i)&1))
					case top == 1:
						t = Const(8, 0)
					default:
						t = Zext(Var(1, fmt.Sprintf("bit%d", j)), 8)
					}
					bits = append(bits, t)
					below = append(below, t)
					n.E = append(n.E, t)
				}
				ex.Store(g.st, r, n)
				return g
			}
			for i := c.Shard % shards; i < 256 && bad < 4; i += shards {
				paths, det := 0, ""
				for low := 0; low < 128 && det == ""; low++ {
					for top := uint64(0); top < 2; top++ {
						if i+7 > 255 && low>>(255-i) != 0 || top == 1 && low != 0 {
							continue
						}
						sub := &frame{ex: ex, fn: fn, fi: fr.fi, path: fr.path, args: fr.args, stop: main}
						sub.push(head(i, low, top))
						for len(sub.work) > 0 {
							x := sub.work[len(sub.work)-1]
							sub.work = sub.work[:len(sub.work)-1]
							sub.block(x)
						}
						if len(sub.arrivals) == 0 || sub.exits != 0 || len(sub.outs) != 0 {
							det = fmt.Sprintf("%d arrivals, %d exits, %d returns", len(sub.arrivals), sub.exits, len(sub.outs))
						}
						for _, x := range sub.arrivals {
							paths++
							if fr.get(x, iphi[0]).(*Term) != Add(first, Const(first.W, uint64(i+1))) {
								det = "not the next position"
							}
							if d := check(x.st, leafTerms(ex.Load(x.st, r)), i); d != "" {
								det = fmt.Sprintf("low bits %b, top %d: %s", low, top, d)
							}
						}
					}
				}
				ob(fmt.Sprintf("iteration %d: a digit of the table, bits above, and the same sum", i), det == "" && paths > 0, det)
			}
			g := head(256, 0, 0)
			last = below
			return []*entry{g}
		}
		n := 0
		for _, o := range ex.Call(fn, []Value{r, a}, st, "f", 0) {
			if o.Panic != "" {
				c.Ob("no panic", nm, false, "vc", o.Panic+" at "+o.Pos)
				continue
			}
			n++
			for i, t := range leafTerms(ex.Load(o.St, a)) {
				c.Ob("argument unchanged", nm, t == ab[i], "normal form", "")
			}
			for i, t := range leafTerms(ex.Load(o.St, r)) {
				c.Ob("the digits are final", nm, last != nil && t == last[i], "normal form", "")
			}
		}
		c.Ob("the loop is reached and left", nm, started && n > 0, "vc", "")
	})
}

// edDouble proves the double-scalar multiplications over the digits slide returns: at the head of iteration i of the
// main loop the accumulator is R_i with R_255 = 0 and R_(i-1) = 2*R_i + a_i*A + b_i*B, every digit pair being tried.
func edDouble(c *Ctx, fname string, second bool) {
	nm := "edwards25519." + fname
	c.guard("exact combination", nm, func() {
		ex := c.Exec()
		ex.MustInit(c.P, edPkg)
		fn := c.P.Fn(edShort, fname)
		if fn == nil {
			unsup("missing")
		}
		g := newEdGrp()
		g.install(ex)
		PT, ET := c.typeOf(edShort, "ProjectiveGroupElement"), c.typeOf(edShort, "ExtendedGroupElement")
		bt := types.NewArray(types.Typ[types.Byte], 32)
		st := ex.Base.clone()
		r := Ptr{Obj: ex.Alloc(st, "r", PT, ex.Zero(PT))}
		sc := func(n string) (Ptr, []*Term) {
			v := ex.symVal(bt, n)
			ts := leafTerms(v)
			st.assume(Ult(ts[31], Const(8, 128)))
			return Ptr{Obj: ex.Alloc(st, n, bt, v)}, ts
		}
		pt := func(n string) (Ptr, *LP) {
			p := g.E.named(n)
			q := g.E.mk(p, 0)
			return Ptr{Obj: ex.Alloc(st, n, ET, unflatten(ex.Zero(ET), &q))}, p
		}
		a, _ := sc("a")
		A, vA := pt("A")
		b, _ := sc("b")
		args := []Value{r, a, A, b}
		vB := g.B
		if second {
			var BB Ptr
			BB, vB = pt("BB")
			args = append(args, BB)
		}
		var arr [2]Ptr
		dig := [2][]*Term{}
		for s := 0; s < 2; s++ {
			for j := 0; j < 256; j++ {
				dig[s] = append(dig[s], Var(8, fmt.Sprintf("%c%d", "ab"[s], j)))
			}
		}
		ex.Contracts[edPkg+".slide"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
			p := cc.Args[1].(Ptr)
			s := 0
			if p.Obj == b.Obj {
				s = 1
			} else if p.Obj != a.Obj {
				unsup("slide of something else")
			}
			arr[s] = cc.Args[0].(Ptr)
			v := &Agg{}
			for _, t := range dig[s] {
				v.E = append(v.E, t)
			}
			ex.Store(st, arr[s], v)
			return ret(st)
		}
		fi := ex.info(fn)
		var main *loopInfo
		for _, L := range fi.loops {
			if L.parent == nil && (main == nil || L.header.Index > main.header.Index) {
				main = L
			}
		}
		if main == nil {
			unsup("no loop")
		}
		var iphi []*ssa.Phi
		for _, in := range main.header.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				if bt, ok := p.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
					iphi = append(iphi, p)
				}
			}
		}
		if len(iphi) != 1 {
			unsup("the main loop has %d integer variables", len(iphi))
		}
		R := func(i int) *LP {
			if i == 255 {
				return LI(0)
			}
			return g.E.named(fmt.Sprintf("R%d", i))
		}
		seen := map[int]bool{}
		bad := 0
		pos := func(fr *frame, e *entry) int {
			it := fr.get(e, iphi[0]).(*Term)
			if !it.IsConst() {
				unsup("symbolic position")
			}
			return int(signed64(it))
		}
		ex.NoFeas, ex.NoMerge = true, true
		ex.AtHeader = func(fr *frame, e *entry) []*entry {
			if fr.fn != fn || fr.fi.loops[e.blk] != main || fr.stop != nil {
				return nil
			}
			i := pos(fr, e)
			// arrival from above: all higher digits are zero and the accumulator is neutral
			ok := i >= -1 && i <= 255 && len(g.E.red(g.P.arg(ex, e.st, r).p).m) == 0
			for j := 255; j > i && ok; j-- {
				for s := 0; s < 2; s++ {
					ok = ok && e.st.decide(Eq(dig[s][j], Const(8, 0))) == 1
				}
			}
			c.Ob("the loop starts at the neutral element above the highest digit", nm, ok, "path condition", fmt.Sprintf("position %d", i))
			if !ok {
				bad++
			}
			if seen[i] || bad > 4 {
				return []*entry{}
			}
			seen[i] = true
			if i < 0 {
				g2 := e.fork()
				g2.st.resetPC()
				putLimbs(ex, g2.st, r, g.P.mk(R(i), 0))
				return []*entry{g2}
			}
			for av := -15; av <= 15 && i%2 == c.Shard%2; av++ {
				for bv := -15; bv <= 15; bv++ {
					if av != 0 && av%2 == 0 || bv != 0 && bv%2 == 0 {
						continue
					}
					g2 := e.fork()
					g2.st.resetPC()
					putLimbs(ex, g2.st, r, g.P.mk(R(i), 0))
					for s, v := range []int{av, bv} {
						n := &Agg{}
						for j, t := range dig[s] {
							if j == i {
								t = Const(8, uint64(uint8(int8(v))))
							}
							n.E = append(n.E, t)
						}
						ex.Store(g2.st, arr[s], n)
					}
					sub := &frame{ex: ex, fn: fn, fi: fr.fi, path: fr.path, args: fr.args, stop: main}
					sub.push(g2)
					for len(sub.work) > 0 {
						x := sub.work[0]
						sub.work = sub.work[1:]
						sub.block(x)
					}
					ok := len(sub.arrivals) == 1 && sub.exits == 0 && len(sub.outs) == 0
					det := "leaves the loop"
					if ok {
						a := sub.arrivals[0]
						want := fSum(LScale(R(i), big.NewInt(2)), LScale(vA, big.NewInt(int64(av))), LScale(vB, big.NewInt(int64(bv))))
						got := g.P.arg(ex, a.st, r).p
						ok = pos(sub, a) == i-1 && len(g.E.red(LSub(got, want)).m) == 0
						det = g.E.show(got)
					}
					if !ok {
						bad++
						c.Ob("one position", nm, false, "polynomial identity", fmt.Sprintf("position %d digits %d, %d: %s", i, av, bv, det))
						if bad > 4 {
							return []*entry{}
						}
					}
				}
			}
			return []*entry{}
		}
		n := 0
		for _, o := range ex.Call(fn, args, st, "f", 0) {
			if o.Panic != "" {
				c.Ob("no panic", nm, false, "vc", o.Panic+" at "+o.Pos)
				continue
			}
			n++
			c.fz(g.P, "the result is the accumulator after the last position", nm, LSub(g.P.arg(ex, o.St, r).p, R(-1)))
		}
		c.Ob("one position: doubled and the digits added, for every pair of digits", nm, bad == 0 && len(seen) == 257 && n > 0, "polynomial identity", fmt.Sprint(len(seen), " positions"))
	})
}

func init() {
	ed := []string{"eddsa/edwards25519", "eddsa"}
	prop(&Prop{ID: "F02", Units: []string{"f02"}, Replay: ed, Always: "the limb functions are compared with math/big on edge and random limb vectors"})
	prop(&Prop{ID: "F03", Units: []string{"f03"}, Replay: ed, Always: "scalar reduction is compared with math/big on edge and random strings"})
	prop(&Prop{ID: "G04", Units: []string{"g04", "g04m", "g04api"}, Replay: []string{".", "eddsa/edwards25519"}, Always: "point operations are compared with an affine math/big reference on edge and random points and scalars"})
	prop(&Prop{ID: "D01", Units: []string{"d01", "d01api"}, Replay: []string{"."}, Always: "signing and verification of all four schemes are compared with a math/big reference (the only check of the Curve25519-SHA256 arithmetic)"})
	prop(&Prop{ID: "D02", Units: []string{"d02"}, Replay: []string{"eddsa"}, Always: "both conversions are compared with math/big on edge and random inputs"})
	prop(&Prop{ID: "K01", Units: []string{"k01ecc", "k01ed"}, Replay: []string{"."}, Always: "public keys of every curve are compared with a math/big reference (the only check of the Curve25519-SHA256 derivation)"})
}
