package main

import (
	"fmt"
	"math/big"
)

// pastaDoms installs the contracts of the Pasta base and scalar fields (proved by unit f01).
type pastaDoms struct {
	ex     *Exec
	fp, fq *FDom
}

func newPasta(ex *Exec) *pastaDoms {
	p := &pastaDoms{ex, NewFDom("fp", pallasP, 64, 4), NewFDom("fq", pallasQ, 64, 4)}
	p.fp.dec = montDec(pallasP, 64, 4)
	p.fq.dec = montDec(pallasQ, 64, 4)
	montContracts(ex, modPath+"/pasta.FiatPastaFp", p.fp)
	montContracts(ex, modPath+"/pasta.FiatPastaFq", p.fq)
	return p
}

// words returns the words of the canonical integer of a field value.
func (f *FDom) words(p *LP) []*Term {
	p = f.red(p)
	if v, ok := p.isConst(); ok {
		r := make([]*Term, f.n)
		for i := range r {
			r[i] = Const(f.w, new(big.Int).Mod(new(big.Int).Rsh(v, uint(i*f.w)), p2(f.w)).Uint64())
		}
		return r
	}
	i := f.id(p, 0)
	r := make([]*Term, f.n)
	for j := range r {
		r[j] = UF(f.w, "wi."+f.name, Const(32, uint64(i)), Const(8, uint64(j)))
	}
	return r
}

// ofWords is the field value of an integer given in words.
func (f *FDom) ofWords(ts []*Term) *LP {
	same := true
	allc := true
	v := new(big.Int)
	for j, t := range ts {
		if !(t.Op == OUF && t.Name == "wi."+f.name && t.Args[0] == ts[0].Args[0] && t.Args[1].C == uint64(j)) {
			same = false
		}
		if t.IsConst() {
			v.Add(v, new(big.Int).Lsh(new(big.Int).SetUint64(t.C), uint(j*f.w)))
		} else {
			allc = false
		}
	}
	if same {
		return f.vals[ts[0].Args[0].C].p
	}
	if allc {
		return LC(v.Mod(v, f.P))
	}
	k := "int"
	for _, t := range ts {
		k += fmt.Sprintf(":%d", t.ID)
	}
	return f.named(k)
}

// named interns a ghost atom.
func (f *FDom) named(k string) *LP {
	a := f.d.byKey[k]
	if a == nil {
		a = f.d.atom(k, nil, nil)
		f.d.byKey[k] = a
	}
	return f.d.poly(a)
}

// Inv is the inverse of p (zero when p is zero).
func (f *FDom) Inv(st *State, p *LP) *LP {
	p = f.red(p)
	if v, ok := p.isConst(); ok {
		if v.Sign() == 0 {
			return LI(0)
		}
		return LC(new(big.Int).ModInverse(v, f.P))
	}
	// inverse of a product is the product of inverses; only irreducible leftovers get an atom
	k := "inv:" + p.key()
	if a := f.d.byKey[k]; a != nil {
		return f.d.poly(a)
	}
	for _, q := range f.invs { // the inverse of an inverse
		if len(p.m) == 1 && lkey(p.leadMon().a) == lkey(q[1].leadMon().a) {
			return f.red(LScale(q[0], new(big.Int).ModInverse(p.leadMon().c, f.P)))
		}
	}
	nonzero := false
	if _, c := f.strip(p).isConst(); c {
		nonzero = true
	} else if st != nil {
		nonzero = st.decide(f.Zero(p)) == 0
	}
	if !nonzero {
		return f.named("inv0:" + p.key())
	}
	r := f.named(k)
	f.units = append(f.units, r)
	f.invs = append(f.invs, [2]*LP{p, r})
	l := LMul(p, r).leadMon()
	f.RuleLead(l.a, LSub(LMul(p, r), LI(1)))
	return r
}

func montContracts(ex *Exec, pre string, f *FDom) {
	f.op(ex, pre+"Add", 0, []int{1, 2}, func(a []*LP) *LP { return LAdd(a[0], a[1]) })
	f.op(ex, pre+"Sub", 0, []int{1, 2}, func(a []*LP) *LP { return LSub(a[0], a[1]) })
	f.op(ex, pre+"Opp", 0, []int{1}, func(a []*LP) *LP { return LScale(a[0], big.NewInt(-1)) })
	f.op(ex, pre+"Mul", 0, []int{1, 2}, func(a []*LP) *LP { return LMul(a[0], a[1]) })
	f.op(ex, pre+"Square", 0, []int{1}, func(a []*LP) *LP { return LMul(a[0], a[0]) })
	eq := func(ex *Exec, st *State, p *LP) *Term { return f.Zero(p) }
	ex.Contracts[pre+"Equals"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		return ret(st, eq(ex, st, LSub(f.arg(ex, st, c.Args[0]).p, f.arg(ex, st, c.Args[1]).p)))
	}
	ex.Contracts[pre+"EqualsZero"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		return ret(st, eq(ex, st, f.arg(ex, st, c.Args[0]).p))
	}
	ex.Contracts[pre+"EqualsOne"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		return ret(st, eq(ex, st, LSub(f.arg(ex, st, c.Args[0]).p, LI(1))))
	}
	ex.Contracts[pre+"NonZero"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		z := eq(ex, st, f.arg(ex, st, c.Args[1]).p)
		ex.Store(st, c.Args[0].(Ptr), Ite(z, Const(64, 0), Const(64, 1)))
		return ret(st)
	}
	ex.Contracts[pre+"FromMontgomery"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		putLimbs(ex, st, c.Args[0], f.words(f.arg(ex, st, c.Args[1]).p))
		return ret(st)
	}
	ex.Contracts[pre+"ToMontgomery"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		f.put(ex, st, c.Args[0], f.ofWords(leafTerms(c.Args[1])), 0)
		return ret(st)
	}
	ex.Contracts[pre+"Inv"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		f.put(ex, st, c.Args[0], f.Inv(st, f.arg(ex, st, c.Args[1]).p), 0)
		return ret(st)
	}
}

// value builds an Agg of field elements: n elements, each with limbs of the given values.
func (f *FDom) agg(ps ...*LP) Value {
	a := &Agg{}
	for _, p := range ps {
		e := &Agg{}
		for _, t := range f.mk(p, 0) {
			e.E = append(e.E, t)
		}
		a.E = append(a.E, e)
	}
	return a
}

// coord reads element i of a struct of elements.
func (f *FDom) coord(st *State, v Value, i int) *LP { return f.get(st, leafTerms(v.(*Agg).E[i])).p }

func (c *Ctx) fz(f *FDom, name, fn string, p *LP) bool {
	p = f.red(p)
	return c.Ob(name, fn, len(p.m) == 0, "polynomial identity", "residue "+f.show(p))
}
func (c *Ctx) fnz(f *FDom, name, fn string, p *LP) bool {
	q := f.strip(f.red(p))
	v, k := q.isConst()
	return c.Ob(name, fn, k && v.Sign() != 0, "polynomial identity", "not shown nonzero: "+f.show(q))
}

func init() {
	unit("g03", []string{modPath + "/pasta"}, 2, func(c *Ctx) {
		pk := modPath + "/pasta"
		P := c.P.Fn("pasta", "GroupAdd")
		if P == nil {
			c.Ob("function under contract exists", "pasta.GroupAdd", false, "none", "missing")
			return
		}
		setup := func() (*Exec, *pastaDoms, *FDom) {
			ex := c.Exec()
			d := newPasta(ex)
			ex.MustInit(c.P, pk)
			return ex, d, d.fp
		}
		gT, aT := c.typeOf("pasta", "Group"), c.typeOf("pasta", "Affine")
		// representations of a point: affine coordinates x, y scaled by Z
		jac := func(f *FDom, x, y, z *LP) Value { return f.agg(LMul(x, fPow(z, 2)), LMul(y, fPow(z, 3)), z) }
		inf := func(f *FDom, n string) Value { return f.agg(f.Atom(n+".X"), f.Atom(n+".Y"), LI(0)) }
		// result denotes the affine point (nx/m^2, ny/m^3)
		denotes := func(f *FDom, st *State, name, fn string, r Value, nx, ny, m *LP) {
			X, Y, Z := f.coord(st, r, 0), f.coord(st, r, 1), f.coord(st, r, 2)
			c.fnz(f, name+": not infinity", fn, Z)
			c.fz(f, name+": abscissa", fn, LSub(LMul(X, fPow(m, 2)), LMul(nx, fPow(Z, 2))))
			c.fz(f, name+": ordinate", fn, LSub(LMul(Y, fPow(m, 3)), LMul(ny, fPow(Z, 3))))
		}
		isInf := func(f *FDom, st *State, name, fn string, r Value) {
			c.fz(f, name+": infinity", fn, f.coord(st, r, 2))
		}
		run := func(ex *Exec, f *FDom, name, fn string, args []Value, res Value, g func(o Outcome, r Value)) {
			c.fcall(ex, name, "pasta", fn, args, ex.Base.clone(), func(o Outcome) {
				f.under(o.St, func() {
					var r Value
					if res != nil {
						r = ex.Load(o.St, res.(Ptr))
					}
					g(o, r)
				})
			})
		}
		if c.Shard == 0 {
			// addition
			for _, k := range []string{"P infinite", "Q infinite", "both infinite", "distinct abscissas", "equal points", "opposite points", "equal representations", "doubling", "doubling infinity", "negation", "negation of infinity"} {
				k := k
				c.guard("group law", "pasta.Group*", func() {
					ex, _, f := setup()
					res := Ptr{Obj: ex.Alloc(ex.Base, "r", gT, ex.Zero(gT))}
					x1, y1, z1 := f.Atom("x1"), f.Atom("y1"), f.Unit(f.Atom("z1"))
					x2, y2, z2 := f.Atom("x2"), f.Atom("y2"), f.Unit(f.Atom("z2"))
					one := LI(1)
					pj, qj := jac(f, x1, y1, z1), jac(f, x2, y2, z2)
					dbl := func(o Outcome, r Value, fn string) { // lambda = 3x^2/2y
						m := LScale(y1, big.NewInt(2))
						l := LScale(LMul(x1, x1), big.NewInt(3))
						nx := LSub(LMul(l, l), LScale(fMul(x1, m, m), big.NewInt(2)))
						ny := LSub(LMul(l, LSub(fMul(x1, m, m), nx)), fMul(y1, m, m, m))
						denotes(f, o.St, k, fn, r, nx, ny, m)
					}
					add := func(a, b Value, g func(o Outcome, r Value)) {
						run(ex, f, k, "GroupAdd", []Value{res, a, b}, res, g)
					}
					switch k {
					case "P infinite":
						add(inf(f, "p"), qj, func(o Outcome, r Value) { denotes(f, o.St, k, "pasta.GroupAdd", r, x2, y2, one) })
					case "Q infinite":
						add(pj, inf(f, "q"), func(o Outcome, r Value) { denotes(f, o.St, k, "pasta.GroupAdd", r, x1, y1, one) })
					case "both infinite":
						add(inf(f, "p"), inf(f, "q"), func(o Outcome, r Value) { isInf(f, o.St, k, "pasta.GroupAdd", r) })
					case "distinct abscissas":
						m := f.Unit(LSub(x2, x1))
						add(pj, qj, func(o Outcome, r Value) {
							l := LSub(y2, y1)
							nx := LSub(LMul(l, l), fMul(LAdd(x1, x2), m, m))
							ny := LSub(LMul(l, LSub(fMul(x1, m, m), nx)), fMul(y1, m, m, m))
							denotes(f, o.St, k, "pasta.GroupAdd", r, nx, ny, m)
						})
					case "equal points", "equal representations":
						f.Unit(y1)
						q := jac(f, x1, y1, z2)
						if k == "equal representations" {
							q = jac(f, x1, y1, z1)
						}
						add(pj, q, func(o Outcome, r Value) { dbl(o, r, "pasta.GroupAdd") })
					case "opposite points":
						f.Unit(y1)
						add(pj, jac(f, x1, LScale(y1, big.NewInt(-1)), z2), func(o Outcome, r Value) { isInf(f, o.St, k, "pasta.GroupAdd", r) })
					case "doubling":
						f.Unit(y1)
						run(ex, f, k, "GroupDbl", []Value{res, pj}, res, func(o Outcome, r Value) { dbl(o, r, "pasta.GroupDbl") })
					case "doubling infinity":
						run(ex, f, k, "GroupDbl", []Value{res, inf(f, "p")}, res, func(o Outcome, r Value) { isInf(f, o.St, k, "pasta.GroupDbl", r) })
					case "negation":
						run(ex, f, k, "GroupNegate", []Value{res, pj}, res, func(o Outcome, r Value) {
							denotes(f, o.St, k, "pasta.GroupNegate", r, x1, LScale(y1, big.NewInt(-1)), one)
						})
					case "negation of infinity":
						run(ex, f, k, "GroupNegate", []Value{res, inf(f, "p")}, res, func(o Outcome, r Value) { isInf(f, o.St, k, "pasta.GroupNegate", r) })
					}
				})
			}
			// conversions and the curve test
			for _, k := range []string{"affine", "affine infinity", "projective", "projective infinity", "on curve", "on curve affine", "equality"} {
				k := k
				c.guard("conversion", "pasta.Affine*", func() {
					ex, _, f := setup()
					x1, y1, z1 := f.Atom("x1"), f.Atom("y1"), f.Unit(f.Atom("z1"))
					rg := Ptr{Obj: ex.Alloc(ex.Base, "r", gT, ex.Zero(gT))}
					ra := Ptr{Obj: ex.Alloc(ex.Base, "a", aT, ex.Zero(aT))}
					switch k {
					case "affine":
						f.Unit(y1)
						run(ex, f, k, "AffineToGroup", []Value{rg, f.agg(x1, y1)}, rg, func(o Outcome, r Value) { denotes(f, o.St, k, "pasta.AffineToGroup", r, x1, y1, LI(1)) })
					case "affine infinity":
						run(ex, f, k, "AffineToGroup", []Value{rg, f.agg(LI(0), LI(0))}, rg, func(o Outcome, r Value) { isInf(f, o.St, k, "pasta.AffineToGroup", r) })
					case "projective":
						run(ex, f, k, "AffineFromGroup", []Value{ra, jac(f, x1, y1, z1)}, ra, func(o Outcome, r Value) {
							c.fz(f, k+": abscissa", "pasta.AffineFromGroup", LSub(f.coord(o.St, r, 0), x1))
							c.fz(f, k+": ordinate", "pasta.AffineFromGroup", LSub(f.coord(o.St, r, 1), y1))
						})
					case "projective infinity":
						run(ex, f, k, "AffineFromGroup", []Value{ra, inf(f, "p")}, ra, func(o Outcome, r Value) {
							c.fz(f, k+": abscissa", "pasta.AffineFromGroup", f.coord(o.St, r, 0))
							c.fz(f, k+": ordinate", "pasta.AffineFromGroup", f.coord(o.St, r, 1))
						})
					case "on curve", "on curve affine":
						eq := LSub(LMul(y1, y1), LAdd(fPow(x1, 3), LI(5)))
						args, fn := []Value{jac(f, x1, y1, z1)}, "GroupIsOnCurve"
						if k == "on curve affine" {
							args, fn = []Value{f.agg(x1, y1)}, "AffineIsOnCurve"
							f.Unit(y1)
						}
						ex.NoMerge = true
						c.fcall(ex, k, "pasta", fn, args, ex.Base.clone(), func(o Outcome) {
							f.under(o.St, func() {
								r := T(o.Ret[0])
								if r.W > 1 {
									r = Extract(r, 0, 1)
								}
								okk := f.sameZero(ex, o.St, r, eq)
								c.Ob("curve equation", "pasta."+fn, okk, "normal form", Show(r, 4))
							})
						})
					case "equality":
						x2, y2 := f.Atom("x2"), f.Atom("y2")
						want := And(f.Zero(LSub(x1, x2)), f.Zero(LSub(y1, y2)))
						c.fcall(ex, k, "pasta", "AffineEq", []Value{f.agg(x1, y1), f.agg(x2, y2)}, ex.Base.clone(), func(o Outcome) {
							r := T(o.Ret[0])
							c.Ob("equality of points", "pasta.AffineEq", ex.must(o.St, Eq(r, want)), "z3", Show(r, 4))
						})
					}
				})
			}
		} else {
			// scalar multiplication over ghost group elements
			c.guard("exact multiple", "pasta.GroupScalarMul", func() {
				ex, d, _ := setup()
				g := NewFDom("gp", pallasQ, 64, 12)
				g.dec = func(ts []uint64) (*LP, bool) {
					for i := 8; i < 12; i++ {
						if ts[i] != 0 {
							return nil, false
						}
					}
					return LI(0), true
				}
				g.op(ex, pk+".GroupDbl", 0, []int{1}, func(a []*LP) *LP { return LScale(a[0], big.NewInt(2)) })
				g.op(ex, pk+".GroupAdd", 0, []int{1, 2}, func(a []*LP) *LP { return LAdd(a[0], a[1]) })
				ex.Contracts[pk+".IsZero"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
					return ret(st, Zext(g.Zero(g.arg(ex, st, cc.Args[0]).p), 64))
				}
				k := d.fq.Atom("k")
				pt := g.Atom("P")
				st := ex.Base.clone()
				r := Ptr{Obj: ex.Alloc(st, "r", gT, ex.Zero(gT))}
				pv := ex.Zero(gT)
				q := g.mk(pt, 0)
				pv = unflatten(pv, &q)
				ks := &Agg{}
				for _, t := range d.fq.mk(k, 0) {
					ks.E = append(ks.E, t)
				}
				w := d.fq.words(k)
				c.fcall(ex, "all scalars", "pasta", "GroupScalarMul", []Value{r, ks, pv}, st, func(o Outcome) {
					got := g.arg(ex, o.St, r).p
					want := LI(0)
					for i := 0; i < 255; i++ {
						want.addMul(g.boolAtom(Extract(w[i/64], i%64, 1)), p2(i))
					}
					want = LMul(want, pt)
					zk, _ := d.fq.facts(o.St)
					zp, _ := g.facts(o.St)
					if len(zk) > 0 || len(zp) > 0 { // k = 0 or P infinite: the result is infinity
						c.fz(g, "zero scalar or infinite point gives infinity", "pasta.GroupScalarMul", got)
						return
					}
					c.fz(g, "exact multiple for every scalar", "pasta.GroupScalarMul", LSub(got, want))
				})
			})
		}
	})
}

func init() {
	prop(&Prop{ID: "F01", Units: []string{"f01"}, Replay: []string{"pasta"}, Always: "termination of FiatPastaFpSqrt, long FiatPastaFpPow exponents and the byte helpers are exercised against math/big on edge and random elements"})
	prop(&Prop{ID: "G03", Units: []string{"g03", "g03io"}, Replay: []string{"pasta"}, Always: "decoding, compression and the byte-level wrappers are compared with an affine math/big reference on edge and random points"})
	prop(&Prop{ID: "M01", Units: []string{"m01"}, Replay: []string{"pasta"}, Always: "whole sponge runs are compared with a math/big reference"})
	prop(&Prop{ID: "M02", Units: []string{"m02"}, Replay: []string{"pasta"}, Always: "signatures and forgeries are compared with a math/big reference of the scheme"})
}
