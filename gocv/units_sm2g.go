package main

import (
	"fmt"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// ---- SM2: the group law over the contracts of the field, multiplication over the contracts of the group law ----

const sm2p = modPath + ".sm2_std"

// sm2Group is an executor in which field elements are residues.
func sm2Group(c *Ctx) (*Exec, *FDom) {
	ex := c.Exec()
	useZ(ex)
	ex.NoMerge = true
	ex.MustInit(c.P, modPath)
	P := ecs["sm2"].P
	f := NewFDom("sm2", P, 32, 9)
	f.dec = func(cs []uint64) (*LP, bool) {
		for i, w := range cs {
			if w >= 1<<uint(29-i%2) {
				return nil, false
			}
		}
		return LC(sm2Dec(cs)), true
	}
	useBigF(ex, f)
	f.op(ex, sm2p+"Mul", 0, []int{1, 2}, func(in []*LP) *LP { return LMul(in[0], in[1]) })
	f.op(ex, sm2p+"Square", 0, []int{1}, func(in []*LP) *LP { return LMul(in[0], in[0]) })
	f.op(ex, sm2p+"Add", 0, []int{1, 2}, func(in []*LP) *LP { return LAdd(in[0], in[1]) })
	f.op(ex, sm2p+"Sub", 0, []int{1, 2}, func(in []*LP) *LP { return LSub(in[0], in[1]) })
	ex.Contracts[sm2p+"ToBig"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
		return ret(st, f.newInt(ex, st, "big", f.canon(f.arg(ex, st, cc.Args[0]).p)))
	}
	ex.Contracts[sm2p+"FromBig"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
		x := f.getInt(ex, st, cc.Args[1])
		if x.lo == nil || x.hi == nil || x.lo.Sign() < 0 || x.hi.BitLen() > 256 {
			ex.PreFail = append(ex.PreFail, "sm2_stdFromBig of an integer that is not a canonical residue")
			return nil
		}
		f.put(ex, st, cc.Args[0], x.p, 0)
		return ret(st)
	}
	return ex, f
}

// sm2Law proves the point formulas.
func sm2Law(c *Ctx) {
	cv := ecs["sm2"]
	ft := c.P.Pkgs[modPath].Type("sm2_stdFieldElement").Type()
	type sum struct{ nx, ny, m *LP } // (nx/m^2, ny/m^3); m nil: infinity
	kinds := []string{"P infinite", "Q infinite", "both infinite", "distinct abscissas", "equal points", "equal representations", "opposite points", "doubling", "doubling infinity", "doubling (0, 0, 1)", "mixed"}
	for ki, k := range kinds {
		if ki%4 != c.Shard {
			continue
		}
		for _, level := range []string{"jacobian", "in place", "affine"} {
			k, level := k, level
			ex, f := sm2Group(c)
			x1, y1, z1 := f.Atom("x1"), f.Atom("y1"), f.Unit(f.Atom("z1"))
			x2, y2, z2 := f.Atom("x2"), f.Atom("y2"), f.Unit(f.Atom("z2"))
			A := LC(cv.A)
			neg := func(p *LP) *LP { return LScale(p, big.NewInt(-1)) }
			affine := level == "affine"
			jac := func(x, y, z *LP) []*LP {
				if affine {
					return []*LP{x, y}
				}
				return []*LP{LMul(x, fPow(z, 2)), LMul(y, fPow(z, 3)), z}
			}
			inf := func(n string) []*LP {
				if affine {
					return []*LP{LI(0), LI(0)}
				}
				return []*LP{f.Atom(n + ".X"), f.Atom(n + ".Y"), LI(0)}
			}
			two := func() sum {
				m := LScale(y1, big.NewInt(2))
				l := LAdd(LScale(LMul(x1, x1), big.NewInt(3)), A)
				nx := LSub(LMul(l, l), LScale(fMul(x1, m, m), big.NewInt(2)))
				return sum{nx, LSub(LMul(l, LSub(fMul(x1, m, m), nx)), fMul(y1, m, m, m)), m}
			}
			chord := func() sum {
				m := f.Unit(LSub(x2, x1))
				l := LSub(y2, y1)
				nx := LSub(LMul(l, l), fMul(LAdd(x1, x2), m, m))
				return sum{nx, LSub(LMul(l, LSub(fMul(x1, m, m), nx)), fMul(y1, m, m, m)), m}
			}
			one := LI(1)
			var in []*LP
			var want sum
			op := "add"
			p, q := jac(x1, y1, z1), jac(x2, y2, z2)
			switch k {
			case "P infinite":
				f.Unit(y2)
				in, want = append(inf("p"), q...), sum{x2, y2, one}
			case "Q infinite":
				f.Unit(y1)
				in, want = append(p, inf("q")...), sum{x1, y1, one}
			case "both infinite":
				in = append(inf("p"), inf("q")...)
			case "distinct abscissas":
				f.Unit(y1)
				f.Unit(y2)
				in, want = append(p, q...), chord()
			case "equal points":
				f.Unit(y1)
				in, want = append(p, jac(x1, y1, z2)...), two()
			case "equal representations":
				f.Unit(y1)
				in, want = append(p, jac(x1, y1, z1)...), two()
			case "opposite points":
				f.Unit(y1)
				in = append(p, jac(x1, neg(y1), z2)...)
			case "doubling":
				f.Unit(y1)
				op, in, want = "dbl", p, two()
			case "doubling infinity":
				op, in = "dbl", inf("p")
			case "mixed":
				if affine || level == "in place" {
					continue
				}
				f.Unit(y1)
				f.Unit(y2)
				op, in, want = "mixed", append(p, x2, y2), chord()
			case "doubling (0, 0, 1)":
				if affine {
					continue
				}
				op, in = "dbl", []*LP{LI(0), LI(0), LI(1)}
			}
			if level == "in place" && op != "dbl" {
				continue
			}
			name := map[string]string{"add": "sm2_stdPointAdd", "dbl": "sm2_stdPointDouble", "mixed": "sm2_stdPointAddMixed"}[op]
			var fn *ssa.Function
			if affine {
				name = map[string]string{"add": "Add", "dbl": "Double"}[op]
				fn = c.P.Fn(".", "sm2_stdCurve."+name)
				name = "sm2_stdCurve." + name
			} else {
				fn = c.P.Fn(".", name)
			}
			nm := "owcrypt." + name
			if fn == nil {
				c.Ob("function under contract exists", nm, false, "none", "missing")
				continue
			}
			c.guard("exact group law", nm+" ("+k+")", func() {
				st := ex.Base.clone()
				var as []Value
				if affine {
					for i, a := range in {
						as = append(as, f.newInt(ex, st, fmt.Sprintf("arg%d", i), f.canon(a)))
					}
				} else {
					for i, a := range in {
						as = append(as, Ptr{Obj: ex.Alloc(st, fmt.Sprintf("arg%d", i), ft, ex.Zero(ft))})
						f.put(ex, st, as[i], a, 0)
					}
				}
				var outs []Value
				args := as
				if affine {
					recv := ex.Load(st, ex.Load(st, Ptr{Obj: ex.globalObj(c.P.Pkgs[modPath].Var("sm2_std"), st)}).(Ptr))
					args = append([]Value{recv}, as...)
				} else {
					for i := 0; i < 3; i++ {
						if level == "in place" {
							outs = append(outs, as[i])
							continue
						}
						outs = append(outs, Ptr{Obj: ex.Alloc(st, fmt.Sprintf("out%d", i), ft, ex.Zero(ft))})
						f.put(ex, st, outs[i], f.Atom(fmt.Sprintf("old%d", i)), 0)
					}
					if op == "add" {
						args = append(append([]Value{}, as...), outs...)
					} else {
						args = append(append([]Value{}, outs...), as...)
					}
				}
				keep := make([]Value, len(as))
				for i := range as {
					keep[i] = ex.Load(st, as[i].(Ptr))
				}
				n := 0
				for _, o := range ex.Call(fn, args, st, "f", 0) {
					if o.Panic != "" {
						c.Ob("no panic", nm, false, "vc", o.Panic+" at "+o.Pos)
						continue
					}
					f.under(o.St, func() {
						n++
						for i := range as {
							if level != "in place" {
								same := true
								now, was := leafTermsOr(ex.Load(o.St, as[i].(Ptr))), leafTermsOr(keep[i])
								if now == nil {
									same = ex.Load(o.St, as[i].(Ptr)) == keep[i]
								}
								for j := range now {
									same = same && now[j] == was[j]
								}
								c.Ob("operands keep their values", nm, same, "frame", fmt.Sprintf("operand %d", i))
							}
						}
						if affine {
							var r []*fint
							for _, v := range o.Ret {
								p, ok := v.(Ptr)
								if !ok || p.Obj == 0 {
									c.Ob("returns fresh integers", nm, false, "vc", showVal(v))
									return
								}
								for _, a := range as {
									c.Ob("returns fresh integers", nm, p.Obj != a.(Ptr).Obj, "vc", "an operand")
								}
								x := f.getInt(ex, o.St, v)
								c.Ob("coordinates are canonical", nm, x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 && x.hi.Cmp(cv.P) < 0, "interval arithmetic", fmt.Sprint(x.lo, x.hi))
								r = append(r, x)
							}
							if want.m == nil {
								c.fz(f, k+": infinity is (0,0)", nm, r[0].p)
								c.fz(f, k+": infinity is (0,0)", nm, r[1].p)
								return
							}
							c.fz(f, k+": abscissa", nm, LSub(LMul(r[0].p, fPow(want.m, 2)), want.nx))
							c.fz(f, k+": ordinate", nm, LSub(LMul(r[1].p, fPow(want.m, 3)), want.ny))
							return
						}
						X, Y, Z := f.arg(ex, o.St, outs[0]).p, f.arg(ex, o.St, outs[1]).p, f.arg(ex, o.St, outs[2]).p
						if want.m == nil {
							c.fz(f, k+": infinity", nm, Z)
							return
						}
						c.fnz(f, k+": not infinity", nm, Z)
						c.fz(f, k+": abscissa", nm, LSub(LMul(X, fPow(want.m, 2)), LMul(want.nx, fPow(Z, 2))))
						c.fz(f, k+": ordinate", nm, LSub(LMul(Y, fPow(want.m, 3)), LMul(want.ny, fPow(Z, 3))))
					})
				}
				c.Ob("returns: "+k, nm, n > 0, "vc", "no returning path")
			})
		}
	}
	if c.Shard != 0 {
		return
	}
	// conversion to affine coordinates
	c.guard("affine conversion", "owcrypt.sm2_stdToAffine", func() {
		for _, z0 := range []bool{false, true} {
			ex, f := sm2Group(c)
			fn := c.P.Fn(".", "sm2_stdToAffine")
			x1, y1, z1 := f.Atom("x1"), f.Atom("y1"), f.Unit(f.Atom("z1"))
			in := []*LP{LMul(x1, fPow(z1, 2)), LMul(y1, fPow(z1, 3)), z1}
			if z0 {
				in = []*LP{x1, y1, LI(0)}
				x1, y1 = LI(0), LI(0)
			}
			st := ex.Base.clone()
			var as []Value
			for i, a := range in {
				as = append(as, Ptr{Obj: ex.Alloc(st, fmt.Sprintf("arg%d", i), ft, ex.Zero(ft))})
				f.put(ex, st, as[i], a, 0)
			}
			n := 0
			for _, o := range ex.Call(fn, as, st, "f", 0) {
				if o.Panic != "" {
					c.Ob("no panic", "owcrypt.sm2_stdToAffine", false, "vc", o.Panic+" at "+o.Pos)
					continue
				}
				f.under(o.St, func() {
					n++
					for i, w := range []*LP{x1, y1} {
						x := f.getInt(ex, o.St, o.Ret[i])
						c.fz(f, "affine coordinates", "owcrypt.sm2_stdToAffine", LSub(x.p, w))
						c.Ob("coordinates are canonical", "owcrypt.sm2_stdToAffine", x.lo != nil && x.hi != nil && x.lo.Sign() >= 0 && x.hi.Cmp(cv.P) < 0, "interval arithmetic", "")
					}
				})
			}
			c.Ob("returns", "owcrypt.sm2_stdToAffine", n > 0, "vc", "")
		}
	})
	c.guard("curve equation", "owcrypt.sm2_stdCurve.IsOnCurve", func() {
		nm := "owcrypt.sm2_stdCurve.IsOnCurve"
		ex, f := sm2Group(c)
		fn := c.P.Fn(".", "sm2_stdCurve.IsOnCurve")
		st := ex.Base.clone()
		x, y := f.Atom("x"), f.Atom("y")
		px, py := f.newInt(ex, st, "x", f.canon(x)), f.newInt(ex, st, "y", f.canon(y))
		recv := ex.Load(st, ex.Load(st, Ptr{Obj: ex.globalObj(c.P.Pkgs[modPath].Var("sm2_std"), st)}).(Ptr))
		eq := f.Zero(LSub(LMul(y, y), LAdd(LMul(LAdd(LMul(x, x), LC(cv.A)), x), LC(cv.B))))
		n := 0
		for _, o := range ex.Call(fn, []Value{recv, px, py}, st, "f", 0) {
			if o.Panic != "" {
				c.Ob("no panic", nm, false, "vc", o.Panic+" at "+o.Pos)
				continue
			}
			n++
			c.Ob("true exactly for the points of the curve", nm, ex.must(o.St, Eq(T(o.Ret[0]), eq)), "z3", Show(T(o.Ret[0]), 6))
		}
		c.Ob("true exactly for the points of the curve", nm, n > 0, "vc", "no returning path")
	})
}

func leafTermsOr(v Value) (ts []*Term) {
	if _, ok := v.(*Agg); !ok {
		return nil
	}
	return leafTerms(v)
}

func init() {
	prop(&Prop{ID: "G02", Units: []string{"g02", "g02api"}, Replay: []string{"."}, Always: "point operations are compared with an affine math/big reference"})
	unit("g02", []string{"."}, 4, func(c *Ctx) {
		sm2Law(c)
		sm2ScalarMult(c)
		sm2BaseMult(c)
		if c.Shard == 1 {
			sm2GetScalar(c)
			sm2Methods(c)
		}
	})
}
