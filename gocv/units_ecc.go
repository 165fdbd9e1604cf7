package main

import (
	"fmt"
	"math/big"
)

// curveOf identifies the curve a CurveParams receiver describes.
func (ex *Exec) curveOf(st *State, recv Value) *ECurve {
	p, ok := recv.(Ptr)
	if !ok || p.Obj == 0 {
		unsup("curve receiver %s", showVal(recv))
	}
	a, ok := ex.Load(st, p).(*Agg)
	if !ok {
		unsup("curve receiver")
	}
	var zs []*big.Int
	for i := 0; i < 5; i++ { // P N B Gx Gy
		q, ok := a.E[i].(Ptr)
		if !ok || q.Obj == 0 {
			unsup("curve parameter missing")
		}
		v, ok := ex.Load(st, q).(*Opaque).X.(*Z).isConst()
		if !ok {
			unsup("symbolic curve parameter")
		}
		zs = append(zs, v)
	}
	for _, c := range ecs {
		if c.A.Int64() == -3 && c.P.Cmp(zs[0]) == 0 && c.N.Cmp(zs[1]) == 0 && c.B.Cmp(zs[2]) == 0 && c.Gx.Cmp(zs[3]) == 0 && c.Gy.Cmp(zs[4]) == 0 {
			return c
		}
	}
	unsup("crypto/elliptic called on an unknown curve")
	return nil
}

// useECC installs the group contracts of the three curves.
func useECC(ex *Exec) {
	useCurve(ex, ecs["secp256k1"], "(*"+modPath+".secp256k1Curve)")
	useCurve(ex, ecs["sm2"], "("+modPath+".sm2_stdCurve)")
	for _, m := range []string{"ScalarBaseMult", "ScalarMult", "Add", "Double", "IsOnCurve"} {
		m := m
		name := "(*crypto/elliptic.CurveParams)." + m
		ex.Natives[name] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
			cv := ex.curveOf(st, c.Args[0])
			k := "std:" + cv.Name
			if ex.Contracts[k+"."+m] == nil {
				ex.stdCurve = true
				useCurve(ex, cv, k)
				ex.stdCurve = false
			}
			return ex.Contracts[k+"."+m](ex, st, c)
		}
	}
	ex.Natives["(*crypto/elliptic.CurveParams).Params"] = func(ex *Exec, st *State, c *CallCtx) []Outcome { return ret(st, c.Args[0]) }
	// the specification's names for the same operations
	pk := modPath + "/zzspec/prims."
	cv := func(st *State, v Value) *ECurve {
		a := ex.Load(st, v.(Ptr)).(*Agg)
		s, _ := a.E[0].(Str).Conc()
		return ecs[s]
	}
	out := func(st *State, c *CallCtx, p *EPt) []Outcome {
		x, y := ex.coords(st, p)
		return ret(st, ex.zNew(st, c.Path+".x", x), ex.zNew(st, c.Path+".y", y))
	}
	ex.Natives[pk+"ECBase"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		e := cv(st, c.Args[0])
		return out(st, c, eMul(ex.zGet(st, c.Args[1]), eG(e)))
	}
	ex.Natives[pk+"ECMul"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		e := cv(st, c.Args[0])
		return out(st, c, eMul(ex.zGet(st, c.Args[3]), ex.point(st, e, ex.zGet(st, c.Args[1]), ex.zGet(st, c.Args[2]))))
	}
	ex.Natives[pk+"ECAdd"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		e := cv(st, c.Args[0])
		return out(st, c, eAdd(ex.point(st, e, ex.zGet(st, c.Args[1]), ex.zGet(st, c.Args[2])), ex.point(st, e, ex.zGet(st, c.Args[3]), ex.zGet(st, c.Args[4]))))
	}
	ex.Natives[pk+"ECOn"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		e := cv(st, c.Args[0])
		return ret(st, ex.onCurve(st, e, ex.zGet(st, c.Args[1]), ex.zGet(st, c.Args[2])))
	}
}

func eccSetup(ex *Exec) {
	protoSetup(ex)
	useECC(ex)
}

var eccTrusted = []string{
	"math/big computes exact integers (SetBytes, Bytes, Add, Sub, Mul, Mod, ModInverse, ModSqrt, Exp, Cmp, ...): modelled as the integer domain in gocv/zdom.go",
	"crypto/elliptic.CurveParams computes the group law of secp256r1 and panics exactly on operands that are neither points nor (0,0)",
	"the curve orders are prime and the generators have that order (published domain parameters)",
}

var eccSel = []struct {
	Name, Sel, Spec string
}{{"secp256k1", "ECC_CURVE_SECP256K1", "K1"}, {"secp256r1", "ECC_CURVE_SECP256R1", "R1"}, {"sm2", "ECC_CURVE_SM2_STANDARD", "SM2"}}

var eccSelV = map[string]uint64{"secp256k1": 0xECC00000, "secp256r1": 0xECC00001, "sm2": 0xECC00002}

// eccCurvePtr is the specification's description of a curve.
func eccCurvePtr(ex *Exec, st *State, c *Ctx, name string) Value {
	g := c.P.Pkgs[modPath+"/zzspec/prims"].Var(name)
	return ex.Load(st, Ptr{Obj: ex.globalObj(g, st)})
}

func init() {
	unit("k01ecc", []string{".", "./zzspec/eccs"}, 3, func(c *Ctx) {
		for i, s := range eccSel {
			if i%c.NShard != c.Shard {
				continue
			}
			s := s
			var vs []Variant
			vs = append(vs, Variant{s.Name + " any length", func(ex *Exec, st *State) []Value {
				return []Value{ex.anyBytes(st, "prikey", 0, symMax), Const(32, eccSelV[s.Name])}
			}}, Variant{s.Name + " nil", func(ex *Exec, st *State) []Value {
				return []Value{nilSlice(), Const(32, eccSelV[s.Name])}
			}})
			sub := *c
			sub.Shard, sub.NShard = 0, 1
			sub.Refine(Refine{Fn: c.P.Fn(".", "GenPubkey"), Name: "owcrypt.GenPubkey[" + s.Name + "]", Spec: specFn(c, "eccs", "GenPubkey"), Setup: eccSetup, Variants: vs,
				SpecArgs: func(ex *Exec, st *State, a []Value) []Value { return []Value{eccCurvePtr(ex, st, c, s.Spec), a[0]} }})
		}
	})
	byteVariants := func(label string, sel uint64, build func(ex *Exec, st *State, pick int) []Value, n int) []Variant {
		var vs []Variant
		for i := 0; i < n; i++ {
			i := i
			vs = append(vs, Variant{fmt.Sprintf("%s/%d", label, i), func(ex *Exec, st *State) []Value { return append(build(ex, st, i), Const(32, sel)) }})
		}
		return vs
	}
	opt := func(ex *Exec, st *State, name string, null bool) Value {
		if null {
			return nilSlice()
		}
		return ex.anyBytes(st, name, 0, symMax)
	}
	unit("c01dec", []string{".", "./zzspec/eccs"}, 3, func(c *Ctx) {
		for i, s := range eccSel {
			if i%c.NShard != c.Shard {
				continue
			}
			s := s
			sub := *c
			sub.Shard, sub.NShard = 0, 1
			sub.Refine(Refine{Fn: c.P.Fn(".", "PointDecompress"), Name: "owcrypt.PointDecompress[" + s.Name + "]", Spec: specFn(c, "eccs", "Decompress"), Setup: eccSetup,
				Variants: byteVariants(s.Name, eccSelV[s.Name], func(ex *Exec, st *State, k int) []Value { return []Value{opt(ex, st, "in", k == 1)} }, 2),
				SpecArgs: func(ex *Exec, st *State, a []Value) []Value { return []Value{eccCurvePtr(ex, st, c, s.Spec), a[0]} }})
			sub.Refine(Refine{Fn: c.P.Fn(".", "PointCompress"), Name: "owcrypt.PointCompress[" + s.Name + "]", Spec: specFn(c, "eccs", "Compress"), Setup: eccSetup,
				Variants: byteVariants(s.Name, eccSelV[s.Name], func(ex *Exec, st *State, k int) []Value { return []Value{opt(ex, st, "in", k == 1)} }, 2),
				SpecArgs: func(ex *Exec, st *State, a []Value) []Value { return []Value{a[0]} }})
		}
	})
	unit("e02", []string{".", "./zzspec/eccs"}, 2, func(c *Ctx) {
		for i, s := range eccSel[:2] {
			if i%c.NShard != c.Shard {
				continue
			}
			s := s
			sub := *c
			sub.Shard, sub.NShard = 0, 1
			sub.Refine(Refine{Fn: c.P.Fn(".", "Verify"), Name: "owcrypt.Verify[" + s.Name + "]", Spec: specFn(c, "eccs", "Verify"), Setup: eccSetup,
				Variants: byteVariants(s.Name, eccSelV[s.Name], func(ex *Exec, st *State, k int) []Value {
					return []Value{opt(ex, st, "pub", k == 1), opt(ex, st, "id", k == 4), opt(ex, st, "hash", k == 2), opt(ex, st, "sig", k == 3)}
				}, 5),
				SpecArgs: func(ex *Exec, st *State, a []Value) []Value {
					return []Value{eccCurvePtr(ex, st, c, s.Spec), a[0], a[2], a[3]}
				}})
		}
	})
	unit("e03", []string{".", "./zzspec/eccs"}, 2, func(c *Ctx) {
		for i, s := range eccSel[:2] {
			if i%c.NShard != c.Shard {
				continue
			}
			s := s
			sub := *c
			sub.Shard, sub.NShard = 0, 1
			sub.Refine(Refine{Fn: c.P.Fn(".", "RecoverPubkey"), Name: "owcrypt.RecoverPubkey[" + s.Name + "]", Spec: specFn(c, "eccs", "Recover"), Setup: eccSetup,
				Variants: byteVariants(s.Name, eccSelV[s.Name], func(ex *Exec, st *State, k int) []Value {
					return []Value{opt(ex, st, "sig", k == 1), opt(ex, st, "msg", k == 2)}
				}, 3),
				SpecArgs: func(ex *Exec, st *State, a []Value) []Value {
					return []Value{eccCurvePtr(ex, st, c, s.Spec), a[0], a[1]}
				}})
		}
	})
	_ = fmt.Sprint
}
