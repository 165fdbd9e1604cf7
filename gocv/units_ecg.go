package main

import "fmt"

// eccName is the name the internal functions know a curve by.
func eccName(i int) string {
	if i == 2 {
		return "sm2_std"
	}
	return eccSel[i].Name
}

// eccPoints checks the byte-level point functions of a curve under the contracts of its group operations.
func eccPoints(c *Ctx, s int) {
	sel := eccSel[s]
	nilv := func(last Value, max uint64, names ...string) (vs []Variant) {
		for i := 0; i <= len(names); i++ {
			i := i
			vs = append(vs, Variant{fmt.Sprintf("%s, nil argument %d", sel.Name, i), func(ex *Exec, st *State) (r []Value) {
				for j, n := range names {
					if i == j+1 {
						r = append(r, nilSlice())
					} else {
						m := uint64(symMax)
						if n == "k" {
							m = max
						}
						r = append(r, ex.anyBytes(st, n, 0, m))
					}
				}
				return append(r, last)
			}})
		}
		return
	}
	sargs := func(n int) func(ex *Exec, st *State, a []Value) []Value {
		return func(ex *Exec, st *State, a []Value) []Value {
			return append([]Value{eccCurvePtr(ex, st, c, sel.Spec)}, a[:n]...)
		}
	}
	inner := map[string][2]string{"Add": {"Add", "q"}, "Mul": {"Mul", "k"}, "MulBaseG_Add": {"MulBaseGAdd", "k"}}
	setup1 := func(ex *Exec) { eccSetup(ex); ex.SplitZero = true }
	for fn, in := range inner {
		c.Refine(Refine{Fn: c.P.Fn(".", fn), Name: "owcrypt." + fn + "[" + sel.Name + "]", Spec: specFn(c, "eccs", in[0]), Setup: setup1, Variants: nilv(StrOf(eccName(s)), 64, "p", in[1]), SpecArgs: sargs(2)})
	}
	setup2 := func(ex *Exec) {
		eccSetup(ex)
		useGenPub(ex, c)
		for fn, in := range inner {
			fn, f := fn, specFn(c, "eccs", in[0])
			ex.Contracts[modPath+"."+fn] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
				if n, ok := cc.Args[2].(Str).Conc(); !ok || n != eccName(s) {
					unsup("%s of curve %s", fn, showVal(cc.Args[2]))
				}
				return ex.Run(f, append([]Value{eccCurvePtr(ex, st, c, sel.Spec)}, cc.Args[:2]...), st, cc.Path+".c")
			}
		}
		ex.Contracts[modPath+".PointDecompress"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
			if t := T(cc.Args[1]); !t.IsConst() || t.C != eccSelV[sel.Name] {
				unsup("PointDecompress of curve %s", Show(t, 3))
			}
			return ex.Run(specFn(c, "eccs", "Decompress"), []Value{eccCurvePtr(ex, st, c, sel.Spec), cc.Args[0]}, st, cc.Path+".c")
		}
	}
	for _, t := range []struct {
		fn, spec string
		args     []string
	}{{"Point_add", "PointAdd", []string{"p", "q"}}, {"Point_mul", "PointMul", []string{"p", "k"}}, {"Point_mulBaseG", "MulBaseG", []string{"k"}}, {"Point_mulBaseG_add", "PointMulBaseGAdd", []string{"p", "k"}}} {
		c.Refine(Refine{Fn: c.P.Fn(".", t.fn), Name: "owcrypt." + t.fn + "[" + sel.Name + "]", Spec: specFn(c, "eccs", t.spec), Setup: setup2, Variants: nilv(Const(32, eccSelV[sel.Name]), symMax, t.args...), SpecArgs: sargs(len(t.args))})
	}
}

func init() {
	unit("g01api", []string{".", "./zzspec/eccs"}, 4, func(c *Ctx) { eccPoints(c, 0) })
	unit("g02api", []string{".", "./zzspec/eccs"}, 4, func(c *Ctx) { eccPoints(c, 2) })
	prop(&Prop{ID: "G01", Units: []string{"g01", "g01api"}, Replay: []string{"."}, Always: "point operations are compared with an affine math/big reference"})
}
