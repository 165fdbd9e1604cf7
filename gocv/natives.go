package main

import (
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func ret(st *State, vs ...Value) []Outcome { return []Outcome{{St: st, Ret: Tuple(vs)}} }

func T(v Value) *Term { return v.(*Term) }

var interpStd = map[string]bool{
	"encoding/binary": true, "math/bits": true, "errors": true, "bytes": true, "io": true,
	"internal/byteorder": true, "slices": true, "strconv": true, "unicode/utf8": true, "hash": true,
	"crypto/subtle": true, "encoding/hex": true, "internal/bytealg": true, "sort": true,
}

func NewStdExec(P *Program) *Exec {
	ex := NewExec(P.Prog)
	ex.Interp = func(p string) bool {
		return strings.HasPrefix(p, modPath) || interpStd[p]
	}
	n := ex.Natives
	carry := func(f func(x, y, c *Term) *Term, sub bool, w int) Native {
		return func(ex *Exec, st *State, c *CallCtx) []Outcome {
			x, y, ci := T(c.Args[0]), T(c.Args[1]), T(c.Args[2])
			cb := boolOf(ci)
			if cb == nil {
				// documented precondition: carry is 0 or 1
				if st.urange(ci).hi > 1 && !ex.must(st, Ule(ci, Const(ci.W, 1))) {
					unsup("carry argument not provably 0 or 1: %s", Show(ci, 4))
				}
				cb = Extract(ci, 0, 1)
				ci = Zext(cb, ci.W)
			}
			var s *Term
			if sub {
				s = Sub(Sub(x, y), ci)
			} else {
				s = Add(Add(x, y), ci)
			}
			return ret(st, s, Zext(f(x, y, cb), w))
		}
	}
	n["math/bits.Add64"] = carry(AddCarry, false, 64)
	n["math/bits.Sub64"] = carry(SubBorrow, true, 64)
	n["math/bits.Add"] = carry(AddCarry, false, 64)
	n["math/bits.Sub"] = carry(SubBorrow, true, 64)
	n["math/bits.Add32"] = carry(AddCarry, false, 32)
	n["math/bits.Sub32"] = carry(SubBorrow, true, 32)
	mul := func(ex *Exec, st *State, c *CallCtx) []Outcome {
		x, y := T(c.Args[0]), T(c.Args[1])
		return ret(st, MulHi(x, y), Mul(x, y))
	}
	n["math/bits.Mul64"] = mul
	n["math/bits.Mul"] = mul
	n["fmt.Errorf"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		id := ex.Alloc(st, c.Path+".err", types.Typ[types.Int], I64(0))
		return ret(st, Iface{T: types.NewPointer(errT), V: Ptr{Obj: id}})
	}
	for _, s := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		n[s] = func(ex *Exec, st *State, c *CallCtx) []Outcome { return ret(st, I64(0), Iface{}) }
	}
	n["fmt.Sprintf"] = func(ex *Exec, st *State, c *CallCtx) []Outcome { return ret(st, StrOf("<sprintf>")) }
	n["math.Log2"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		if o, ok := c.Args[0].(*Opaque); ok {
			if f, ok := o.X.(float64); ok {
				return ret(st, &Opaque{Kind: "float", X: math.Log2(f)})
			}
		}
		return ret(st, &Opaque{Kind: "float"})
	}
	n["fmt.Sprint"] = n["fmt.Sprintf"]
	n["crypto.RegisterHash"] = func(ex *Exec, st *State, c *CallCtx) []Outcome { return ret(st) }
	n["(*sync.Once).Do"] = func(ex *Exec, st *State, c *CallCtx) []Outcome {
		// sequential semantics: the first call runs the function
		done := ex.onceDone
		p := c.Args[0].(Ptr)
		if done[p.Obj] {
			return ret(st)
		}
		if !ex.initing {
			unsup("sync.Once outside initialisation")
		}
		done[p.Obj] = true
		f := c.Args[1].(FuncV)
		return ex.Call(f.Fn, f.Binds, st, c.Path, c.Pos)
	}
	// package initialisers of packages outside the interpreted set are not run
	origCall := n
	_ = origCall
	return ex
}

var errT = types.NewNamed(types.NewTypeName(0, nil, "gocvError", nil), types.Typ[types.Int], nil)

// MustInit initialises a package by import path.
func (ex *Exec) MustInit(P *Program, path string) {
	p := P.Pkgs[path]
	if p == nil {
		p = P.Pkgs[modPath+"/"+path]
	}
	if p == nil {
		unsup("no package %s", path)
	}
	ex.InitPkg(p)
}

func isInit(fn *ssa.Function) bool {
	return fn.Name() == "init" && fn.Pkg != nil && fn.Pkg.Func("init") == fn
}
