package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (fr *frame) call(e *entry, c *ssa.CallCommon, pos token.Pos, pth string) []Outcome {
	ex := fr.ex
	var args []Value
	var fn *ssa.Function
	if c.IsInvoke() {
		i, ok := fr.get(e, c.Value).(Iface)
		if !ok {
			unsup("invoke on %s", showVal(fr.get(e, c.Value)))
		}
		if i.T == nil {
			return []Outcome{{St: e.st, Panic: "nil pointer dereference (nil interface)", Pos: fr.pos(pos)}}
		}
		if o, ok := i.V.(*Opaque); ok {
			// method of an abstract value
			var as []Value
			as = append(as, i.V)
			for _, a := range c.Args {
				as = append(as, fr.get(e, a))
			}
			name := "opaque:" + o.Kind + "." + c.Method.Name()
			if nat := ex.Natives[name]; nat != nil {
				ex.UsedNat[name]++
				return nat(ex, e.st, &CallCtx{Args: as, Path: pth, Pos: pos, Res: c.Signature().Results()})
			}
			unsup("method %s of abstract %s", c.Method.Name(), o.Kind)
		}
		fn = ex.Prog.LookupMethod(i.T, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			unsup("no method %s on %s", c.Method.Name(), i.T)
		}
		args = append(args, i.V)
	} else {
		switch v := c.Value.(type) {
		case *ssa.Builtin:
			return fr.builtin(e, v, c, pos, pth)
		default:
			f, ok := fr.get(e, c.Value).(FuncV)
			if !ok {
				unsup("call of %s", showVal(fr.get(e, c.Value)))
			}
			if f.Fn == nil && f.Nat == "" {
				return []Outcome{{St: e.st, Panic: "nil function call", Pos: fr.pos(pos)}}
			}
			fn = f.Fn
			for _, a := range c.Args {
				args = append(args, fr.get(e, a))
			}
			if fn == nil {
				nat := ex.Natives[f.Nat]
				if nat == nil {
					unsup("native %s", f.Nat)
				}
				return nat(ex, e.st, &CallCtx{Args: append(append([]Value{}, f.Binds...), args...), Path: pth, Pos: pos, Res: c.Signature().Results()})
			}
			args = append(args, f.Binds...)
			outs := ex.Call(fn, args, e.st, pth, pos)
			return outs
		}
	}
	for _, a := range c.Args {
		args = append(args, fr.get(e, a))
	}
	return ex.Call(fn, args, e.st, pth, pos)
}

// Call dispatches to a contract, a native model, or the function's own body.
func (ex *Exec) Call(fn *ssa.Function, args []Value, st *State, pth string, pos token.Pos) []Outcome {
	name := fn.String()
	cc := &CallCtx{Fn: fn, Args: args, Path: pth, Pos: pos, Res: fn.Signature.Results()}
	if k := ex.Contracts[name]; k != nil {
		ex.UsedContr[name]++
		if outs := k(ex, st, cc); outs != nil {
			return outs
		}
	}
	if k := ex.Natives[name]; k != nil {
		ex.UsedNat[name]++
		return k(ex, st, cc)
	}
	if len(fn.Blocks) == 0 && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	if isInit(fn) && ex.initing {
		if fn.Pkg != nil && strings.HasPrefix(pkg, modPath) {
			if ex.inited[fn.Pkg] {
				return ret(st)
			}
			ex.inited[fn.Pkg] = true
			fn.Pkg.Build()
			return ex.Run(fn, args, st, pth)
		}
		return ret(st)
	}
	if fn.Synthetic == "" && !ex.Interp(pkg) && fn.Parent() == nil {
		unsup("call to external function %s (from %s)", name, pth)
	}
	return ex.Run(fn, args, st, pth)
}

func (fr *frame) builtin(e *entry, b *ssa.Builtin, c *ssa.CallCommon, pos token.Pos, pth string) []Outcome {
	one := func(st *State, v Value) []Outcome { return []Outcome{{St: st, Ret: Tuple{v}}} }
	arg := func(i int) Value { return fr.get(e, c.Args[i]) }
	switch b.Name() {
	case "len":
		switch x := arg(0).(type) {
		case Slice:
			return one(e.st, x.Len)
		case Str:
			return one(e.st, I64(int64(len(x.B))))
		case *Agg:
			return one(e.st, I64(int64(len(x.E))))
		case Ptr:
			if at, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
				return one(e.st, I64(at.Elem().Underlying().(*types.Array).Len()))
			}
			return one(e.st, I64(int64(len(fr.ex.obj(e.st, x.Obj).V.(*Opaque).X.(map[string]Value)))))
		case *Opaque:
			return one(e.st, I64(0))
		}
	case "cap":
		switch x := arg(0).(type) {
		case Slice:
			return one(e.st, x.Cap)
		case *Agg:
			return one(e.st, I64(int64(len(x.E))))
		}
	case "copy":
		var outs []Outcome
		for _, r := range fr.builtinCopy(e, arg(0).(Slice), arg(1), pos) {
			outs = append(outs, Outcome{St: r.st, Ret: Tuple{r.n}})
		}
		return outs
	case "append":
		if len(c.Args) == 1 {
			return one(e.st, arg(0))
		}
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		var outs []Outcome
		for _, r := range fr.builtinAppend(e, arg(0).(Slice), arg(1), el, pth+".app", pos) {
			outs = append(outs, Outcome{St: r.st, Ret: Tuple{r.s}})
		}
		return outs
	case "print", "println":
		return []Outcome{{St: e.st, Ret: Tuple{}}}
	case "ssa:wrapnilchk":
		p, ok := arg(0).(Ptr)
		if ok && p.Obj == 0 {
			return []Outcome{{St: e.st, Panic: "nil pointer dereference (method wrapper)", Pos: fr.pos(pos)}}
		}
		return one(e.st, arg(0))
	case "min", "max":
		r := arg(0).(*Term)
		sg := isSigned(c.Args[0].Type())
		for i := 1; i < len(c.Args); i++ {
			y := arg(i).(*Term)
			var lt *Term
			if sg {
				lt = Slt(y, r)
			} else {
				lt = Ult(y, r)
			}
			if b.Name() == "max" {
				if sg {
					lt = Slt(r, y)
				} else {
					lt = Ult(r, y)
				}
			}
			r = Ite(lt, y, r)
		}
		return one(e.st, r)
	}
	unsup("builtin %s(%s)", b.Name(), fmt.Sprint(c.Args))
	return nil
}
