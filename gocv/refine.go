package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Refine checks a function of /repo against an executable specification: for every input of every variant, every
// path of the function ends without a panic, leaves its arguments alone and returns what the specification returns.
type Refine struct {
	Fn       *ssa.Function
	Name     string // name in obligations (default: the function's)
	Spec     *ssa.Function
	Setup    func(ex *Exec)
	Pkgs     []string // packages to initialise
	Variants []Variant
	SpecArgs func(ex *Exec, st *State, args []Value) []Value // default: the same arguments
	Post     func(ex *Exec, o Outcome, args []Value, ok func(name string, good bool, detail string))
	MayPanic bool
	Same     func(ex *Exec, st *State, i int, a, b Value) (bool, string, bool) // custom comparison of result i
	MayWrite bool
}

type Variant struct {
	Label string
	Args  func(ex *Exec, st *State) []Value
}

func shortFn(f *ssa.Function) string {
	return strings.ReplaceAll(strings.ReplaceAll(f.String(), modPath+"/", ""), modPath, "owcrypt")
}

func (c *Ctx) Refine(r Refine) {
	if r.Fn == nil || r.Spec == nil && r.Post == nil {
		c.Ob("function under contract exists", r.Name, false, "none", "the function or its specification is missing")
		return
	}
	name := r.Name
	if name == "" {
		name = shortFn(r.Fn)
	}
	c.guard("contract checked on every path", name, func() {
		ex := c.Exec()
		if r.Setup != nil {
			r.Setup(ex)
		}
		for _, p := range r.Pkgs {
			ex.MustInit(c.P, p)
		}
		if r.Spec != nil {
			ex.MustInit(c.P, r.Spec.Pkg.Pkg.Path())
		}
		if r.Fn.Pkg != nil {
			ex.MustInit(c.P, r.Fn.Pkg.Pkg.Path())
		}
		for i, v := range r.Variants {
			if i%c.NShard != c.Shard {
				continue
			}
			c.refineCase(ex, r, name, v)
		}
	})
}

func (c *Ctx) refineCase(ex *Exec, r Refine, name string, v Variant) {
	c.guard("contract checked on every path", name, func() {
		st := ex.Base.clone()
		st.visits = map[string]int{}
		for k, n := range ex.Base.visits {
			st.visits[k] = n
		}
		args := v.Args(ex, st)
		ex.PreFail = nil
		roWrites = nil
		outs := ex.Call(r.Fn, args, st, v.Label, 0)
		wr := roWrites
		roWrites = nil
		bad := ""
		for _, w := range wr {
			t := NewState()
			for _, p := range w.PC {
				t.assume(p)
			}
			if ex.feasible(t, True()) {
				bad = fmt.Sprintf("case %s: %s is written at %s", v.Label, w.Name, w.Pos)
			}
		}
		if !r.MayWrite {
			c.Ob("arguments are not modified", name, bad == "", "frame", bad)
		}
		c.Ob("preconditions of callees hold", name, len(ex.PreFail) == 0, "z3", fmt.Sprintf("case %s: %s", v.Label, strings.Join(ex.PreFail, "; ")))
		live := 0
		for _, o := range outs {
			if !ex.feasible(o.St, True()) {
				continue
			}
			live++
			if o.Panic != "" {
				if !r.MayPanic {
					c.Ob("no panic", name, false, "vc", fmt.Sprintf("case %s: %s at %s under %s", v.Label, o.Panic, o.Pos, showPC(o.St)))
				}
				continue
			}
			if !r.MayPanic {
				c.Ob("no panic", name, true, "vc", "")
			}
			if r.Post != nil {
				r.Post(ex, o, args, func(n string, good bool, d string) {
					c.Ob(n, name, good, "z3", fmt.Sprintf("case %s: %s (path %s)", v.Label, d, showPC(o.St)))
				})
			}
			if r.Spec == nil {
				continue
			}
			s := o.St.clone()
			sa := args
			if r.SpecArgs != nil {
				sa = r.SpecArgs(ex, s, args)
			}
			souts := ex.Run(r.Spec, sa, s, "spec:"+v.Label)
			any := false
			for _, so := range souts {
				if !ex.feasible(so.St, True()) {
					continue
				}
				any = true
				if so.Panic != "" {
					unsup("specification panics: %s", so.Panic)
				}
				ok, d := true, ""
				if len(so.Ret) != len(o.Ret) {
					unsup("specification returns %d results, function %d", len(so.Ret), len(o.Ret))
				}
				for i := range so.Ret {
					var g bool
					var dd string
					done := false
					if r.Same != nil {
						g, dd, done = r.Same(ex, so.St, i, o.Ret[i], so.Ret[i])
					}
					if !done {
						g, dd = ex.sameResult(so.St, o.Ret[i], so.Ret[i])
					}
					if !g {
						ok, d = false, fmt.Sprintf("case %s: result %d: %s (path %s)", v.Label, i, dd, showPC(so.St))
						break
					}
				}
				c.Ob("result equals the specification", name, ok, "z3", d)
			}
			if !any {
				c.Ob("result equals the specification", name, false, "z3", "specification has no outcome: "+v.Label)
			}
		}
		if live == 0 {
			c.Ob("result equals the specification", name, false, "z3", "vacuous: no feasible path in case "+v.Label)
		}
	})
}

func showPC(st *State) string {
	var s []string
	for _, p := range st.PC {
		s = append(s, Show(p, showDepth))
	}
	r := strings.Join(s, " & ")
	for id := range zNegs {
		_ = id
	}
	if len(r) > 700 && os.Getenv("GOCV_EPT") == "" {
		r = r[:700] + "..."
	}
	return r
}

func (ex *Exec) sameResult(st *State, a, b Value) (bool, string) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.W != y.W {
			return false, "different kinds"
		}
		if ex.must(st, Eq(x, y)) {
			return true, ""
		}
		return false, fmt.Sprintf("got %s want %s", Show(x, 6), Show(y, 6))
	case Slice:
		y, ok := b.(Slice)
		if !ok {
			return false, "different kinds"
		}
		if (x.Obj == 0) != (y.Obj == 0) {
			xe, ye := x.Len.IsConst() && x.Len.C == 0, y.Len.IsConst() && y.Len.C == 0
			if !(xe && ye) {
				return false, fmt.Sprintf("nil-ness differs: got %s want %s", showVal(x), showVal(y))
			}
			return true, ""
		}
		va, vb := ex.SliceView(st, x), ex.SliceView(st, y)
		eq := ex.bytesEq(st, va, vb)
		if ex.must(st, eq) {
			return true, ""
		}
		return false, fmt.Sprintf("got %s want %s", ex.showBytes(st, va), ex.showBytes(st, vb))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false, "different kinds"
		}
		if (x.T == nil) != (y.T == nil) {
			return false, fmt.Sprintf("error: got %s want %s", showVal(x), showVal(y))
		}
		return true, ""
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return false, "different kinds"
		}
		if (x.Obj == 0) != (y.Obj == 0) {
			return false, "nil-ness differs"
		}
		if x.Obj == 0 {
			return true, ""
		}
		return ex.sameResult(st, ex.Load(st, x), ex.Load(st, y))
	case *Opaque:
		y, ok := b.(*Opaque)
		if !ok || x.Kind != y.Kind {
			return false, "different kinds"
		}
		if x.Kind == "Z" {
			return ex.sameZ(st, x.X.(*Z), y.X.(*Z))
		}
		if x.X == y.X {
			return true, ""
		}
		return false, "abstract values differ"
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.E) != len(y.E) {
			return false, "different shapes"
		}
		for i := range x.E {
			if ok, d := ex.sameResult(st, x.E[i], y.E[i]); !ok {
				return false, fmt.Sprintf("component %d: %s", i, d)
			}
		}
		return true, ""
	case Str:
		y, ok := b.(Str)
		if !ok || len(x.B) != len(y.B) {
			return false, "strings differ"
		}
		for i := range x.B {
			if !ex.must(st, Eq(x.B[i], y.B[i])) {
				return false, "strings differ"
			}
		}
		return true, ""
	case nil:
		return b == nil, "nil"
	}
	unsup("comparison of %s", showVal(a))
	return false, ""
}

func (ex *Exec) sameZ(st *State, x, y *Z) (bool, string) {
	if x == y {
		return true, ""
	}
	if _, z := ex.zSign(st, ZSub(x, y)); ex.must(st, z) {
		return true, ""
	}
	return false, fmt.Sprintf("got %s want %s", x, y)
}

func (ex *Exec) showBytes(st *State, ps []Piece) string {
	var b strings.Builder
	for _, p := range ex.normBytes(st, ps) {
		if p.Cells != nil {
			for i, c := range p.Cells {
				if i > 70 {
					b.WriteString("..")
					break
				}
				b.WriteString(showByte(c.(*Term)) + " ")
			}
			continue
		}
		fmt.Fprintf(&b, "%s[%s+%s] ", p.Sym, Show(p.Off, 2), Show(p.Len, 2))
	}
	s := b.String()
	if len(s) > 1200 {
		s = s[:1200] + ".."
	}
	return s
}

func showByte(t *Term) string {
	if t.IsConst() {
		return fmt.Sprintf("%02x", t.C)
	}
	if t.Op == OUF && len(t.Args) == 1 && t.Args[0].IsConst() {
		n := t.Name
		if strings.HasPrefix(n, "BE:") {
			var id int
			fmt.Sscanf(n, "BE:%d", &id)
			n = zByID[id].String()
			if len(n) > 60 {
				n = n[:60]
			}
		}
		return fmt.Sprintf("%s[%d]", n, t.Args[0].C)
	}
	return Show(t, 2)
}

// ---- argument builders ----

var u8T = types.Typ[types.Uint8]

func nilSlice() Slice { return Slice{Off: I64(0), Len: I64(0), Cap: I64(0)} }

// argBytes is a caller's byte string of length n (a term) with arbitrary spare capacity.
func (ex *Exec) argBytes(st *State, name string, n *Term) Slice {
	sp := Fresh(64, "spare:"+name)
	varRange[sp] = urng{0, 1 << 20}
	r := &Rope{P: []Piece{{Sym: name, Off: I64(0), Len: Add(n, sp), W: 8}}}
	id := ex.Alloc(st, "arg:"+name, types.NewSlice(u8T), r)
	st.Heap[id].RO = true
	return Slice{Obj: id, Off: I64(0), Len: n, Cap: Add(n, sp)}
}

// anyBytes is a caller's byte string of any length in [lo,hi].
func (ex *Exec) anyBytes(st *State, name string, lo, hi uint64) Slice {
	if lo == hi {
		return ex.argBytes(st, name, I64(int64(lo)))
	}
	n := Var(64, "len:"+name)
	varRange[n] = urng{lo, hi}
	return ex.argBytes(st, name, n)
}

var showDepth = func() int {
	if os.Getenv("GOCV_EPT") != "" {
		return 30
	}
	return 5
}()
