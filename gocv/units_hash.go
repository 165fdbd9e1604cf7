package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// newVia calls a constructor of /repo without arguments (or with the given ones) and returns the receiver value.
func newVia(c *Ctx, pkg, fn string, args func(ex *Exec, st *State) []Value) func(ex *Exec, st *State) (Value, *State) {
	return func(ex *Exec, st *State) (Value, *State) {
		f := c.P.Fn(pkg, fn)
		if f == nil {
			unsup("constructor %s.%s not found", pkg, fn)
		}
		ex.MustInit(c.P, pkg)
		var as []Value
		if args != nil {
			as = args(ex, st)
		}
		outs := ex.Call(f, as, st, "new", 0)
		if len(outs) != 1 || outs[0].Panic != "" {
			unsup("constructor %s.%s: %d outcomes", pkg, fn, len(outs))
		}
		r := outs[0].Ret[0]
		if len(outs[0].Ret) > 1 {
			if e, ok := outs[0].Ret[1].(Iface); !ok || e.T != nil {
				unsup("constructor %s.%s returns an error", pkg, fn)
			}
		}
		return r, outs[0].St
	}
}

func sliceOf(ex *Exec, st *State, ts []*Term, name string) Slice {
	id := ex.Alloc(st, name, nil, agg(ts))
	n := I64(int64(len(ts)))
	return Slice{Obj: id, Off: I64(0), Len: n, Cap: n}
}
func roSlice(ex *Exec, st *State, ts []*Term, name string) Slice {
	s := sliceOf(ex, st, ts, name)
	st.Heap[s.Obj].RO = true
	return s
}

func specCall(c *Ctx, ex *Exec, st *State, pkg, name string, args ...Value) Tuple {
	ex.MustInit(c.P, modPath+"/zzspec/"+pkg)
	t, s2 := ex.runSpec(specFn(c, pkg, name), args, st)
	*st = *s2
	return t
}

func specVar(c *Ctx, ex *Exec, pkg, name string) []*Term {
	ex.MustInit(c.P, modPath+"/zzspec/"+pkg)
	p := c.P.Pkgs[modPath+"/zzspec/"+pkg]
	g, ok := p.Members[name].(*ssa.Global)
	if !ok {
		unsup("specification constant %s.%s", pkg, name)
	}
	st := ex.Base
	return terms(ex.Load(st, Ptr{Obj: ex.globalObj(g, st)}))
}

func retTerms(ex *Exec, st *State, v Value) []*Term {
	switch x := v.(type) {
	case Slice:
		return ex.SliceTerms(st, x)
	case *Agg:
		return terms(x)
	}
	unsup("result %s", showVal(v))
	return nil
}

// ---- SM3 ----

func sm3Fold(c *Ctx) *Fold {
	return c.foldOf("sm3", 8, 32, 64, nil, nil, func(ex *Exec, h, blk, x []*Term) []*Term {
		st := NewState()
		return terms(specCall(c, ex, st, "sm3s", "Compress", agg(h), agg(blk))[0])
	})
}
func sm3Block(c *Ctx) *BlockFn {
	return &BlockFn{Pkg: "sm3", Name: "*SM3.update", Fold: sm3Fold(c), H: "[8]uint32"}
}

// cfContract replaces the specification's compression function by the fold's abstract step.
func cfContract(c *Ctx, ex *Exec, pkg, name string, f *Fold, args func(a []Value) (h, extra, blk []*Term)) {
	fn := specFn(c, pkg, name)
	ex.Contracts[fn.String()] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
		h, x, b := args(cc.Args)
		return ret(st, agg(f.CF(h, x, b)))
	}
}

func sm3Hash(c *Ctx) *StreamHash {
	b := sm3Block(c)
	return &StreamHash{Name: "sm3.SM3", Pkg: "sm3", Rate: 64, OutLen: 32,
		New: newVia(c, "sm3", "New", nil),
		Setup: func(ex *Exec) {
			useBlock(c, ex, b)
			cfContract(c, ex, "sm3s", "Compress", b.Fold, func(a []Value) (h, x, bl []*Term) { return terms(a[0]), nil, terms(a[1]) })
		},
		Spec: func(ex *Exec, st *State, tail []*Term, q *Term) []*Term {
			h := b.Fold.N(specVar(c, ex, "sm3s", "IV"), nil, "M", I64(0), q)
			total := Add(MulC(q, 64), I64(int64(len(tail))))
			r := specCall(c, ex, st, "sm3s", "Finish", agg(h), sliceOf(ex, st, tail, "tail"), total)
			return retTerms(ex, st, r[0])
		}}
}

func useBlock(c *Ctx, ex *Exec, b *BlockFn) {
	fn := b.fn(c.P)
	if fn == nil {
		unsup("block function %s.%s not found", b.Pkg, b.Name)
	}
	ex.Contracts[fn.String()] = b.Contract
}

// oneShot proves that a helper function equals New/Write/Sum: the digest of any message.
func oneShot(c *Ctx, h *StreamHash, fn string) {
	name := h.Pkg + "." + fn
	c.guard("one-shot digest equals the specification", name, func() {
		f := c.P.Fn(h.Pkg, fn)
		if f == nil {
			unsup("no function %s", name)
		}
		for _, a := range h.residues() {
			ex := c.Exec()
			ex.MaxUnroll = 4096
			h.Setup(ex)
			ex.MustInit(c.P, h.Pkg)
			q := lenVar(ex, "q", 0)
			h.oneShotCase(c, ex, f, name, a, q)
			h.oneShotCase(c, ex, f, name, a, I64(0))
			if h.Lazy && a == 1 {
				h.oneShotCase(c, ex, f, name, 0, I64(0))
			}
		}
	})
}

func (h *StreamHash) oneShotCase(c *Ctx, ex *Exec, f *ssa.Function, name string, a int, q *Term) {
	R := uint64(h.Rate)
	st := NewState()
	L := Add(MulC(q, R), I64(int64(a)))
	nro := len(roWrites)
	if !q.IsConst() {
		st.assume(Slt(I64(0), q))
	}
	outs := ex.Call(f, []Value{inputBytes(ex, st, "M", I64(0), L, "data")}, st, "os", 0)
	if len(outs) == 0 {
		c.Ob("one-shot digest equals the specification", name, false, "exec", "no outcome")
	}
	for _, o := range outs {
		if o.Panic != "" {
			c.Ob("one-shot digest equals the specification", name, false, "exec", o.Panic+" at "+o.Pos)
			continue
		}
		var tail []*Term
		for i := 0; i < a; i++ {
			tail = append(tail, UF(8, "M", Add(MulC(q, R), I64(int64(i)))))
		}
		want := h.Spec(ex, o.St.clone(), tail, q)
		got := retTerms(ex, o.St, o.Ret[0])
		if len(got) != len(want) {
			c.Ob("one-shot digest equals the specification", name, false, "canonical", fmt.Sprintf("%d bytes, want %d", len(got), len(want)))
			continue
		}
		if one := o.St.singles(); len(one) > 0 {
			for i := range got {
				got[i], want[i] = Subst(got[i], one), Subst(want[i], one)
			}
		}
		r := ex.ProveEq(o.St.PC, got, want)
		c.Ob("one-shot digest equals the specification", name, r.OK, r.How, fmt.Sprintf("length %d mod %d", a, R))
		c.Ob("one-shot leaves its argument unmodified", name, len(roWrites) == nro, "frame", roDetail(nro))
	}
}

// sizes proves Size and BlockSize.
func sizes(c *Ctx, h *StreamHash) {
	for _, m := range []struct {
		n string
		v int
	}{{"Size", h.OutLen}, {"BlockSize", h.Rate}} {
		c.guard(m.n+" is correct", h.Name+"."+m.n, func() {
			ex := c.Exec()
			recv, st := h.New(ex, NewState())
			fn, rv := ex.method(recv, m.n)
			if fn == nil {
				unsup("no method %s", m.n)
			}
			outs := ex.Call(fn, []Value{rv}, st, "sz", 0)
			ok := len(outs) == 1 && outs[0].Panic == "" && outs[0].Ret[0].(*Term) == I64(int64(m.v))
			c.Ob(m.n+" is correct", h.Name+"."+m.n, ok, "canonical", "")
		})
	}
}

func init() {
	pat := []string{"./sm3", "./zzspec/sm3s"}
	unit("sm3.block", pat, 1, func(c *Ctx) { sm3Block(c).Prove(c) })
	unit("sm3.stream", pat, 4, func(c *Ctx) { sm3Hash(c).verify(c) })
	prop(&Prop{ID: "H01", Units: []string{"sm3.block", "sm3.stream", "sm3.oneshot"}, Replay: []string{"sm3"}})
	unit("sm3.oneshot", pat, 1, func(c *Ctx) { oneShot(c, sm3Hash(c), "Sm3Sum"); sizes(c, sm3Hash(c)) })
}

var _ types.Type
