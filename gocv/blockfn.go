package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// BlockFn is the contract of a block function: f(receiver, data) folds the compression step over the
// whole 64/128-byte blocks of data into the chaining field and leaves everything else of the receiver alone.
//
//	requires true
//	ensures  h' = FOLD_step(h, extras, data[0 : BB*floor(len/BB)]),  counters advanced per block
//	assigns  chaining field and counter fields of the receiver
type BlockFn struct {
	Pkg, Name string
	Fold      *Fold
	H         string                                                              // type of the chaining field
	Extra     func(f func(typ string, i int) []*Term) []*Term                     // parameters of the first step
	Upd       func(f func(typ string, i int) []*Term, n *Term) map[string][]*Term // "type#i" -> new cells
	Hints     func(f func(typ string, i int) []*Term) []LoopHint
}

func (b *BlockFn) fn(P *Program) *ssa.Function {
	if i := strings.Index(b.Name, "."); i >= 0 {
		return P.Fn(b.Pkg, b.Name)
	}
	return P.Fn(b.Pkg, b.Name)
}

func recvStruct(fn *ssa.Function) (types.Type, int, int) {
	pi, di := -1, -1
	var st types.Type
	for i, p := range fn.Params {
		switch u := p.Type().Underlying().(type) {
		case *types.Pointer:
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				pi, st = i, u.Elem()
			}
		case *types.Slice:
			di = i
		}
	}
	return st, pi, di
}

// fieldCells returns the flattened scalar cells of the i-th field of the given type.
func fieldCells(st types.Type, v Value, typ string, i int) []*Term {
	fs := fieldsOf(st, typ)
	if i >= len(fs) {
		unsup("no field of type %s (#%d) in %s", typ, i, st)
	}
	var ts []*Term
	var sb strings.Builder
	flatten(v.(*Agg).E[fs[i]], &ts, &sb)
	return ts
}

func withField(st types.Type, v Value, typ string, i int, ts []*Term) Value {
	fs := fieldsOf(st, typ)
	a := v.(*Agg)
	n := &Agg{E: append([]Value{}, a.E...)}
	c := append([]*Term{}, ts...)
	n.E[fs[i]] = unflatten(a.E[fs[i]], &c)
	return n
}

func (b *BlockFn) apply(st types.Type, v Value, ex *Exec, s *State, ps []Piece) Value {
	f := func(typ string, i int) []*Term { return fieldCells(st, v, typ, i) }
	h := f(b.H, 0)
	var x []*Term
	if b.Extra != nil {
		x = b.Extra(f)
	}
	h2, _, _, n := b.Fold.Over(ex, s, h, x, ps)
	r := withField(st, v, b.H, 0, h2)
	if b.Upd != nil {
		for k, c := range b.Upd(f, n) {
			p := strings.SplitN(k, "#", 2)
			i := 0
			fmt.Sscanf(p[1], "%d", &i)
			r = withField(st, r, p[0], i, c)
		}
	}
	return r
}

// Contract is the assume side, used at call sites.
func (b *BlockFn) Contract(ex *Exec, s *State, c *CallCtx) []Outcome {
	T, pi, di := recvStruct(c.Fn)
	if pi < 0 || di < 0 {
		unsup("%s.%s has no receiver structure and data slice", b.Pkg, b.Name)
	}
	p := c.Args[pi].(Ptr)
	if p.Obj == 0 {
		return []Outcome{{St: s, Panic: "nil pointer dereference", Pos: ""}}
	}
	ps := ex.SliceView(s, c.Args[di].(Slice))
	v := ex.Load(s, p)
	ex.Store(s, p, b.apply(T, v, ex, s, ps))
	return ret(s)
}

// Prove is the guarantee side: the body is checked against the contract for every length.
func (b *BlockFn) Prove(c *Ctx) bool {
	name := b.Pkg + "." + b.Name
	return c.guard("block function folds the compression step over whole blocks", name, func() {
		fn := b.fn(c.P)
		if fn == nil {
			unsup("block function %s not found", name)
		}
		T, pi, di := recvStruct(fn)
		if pi < 0 || di < 0 {
			unsup("%s has no receiver structure and data slice", name)
		}
		ex := c.Exec()
		ex.MaxUnroll = 4096
		st := NewState()
		m := lenVar(ex, "m", 0)
		rv := Fresh(64, "rv")
		varRange[rv] = urng{0, uint64(b.Fold.BB - 1)}
		L := Add(MulC(m, uint64(b.Fold.BB)), rv)
		rid := ex.Alloc(st, "recv", T, ex.freshOf(T, "r"))
		v0 := st.Heap[rid].V
		d := inputBytes(ex, st, "B", I64(0), L, "data")
		args := make([]Value, len(fn.Params))
		for i, p := range fn.Params {
			args[i] = ex.freshOf(p.Type(), "arg")
		}
		args[pi] = Ptr{Obj: rid}
		args[di] = d
		f := func(typ string, i int) []*Term { return fieldCells(T, v0, typ, i) }
		h := f(b.H, 0)
		bodyOK, bodyHow, seen := false, "", false
		ex.AccelSpecOf = func(fr *frame, L *loopInfo, e *entry) *AccelSpec {
			s := &AccelSpec{Fold: b.Fold, Init: h}
			if b.Extra != nil {
				x := b.Extra(f)
				s.Extra = func(k *Term) []*Term { return b.Fold.bump(x, k) }
			}
			if b.Hints != nil {
				s.Hints = b.Hints(f)
			}
			s.Log = func(l string, ok bool, how string) {
				seen = true
				bodyOK, bodyHow = ok, how
				c.Ob("loop body: "+l, name, ok, how, how)
			}
			return s
		}
		nro := len(roWrites)
		outs := ex.Run(fn, args, st, "blk")
		_ = bodyHow
		if len(outs) != 1 {
			c.Ob("block function has one normal outcome", name, false, "exec", fmt.Sprint(len(outs)))
		}
		for _, o := range outs {
			if o.Panic != "" {
				c.Ob("block function does not panic", name, false, "exec", o.Panic+" at "+o.Pos)
				continue
			}
			// expected receiver: whole blocks only
			whole := []Piece{{Sym: "B", Off: I64(0), Len: MulC(m, uint64(b.Fold.BB)), W: 8}}
			want := b.apply(T, v0, ex, o.St, whole)
			var gs, ws []*Term
			var s1, s2 strings.Builder
			flatten(o.St.Heap[rid].V, &gs, &s1)
			flatten(want, &ws, &s2)
			ok := s1.String() == s2.String()
			how := "canonical"
			det := "shape of the receiver changed"
			if ok {
				r := ex.ProveEq(o.St.PC, gs, ws)
				ok, how = r.OK, r.How
				det = ""
				for i := range gs {
					if gs[i] != ws[i] && det == "" {
						det = fmt.Sprintf("cell %d: %s want %s", i, Show(gs[i], 3), Show(ws[i], 3))
					}
				}
			}
			c.Ob("block function folds the compression step over whole blocks", name, ok && seen && bodyOK, how, det)
			c.Ob("block function leaves its data unmodified", name, len(roWrites) == nro, "frame", roDetail(nro))
		}
	})
}

// foldOf builds a Fold whose step is a specification function of the form f(h, blk, extras...) h'.
func (c *Ctx) foldOf(name string, ns, w, bb int, xw []int, xstep []uint64, call func(ex *Exec, h, blk, extra []*Term) []*Term) *Fold {
	f := &Fold{Name: name, NS: ns, W: w, BB: bb, NX: len(xw), XStep: xstep}
	var ex *Exec
	f.Step = func(h, blk, extra []*Term) []*Term {
		if ex == nil {
			ex = c.Exec()
		}
		return call(ex, h, blk, extra)
	}
	folds[name] = f
	return f
}

func specFn(c *Ctx, pkg, name string) *ssa.Function {
	f := c.P.Fn("zzspec/"+pkg, name)
	if f == nil {
		unsup("specification function %s.%s missing", pkg, name)
	}
	return f
}
