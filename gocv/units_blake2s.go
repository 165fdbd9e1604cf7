package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- BLAKE2s ----

func b2sBlock(c *Ctx) *BlockFn {
	f := c.foldOf("blake2s", 8, 32, 64, []int{64, 32, 32}, []uint64{64, 0, 0}, func(ex *Exec, h, blk, x []*Term) []*Term {
		st := NewState()
		return terms(specCall(c, ex, st, "blake2ss", "Compress", agg(h), agg(blk), x[0], x[1], x[2])[0])
	})
	T := func(g func(string, int) []*Term) *Term { t := g("[2]uint32", 0); return Concat(t[1], t[0]) }
	return &BlockFn{Pkg: "blake2s", Name: "blocks", Fold: f, H: "[8]uint32",
		Extra: func(g func(string, int) []*Term) []*Term {
			return append([]*Term{Add(T(g), I64(64))}, g("[2]uint32", 1)...)
		},
		Upd: func(g func(string, int) []*Term, n *Term) map[string][]*Term {
			t := Add(T(g), MulC(n, 64))
			return map[string][]*Term{"[2]uint32#0": {Extract(t, 0, 32), Extract(t, 32, 32)}}
		},
		Hints: func(g func(string, int) []*Term) []LoopHint {
			t := g("[2]uint32", 0)
			t0 := T(g)
			return []LoopHint{{Form: func(o *Object, k int, init *Term) func(*Term) *Term {
				for i := 0; i < 2; i++ {
					if init == t[i] {
						i := i
						return func(k *Term) *Term { return Extract(Add(t0, MulC(k, 64)), 32*i, 32) }
					}
				}
				return nil
			}}}
		}}
}

func (c *Ctx) typeOf(pkg, name string) types.Type {
	p := c.P.Pkgs[modPath+"/"+pkg]
	if p == nil {
		unsup("no package %s", pkg)
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		unsup("no type %s.%s", pkg, name)
	}
	return o.Type()
}

// structVal builds a struct value from exported field names.
func (ex *Exec) structVal(t types.Type, f map[string]Value) *Agg {
	a := ex.Zero(t).(*Agg)
	s := t.Underlying().(*types.Struct)
	n := &Agg{E: append([]Value{}, a.E...)}
	used := 0
	for i := 0; i < s.NumFields(); i++ {
		if v, ok := f[s.Field(i).Name()]; ok {
			n.E[i] = v
			used++
		}
	}
	if used != len(f) {
		unsup("fields of %s changed", t)
	}
	return n
}

type b2sCfg struct {
	key, salt, person []*Term
	nokey, nos, nop   bool // nil slices
	tree              bool
	size              *Term
	ln                *Term
}

type b2sTree struct{ fan, depth, leaf, off, nd, inner, ln *Term }

func newB2sTree() b2sTree {
	t := b2sTree{Fresh(8, "fan"), Fresh(8, "depth"), Fresh(32, "leaf"), Fresh(64, "noff"), Fresh(8, "ndepth"), Fresh(8, "inner"), Fresh(1, "lastnode")}
	varRange[t.off] = urng{0, 1<<48 - 1}
	varRange[t.inner] = urng{0, 32}
	return t
}

func (c *Ctx) b2sConfig(ex *Exec, st *State, g b2sCfg, t b2sTree) Value {
	CT, TT := c.typeOf("blake2s", "Config"), c.typeOf("blake2s", "Tree")
	sl := func(ts []*Term, isnil bool, n string) Value {
		if isnil {
			return Slice{Off: I64(0), Len: I64(0), Cap: I64(0)}
		}
		return roSlice(ex, st, ts, n)
	}
	f := map[string]Value{"Size": g.size, "Key": sl(g.key, g.nokey, "key"), "Salt": sl(g.salt, g.nos, "salt"), "Person": sl(g.person, g.nop, "person")}
	if g.tree {
		id := ex.Alloc(st, "tree", TT, ex.structVal(TT, map[string]Value{"Fanout": t.fan, "MaxDepth": t.depth, "LeafSize": t.leaf, "NodeOffset": t.off, "NodeDepth": t.nd, "InnerHashSize": t.inner, "IsLastNode": t.ln}))
		f["Tree"] = Ptr{Obj: id}
	}
	id := ex.Alloc(st, "cfg", CT, ex.structVal(CT, f))
	return Ptr{Obj: id}
}

func (c *Ctx) b2sParams(ex *Exec, st *State, g b2sCfg, t b2sTree, size *Term) []*Term {
	ex.MustInit(c.P, modPath+"/zzspec/blake2ss")
	PT := c.typeOf("zzspec/blake2ss", "Params")
	pad := func(ts []*Term) Value {
		r := append([]*Term{}, ts...)
		for len(r) < 8 {
			r = append(r, Const(8, 0))
		}
		return agg(r)
	}
	f := map[string]Value{"Size": size, "KeyLen": Const(8, uint64(len(g.key))), "Fanout": Const(8, 1), "Depth": Const(8, 1), "Salt": pad(g.salt), "Person": pad(g.person)}
	if g.tree {
		f["Fanout"], f["Depth"], f["LeafLen"], f["NodeOffset"], f["NodeDepth"], f["InnerLen"] = t.fan, t.depth, t.leaf, t.off, t.nd, t.inner
	}
	fn := c.P.Fn("zzspec/blake2ss", "Params.Init")
	r, _ := ex.runSpec(fn, []Value{ex.structVal(PT, f)}, st)
	return terms(r[0])
}

// b2sTemplate is the receiver New builds, with the initial chaining value abstracted.
type b2sTemplate struct {
	H, K []*Term
	size *Term
	ln   *Term
	skel string
	cell []*Term
	val  Value
	recv Iface
	obj  int
	st   *State
}

func (c *Ctx) b2sTemplate(ex *Exec, keyed bool) *b2sTemplate {
	return c.b2sTemplateWith(ex, keyed, freshTerms(8, 32, "H"), freshTerms(32, 8, "K"), Fresh(8, "size"), newB2sTree())
}
func (c *Ctx) b2sTemplateWith(ex *Exec, keyed bool, H, K []*Term, size *Term, t b2sTree) *b2sTemplate {
	varRange[size] = urng{1, 32}
	g := b2sCfg{salt: freshTerms(8, 8, "tsalt"), person: freshTerms(8, 8, "tpers"), tree: true, size: size}
	if keyed {
		g.key = K
	} else {
		g.nokey = true
	}
	recv, st := newVia(c, "blake2s", "New", func(ex *Exec, st *State) []Value { return []Value{c.b2sConfig(ex, st, g, t)} })(ex, NewState())
	init := c.b2sParams(ex, NewState(), g, t, size)
	r := recv.(Iface)
	id := r.V.(Ptr).Obj
	var cs []*Term
	var sk strings.Builder
	flatten(st.Heap[id].V, &cs, &sk)
	m := map[*Term]*Term{}
	for i := range init {
		m[init[i]] = H[i]
	}
	n := 0
	out := append([]*Term{}, cs...)
	for i := range out {
		if h, ok := m[out[i]]; ok {
			out[i] = h
			n++
		}
	}
	if n < 8 {
		unsup("the initial chaining value of New is not the parameter block xored into the IV")
	}
	tp := &b2sTemplate{H: H, K: K, size: size, ln: t.ln, skel: sk.String(), cell: out, recv: r, obj: id}
	cc := append([]*Term{}, out...)
	tp.val = unflatten(st.Heap[id].V, &cc)
	s2 := NewState()
	s2.Heap[id] = &Object{T: st.Heap[id].T, V: tp.val, Name: st.Heap[id].Name}
	tp.st = s2
	return tp
}

func b2sSetup(c *Ctx, b *BlockFn) func(ex *Exec) {
	return func(ex *Exec) {
		useBlock(c, ex, b)
		cfContract(c, ex, "blake2ss", "Compress", b.Fold, func(a []Value) (h, x, blk []*Term) {
			return terms(a[0]), []*Term{a[2].(*Term), a[3].(*Term), a[4].(*Term)}, terms(a[1])
		})
	}
}

func b2sHash(c *Ctx, keyed bool) *StreamHash {
	b := b2sBlock(c)
	name := "blake2s.unkeyed"
	if keyed {
		name = "blake2s.keyed"
	}
	H, K, size, tr := freshTerms(8, 32, "H"), freshTerms(32, 8, "K"), Fresh(8, "size"), newB2sTree()
	cur := size
	h := &StreamHash{Name: name, Pkg: "blake2s", Rate: 64, OutLen: 32, Lazy: true, Setup: b2sSetup(c, b)}
	h.New = func(ex *Exec, st *State) (Value, *State) {
		ex.MustInit(c.P, "blake2s")
		t := c.b2sTemplateWith(ex, keyed, H, K, size, tr)
		for k, v := range t.st.Heap {
			st.Heap[k] = v
		}
		return t.recv, st
	}
	z := Const(32, 0)
	h.Spec = func(ex *Exec, st *State, tail []*Term, q *Term) []*Term {
		hh := H
		base := I64(0)
		if keyed {
			kb := append([]*Term{}, K...)
			for len(kb) < 64 {
				kb = append(kb, Const(8, 0))
			}
			if len(tail) == 0 {
				tail = kb
			} else {
				hh = b.Fold.CF(hh, []*Term{I64(64), z, z}, kb)
				base = I64(64)
			}
		}
		hh = b.Fold.N(hh, []*Term{Add(base, I64(64)), z, z}, "M", I64(0), q)
		total := Add(Add(MulC(q, 64), base), I64(int64(len(tail))))
		r := specCall(c, ex, st, "blake2ss", "Finish", agg(hh), sliceOf(ex, st, tail, "tail"), total, tr.ln, Zext(cur, 64))
		return retTerms(ex, st, r[0])
	}
	for s := 1; s <= 32; s++ {
		s := s
		h.SumCases = append(h.SumCases, SumCase{Sub: map[*Term]*Term{size: Const(8, uint64(s))}, Set: func() { cur = Const(8, uint64(s)) }, Name: fmt.Sprintf("size %d", s)})
	}
	return h
}

// b2sConfigs proves that New establishes the template state for every configuration.
func b2sConfigs(c *Ctx) {
	fnN := "blake2s.New"
	ex := c.Exec()
	b2sSetup(c, b2sBlock(c))(ex)
	ex.MustInit(c.P, "blake2s")
	tps := map[bool]*b2sTemplate{}
	for _, k := range []bool{false, true} {
		tps[k] = c.b2sTemplate(ex, k)
	}
	key, salt, person := freshTerms(32, 8, "key"), freshTerms(8, 8, "salt"), freshTerms(8, 8, "person")
	t := newB2sTree()
	size := Fresh(8, "size")
	varRange[size] = urng{0, 32}
	check := func(r Value, st *State, g b2sCfg, sz *Term, label, ob, fn string) {
		id := 0
		if i, ok := r.(Iface); ok {
			if p, ok := i.V.(Ptr); ok {
				id = p.Obj
			}
		}
		keyed := len(g.key) > 0
		tp := tps[keyed]
		if id == 0 {
			c.Ob(ob, fn, false, "canonical", label+": no receiver")
			return
		}
		var cs []*Term
		var sk strings.Builder
		flatten(st.Heap[id].V, &cs, &sk)
		if sk.String() != tp.skel {
			c.Ob(ob, fn, false, "canonical", label+": receiver shape")
			return
		}
		m := map[*Term]*Term{tp.size: sz, tp.ln: False()}
		if g.tree {
			m[tp.ln] = t.ln
		}
		for i, x := range c.b2sParams(ex, NewState(), g, t, sz) {
			m[tp.H[i]] = x
		}
		for i := range tp.K {
			m[tp.K[i]] = Const(8, 0)
			if i < len(g.key) {
				m[tp.K[i]] = g.key[i]
			}
		}
		var want []*Term
		for _, x := range tp.cell {
			want = append(want, Subst(x, m))
		}
		res := ex.ProveEq(st.PC, cs, want)
		c.Ob(ob, fn, res.OK, res.How, label)
	}
	n := 0
	c.guard("New keys and parameterises the state for every configuration", fnN, func() {
		for kl := -1; kl <= 32; kl++ {
			for sl := -1; sl <= 8; sl++ {
				for pl := -1; pl <= 8; pl++ {
					for tree := 0; tree < 2; tree++ {
						n++
						if n%c.NShard != c.Shard {
							continue
						}
						g := b2sCfg{key: key[:max(kl, 0)], nokey: kl < 0, salt: salt[:max(sl, 0)], nos: sl < 0, person: person[:max(pl, 0)], nop: pl < 0, tree: tree == 1, size: size}
						f := c.P.Fn("blake2s", "New")
						st := NewState()
						outs := ex.Call(f, []Value{c.b2sConfig(ex, st, g, t)}, st, "cfg", 0)
						label := fmt.Sprintf("key %d salt %d person %d tree %v", kl, sl, pl, g.tree)
						for _, o := range outs {
							if o.Panic != "" {
								c.Ob("New does not panic", fnN, false, "exec", label+": "+o.Panic)
								continue
							}
							if e, ok := o.Ret[1].(Iface); !ok || e.T != nil {
								c.Ob("New accepts every configuration within the limits", fnN, false, "exec", label)
								continue
							}
							c.Ob("New accepts every configuration within the limits", fnN, true, "canonical", "")
							// size 0 selects 32
							sz := Ite(Eq(size, Const(8, 0)), Const(8, 32), size)
							for _, p := range o.St.PC {
								if p == Eq(size, Const(8, 0)) {
									sz = Const(8, 32)
								} else if p == Not(Eq(size, Const(8, 0))) {
									sz = size
								}
							}
							check(o.Ret[0], o.St, g, sz, label, "New keys and parameterises the state for every configuration", fnN)
						}
					}
				}
			}
		}
	})
	if c.Shard != 0 {
		return
	}
	simple := func(fn string, mk func(ex *Exec, st *State) ([]Value, b2sCfg, *Term)) {
		c.guard("constructor keys and parameterises the state", "blake2s."+fn, func() {
			f := c.P.Fn("blake2s", fn)
			if f == nil {
				unsup("no function blake2s.%s", fn)
			}
			st := NewState()
			as, g, sz := mk(ex, st)
			outs := ex.Call(f, as, st, "ctor", 0)
			for _, o := range outs {
				if o.Panic != "" {
					c.Ob("constructor keys and parameterises the state", "blake2s."+fn, false, "exec", o.Panic)
					continue
				}
				check(o.Ret[0], o.St, g, sz, fn, "constructor keys and parameterises the state", "blake2s."+fn)
			}
		})
	}
	simple("New256", func(ex *Exec, st *State) ([]Value, b2sCfg, *Term) { return nil, b2sCfg{}, Const(8, 32) })
	simple("New", func(ex *Exec, st *State) ([]Value, b2sCfg, *Term) { return []Value{Ptr{}}, b2sCfg{}, Const(8, 32) })
	sz1 := Fresh(8, "msize")
	varRange[sz1] = urng{1, 32}
	for kl := 0; kl <= 32; kl++ {
		kl := kl
		simple("NewMAC", func(ex *Exec, st *State) ([]Value, b2sCfg, *Term) {
			return []Value{sz1, roSlice(ex, st, key[:kl], "key")}, b2sCfg{key: key[:kl]}, sz1
		})
	}
	// rejection: one violated limit, everything else arbitrary
	c.guard("New rejects every configuration outside the limits", fnN, func() {
		f := c.P.Fn("blake2s", "New")
		for v := 0; v < 6; v++ {
			st := NewState()
			CT, TT := c.typeOf("blake2s", "Config"), c.typeOf("blake2s", "Tree")
			anyLen := func(n string, lo uint64) Value {
				l := lenVar(ex, n+"len", lo)
				return inputBytes(ex, st, "A"+n, I64(0), l, n)
			}
			lo := func(i int, b uint64) uint64 {
				if i == v {
					return b
				}
				return 0
			}
			sz := Fresh(8, "rsize")
			varRange[sz] = urng{lo(0, 33), 255}
			in := Fresh(8, "rinner")
			varRange[in] = urng{lo(4, 33), 255}
			off := Fresh(64, "roff")
			varRange[off] = urng{lo(5, 1<<48), 1<<64 - 1}
			key, salt, person := anyLen("key", lo(1, 33)), anyLen("salt", lo(2, 9)), anyLen("person", lo(3, 9))
			id := ex.Alloc(st, "tree", TT, ex.structVal(TT, map[string]Value{"NodeOffset": off, "InnerHashSize": in}))
			fs := map[string]Value{"Size": sz, "Key": key, "Salt": salt, "Person": person, "Tree": Ptr{Obj: id}}
			cfg := ex.Alloc(st, "cfg", CT, ex.structVal(CT, fs))
			outs := ex.Call(f, []Value{Ptr{Obj: cfg}}, st, "rej", 0)
			for _, o := range outs {
				ok := o.Panic == ""
				if ok {
					e, is := o.Ret[1].(Iface)
					r, isr := o.Ret[0].(Iface)
					ok = is && e.T != nil && isr && r.T == nil
				}
				c.Ob("New rejects every configuration outside the limits", fnN, ok, "exec", fmt.Sprintf("limit %d %s", v, o.Panic))
			}
		}
	})
}

func init() {
	pat := []string{"./blake2s", "./zzspec/blake2ss"}
	unit("blake2s.block", pat, 1, func(c *Ctx) { b2sBlock(c).Prove(c) })
	unit("blake2s.unkeyed", pat, 4, func(c *Ctx) { b2sHash(c, false).verify(c) })
	unit("blake2s.keyed", pat, 4, func(c *Ctx) { b2sHash(c, true).verify(c) })
	unit("blake2s.config", pat, 4, b2sConfigs)
	unit("blake2s.oneshot", pat, 1, func(c *Ctx) {
		b := b2sBlock(c)
		h := &StreamHash{Name: "blake2s", Pkg: "blake2s", Rate: 64, OutLen: 32, Lazy: true, Setup: b2sSetup(c, b), New: newVia(c, "blake2s", "New256", nil)}
		z := Const(32, 0)
		h.Spec = func(ex *Exec, st *State, tail []*Term, q *Term) []*Term {
			hh := b.Fold.N(c.b2sParams(ex, NewState(), b2sCfg{}, b2sTree{}, Const(8, 32)), []*Term{I64(64), z, z}, "M", I64(0), q)
			r := specCall(c, ex, st, "blake2ss", "Finish", agg(hh), sliceOf(ex, st, tail, "tail"), Add(MulC(q, 64), I64(int64(len(tail)))), False(), I64(32))
			return retTerms(ex, st, r[0])
		}
		oneShot(c, h, "Sum256")
		sizes(c, h)
	})
	prop(&Prop{ID: "H03", Units: []string{"blake2s.block", "blake2s.unkeyed", "blake2s.keyed", "blake2s.config", "blake2s.oneshot"}, Replay: []string{"blake2s"}})
}
