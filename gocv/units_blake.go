package main

import (
	"fmt"
)

// ---- BLAKE-256/224/512/384 ----

type blakeCfg struct {
	pkg  string
	w    int // word width
	bb   int
	step string
	fin  string
}

var blake256Cfg = blakeCfg{"blake256", 32, 64, "Step256", "Finish256"}
var blake512Cfg = blakeCfg{"blake512", 64, 128, "Step512", "Finish512"}

func blakeBlock(c *Ctx, b blakeCfg) *BlockFn {
	w := b.w
	f := c.foldOf(b.pkg, 8, w, b.bb, []int{w, w, w, w, 64, 1}, []uint64{0, 0, 0, 0, uint64(8 * b.bb), 0}, func(ex *Exec, h, blk, x []*Term) []*Term {
		st := NewState()
		return terms(specCall(c, ex, st, "blakes", b.step, agg(h), agg(blk), agg(x[:4]), x[4], x[5])[0])
	})
	f.Norm = func(x []*Term) []*Term {
		if x[5].IsConst() && x[5].C == 1 && !(x[4].IsConst() && x[4].C == 0) {
			r := append([]*Term{}, x...)
			r[4] = I64(0)
			return r
		}
		return x
	}
	ht, stp := fmt.Sprintf("[8]uint%d", w), fmt.Sprintf("[4]uint%d", w)
	return &BlockFn{Pkg: b.pkg, Name: "block", Fold: f, H: ht,
		Extra: func(g func(string, int) []*Term) []*Term {
			return append(append([]*Term{}, g(stp, 0)...), Add(g("uint64", 0)[0], I64(int64(8*b.bb))), g("bool", 0)[0])
		},
		Upd: func(g func(string, int) []*Term, n *Term) map[string][]*Term {
			return map[string][]*Term{"uint64#0": {Add(g("uint64", 0)[0], MulC(n, uint64(8*b.bb)))}}
		}}
}

func blakeHash(c *Ctx, b blakeCfg, ctor string, size int, iv string, salted bool) *StreamHash {
	bl := blakeBlock(c, b)
	w := b.w
	salt := make([]*Term, w/2)
	for i := range salt {
		salt[i] = Fresh(8, fmt.Sprintf("salt%d", i))
	}
	var args func(ex *Exec, st *State) []Value
	if salted {
		args = func(ex *Exec, st *State) []Value { return []Value{roSlice(ex, st, salt, "salt")} }
	}
	return &StreamHash{Name: b.pkg + "." + ctor, Pkg: b.pkg, Rate: b.bb, OutLen: size,
		New: newVia(c, b.pkg, ctor, args),
		Setup: func(ex *Exec) {
			useBlock(c, ex, bl)
			cfContract(c, ex, "blakes", b.step, bl.Fold, func(a []Value) (h, x, blk []*Term) {
				return terms(a[0]), append(append([]*Term{}, terms(a[2])...), a[3].(*Term), a[4].(*Term)), terms(a[1])
			})
		},
		Spec: func(ex *Exec, st *State, tail []*Term, q *Term) []*Term {
			s := []*Term{Const(w, 0), Const(w, 0), Const(w, 0), Const(w, 0)}
			if salted {
				s = terms(specCall(c, ex, st, "blakes", fmt.Sprintf("Salt%d", w), roSlice(ex, st, salt, "salt"))[0])
			}
			x := append(append([]*Term{}, s...), I64(int64(8*b.bb)), False())
			h := bl.Fold.N(specVar(c, ex, "blakes", iv), x, "M", I64(0), q)
			total := Add(MulC(q, uint64(b.bb)), I64(int64(len(tail))))
			r := specCall(c, ex, st, "blakes", b.fin, agg(h), sliceOf(ex, st, tail, "tail"), total, agg(s), I64(int64(size)))
			return retTerms(ex, st, r[0])
		}}
}

func init() {
	var us []string
	add := func(b blakeCfg, ctor string, size int, iv string, salted bool, sh int) {
		n := b.pkg + "." + ctor
		us = append(us, n)
		unit(n, []string{"./" + b.pkg, "./zzspec/blakes"}, sh, func(c *Ctx) {
			h := blakeHash(c, b, ctor, size, iv, salted)
			h.verify(c)
			if c.Shard == 0 {
				sizes(c, h)
			}
		})
	}
	for _, b := range []blakeCfg{blake256Cfg, blake512Cfg} {
		b := b
		n := b.pkg + ".block"
		us = append(us, n)
		unit(n, []string{"./" + b.pkg, "./zzspec/blakes"}, 1, func(c *Ctx) { blakeBlock(c, b).Prove(c) })
	}
	add(blake256Cfg, "New", 32, "IV256", false, 2)
	add(blake256Cfg, "NewSalt", 32, "IV256", true, 2)
	add(blake256Cfg, "New224", 28, "IV224", false, 2)
	add(blake256Cfg, "New224Salt", 28, "IV224", true, 2)
	add(blake512Cfg, "New", 64, "IV512", false, 4)
	add(blake512Cfg, "NewSalt", 64, "IV512", true, 4)
	add(blake512Cfg, "New384", 48, "IV384", false, 4)
	add(blake512Cfg, "New384Salt", 48, "IV384", true, 4)
	prop(&Prop{ID: "H02", Units: us, Replay: []string{"blake256", "blake512"}})
}
