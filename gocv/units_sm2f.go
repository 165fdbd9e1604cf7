package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// ---- SM2 field elements of nine limbs (29 and 28 bits, Montgomery form with R = 2^257) ----

func sm2Exp(i int) int { return 29*((i+1)/2) + 28*(i/2) }

// sm2Max is the largest value of a limb after any field operation: a full limb and the largest carry correction.
func sm2Max(i int) *big.Int {
	v := new(big.Int).Sub(p2(29-i%2), big1)
	switch i {
	case 0:
		v.Add(v, big.NewInt(14))
	case 2:
		v.Add(v, big.NewInt(0x1FFFFF00))
	case 3:
		v.Add(v, big.NewInt(0x37FF))
	case 7:
		v.Add(v, big.NewInt(0xE000000))
	}
	return v
}

func sm2Num(d *LDom, name string, ts []*Term) *LP {
	r := LI(0)
	for i, t := range ts {
		r.addMul(d.Bind(t, fmt.Sprintf("%s%d", name, i), new(big.Int), sm2Max(i)), p2(sm2Exp(i)))
	}
	return r
}

func sm2Sum(d *LDom, ts []*Term) *LP {
	r := LI(0)
	for i, t := range ts {
		r.addMul(d.unsignedOf(t), p2(sm2Exp(i)))
	}
	return r
}

func (c *Ctx) sm2Out(d *LDom, nm, lab string, out []*Term, want *LP, scale *big.Int) {
	P := ecs["sm2"].P
	eq := d.modFacts(LSub(LScale(sm2Sum(d, out), scale), want))
	if dbgL && !lzeroMod(eq, P) {
		d.dump()
		fmt.Println("EQ", d.show(eq))
		for i, t := range out {
			fmt.Println("out", i, d.show(d.unsignedOf(t)))
		}
	}
	c.Ob("exact result"+lab, nm, lzeroMod(eq, P), "polynomial identity modulo p", "residue "+d.showMod(eq, P))
	bad := ""
	for i, t := range out {
		if _, hi := d.rng(d.unsignedOf(t)); hi.Cmp(sm2Max(i)) > 0 {
			bad += fmt.Sprintf(" limb %d up to %s beyond %s", i, hi, sm2Max(i))
		}
	}
	c.Ob("limbs within the bound of the result"+lab, nm, bad == "", "interval arithmetic", bad)
}

// sm2Linear proves sm2_stdAdd and sm2_stdSub.
func sm2Linear(c *Ctx, name string, alias map[int]int, sgn int64) {
	fn := c.P.Fn(".", name)
	if fn == nil {
		c.Ob("function under contract exists", name, false, "none", "missing")
		return
	}
	nm := shortFn(fn)
	lab := ""
	if alias != nil {
		lab = fmt.Sprintf(" (operands coincide %v)", alias)
	}
	c.guard("exact result"+lab, nm, func() {
		ex := c.Exec()
		useZ(ex)
		ex.MustInit(c.P, modPath)
		r := c.lcall(ex, fn, alias, nil)
		d := NewLDom()
		a := sm2Num(d, "a", r.in[1])
		b := a
		if r.in[2][0] != r.in[1][0] {
			b = sm2Num(d, "b", r.in[2])
		}
		want := a.clone()
		want.addMul(b, big.NewInt(sgn))
		d.Cases(func() { c.sm2Out(d, nm, lab, r.after(0), want, big1) })
	})
}

func init() {
	prop(&Prop{ID: "F04", Units: []string{"f04"}, Replay: []string{"."}, Always: "the field functions are compared with math/big on sparse, extreme and random limb vectors"})
	unit("f04", []string{"."}, sm2Shards, func(c *Ctx) {
		sm2Reduce(c)
		if c.Shard == 1 {
			sm2Moves(c)
			sm2Constants(c)
			sm2Convert(c)
		}
		if c.Shard != 0 {
			return
		}
		for _, al := range []map[int]int{nil, {1: 0}, {2: 0}, {2: 1}, {1: 0, 2: 0}} {
			sm2Linear(c, "sm2_stdAdd", al, 1)
			sm2Linear(c, "sm2_stdSub", al, -1)
			sm2Product(c, "sm2_stdMul", 2, al)
		}
		sm2Product(c, "sm2_stdSquare", 1, nil)
		sm2Product(c, "sm2_stdSquare", 1, map[int]int{1: 0})
	})
}

// sm2Prod bounds the k-th word of the double-length product of two elements.
func sm2Prod(k int) *big.Int {
	r := new(big.Int)
	for i := 0; i < 9; i++ {
		if j := k - i; j >= 0 && j < 9 {
			v := new(big.Int).Mul(sm2Max(i), sm2Max(j))
			r.Add(r, v.Lsh(v, uint(sm2Exp(i)+sm2Exp(j)-sm2Exp(k))))
		}
	}
	return r
}

// sm2Product proves sm2_stdMul and sm2_stdSquare over the contract of sm2_stdReduceDegree:
// result * 2^257 is the sum of the words it is given, words at most sm2Prod.
func sm2Product(c *Ctx, name string, n int, alias map[int]int) {
	fn, red := c.P.Fn(".", name), c.P.Fn(".", "sm2_stdReduceDegree")
	if fn == nil || red == nil {
		c.Ob("function under contract exists", name, false, "none", "missing")
		return
	}
	nm := shortFn(fn)
	lab := ""
	if alias != nil {
		lab = fmt.Sprintf(" (operands coincide %v)", alias)
	}
	c.guard("exact product"+lab, nm, func() {
		ex := c.Exec()
		useZ(ex)
		ex.MustInit(c.P, modPath)
		var words, out []*Term
		calls := 0
		ex.Contracts[red.String()] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
			calls++
			words = leafTerms(ex.Load(st, cc.Args[1].(Ptr)))
			for i := 0; i < 9; i++ {
				out = append(out, Var(32, fmt.Sprintf("reduced%d", i)))
			}
			putLimbs(ex, st, cc.Args[0], out)
			return ret(st)
		}
		r := c.lcall(ex, fn, alias, nil)
		d := NewLDom()
		a := sm2Num(d, "a", r.in[1])
		b := a
		if n == 2 && r.in[2][0] != r.in[1][0] {
			b = sm2Num(d, "b", r.in[2])
		}
		same := calls == 1 && len(words) == 17
		for i, t := range r.after(0) {
			same = same && t == out[i]
		}
		c.Ob("one reduction of the product, its result returned"+lab, nm, same, "normal form", fmt.Sprintf("%d calls", calls))
		if !same {
			return
		}
		d.Cases(func() {
			S, bad := LI(0), ""
			for k, t := range words {
				p := d.unsignedOf(t)
				S.addMul(p, p2(sm2Exp(k)))
				if _, hi := d.rng(p); hi.Cmp(sm2Prod(k)) > 0 {
					bad += fmt.Sprintf(" word %d up to %s beyond %s", k, hi, sm2Prod(k))
				}
			}
			eq := LSub(S, LMul(a, b))
			c.Ob("words sum to the product"+lab, nm, lzeroMod(eq, ecs["sm2"].P), "polynomial identity modulo p", "residue "+d.show(eq))
			c.Ob("precondition of the reduction"+lab, nm, bad == "", "interval arithmetic", bad)
		})
	})
}

const sm2Shards = 4

// sm2Steps are the digit bounds of the eliminating loop at the head of each iteration.
var sm2Steps = [][]int64{
	{536870911, 268435455, 536870911, 268435455, 536870911, 268435455, 536870911, 268435455, 536870911, 268435455, 536870911, 268435455, 536870911, 268435455, 536870911, 268435455, 536870911, 536870913},
	{0, 0, 1073741695, 805306239, 1073741950, 536870911, 1073741822, 536870910, 1073741823, 536870911, 805306366, 268435455, 536870911, 268435455, 536870911, 268435455, 536870911, 536870913},
	{0, 0, 0, 0, 1610612736, 1073741822, 1610612863, 536870911, 1073741823, 536870911, 1107296254, 536870911, 805306366, 268435455, 536870911, 268435455, 536870911, 536870913},
	{0, 0, 0, 0, 0, 0, 2147483651, 1073741822, 1610612863, 536870911, 1107296254, 536870911, 1107296254, 536870911, 805306366, 268435455, 536870911, 536870913},
	{0, 0, 0, 0, 0, 0, 0, 0, 2147483651, 1073741822, 1644167294, 536870911, 1107296254, 536870911, 1107296254, 536870911, 805306366, 536870913},
	{0, 0, 0, 0, 0, 0, 0, 0, 0, 3 << 30, 3 << 30, 1 << 30, 1 << 31, 1 << 30, 1 << 31, 1 << 30, 1 << 31, 1 << 30},
}

// sm2Reduce proves sm2_stdReduceDegree: digits with the same sum, iterations that keep the sum modulo p
// while clearing two digits each (from arbitrary digits within the bounds just established), and regrouping.
func sm2Reduce(c *Ctx) {
	fn := c.P.Fn(".", "sm2_stdReduceDegree")
	if fn == nil {
		c.Ob("function under contract exists", "sm2_stdReduceDegree", false, "none", "missing")
		return
	}
	nm := shortFn(fn)
	P := ecs["sm2"].P
	c.guard("exact reduction", nm, func() {
		ex := c.Exec()
		useZ(ex)
		ex.MustInit(c.P, modPath)
		var hi []*big.Int
		var d *LDom
		var S *LP // the sum so far
		start := func(ts []*Term, ks []*big.Int) {
			d, S = NewLDom(), LI(0)
			d.tryDeep = true
			for i, t := range ts {
				k := sm2Prod(i)
				if ks != nil {
					k = ks[i]
				}
				if !t.IsConst() {
					S.addMul(d.Bind(t, fmt.Sprintf("t%d", i), new(big.Int), k), p2(sm2Exp(i)))
				}
			}
		}
		step := 0
		// digits checks now against the sum so far and returns arbitrary digits with the bounds found
		digits := func(now []*Term) []*Term {
			if step >= len(sm2Steps) {
				unsup("more iterations than expected")
			}
			hi = make([]*big.Int, len(now))
			for i := range hi {
				hi[i] = big.NewInt(sm2Steps[step][i])
			}
			n := 0
			mine := step%sm2Shards == c.Shard
			d.Cases(func() {
				if !mine {
					return
				}
				n++
				V := LI(0)
				var ps []*LP
				for k, t := range now {
					p := d.unsignedOf(t)
					ps = append(ps, p)
					V.addMul(p, p2(sm2Exp(k)))
				}
				eq := d.modFacts(LSub(V, S))
				if !lzeroMod(eq, P) {
					if dbgL {
						d.dump()
					}
					c.Ob(fmt.Sprintf("step %d keeps the sum modulo p", step), nm, false, "polynomial identity modulo p", "residue "+d.showMod(eq, P))
					unsup("step %d does not keep the sum", step)
				}
				for k, p := range ps {
					l, h := d.rng(p)
					if l.Sign() < 0 {
						d.deep = true
						l, h = d.rng(p)
						d.deep = false
					}
					if l.Sign() < 0 {
						if dbgL {
							d.dump()
							fmt.Println("digit", d.show(p), l, h)
						}
						unsup("step %d: digit %d may be negative", step, k)
					}
					if h.Cmp(hi[k]) > 0 {
						unsup("step %d: digit %d may reach %s", step, k, h)
					}
				}
			})
			if mine {
				c.Ob(fmt.Sprintf("step %d keeps the sum modulo p and the bounds of the digits", step), nm, n > 0, "polynomial identity modulo p", fmt.Sprintf("%d cases", n))
			}
			var out []*Term
			for k := range now {
				if hi[k].Sign() == 0 {
					out = append(out, Const(32, 0))
				} else {
					out = append(out, Var(32, fmt.Sprintf("digit%d_%d", step, k)))
				}
			}
			if dbgL {
				fmt.Println("step", step, n, "cases", hi)
			}
			step++
			return out
		}
		ex.AtHeader = func(fr *frame, e *entry) []*entry {
			// the eliminating loop is the largest one over an array of digits; the loop after it starts from step 5
			L, elim := fr.fi.loops[e.blk], true
			for _, o := range fr.fi.loops {
				if len(o.body) > len(L.body) {
					elim = false
				}
			}
			if elim == (step >= 5) || !elim && step != 5 {
				return nil
			}
			p, ok := sm2Digits(fr, e)
			if !ok || fr.stop != nil {
				return nil
			}
			for _, in := range L.header.Instrs {
				if f, is := in.(*ssa.Phi); is {
					if i, isT := fr.get(e, f).(*Term); !isT || !i.IsConst() {
						unsup("the position is not concrete")
					}
				}
			}
			out := digits(leafTerms(ex.Load(e.st, p)))
			start(out, hi)
			g := e.fork()
			g.st.resetPC()
			putLimbs(ex, g.st, p, out)
			return []*entry{g}
		}
		r := ex.symVal(fn.Params[1].Type().Underlying().(*types.Pointer).Elem(), "b")
		bw := leafTerms(r)
		start(bw, nil)
		rs := c.lcall(ex, fn, nil, map[int]Value{1: Ptr{Obj: ex.Alloc(ex.Base, "b", fn.Params[1].Type().Underlying().(*types.Pointer).Elem(), r)}})
		for i, t := range rs.after(1) {
			c.Ob("operand unchanged", nm, t == bw[i], "normal form", "")
		}
		c.Ob("the elimination is reached", nm, step > 0, "vc", "")
		c.Ob("five iterations at most", nm, step >= 5, "vc", fmt.Sprint(step))
		d.noMerge = true
		if c.Shard != 0 {
			return
		}
		n := 0
		d.Cases(func() {
			n++
			c.sm2Out(d, nm, "", rs.after(0), S, p2(257))
		})
		c.Ob("some case reachable", nm, n > 0, "vc", "")
	})
}

// sm2Digits finds the array of digits a loop works on.
func sm2Digits(fr *frame, e *entry) (Ptr, bool) {
	is := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		a, ok := p.Elem().Underlying().(*types.Array)
		return ok && a.Len() == 18 && types.Identical(a.Elem().Underlying(), types.Typ[types.Uint32])
	}
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && is(a.Type()) {
				if p, ok := fr.get(e, a).(Ptr); ok {
					return p, true
				}
			}
		}
	}
	for _, v := range fr.args {
		if p, ok := v.(Ptr); ok && is(fr.fn.Params[0].Type()) {
			return p, true
		}
	}
	return Ptr{}, false
}

// sm2Moves proves the functions that move elements about.
func sm2Moves(c *Ctx) {
	setup := func() *Exec {
		ex := c.Exec()
		useZ(ex)
		ex.MustInit(c.P, modPath)
		return ex
	}
	run := func(name, title string, given map[int]Value, ex *Exec, g func(r *lcallRes)) {
		fn := c.P.Fn(".", name)
		if fn == nil {
			c.Ob("function under contract exists", name, false, "none", "missing")
			return
		}
		c.guard(title, shortFn(fn), func() { g(c.lcall(ex, fn, nil, given)) })
	}
	same := func(a, b []*Term) bool {
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return len(a) == len(b)
	}
	run("sm2_stdDup", "copies the element", nil, setup(), func(r *lcallRes) {
		c.Ob("copies the element", "owcrypt.sm2_stdDup", same(r.after(0), r.in[1]) && same(r.after(1), r.in[1]), "normal form", "")
	})
	for _, m := range []uint64{0, 0xffffffff} {
		run("sm2_stdCopyConditional", "copies exactly when asked", map[int]Value{2: Const(32, m)}, setup(), func(r *lcallRes) {
			w := r.in[0]
			if m != 0 {
				w = r.in[1]
			}
			c.Ob("copies exactly when asked", "owcrypt.sm2_stdCopyConditional", same(r.after(0), w) && same(r.after(1), r.in[1]), "normal form", fmt.Sprintf("mask %x", m))
		})
	}
	for _, x := range []uint64{0, 1} {
		ex := setup()
		v := Const(32, 0)
		st := ex.Base
		if x == 1 {
			v = Var(32, "x")
			st.assume(Ult(v, Const(32, 1<<31)))
			st.assume(Ult(Const(32, 0), v))
		}
		run("nonZeroToAllOnes", "a mask of ones exactly for a nonzero word below 2^31", map[int]Value{0: v}, ex, func(r *lcallRes) {
			c.Ob("a mask of ones exactly for a nonzero word below 2^31", "owcrypt.nonZeroToAllOnes", ex.must(r.st, Eq(T(r.ret[0]), Const(32, x*0xffffffff))), "z3", Show(T(r.ret[0]), 3))
		})
	}
	zeros := make([]*Term, 9)
	for i := range zeros {
		zeros[i] = Const(32, 0)
	}
	for idx := uint64(0); idx < 16; idx++ {
		ex := setup()
		tt := types.NewArray(types.Typ[types.Uint32], 270)
		tab := ex.symVal(tt, "table")
		ts := leafTerms(tab)
		sl := Slice{Obj: ex.Alloc(ex.Base, "table", tt, tab), Off: I64(0), Len: I64(270), Cap: I64(270)}
		run("sm2_stdSelectAffinePoint", "selects the entry", map[int]Value{2: sl, 3: Const(32, idx)}, ex, func(r *lcallRes) {
			wx, wy := zeros, zeros
			if idx > 0 {
				wx, wy = ts[(idx-1)*18:(idx-1)*18+9], ts[(idx-1)*18+9:idx*18]
			}
			ok := same(r.after(0), wx) && same(r.after(1), wy) && same(leafTerms(ex.Load(r.st, Ptr{Obj: sl.Obj})), ts)
			c.Ob("selects the entry", "owcrypt.sm2_stdSelectAffinePoint", ok, "normal form", fmt.Sprintf("index %d", idx))
		})
		run("sm2_stdSelectJacobianPoint", "selects the entry", map[int]Value{4: Const(32, idx)}, setup(), func(r *lcallRes) {
			ok := same(r.after(3), r.in[3])
			for k := 0; k < 3; k++ {
				w := zeros
				if idx > 0 {
					w = r.in[3][(idx*3+uint64(k))*9 : (idx*3+uint64(k))*9+9]
				}
				ok = ok && same(r.after(k), w)
			}
			c.Ob("selects the entry", "owcrypt.sm2_stdSelectJacobianPoint", ok, "normal form", fmt.Sprintf("index %d", idx))
		})
	}
	{
		ex := setup()
		bit := Var(8, "bit")
		ex.Base.assume(Ult(bit, Const(8, 255)))
		for b := 0; b < 256; b++ {
			run("sm2_stdGetBit", "the bit asked for", map[int]Value{1: I64(int64(b))}, ex, func(r *lcallRes) {
				c.Ob("the bit asked for", "owcrypt.sm2_stdGetBit", ex.must(r.st, Eq(T(r.ret[0]), Zext(Extract(r.in[0][b/8], b%8, 1), 32))), "normal form", fmt.Sprint(b))
			})
		}
	}
}

// sm2Dec reads constant limbs.
func sm2Dec(cs []uint64) *big.Int {
	v := new(big.Int)
	for i, w := range cs {
		v.Add(v, new(big.Int).Lsh(new(big.Int).SetUint64(w), uint(sm2Exp(i))))
	}
	P := ecs["sm2"].P
	return v.Mul(v, new(big.Int).ModInverse(p2(257), P)).Mod(v, P)
}

func constLimbs(ts []*Term) ([]uint64, bool) {
	var cs []uint64
	for _, t := range ts {
		if !t.IsConst() {
			return nil, false
		}
		cs = append(cs, t.C)
	}
	return cs, true
}

// sm2Constants checks the constants the field functions use, as the package initialiser leaves them.
func sm2Constants(c *Ctx) {
	c.guard("constants", "owcrypt", func() {
		ex := c.Exec()
		useZ(ex)
		ex.MustInit(c.P, modPath)
		P := ecs["sm2"].P
		within := func(cs []uint64) bool {
			for i, w := range cs {
				if new(big.Int).SetUint64(w).Cmp(sm2Max(i)) > 0 {
					return false
				}
			}
			return true
		}
		fac, ok := ex.Load(ex.Base, Ptr{Obj: ex.globalObj(c.P.Pkgs[modPath].Var("sm2_stdFactor"), ex.Base)}).(Slice)
		if !ok {
			unsup("no factor table")
		}
		ts := leafTerms(ex.Load(ex.Base, Ptr{Obj: fac.Obj}))
		for k := 0; k*9 < len(ts); k++ {
			cs, ok := constLimbs(ts[9*k : 9*k+9])
			c.Ob("small factors are the Montgomery form of their index", "owcrypt.sm2_stdFactor", ok && within(cs) && sm2Dec(cs).Cmp(big.NewInt(int64(k))) == 0, "computation", fmt.Sprint(k))
		}
		c.Ob("small factors up to eight", "owcrypt.sm2_stdFactor", len(ts) == 81, "computation", fmt.Sprint(len(ts)))
		g := ex.Load(ex.Base, Ptr{Obj: ex.globalObj(c.P.Pkgs[modPath].Var("sm2_std"), ex.Base)})
		p, ok := g.(Ptr)
		if !ok {
			unsup("sm2_std is not a pointer")
		}
		want := map[string]*big.Int{"a": new(big.Int).Sub(P, big.NewInt(3)), "b": ecs["sm2"].B, "gx": ecs["sm2"].Gx, "gy": ecs["sm2"].Gy}
		stt := ex.obj(ex.Base, p.Obj).T.Underlying().(*types.Struct)
		agg := ex.Load(ex.Base, p).(*Agg)
		n := 0
		for i := 0; i < stt.NumFields(); i++ {
			w := want[stt.Field(i).Name()]
			if stt.Field(i).Name() == "RInverse" {
				v, ok := ex.zGet(ex.Base, agg.E[i]).isConst()
				n++
				c.Ob("curve constants", "owcrypt.sm2_std", ok && new(big.Int).Mod(new(big.Int).Mul(v, p2(257)), P).Cmp(big1) == 0, "computation", "RInverse")
			}
			if w == nil {
				continue
			}
			n++
			cs, ok := constLimbs(leafTerms(agg.E[i]))
			c.Ob("curve constants", "owcrypt.sm2_std", ok && within(cs) && sm2Dec(cs).Cmp(w) == 0, "computation", stt.Field(i).Name())
		}
		c.Ob("curve constants present", "owcrypt.sm2_std", n >= 5, "computation", fmt.Sprint(n))
	})
}

// bvInt is a nonnegative integer below 2^256 of which the low bits were shifted out.
type bvInt struct {
	w []*Term // the four words of the integer
	s int
}

func (x *bvInt) bits(lo, n int) *Term {
	var ps []*Term // most significant first
	for n > 0 {
		k := lo / 64
		m := 64 - lo%64
		if m > n {
			m = n
		}
		t := Const(m, 0)
		if k < 4 {
			t = Extract(x.w[k], lo%64, m)
		}
		ps = append([]*Term{t}, ps...)
		lo, n = lo+m, n-m
	}
	return Concat(ps...)
}

// sm2Convert proves sm2_stdFromBig and sm2_stdToBig.
func sm2Convert(c *Ctx) {
	P := ecs["sm2"].P
	fb, tb := c.P.Fn(".", "sm2_stdFromBig"), c.P.Fn(".", "sm2_stdToBig")
	if fb == nil || tb == nil {
		c.Ob("function under contract exists", "sm2_stdFromBig", false, "none", "missing")
		return
	}
	c.guard("the limbs are those of a*2^257 mod p", shortFn(fb), func() {
		ex := c.Exec()
		useZ(ex)
		ex.MustInit(c.P, modPath)
		x := &bvInt{}
		for i := 0; i < 4; i++ {
			x.w = append(x.w, Var(64, fmt.Sprintf("x%d", i)))
		}
		get := func(st *State, v Value) interface{} {
			o, ok := ex.Load(st, v.(Ptr)).(*Opaque)
			if !ok {
				unsup("not an integer")
			}
			return o.X
		}
		put := func(st *State, v Value, x interface{}) { ex.Store(st, v.(Ptr), &Opaque{Kind: "Z", X: x}) }
		type arg struct{ k string }
		a := ex.zNew(ex.Base, "a", ZI(7))
		put(ex.Base, a, arg{"a"})
		ex.Natives["(*math/big.Int).Lsh"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
			v, ok := get(st, cc.Args[1]).(arg)
			if n := T(cc.Args[2]); !ok || v.k != "a" || !n.IsConst() || n.C != 257 {
				unsup("another shift than a<<257")
			}
			put(st, cc.Args[0], arg{"a<<257"})
			return ret(st, cc.Args[0])
		}
		ex.Natives["(*math/big.Int).Mod"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
			v, ok := get(st, cc.Args[1]).(arg)
			m, _ := get(st, cc.Args[2]).(*Z)
			if !ok || v.k != "a<<257" || m == nil {
				unsup("another residue than a<<257 mod p")
			}
			if k, ok := m.isConst(); !ok || k.Cmp(P) != 0 {
				unsup("another modulus than p")
			}
			put(st, cc.Args[0], x)
			return ret(st, cc.Args[0])
		}
		ex.Natives["(*math/big.Int).Rsh"] = func(ex *Exec, st *State, cc *CallCtx) []Outcome {
			v, ok := get(st, cc.Args[1]).(*bvInt)
			n := T(cc.Args[2])
			if !ok || !n.IsConst() {
				unsup("shift of another integer")
			}
			put(st, cc.Args[0], &bvInt{v.w, v.s + int(n.C)})
			return ret(st, cc.Args[0])
		}
		ex.Natives["(*math/big.Int).Bits"] = func(ex *Exec, st *State, cc *CallCtx) (outs []Outcome) {
			v, ok := get(st, cc.Args[0]).(*bvInt)
			if !ok {
				unsup("words of another integer")
			}
			z := Const(1, 1)
			var ws []Value
			for lo := v.s; lo < 256; lo += 64 {
				n := 256 - lo
				if n > 64 {
					n = 64
				}
				t := v.bits(lo, n)
				z = And(z, Eq(t, Const(n, 0)))
				ws = append(ws, Zext(t, 64))
			}
			fork2(ex, st, z, func(s *State) {
				outs = append(outs, ret(s, Slice{Off: I64(0), Len: I64(0), Cap: I64(0)})...)
			}, func(s *State) {
				// only the lowest word has a fixed place; the number of words depends on the value
				id := ex.Alloc(s, cc.Path+".bits", types.NewArray(types.Typ[types.Uint], 1), &Agg{E: ws[:1]})
				outs = append(outs, ret(s, Slice{Obj: id, Off: I64(0), Len: I64(1), Cap: I64(1)})...)
			})
			return
		}
		tp := fb.Params[0].Type().Underlying().(*types.Pointer).Elem()
		X := Ptr{Obj: ex.Alloc(ex.Base, "X", tp, ex.symVal(tp, "X"))}
		n := 0
		for _, o := range ex.Call(fb, []Value{X, a}, ex.Base.clone(), "l", 0) {
			if o.Panic != "" {
				c.Ob("no panic", shortFn(fb), false, "vc", o.Panic+" at "+o.Pos)
				continue
			}
			n++
			_, keeps := get(o.St, a).(arg)
			c.Ob("operand unchanged", shortFn(fb), keeps && get(o.St, a).(arg).k == "a", "normal form", "")
			for i, t := range leafTerms(ex.Load(o.St, X)) {
				k := 29 - i%2
				c.Ob("the limbs are those of a*2^257 mod p", shortFn(fb), ex.must(o.St, Eq(t, Zext(x.bits(sm2Exp(i), k), 32))), "z3", fmt.Sprintf("limb %d is %s", i, Show(t, 4)))
			}
		}
		c.Ob("returns", shortFn(fb), n > 0, "vc", "")
	})
	c.guard("the integer is limbs/2^257 mod p", shortFn(tb), func() {
		ex := c.Exec()
		useZ(ex)
		ex.MustInit(c.P, modPath)
		r := c.lcall(ex, tb, nil, nil)
		want := ZI(0)
		ri := new(big.Int).ModInverse(p2(257), P)
		for i, t := range r.in[0] {
			x := Zext(t, 64)
			u := r.st.urange(x)
			a := zOf(zAtom("u64", fmt.Sprintf("%d", x.ID), new(big.Int).SetUint64(u.lo), new(big.Int).SetUint64(u.hi)))
			want = ZAdd(want, ZScale(a, new(big.Int).Lsh(ri, uint(sm2Exp(i)))))
		}
		got := ex.zGet(r.st, r.ret[0])
		w := ex.ZMod(r.st, want, P)
		c.Ob("the integer is limbs/2^257 mod p", shortFn(tb), got.String() == w.String(), "normal form", got.String()+" instead of "+w.String())
		ok := true
		for i, t := range r.after(0) {
			ok = ok && t == r.in[0][i]
		}
		c.Ob("operand unchanged", shortFn(tb), ok, "normal form", "")
	})
}
